//! T11: trees are values.

use super::{field, replay_as, Check};
use crate::build::{build, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{extract, mnode_of, nx, M};
use crate::ops::{all_ops, apply, expect, snapshot, Expect, Got, Op, OpSpace};
use lumberjack::io::Encode;
use lumberjack::Tree;

pub struct ValueCase {
    m: M,
    b: B,
    ops: Vec<Op>,
}

/// Everything that can be seen of a tree; edges and children are numbered and ordered by history
/// only as long as it doesn't contain a projectivization.
fn look(t: &Tree, strict: bool) -> Result<String, String> {
    let mut s = if strict {
        snapshot(t)?
    } else {
        let mut x = extract(t)?;
        for s in x.sec.iter_mut() {
            s.eid = 0;
        }
        x.sec.sort();
        let mut s = format!("{:?} {} {}", x, t.n_terminals(), t.is_projective());
        for i in x.nodes.keys() {
            let sp = t[nx(*i)].span();
            s.push_str(&format!(" {}:{:?}{:?}", i, sp.bounds(), sp.into_iter().collect::<Vec<_>>()));
        }
        s
    };
    let list = |it: &mut dyn Iterator<Item = petgraph::prelude::NodeIndex>| -> Vec<usize> {
        let mut v: Vec<usize> = it.map(|i| i.index()).collect();
        if !strict {
            v.sort();
        }
        v
    };
    s.push_str(&format!(" T{:?} N{:?}", list(&mut t.terminals()), list(&mut t.nonterminals())));
    for i in t.graph().node_indices() {
        s.push_str(&format!(
            " {}c{:?}s{:?}d{:?}",
            i.index(),
            list(&mut t.children(i).map(|c| c.0)),
            list(&mut t.siblings(i).map(|c| c.0)),
            list(&mut t.descendent_terminals(i)),
        ));
    }
    Ok(s)
}

fn kind(g: &Got) -> String {
    match g {
        Got::Refused(e) => format!("refused: {}", e),
        Got::Panicked(_) => "panic".to_string(),
        Got::Node(i) => format!("node {}", i.index()),
        Got::Removed(n) => format!("removed {:?}", mnode_of(n)),
        Got::Re(_, e) => format!("edge {:?}", e),
        Got::NotApplicable => "n/a".into(),
        _ => "done".to_string(),
    }
}

/// Something else that is done with other trees in between.
fn distract(k: usize) {
    let shapes = gen::shapes(3, 2, false);
    let m = gen::to_m(&shapes[k % shapes.len()], Deco::Rich);
    let bs = [B::Api, B::Negra, B::Holes, B::ApiRev];
    let _ = guard(|| {
        if let Ok((mut t, _)) = build(bs[k % bs.len()], &m) {
            if k % 4 == 0 {
                let _ = super::query::outputs(&t);
            }
            for op in [Op::Pj, Op::Cl, Op::Pt, Op::Rc, Op::Pos] {
                apply(&mut t, op);
            }
            let _ = t.annotate_absolute();
            t == t.clone()
        } else {
            false
        }
    });
}

struct Seen {
    view: String,
    outs: Vec<(String, String)>,
    kinds: Vec<String>,
}

fn differ(a: &Seen, b: &Seen) -> Verdict {
    if a.kinds != b.kinds {
        return Err(format!("the operations had the results\n  {:?}\nand\n  {:?}", a.kinds, b.kinds));
    }
    if a.view != b.view {
        return Err(format!("the trees are\n  {}\nand\n  {}", a.view, b.view));
    }
    for ((n, x), (_, y)) in a.outs.iter().zip(&b.outs) {
        if x != y {
            return Err(format!("{} is\n  {}\nand\n  {}", n, x, y));
        }
    }
    Ok(())
}

impl ValueCase {
    fn strict(&self) -> bool {
        !self.ops.contains(&Op::Pj)
    }
    fn seen(&self, t: &Tree, kinds: Vec<String>, outs: bool) -> Result<Seen, String> {
        Ok(Seen { view: guard(|| look(t, self.strict()))??, outs: if outs { super::query::outputs(t) } else { vec![] }, kinds })
    }
    fn make(&self, n: usize) -> Result<(Tree, Vec<String>), String> {
        let (mut t, _) = build(self.b, &self.m)?;
        let mut kinds = Vec::new();
        for op in &self.ops[..n] {
            kinds.push(kind(&apply(&mut t, *op)));
        }
        Ok((t, kinds))
    }
    fn judge(&self, l: &mut Local) -> Verdict {
        let n = self.ops.len();
        let (first, kinds) = match self.make(n) {
            Ok(v) => v,
            Err(_) => {
                l.count("seed_skipped", 1);
                return Ok(());
            }
        };
        if kinds.iter().any(|k| k == "panic" || k == "n/a") {
            l.outcome("refused call");
            return Ok(());
        }
        let one = self.seen(&first, kinds, true)?;
        let gappy = extract(&first).map(|x| !x.projective()).unwrap_or(false) || !self.m.projective();
        l.outcome(if gappy { "with gaps" } else { "without gaps" });
        for k in 0..if gappy { 4 } else { 2 } {
            distract(k + n);
            let (t, kinds) = self.make(n).map_err(|e| format!("the second time the tree can't be built: {}", e))?;
            l.count("transitions", n as u64);
            differ(&one, &self.seen(&t, kinds, k < 2)?).map_err(|e| format!("attempt {} at the same history: {}", k + 2, e))?;
            if t != first || first != t {
                return Err("the same history gives trees that compare different".into());
            }
        }
        // copies
        if n == 0 {
            return Ok(());
        }
        for swap in [false, true] {
            let (mut a, ka) = self.make(n - 1)?;
            let before = self.seen(&a, vec![], true)?;
            let mut b = a.clone();
            differ(&before, &self.seen(&b, vec![], false)?).map_err(|e| format!("a copy differs: {}", e))?;
            let (x, y) = if swap { (&mut b, &mut a) } else { (&mut a, &mut b) };
            let kx = kind(&apply(x, self.ops[n - 1]));
            differ(&before, &self.seen(y, vec![], true)?).map_err(|e| format!("changing a copy is seen in the other: {}", e))?;
            let mut k = ka.clone();
            k.push(kx);
            differ(&one, &self.seen(x, k, !swap)?).map_err(|e| format!("the last operation on a copy: {}", e))?;
            let mut k = ka;
            k.push(kind(&apply(y, self.ops[n - 1])));
            differ(&one, &self.seen(y, k, swap)?).map_err(|e| format!("the last operation on the second copy: {}", e))?;
        }
        Ok(())
    }
}

impl Case for ValueCase {
    fn show(&self) -> String {
        let ops: Vec<String> = self.ops.iter().map(|o| o.show()).collect();
        format!("seed {}\nvia {}\nops {}", self.m.to_text(), self.b.name(), ops.join(";"))
    }
    fn parse(s: &str) -> Option<Self> {
        let mut ops = Vec::new();
        for o in field(s, "ops").unwrap_or("").split(';').filter(|o| !o.trim().is_empty()) {
            ops.push(Op::parse(o)?);
        }
        Some(ValueCase { m: M::parse(field(s, "seed")?)?, b: B::parse(field(s, "via")?)?, ops })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        // hash seeds differ between attempts: a replay tries more of them
        for _ in 0..32 {
            self.judge(l)?;
        }
        Ok(())
    }
}

fn explore(sh: &Shared, name: &str, seeds: Vec<(M, B)>, depth: usize, sp: OpSpace) {
    if sh.stopped() {
        return;
    }
    let t0 = std::time::Instant::now();
    let mut level: Vec<(usize, Vec<Op>)> = (0..seeds.len()).map(|i| (i, vec![])).collect();
    for d in 0..=depth {
        let next = std::sync::Mutex::new(Vec::new());
        sh.par(level.len(), |i, l| {
            let (k, ops) = &level[i];
            let c = ValueCase { m: seeds[*k].0.clone(), b: seeds[*k].1, ops: ops.clone() };
            l.count("traces", 1);
            let ok = l.case_text(c.show(), |l| c.judge(l));
            if !ok || d == depth {
                return;
            }
            let x = match c.make(c.ops.len()).and_then(|(t, _)| extract(&t)) {
                Ok(x) => x,
                Err(_) => return,
            };
            l.state(&(name, x.to_text()));
            let mut v = Vec::new();
            for o in all_ops(&x, &sp) {
                if let (true, Expect::Panic) | (true, Expect::Open) = (o.is_edit(), expect(&x, o)) {
                    continue;
                }
                let mut ops = c.ops.clone();
                ops.push(o);
                v.push((*k, ops));
            }
            next.lock().unwrap().append(&mut v);
        });
        if sh.stopped() {
            return;
        }
        level = next.into_inner().unwrap();
        level.sort_by_key(|(k, _)| *k);
    }
    sh.note(format!("phase {}: {} seeds, all histories up to depth {}, {:.1}s", name, seeds.len(), depth, t0.elapsed().as_secs_f64()));
}

fn run(sh: &Shared) {
    use super::edit::{all_routes, with_builders, with_secondary};
    let of = |n, k| gen::models(n, k, false, &[Deco::Rich]);
    let sp = |secondary, transform, sparse| OpSpace { invalid: false, secondary, transform, sparse };
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect();
    explore(sh, "medium", all_routes(&med), 0, sp(true, true, false));
    explore(sh, "medium edited", with_builders(&med, if sh.quick() { &[B::Negra] } else { &[B::Negra, B::Api] }), 1, sp(false, true, !sh.quick()));
    explore(sh, "small", all_routes(&of(4, sh.pick(3, 4))), sh.pick(0, 1), sp(false, true, false));
    explore(sh, "one step", with_builders(&of(4, 3), &[B::Api, B::Holes]), 1, sp(false, true, false));
    explore(sh, "secondary edges", with_builders(&with_secondary(&of(3, 2)), &[B::Negra]), 1, sp(true, true, false));
    explore(sh, "odd contents", with_builders(&gen::odd_models(3, sh.pick(2, 3), false), &[B::Api]), 1, sp(false, true, false));
    explore(sh, "histories", with_builders(&of(3, sh.pick(1, 3)), &[B::Api, B::Negra]), 2, sp(false, true, false));
    explore(sh, "histories, two terminals", with_builders(&of(2, 2), &[B::Negra]), 2, sp(false, true, false));
    explore(sh, "long histories", with_builders(&of(2, sh.pick(0, 2)), &[B::Api]), 3, sp(false, true, false));
    if !sh.quick() {
        explore(sh, "four terminals", with_builders(&of(4, 2), &[B::Holes]), 2, sp(false, true, false));
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "T11",
        run,
        replay: replay_as::<ValueCase>,
        what: "every history up to the bound is carried out several times from scratch (fresh hash seeds, other trees handled in between) and its last step on both of two copies; everything observable is compared",
    }]
}
