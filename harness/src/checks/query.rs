//! T05 navigation, T06 equality, T07 secondary edges, T08 spans.

use super::edit::{all_routes, explore, with_builders, with_secondary, EditCase, Phase};
use super::{field, replay_as, Check};
use crate::build::{build, routes, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{extract, nx, Id, Kind, Sec, M};
use crate::ops::{all_ops, apply, expect, Expect, Got, Mon, Op, OpSpace};
use lumberjack::io::{AbsoluteEncoding, Encode, PTBFormat, RelativeEncoding, ToConllx};
use lumberjack::util::Climber;
use lumberjack::{AnnotatePOS, Features, Span, Terminal, Tree, TreeOps, UnaryChains};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// T05

fn set_of(it: impl Iterator<Item = usize>, what: &str) -> Result<BTreeSet<usize>, String> {
    let mut s = BTreeSet::new();
    for x in it {
        if !s.insert(x) {
            return Err(format!("{}: {} is listed twice", what, x));
        }
    }
    Ok(s)
}

fn eq<T: PartialEq + std::fmt::Debug>(got: T, want: T, what: impl FnOnce() -> String) -> Verdict {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what(), got, want))
    }
}

/// All navigation answers against the edges of the graph.
pub fn check_queries(t: &Tree, x: &M) -> Verdict {
    let r = guard(|| queries(t, x));
    match r {
        Ok(v) => v,
        Err(p) => Err(format!("navigation: {}", p)),
    }
}

fn queries(t: &Tree, x: &M) -> Verdict {
    let g = t.graph();
    eq(t.root().index(), x.root, || "root".into())?;
    let ts: BTreeSet<usize> = x.terms().into_iter().collect();
    let ns: BTreeSet<usize> = x.nts().into_iter().collect();
    eq(set_of(t.terminals().map(|i| i.index()), "terminals")?, ts.clone(), || "terminals()".into())?;
    eq(set_of(t.nonterminals().map(|i| i.index()), "nonterminals")?, ns, || "nonterminals()".into())?;
    eq(t.n_terminals(), ts.len(), || "n_terminals()".into())?;
    let edge_of = |a: Id, b: Id, e: petgraph::prelude::EdgeIndex, prim: bool, what: &str| -> Verdict {
        if g.edge_endpoints(e) != Some((nx(a), nx(b))) || g[e].is_primary() != prim {
            return Err(format!("{}: edge {:?} is {:?} {:?}", what, e, g.edge_endpoints(e), g.edge_weight(e)));
        }
        Ok(())
    };
    let small = x.nodes.len() <= 40;
    for (i, n) in &x.nodes {
        let node = nx(*i);
        eq(t[node].is_terminal(), n.is_t(), || format!("is_terminal of {}", i))?;
        eq(t[node].terminal().is_some(), n.is_t(), || format!("terminal() of {}", i))?;
        eq(t[node].nonterminal().is_some(), !n.is_t(), || format!("nonterminal() of {}", i))?;
        eq(t[node].label(), n.label(), || format!("label of {}", i))?;
        // parent
        match (t.parent(node), n.parent) {
            (None, None) => (),
            (Some((p, e)), Some(q)) if p.index() == q => edge_of(q, *i, e, true, "parent")?,
            (a, b) => return Err(format!("parent of {}: {:?} instead of {:?}", i, a, b)),
        }
        // children
        let ch: Vec<_> = t.children(node).collect();
        eq(set_of(ch.iter().map(|(c, _)| c.index()), "children")?, n.kids.clone(), || format!("children of {}", i))?;
        for (c, e) in ch {
            edge_of(*i, c.index(), e, true, "children")?;
        }
        // secondary
        let want: BTreeSet<(usize, usize)> =
            x.sec.iter().filter(|s| s.src == *i).map(|s| (s.dst, s.eid)).collect();
        let got: Vec<(usize, usize)> =
            t.secondary_children(node).map(|(c, e)| (c.index(), e.index())).collect();
        eq(got.len(), want.len(), || format!("number of secondary children of {}", i))?;
        eq(got.into_iter().collect(), want, || format!("secondary children of {}", i))?;
        let want: BTreeSet<(usize, usize)> =
            x.sec.iter().filter(|s| s.dst == *i).map(|s| (s.src, s.eid)).collect();
        match t.secondary_parent(node) {
            None if want.is_empty() => (),
            Some((p, e)) if want.contains(&(p.index(), e.index())) => (),
            o => return Err(format!("secondary parent of {}: {:?}, edges are {:?}", i, o, want)),
        }
        // siblings
        let want: BTreeSet<usize> = match n.parent {
            Some(p) => x.nodes[&p].kids.iter().cloned().filter(|k| k != i).collect(),
            None => BTreeSet::new(),
        };
        let sib: Vec<_> = t.siblings(node).collect();
        eq(set_of(sib.iter().map(|(c, _)| c.index()), "siblings")?, want.clone(), || format!("siblings of {}", i))?;
        for (c, e) in sib {
            edge_of(n.parent.unwrap(), c.index(), e, true, "siblings")?;
        }
        let others: Vec<Id> = if small {
            x.nodes.keys().cloned().collect()
        } else {
            x.nodes.keys().cloned().enumerate().filter(|(k, _)| k % 7 == i % 7).map(|(_, i)| i).collect()
        };
        for j in others {
            if *i != j {
                eq(t.are_siblings(node, nx(j)), want.contains(&j), || format!("are_siblings({}, {})", i, j))?;
            }
        }
        // dominated terminals
        let y = x.yield_of(*i);
        let want: BTreeSet<usize> =
            ts.iter().cloned().filter(|k| y.contains(&x.nodes[k].pos())).collect();
        eq(
            set_of(t.descendent_terminals(node).map(|k| k.index()), "descendent_terminals")?,
            want,
            || format!("descendent_terminals of {}", i),
        )?;
        // climbing
        let anc = x.ancestors(*i);
        let mut c = Climber::new(node, t);
        let mut got = Vec::new();
        while let Some(a) = c.next(t) {
            got.push(a.index());
            if got.len() > anc.len() + 2 {
                break;
            }
        }
        eq(got, anc.clone(), || format!("climbing from {}", i))?;
        eq(c.next(t), None, || format!("climber after the root from {}", i))?;
        let mut c = Climber::new(node, t);
        let mut got = Vec::new();
        let mut below = *i;
        while let Some((a, e)) = c.next_with_edge(t) {
            edge_of(a.index(), below, e, true, "next_with_edge")?;
            below = a.index();
            got.push(a.index());
            if got.len() > anc.len() + 2 {
                break;
            }
        }
        eq(got, anc, || format!("climbing with edges from {}", i))?;
        eq(c.next_with_edge(t), None, || format!("climber after the root from {}", i))?;
    }
    // nodes that don't exist
    let absent = x.fresh() + 2;
    for a in (0..absent).filter(|a| !x.nodes.contains_key(a)).chain(Some(absent)) {
        eq(t.parent(nx(a)), None, || format!("parent of absent {}", a))?;
        eq(t.secondary_parent(nx(a)), None, || format!("secondary parent of absent {}", a))?;
        eq(t.children(nx(a)).count(), 0, || format!("children of absent {}", a))?;
        eq(t.are_siblings(nx(a), nx(x.root)), false, || format!("absent {} is a sibling", a))?;
    }
    // climbing from every terminal, stopping after k steps
    let maxd = ts.iter().map(|i| x.depth(*i)).max().unwrap_or(0);
    for k in (0..=maxd.min(4)).chain(Some(maxd + 1)) {
        let mut tt = t.clone();
        let mut seen: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        tt.map_climber_path(|_, a, i| {
            let v = seen.entry(i.index()).or_default();
            v.push(a.index());
            v.len() > k
        });
        let want: BTreeMap<usize, Vec<usize>> = ts
            .iter()
            .map(|i| (*i, x.ancestors(*i).into_iter().take(k + 1).collect::<Vec<_>>()))
            .filter(|(_, v)| !v.is_empty())
            .collect();
        eq(seen, want, || format!("map_climber_path stopping after {}", k + 1))?;
        if k == 0 {
            eq(extract(&tt).as_ref(), Ok(x), || "tree after map_climber_path".into())?;
        }
    }
    Ok(())
}

fn run_t05(sh: &Shared) {
    let sp = |sparse: bool| OpSpace { invalid: false, secondary: true, transform: false, sparse };
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect();
    let large: Vec<M> = gen::large(false).iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    let nested: Vec<M> = gen::deep().iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    let m43 = gen::models(4, 3, false, &[Deco::Same]);
    let m33 = gen::models(3, 3, false, &[Deco::Rich]);
    let m5 = gen::models(5, sh.pick(3, 4), false, &[Deco::Distinct]);
    let sec = with_secondary(&gen::models(3, 2, false, &[Deco::Rich]));
    let sec2 = two_secondary(&gen::models(2, 2, false, &[Deco::Rich]));
    let mut phases = vec![
        Phase { name: "n5", seeds: all_routes(&m5), depth: 0, space: sp(false) },
        Phase { name: "medium", seeds: all_routes(&med), depth: 0, space: sp(false) },
        Phase { name: "medium1", seeds: with_builders(&med, &[B::Holes]), depth: 1, space: sp(false) },
        Phase { name: "large", seeds: all_routes(&large), depth: 0, space: sp(true) },
        Phase { name: "deeply nested", seeds: with_builders(&nested, &[B::Api, B::Negra]), depth: 0, space: sp(true) },
        Phase { name: "n4", seeds: with_builders(&m43, &[B::Negra, B::Api, B::Moved]), depth: 1, space: sp(false) },
        Phase { name: "secondary", seeds: with_builders(&sec, &[B::Negra, B::Holes]), depth: 1, space: sp(false) },
        Phase { name: "secondary2", seeds: with_builders(&sec2, &[B::Negra, B::Api]), depth: 1, space: sp(false) },
        Phase { name: "histories", seeds: with_builders(&m33, &[B::Api]), depth: 2, space: sp(false) },
    ];
    if !sh.quick() {
        phases.push(Phase { name: "deep", seeds: all_routes(&m33), depth: 2, space: sp(false) });
        phases.push(Phase {
            name: "deep3",
            seeds: with_builders(&gen::models(3, 2, false, &[Deco::Distinct]), &[B::Api]),
            depth: 3,
            space: OpSpace { invalid: false, secondary: false, transform: false, sparse: false },
        });
        phases.push(Phase { name: "n4d2", seeds: with_builders(&m43, &[B::Api]), depth: 2, space: sp(false) });
    }
    for p in phases {
        if sh.stopped() {
            break;
        }
        sh.note(format!("phase {}: {} seeds, depth {}", p.name, p.seeds.len(), p.depth));
        explore(sh, p, Mon::Queries);
    }
}

/// Every placement of two secondary edges.
pub fn two_secondary(ms: &[M]) -> Vec<M> {
    let mut v = Vec::new();
    for m in with_secondary(ms) {
        for x in with_secondary(&[m.clone()]) {
            v.push(x);
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// T06

struct EqCase {
    a: M,
    ba: B,
    b: M,
    bb: B,
    /// operation applied to the second tree before the comparison
    op: Option<Op>,
}

fn eq_key(m: &M) -> M {
    m.without_sec().canon()
}

fn compare(ta: &Tree, tb: &Tree, want: bool) -> Verdict {
    let r = guard(|| (ta == tb, tb == ta, ta != tb, ta == ta, tb == tb))?;
    if r != (want, want, !want, true, true) {
        return Err(format!(
            "the trees are {} but a==b is {}, b==a is {}, a!=b is {}, a==a is {}, b==b is {}",
            if want { "the same" } else { "different" },
            r.0,
            r.1,
            r.2,
            r.3,
            r.4
        ));
    }
    Ok(())
}

impl Case for EqCase {
    fn show(&self) -> String {
        format!(
            "a {}\nvia-a {}\nb {}\nvia-b {}\nop {}",
            self.a.to_text(),
            self.ba.name(),
            self.b.to_text(),
            self.bb.name(),
            self.op.map(|o| o.show()).unwrap_or_default()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        Some(EqCase {
            a: M::parse(field(s, "a")?)?,
            ba: B::parse(field(s, "via-a")?)?,
            b: M::parse(field(s, "b")?)?,
            bb: B::parse(field(s, "via-b")?)?,
            op: field(s, "op").and_then(Op::parse),
        })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let (ta, _) = build(self.ba, &self.a)?;
        let (mut tb, _) = build(self.bb, &self.b)?;
        if let Some(op) = self.op {
            apply(&mut tb, op);
        }
        let b = extract(&tb)?;
        compare(&ta, &tb, eq_key(&self.a) == eq_key(&b))
    }
}

/// All trees that differ from `m` in exactly one attribute of one node or in the attachment of one node.
fn mutants(m: &M) -> Vec<M> {
    let mut v = Vec::new();
    for (i, n) in &m.nodes {
        let mut put = |f: &dyn Fn(&mut crate::model::MNode)| {
            let mut x = m.clone();
            f(x.nodes.get_mut(i).unwrap());
            v.push(x);
        };
        put(&|n| n.set_label("zz"));
        put(&|n| n.set_label(&format!("{}x", n.label())));
        put(&|n| {
            n.feats.insert("zf".into(), Some("1".into()));
        });
        put(&|n| {
            n.feats.insert("zf".into(), Some("2".into()));
        });
        put(&|n| {
            n.feats.insert("zf".into(), None);
        });
        if !n.feats.is_empty() {
            put(&|n| n.feats.clear());
        }
        if n.parent.is_some() {
            put(&|n| n.edge = Some("zz".into()));
            put(&|n| n.edge = Some("".into()));
            if n.edge.is_some() {
                put(&|n| n.edge = None);
            }
        }
        if n.is_t() {
            put(&|n| {
                if let Kind::T { form, .. } = &mut n.kind {
                    form.push('x');
                }
            });
            put(&|n| {
                if let Kind::T { lemma, .. } = &mut n.kind {
                    *lemma = Some("zz".into());
                }
            });
            put(&|n| {
                if let Kind::T { lemma, .. } = &mut n.kind {
                    *lemma = Some("".into());
                }
            });
            put(&|n| {
                if let Kind::T { lemma, .. } = &mut n.kind {
                    *lemma = None;
                }
            });
        }
    }
    v
}

/// Contents that a careless comparison may take for the same.
fn close_mutants(m: &M) -> Vec<M> {
    let mut v = Vec::new();
    for (i, n) in &m.nodes {
        let mut put = |f: &dyn Fn(&mut crate::model::MNode)| {
            let mut x = m.clone();
            f(x.nodes.get_mut(i).unwrap());
            v.push(x);
        };
        for s in &["", "--", "_", "NONE", "DUMMY", "VROOT"] {
            put(&|n| n.set_label(s));
        }
        put(&|n| n.set_label(&format!(" {}", n.label())));
        put(&|n| n.set_label(&n.label().to_lowercase()));
        put(&|n| n.set_label(&n.label().to_uppercase()));
        for f in &["morph", "node_annotation", "unary_chain", "sentence_id", ""] {
            for val in &[None, Some(""), Some("--")] {
                put(&|n| {
                    n.feats.insert(f.to_string(), val.map(ToOwned::to_owned));
                });
            }
        }
        if n.parent.is_some() {
            put(&|n| n.edge = Some("--".into()));
            put(&|n| n.edge = n.edge.as_ref().map(|e| e.to_uppercase()));
        }
        if n.is_t() {
            let form = |f: &dyn Fn(&str) -> String| {
                let mut x = m.clone();
                if let Kind::T { form, .. } = &mut x.nodes.get_mut(i).unwrap().kind {
                    *form = f(form);
                }
                x
            };
            v.push(form(&|_| "".into()));
            v.push(form(&|_| "--".into()));
            v.push(form(&|f| f.to_uppercase()));
            v.push(form(&|f| format!("{} ", f)));
            let lemma = |l: Option<&str>| {
                let mut x = m.clone();
                if let Kind::T { lemma, .. } = &mut x.nodes.get_mut(i).unwrap().kind {
                    *lemma = l.map(ToOwned::to_owned);
                }
                x
            };
            for l in &[None, Some(""), Some("--"), Some("_"), Some("w")] {
                v.push(lemma(*l));
            }
        }
    }
    v
}

fn run_t06(sh: &Shared) {
    // 1. all pairs of a universe of small trees and their one-attribute mutants
    let mut uni: Vec<M> = Vec::new();
    uni.extend(gen::models(3, sh.pick(3, 3), false, &[Deco::Distinct, Deco::Same, Deco::Rich]));
    for m in gen::models(2, 2, false, &[Deco::Same, Deco::Rich]) {
        uni.extend(mutants(&m));
    }
    for m in gen::models(3, 1, false, &[Deco::Rich]) {
        uni.extend(mutants(&m));
    }
    if !sh.quick() {
        for m in gen::models(3, 2, false, &[Deco::Same]) {
            uni.extend(mutants(&m));
        }
        uni.extend(gen::models(4, 2, false, &[Deco::Same, Deco::Cycle]));
    }
    let keys: Vec<M> = uni.iter().map(eq_key).collect();
    let built: Vec<Vec<(B, Tree)>> = uni
        .iter()
        .map(|m| {
            routes(m).into_iter().filter_map(|b| build(b, m).ok().map(|(t, _)| (b, t))).collect()
        })
        .collect();
    sh.note(format!("all ordered pairs of {} small trees in 2 of up to 9 constructions each", uni.len()));
    sh.par(uni.len(), |i, l| {
        l.state(&keys[i]);
        if built[i].is_empty() {
            l.count("seed_skipped", 1);
            return;
        }
        for j in 0..uni.len() {
            if l.stopped() {
                return;
            }
            if built[j].is_empty() {
                continue;
            }
            let want = keys[i] == keys[j];
            let (ba, ta) = &built[i][j % built[i].len()];
            for k in 0..2 {
                let (bb, tb) = &built[j][(i + k * 3) % built[j].len()];
                let c = || EqCase { a: uni[i].clone(), ba: *ba, b: uni[j].clone(), bb: *bb, op: None };
                quick_case(l, c, || compare(ta, tb, want));
            }
        }
    });
    // 2. all pairs of constructions of one tree
    let mut ms = gen::models(4, 3, false, &[Deco::Rich, Deco::Same, Deco::Cycle]);
    ms.extend(gen::models(5, sh.pick(2, 4), false, &[Deco::Cycle]));
    ms.extend(gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)));
    ms.extend(gen::medium().iter().map(|s| gen::to_m(s, Deco::Same)));
    ms.extend(gen::large(false).iter().chain(gen::deep().iter()).map(|(_, s)| gen::to_m(s, Deco::Cycle)));
    sh.note(format!("all pairs of constructions of {} trees", ms.len()));
    sh.par(ms.len(), |i, l| {
        let m = &ms[i];
        l.state(&eq_key(m));
        let ts: Vec<(B, Tree)> =
            routes(m).into_iter().filter_map(|b| build(b, m).ok().map(|(t, _)| (b, t))).collect();
        for (ba, ta) in &ts {
            for (bb, tb) in &ts {
                let c = || EqCase { a: m.clone(), ba: *ba, b: m.clone(), bb: *bb, op: None };
                quick_case(l, c, || compare(ta, tb, true));
                let mut tc = tb.clone();
                // absent and empty feature sets, and secondary edges, make no difference
                for n in tc.graph().node_indices().collect::<Vec<_>>() {
                    if tc[n].features().is_none() {
                        tc[n].set_features(Some(Features::new()));
                    }
                }
                let other = tc.graph().node_indices().last().unwrap();
                tc.add_secondary_edge(tc.root(), other, Some("s"));
                let c = || EqCase { a: m.clone(), ba: *ba, b: m.clone(), bb: *bb, op: None };
                quick_case(l, c, || compare(ta, &tc, true).map_err(|e| format!("empty features/secondary edge: {}", e)));
            }
        }
    });
    // 3. single attributes and single edits in larger trees
    let mut big: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Cycle)).collect();
    big.extend(gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)));
    big.extend(gen::models(4, 2, false, &[Deco::Same]));
    big.extend(gen::odd_models(3, 2, false));
    let nbig = big.len();
    big.extend(gen::large(false).iter().filter(|(_, s)| size(s) <= 70).map(|(_, s)| gen::to_m(s, Deco::Rich)));
    sh.note(format!("{} trees against all their one-attribute mutants and one-edit neighbours", big.len()));
    sh.par(big.len(), |i, l| {
        let m = &big[i];
        let (ba, ta) = match first(m, i) {
            Some(x) => x,
            None => return,
        };
        let key = eq_key(m);
        let close = if i < nbig { close_mutants(m) } else { Vec::new() };
        for x in mutants(m).into_iter().chain(close) {
            if l.stopped() {
                return;
            }
            let bb = routes(&x)[i % routes(&x).len()];
            if let Ok((tb, _)) = build(bb, &x) {
                let want = eq_key(&x) == key;
                let c = || EqCase { a: m.clone(), ba, b: x.clone(), bb, op: None };
                quick_case(l, c, || compare(&ta, &tb, want));
            }
        }
        for bb in routes(m) {
            let tb = match build(bb, m) {
                Ok((t, _)) => t,
                Err(_) => continue,
            };
            let x = match extract(&tb) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let sp = OpSpace { invalid: false, secondary: false, transform: false, sparse: i >= nbig };
            for op in all_ops(&x, &sp) {
                let mut t2 = tb.clone();
                if let Got::Panicked(_) | Got::NotApplicable = apply(&mut t2, op) {
                    continue;
                }
                let y = match extract(&t2) {
                    Ok(y) => y,
                    Err(_) => continue,
                };
                if crate::model::check_spans(&t2, &y).is_err() {
                    // judged by T02
                    continue;
                }
                let want = eq_key(&y) == key;
                l.outcome(if want { "edited, same" } else { "edited, different" });
                let c = || EqCase { a: m.clone(), ba, b: m.clone(), bb, op: Some(op) };
                quick_case(l, c, || compare(&ta, &t2, want));
            }
        }
    });
}

fn size(s: &gen::Sh) -> usize {
    match s {
        gen::Sh::L(_) => 1,
        gen::Sh::N(k) => k.iter().map(size).sum(),
    }
}

fn first(m: &M, i: usize) -> Option<(B, Tree)> {
    let r = routes(m);
    for k in 0..r.len() {
        let b = r[(i + k) % r.len()];
        if let Ok((t, _)) = build(b, m) {
            return Some((b, t));
        }
    }
    None
}

/// A case whose text is only written when it fails (the operations under test can't loop or abort
/// without the text: a short key is published instead).
pub fn quick_case<C: Case>(l: &mut Local, c: impl Fn() -> C, run: impl FnOnce() -> Verdict) -> bool {
    l.count("transitions", 5);
    l.n_cases += 1;
    let mut v = Ok(());
    let r = guard(|| v = run());
    if let Err(p) = r {
        v = Err(p);
    }
    match v {
        Ok(()) => {
            l.count("cases", 1);
            l.sample(|| c().show());
            true
        }
        Err(e) => l.case_text(c().show(), |_| Err(e)),
    }
}

// ---------------------------------------------------------------------------------------------
// T07

/// What is done to the tree with and to the tree without secondary edges.
#[derive(Clone, Debug)]
enum Act {
    Op(Op),
    Outputs,
}

struct SecCase {
    m: M,
    b: B,
    /// re-create the primary edges after the secondary ones
    late: bool,
    act: Act,
}

pub fn recreate_primary(t: &mut Tree, x: &M) -> Result<(), String> {
    for (i, n) in &x.nodes {
        if let Some(p) = n.parent {
            if x.nodes[&p].kids.len() > 1 {
                let e = crate::model::edge_above(t, *i).ok_or("edge")?;
                let (ne, old) = t.reattach_node(nx(p), e).map_err(|e| e.to_string())?;
                t[ne] = old;
            }
        }
    }
    Ok(())
}

fn sec_pair(m: &M, b: B, late: bool) -> Result<(Tree, Tree), String> {
    let plain = m.without_sec();
    let (t0, map) = build(b, &plain)?;
    let mut with = t0.clone();
    for s in &m.sec {
        with.add_secondary_edge(map[&s.src], map[&s.dst], s.label.clone());
    }
    let mut without = t0;
    if late {
        let x = extract(&without)?;
        recreate_primary(&mut without, &x)?;
        recreate_primary(&mut with, &x)?;
    }
    Ok((without, with))
}

/// Bracketed, encoded and exported forms of a tree; none of them carries secondary edges.
pub fn outputs(t: &Tree) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let mut put = |n: &str, s: Result<String, String>| v.push((n.to_string(), s.unwrap_or_else(|e| format!("ERR {}", e))));
    put("simple", guard(|| PTBFormat::Simple.tree_to_string(t).unwrap_or_else(|e| format!("E {}", e))));
    put("ptb", guard(|| PTBFormat::PTB.tree_to_string(t).unwrap_or_else(|e| format!("E {}", e))));
    put("tueba", guard(|| PTBFormat::TueBa.tree_to_string(t).unwrap_or_else(|e| format!("E {}", e))));
    put("absolute", guard(|| format!("{:?}", t.encode_absolute().map_err(|e| e.to_string()))));
    put("relative", guard(|| format!("{:?}", t.encode_relative().map_err(|e| e.to_string()))));
    put(
        "rel of abs",
        guard(|| format!("{:?}", t.encode_absolute().map(|e: AbsoluteEncoding| RelativeEncoding::from(e)).map_err(|e| e.to_string()))),
    );
    put(
        "conllx",
        guard(|| {
            let s = t.to_conllx();
            s.iter().filter_map(|n| n.token()).map(|t| format!("{:?}\n", t)).collect::<String>()
        }),
    );
    put(
        "tags",
        guard(|| {
            let mut t = t.clone();
            let n = t.n_terminals();
            let a = t.annotate_pos((0..n).map(|i| format!("P{}", i))).map_err(|e| e.to_string());
            let b = extract(&t).map(|m| m.without_sec());
            let c = t.annotate_parent_tag("parent").map_err(|e| e.to_string());
            format!("{:?} {:?} {:?} {:?}", a, b, c, extract(&t).map(|m| m.without_sec()))
        }),
    );
    put(
        "annotated",
        guard(|| {
            let mut t = t.clone();
            let a = t.annotate_absolute().is_ok();
            let b = t.annotate_relative().is_ok();
            format!("{} {} {:?}", a, b, extract(&t).map(|m| m.without_sec()))
        }),
    );
    put(
        "collapsed",
        guard(|| {
            let mut t = t.clone();
            let a = t.collapse_unary_chains("+").is_ok();
            let b = extract(&t).map(|m| m.without_sec());
            let c = t.restore_unary_chains("+").is_ok();
            format!("{} {:?} {} {:?}", a, b, c, extract(&t).map(|m| m.without_sec()))
        }),
    );
    put("indices", guard(|| format!("{:?}", t.project_nt_indices(|t, n| t[n].label() >= "B"))));
    put(
        "projected",
        guard(|| {
            let mut t = t.clone();
            t.project_tag_set("tag", |t, n| t[n].label() >= "B");
            t.project_ids("id", |t, n| t[n].label() >= "B");
            let x = extract(&t).map(|m| m.without_sec());
            format!("{:?}", x)
        }),
    );
    put(
        "negra",
        guard(|| {
            use lumberjack::WriteTree;
            let mut o = Vec::new();
            let r = lumberjack::io::NegraWriter::new(&mut o).write_tree(t).map_err(|e| e.to_string());
            // secondary fields come after the sixth field
            let s: String = String::from_utf8_lossy(&o)
                .lines()
                .map(|l| {
                    if l.starts_with("#BOS") || l.starts_with("#EOS") {
                        format!("{}\n", l)
                    } else {
                        l.split_whitespace().take(6).collect::<Vec<_>>().join(" ") + "\n"
                    }
                })
                .collect();
            format!("{:?} {}", r, s)
        }),
    );
    v
}

fn primary_view(t: &Tree) -> Result<String, String> {
    let x = extract(t)?.without_sec();
    let mut s = format!("{:?} {}", x, t.is_projective());
    for i in x.nodes.keys() {
        let sp = t[nx(*i)].span();
        s.push_str(&format!(" {}:{:?}{:?}", i, sp.bounds(), sp.into_iter().collect::<Vec<_>>()));
    }
    Ok(s)
}

impl SecCase {
    fn check(&self, without: &Tree, with: &Tree) -> Verdict {
        let wx = extract(with)?;
        if primary_view(without)? != primary_view(with)? {
            return Err("adding secondary edges changed the primary tree".into());
        }
        if without != with || with != without {
            return Err("the trees compare different".into());
        }
        match &self.act {
            Act::Outputs => {
                check_queries(with, &wx)?;
                let neg = wx.sec.iter().any(|s| wx.nodes[&s.src].is_t());
                for ((n, a), (_, b)) in outputs(without).into_iter().zip(outputs(with)) {
                    if n == "negra" && neg {
                        continue;
                    }
                    if a != b {
                        return Err(format!("{} differs:\n without {}\n with    {}", n, a, b));
                    }
                }
                // removal
                let mut t = with.clone();
                for s in &wx.sec {
                    t.remove_secondary_edge(crate::model::ex(s.eid));
                }
                if primary_view(&t)? != primary_view(without)? {
                    return Err("removing secondary edges changed the primary tree".into());
                }
                if !extract(&t)?.sec.is_empty() {
                    return Err("secondary edges left after removal".into());
                }
                Ok(())
            }
            Act::Op(op) => {
                let mut a = without.clone();
                let mut b = with.clone();
                let ga = apply(&mut a, *op);
                let gb = apply(&mut b, *op);
                let kind = |g: &Got| match g {
                    Got::Refused(_) => "refused".to_string(),
                    Got::Panicked(_) => "panic".to_string(),
                    Got::Node(i) => format!("node {}", i.index()),
                    Got::Removed(n) => format!("removed {:?}", crate::model::mnode_of(n)),
                    Got::Re(_, e) => format!("edge {:?}", e),
                    Got::NotApplicable => "n/a".into(),
                    _ => "done".to_string(),
                };
                if let (Op::Ng, Got::NotApplicable) = (*op, &gb) {
                    // secondary edges the format can't carry
                    return Ok(());
                }
                if kind(&ga) != kind(&gb) {
                    return Err(format!("{}: without {:?}, with {:?}", op.show(), ga, gb));
                }
                if let Got::Panicked(_) | Got::NotApplicable = ga {
                    return Ok(());
                }
                if let Op::Pj = op {
                    // the order of moves isn't determined; the result is
                } else if *op == Op::Ng {
                    return Ok(());
                }
                let (va, vb) = (primary_view(&a), primary_view(&b));
                if va != vb {
                    return Err(format!(
                        "{} gives different trees:\n without {}\n with    {}",
                        op.show(),
                        extract(&a)?.to_text(),
                        extract(&b)?.to_text()
                    ));
                }
                let y = extract(&b)?;
                let want: Vec<Sec> = wx
                    .sec
                    .iter()
                    .filter(|s| y.nodes.contains_key(&s.src) && y.nodes.contains_key(&s.dst))
                    .cloned()
                    .collect();
                if y.sec != want {
                    return Err(format!("{}: secondary edges are {:?} instead of {:?}", op.show(), y.sec, want));
                }
                check_queries(&b, &y)
            }
        }
    }
}

impl Case for SecCase {
    fn show(&self) -> String {
        format!(
            "tree {}\nvia {}\nlate {}\nact {}",
            self.m.to_text(),
            self.b.name(),
            self.late,
            match &self.act {
                Act::Op(o) => o.show(),
                Act::Outputs => "outputs".into(),
            }
        )
    }
    fn parse(s: &str) -> Option<Self> {
        let a = field(s, "act")?;
        Some(SecCase {
            m: M::parse(field(s, "tree")?)?,
            b: B::parse(field(s, "via")?)?,
            late: field(s, "late")? == "true",
            act: if a == "outputs" { Act::Outputs } else { Act::Op(Op::parse(a)?) },
        })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let (a, b) = sec_pair(&self.m, self.b, self.late)?;
        self.check(&a, &b)
    }
}

/// Placements of secondary edges: all single ones (self loops and parallel to primary edges
/// included), pairs into or out of one node.
fn placements(m: &M, two: bool) -> Vec<M> {
    let ids: Vec<Id> = m.nodes.keys().cloned().collect();
    let mut v = Vec::new();
    let lab = |k: usize| if k % 2 == 0 { Some(format!("s{}", k)) } else { None };
    for &a in &ids {
        for &b in &ids {
            let mut x = m.clone();
            x.sec.push(Sec { eid: 0, src: a, dst: b, label: lab(a + b) });
            if two {
                for &c in &ids {
                    for &d in &ids {
                        if (c, d) >= (a, b) {
                            let mut y = x.clone();
                            y.sec.push(Sec { eid: 0, src: c, dst: d, label: lab(c + d + 1) });
                            v.push(y);
                        }
                    }
                }
            } else {
                v.push(x);
            }
        }
    }
    v
}

/// Secondary edges everywhere: each nonterminal to every other node, each terminal to its sibling.
pub fn dense(m: &M) -> M {
    let mut x = m.clone();
    let ids: Vec<Id> = m.nodes.keys().cloned().collect();
    for (k, &a) in ids.iter().enumerate() {
        for (j, &b) in ids.iter().enumerate() {
            if a != b && (ids.len() < 14 || (k * 7 + j) % 11 == 0) {
                x.sec.push(Sec { eid: 0, src: a, dst: b, label: Some(format!("s{}", k % 3)) });
            }
        }
    }
    x
}

fn run_t07(sh: &Shared) {
    let mut ms: Vec<(M, usize)> = Vec::new(); // model, class
    for m in gen::models(sh.pick(3, 4), sh.pick(3, 3), false, &[Deco::Rich]) {
        for p in placements(&m, false) {
            ms.push((p, 0));
        }
    }
    for m in gen::models(2, 2, false, &[Deco::Rich]) {
        for p in placements(&m, true) {
            ms.push((p, 0));
        }
    }
    for m in gen::models(sh.pick(3, 4), 1, false, &[Deco::Rich]).iter().filter(|m| m.n() >= 3) {
        for p in placements(m, true) {
            ms.push((p, 1));
        }
    }
    for m in gen::models(4, 3, false, &[Deco::Rich]) {
        ms.push((dense(&m), 0));
    }
    for s in gen::medium() {
        let m = gen::to_m(&s, Deco::Rich);
        ms.push((dense(&m), 0));
        for p in placements(&m, false).into_iter().enumerate().filter(|(i, _)| i % 5 == 0) {
            ms.push((p.1, 2));
        }
    }
    for (_, s) in gen::large(false) {
        if size(&s) <= 140 {
            ms.push((dense(&gen::to_m(&s, Deco::Rich)), 3));
        }
    }
    sh.note(format!("{} trees with placed secondary edges, each with all edits, transformations and outputs, with and without them", ms.len()));
    sh.par(ms.len(), |i, l| {
        let (m, class) = &ms[i];
        let r = routes(m);
        let bs: Vec<B> = match class {
            0 if m.nodes.len() < 8 => vec![r[i % r.len()], r[(i + 4) % r.len()]],
            _ => vec![r[i % r.len()]],
        };
        for (k, b) in bs.into_iter().enumerate() {
            for late in [false, true] {
                if *class > 1 && late != ((i + k) % 2 == 0) {
                    continue;
                }
                let (wo, wi) = match guard(|| sec_pair(m, b, late)) {
                    Ok(Ok(p)) => p,
                    _ => {
                        l.count("seed_skipped", 1);
                        continue;
                    }
                };
                l.state(&(m, b, late));
                let x = match extract(&wo) {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                let sp = OpSpace { invalid: false, secondary: false, transform: true, sparse: *class > 2 };
                let mut acts = vec![Act::Outputs];
                if *class != 2 || i % 3 == 0 {
                    acts.extend(
                        all_ops(&x, &sp)
                            .into_iter()
                            .filter(|o| !matches!(expect(&x, *o), Expect::Panic))
                            .map(Act::Op),
                    );
                }
                for act in acts {
                    if l.stopped() {
                        return;
                    }
                    let c = SecCase { m: m.clone(), b, late, act };
                    l.count("transitions", 2);
                    let text = c.show();
                    l.case_text(text, |_| c.check(&wo, &wi));
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// T08

struct SpanCase {
    n: usize,
    a: u32,
    b: u32,
    how_a: u8,
    how_b: u8,
}

fn bits(n: usize, a: u32) -> BTreeSet<usize> {
    (0..n).filter(|i| a & (1 << i) != 0).collect()
}

/// A span over the given positions, taken from a real tree, made along different routes.
fn make_span(n: usize, set: u32, how: u8) -> Result<Span, String> {
    let s = bits(n, set);
    let mut t = Tree::new("0", "t");
    let r = t.root();
    let root = t.insert_unary_above(r, "R");
    let mut ts = vec![r];
    let e = |e: failure::Error| e.to_string();
    match how {
        // grown by reattaching one terminal after the other (merging spans)
        0 | 3 => {
            for i in 1..n {
                ts.push(t.push_terminal(i.to_string(), "t").map_err(e)?);
            }
            let mut it: Vec<usize> = s.iter().cloned().collect();
            if how == 3 {
                it.reverse();
            }
            let v = t.insert_unary_above(ts[it[0]], "V");
            for i in &it[1..] {
                let (_, ed) = t.parent(ts[*i]).ok_or("parent")?;
                t.reattach_node(v, ed).map_err(e)?;
            }
            Ok(t[v].span().clone())
        }
        // shrunk from the full range (removing indices)
        1 => {
            for i in 1..n {
                ts.push(t.push_terminal(i.to_string(), "t").map_err(e)?);
            }
            let v = t.insert_unary_below(root, "V").map_err(e)?;
            for i in (0..n).filter(|i| !s.contains(i)) {
                let (_, ed) = t.parent(ts[i]).ok_or("parent")?;
                t.reattach_node(root, ed).map_err(e)?;
            }
            Ok(t[v].span().clone())
        }
        // recomputed from scratch
        _ => {
            let v = t.insert_unary_below(root, "V").map_err(e)?;
            // the first terminal is below V; it is moved behind all others in the end
            let first = *s.iter().next().unwrap();
            let mut cnt = 1;
            for i in 0..n {
                if i != first {
                    let p = if s.contains(&i) { v } else { root };
                    t.insert_terminal(p, Terminal::new(i.to_string(), "t", i.min(cnt)));
                    cnt += 1;
                }
            }
            // positions: everything in order except the first terminal
            let want = first;
            t.move_terminal(r, want);
            Ok(t[v].span().clone())
        }
    }
}

fn check_span(s: &Span, set: &BTreeSet<usize>, n: usize) -> Verdict {
    let lo = *set.iter().next().unwrap();
    let hi = *set.iter().next_back().unwrap() + 1;
    eq((s.start, s.end), (lo, hi), || "bounds".into())?;
    eq(s.bounds(), (lo, hi), || "bounds()".into())?;
    eq(s.n_indices(), set.len(), || "n_indices()".into())?;
    eq(s.into_iter().collect::<Vec<_>>(), set.iter().cloned().collect(), || "iteration".into())?;
    for i in 0..n + 3 {
        eq(s.contains(i), set.contains(&i), || format!("contains({})", i))?;
    }
    let gaps: BTreeSet<usize> = (lo..hi).filter(|i| !set.contains(i)).collect();
    eq(
        s.skips().map(|k| k.iter().cloned().collect::<BTreeSet<_>>()).unwrap_or_default(),
        gaps.clone(),
        || "skips()".into(),
    )?;
    eq(s.skips().is_some(), !gaps.is_empty(), || "skips().is_some()".into())
}

fn check_span_pair(a: &Span, sa: &BTreeSet<usize>, b: &Span, sb: &BTreeSet<usize>) -> Verdict {
    use std::cmp::Ordering;
    eq(a.covers_span(b), sb.is_subset(sa), || "covers_span".into())?;
    eq(a == b, sa == sb, || "==".into())?;
    let key = |s: &BTreeSet<usize>| (*s.iter().next().unwrap(), *s.iter().next_back().unwrap(), s.len());
    let want = key(sa).cmp(&key(sb));
    eq(a.cmp(b), want, || "cmp".into())?;
    eq(a.partial_cmp(b), Some(want), || "partial_cmp".into())?;
    eq(a < b, want == Ordering::Less, || "<".into())?;
    eq(a >= b, want != Ordering::Less, || ">=".into())
}

impl Case for SpanCase {
    fn show(&self) -> String {
        format!("n {}\na {}\nb {}\nhow {} {}", self.n, self.a, self.b, self.how_a, self.how_b)
    }
    fn parse(s: &str) -> Option<Self> {
        let mut h = field(s, "how")?.split(' ').map(|x| x.parse().ok());
        Some(SpanCase {
            n: field(s, "n")?.parse().ok()?,
            a: field(s, "a")?.parse().ok()?,
            b: field(s, "b")?.parse().ok()?,
            how_a: h.next()??,
            how_b: h.next()??,
        })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let (sa, sb) = (bits(self.n, self.a), bits(self.n, self.b));
        let a = make_span(self.n, self.a, self.how_a)?;
        let b = make_span(self.n, self.b, self.how_b)?;
        check_span(&a, &sa, self.n)?;
        check_span(&b, &sb, self.n)?;
        check_span_pair(&a, &sa, &b, &sb)
    }
}

fn run_t08(sh: &Shared) {
    let n = sh.pick(10, 12);
    let all: Vec<u32> = (1..(1u32 << n)).collect();
    sh.note(format!("all pairs of the {} non-empty sets of positions below {}, made along 4 routes", all.len(), n));
    let mut spans: Vec<Vec<(u8, Span)>> = Vec::new();
    for &a in &all {
        let mut v = Vec::new();
        for how in 0..4u8 {
            if let Ok(Ok(s)) = guard(|| make_span(n, a, how)) {
                // is the span what it is meant to be? otherwise another property is broken
                v.push((how, s));
            }
        }
        spans.push(v);
    }
    sh.par(all.len(), |i, l| {
        l.state(&all[i]);
        let sa = bits(n, all[i]);
        for (how, s) in &spans[i] {
            let c = || SpanCase { n, a: all[i], b: all[i], how_a: *how, how_b: *how };
            quick_case(l, c, || check_span(s, &sa, n));
        }
        for j in 0..all.len() {
            if l.stopped() {
                return;
            }
            let sb = bits(n, all[j]);
            for (k, (ha, a)) in spans[i].iter().enumerate() {
                if spans[j].is_empty() {
                    continue;
                }
                let (hb, b) = &spans[j][(k + i + j) % spans[j].len()];
                let c = || SpanCase { n, a: all[i], b: all[j], how_a: *ha, how_b: *hb };
                quick_case(l, c, || check_span_pair(a, &sa, b, &sb));
            }
        }
    });
    // wide spans
    let wide = wide_sets();
    sh.note(format!("all pairs of {} wide spans of up to 200 positions, made along 2 routes", wide.len()));
    let made: std::sync::Mutex<BTreeMap<(usize, bool), Span>> = Default::default();
    sh.par(2 * wide.len(), |k, _| {
        let (i, down) = (k / 2, k % 2 == 1);
        if let Ok(Ok(s)) = guard(|| wide_span(wide[i].0, &wide[i].1, down)) {
            made.lock().unwrap().insert((i, down), s);
        }
    });
    let made = made.into_inner().unwrap();
    sh.par(wide.len(), |i, l| {
        l.state(&wide[i].1);
        for j in 0..wide.len() {
            if l.stopped() {
                return;
            }
            let (da, db) = ((i + j) % 2 == 0, (i / 2 + j) % 2 == 0);
            if let (Some(a), Some(b)) = (made.get(&(i, da)), made.get(&(j, db))) {
                let c = || WideCase { a: wide[i].clone(), b: wide[j].clone(), da, db };
                quick_case(l, c, || {
                    if j < 2 {
                        check_span(a, &wide[i].1, wide[i].0)?;
                    }
                    check_span_pair(a, &wide[i].1, b, &wide[j].1)
                });
            }
        }
    });
}

/// Sets of positions that are further apart.
fn wide_sets() -> Vec<(usize, BTreeSet<usize>)> {
    let mut wide: Vec<(usize, BTreeSet<usize>)> = Vec::new();
    for n in [20usize, 33, 66, 130] {
        for f in 0..6 {
            let s: BTreeSet<usize> = (0..n)
                .filter(|i| match f {
                    0 => i % 2 == 0,
                    1 => i % 3 != 1,
                    2 => *i > n / 2 || *i == 0,
                    3 => *i < n - 5,
                    4 => *i == 0 || *i == n - 1,
                    _ => *i % 16 != 0 && *i != n - 3,
                })
                .collect();
            wide.push((n, s));
        }
    }
    for mask in 1..64u32 {
        let has = |b: usize| mask & (1 << b) != 0;
        // blocks of a width, after some positions that aren't covered
        for (w, d) in [(3usize, 2usize), (9, 0), (17, 5), (33, 1)] {
            wide.push((6 * w + d, (0..6 * w).filter(|i| has(i / w)).map(|i| i + d).collect()));
        }
        // single positions, and everything but them
        let at = [0usize, 31, 32, 63, 64, 127];
        wide.push((130, (0..6).filter(|b| has(*b)).map(|b| at[b]).collect()));
        wide.push((130, (0..130).filter(|i| at.iter().position(|a| a == i).map_or(true, |b| !has(b))).collect()));
    }
    wide
}

struct WideCase {
    a: (usize, BTreeSet<usize>),
    b: (usize, BTreeSet<usize>),
    da: bool,
    db: bool,
}

impl Case for WideCase {
    fn show(&self) -> String {
        let set = |(n, s): &(usize, BTreeSet<usize>), d: bool| {
            let v: Vec<String> = s.iter().map(|i| i.to_string()).collect();
            format!("{} {} {}", n, d as u8, v.join(" "))
        };
        format!("wide {}\nother {}", set(&self.a, self.da), set(&self.b, self.db))
    }
    fn parse(s: &str) -> Option<Self> {
        let set = |s: &str| -> Option<((usize, BTreeSet<usize>), bool)> {
            let mut v = s.split(' ').map(|x| x.parse::<usize>().ok());
            let (n, d) = (v.next()??, v.next()?? == 1);
            Some(((n, v.collect::<Option<BTreeSet<usize>>>()?), d))
        };
        let (a, da) = set(field(s, "wide")?)?;
        let (b, db) = set(field(s, "other")?)?;
        Some(WideCase { a, b, da, db })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let x = wide_span(self.a.0, &self.a.1, self.da)?;
        let y = wide_span(self.b.0, &self.b.1, self.db)?;
        check_span(&x, &self.a.1, self.a.0)?;
        check_span_pair(&x, &self.a.1, &y, &self.b.1)
    }
}

/// Grown by one word after the other, or shrunk from everything.
fn wide_span(n: usize, s: &BTreeSet<usize>, down: bool) -> Result<Span, String> {
    let e = |e: failure::Error| e.to_string();
    let mut t = Tree::new("0", "t");
    let r = t.root();
    let root = t.insert_unary_above(r, "R");
    let mut ts = vec![r];
    for i in 1..n {
        ts.push(t.push_terminal(i.to_string(), "t").map_err(e)?);
    }
    if down {
        let v = t.insert_unary_below(root, "V").map_err(e)?;
        for i in (0..n).filter(|i| !s.contains(i)) {
            let (_, ed) = t.parent(ts[i]).ok_or("parent")?;
            t.reattach_node(root, ed).map_err(e)?;
        }
        return Ok(t[v].span().clone());
    }
    let it: Vec<usize> = s.iter().cloned().collect();
    let v = t.insert_unary_above(ts[it[0]], "V");
    for i in &it[1..] {
        let (_, ed) = t.parent(ts[*i]).ok_or("parent")?;
        t.reattach_node(v, ed).map_err(e)?;
    }
    Ok(t[v].span().clone())
}

fn replay_t08(s: &str, l: &mut Local) -> Option<Verdict> {
    if s.starts_with("wide ") {
        replay_as::<WideCase>(s, l)
    } else {
        replay_as::<SpanCase>(s, l)
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "T05",
            run: run_t05,
            replay: replay_as::<EditCase<5>>,
            what: "breadth-first exploration of edit histories; in every state all navigation answers for all nodes and pairs of nodes are compared with the edges of the graph",
        },
        Check {
            id: "T06",
            run: run_t06,
            replay: replay_as::<EqCase>,
            what: "all ordered pairs of a universe of trees and constructions; == is compared with identity of canonical forms",
        },
        Check {
            id: "T07",
            run: run_t07,
            replay: replay_as::<SecCase>,
            what: "every placement of secondary edges in bounded trees, followed by every edit, transformation and output, compared with the same on the tree without them",
        },
        Check {
            id: "T08",
            run: run_t08,
            replay: replay_t08,
            what: "all pairs of spans over a range of positions, compared with finite sets",
        },
    ]
}
