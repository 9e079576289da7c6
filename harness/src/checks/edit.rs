//! T01-T04: breadth-first exploration of edit histories on the real tree.

use super::{field, replay_as, Check};
use crate::build::{build, routes, B};
use crate::engine::{Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{check_spans, extract, image, Sec, M};
use crate::ops::{all_ops, step, Mon, Op, OpSpace, StepResult};
use lumberjack::Tree;
use std::sync::Mutex;

pub struct EditCase<const MON: u8> {
    m: M,
    b: B,
    ops: Vec<Op>,
}

fn mon(m: u8) -> Mon {
    match m {
        1 => Mon::WellFormed,
        2 => Mon::Spans,
        3 => Mon::Effect,
        4 => Mon::Refusal,
        _ => Mon::Queries,
    }
}

fn show(seed: &str, b: B, ops: &[Op], last: Option<Op>) -> String {
    let mut s = String::with_capacity(seed.len() + 64);
    s.push_str("seed ");
    s.push_str(seed);
    s.push_str("\nvia ");
    s.push_str(b.name());
    s.push_str("\nops ");
    for o in ops.iter().chain(last.iter()) {
        s.push_str(&o.show());
        s.push(';');
    }
    s
}

impl<const MON: u8> Case for EditCase<MON> {
    fn show(&self) -> String {
        show(&self.m.to_text(), self.b, &self.ops, None)
    }
    fn parse(s: &str) -> Option<Self> {
        let m = M::parse(field(s, "seed")?)?;
        let b = B::parse(field(s, "via")?)?;
        let mut ops = Vec::new();
        for o in field(s, "ops").unwrap_or("").split(';').filter(|o| !o.trim().is_empty()) {
            ops.push(Op::parse(o)?);
        }
        Some(EditCase { m, b, ops })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let (mut t, _) = build(self.b, &self.m)?;
        judge_seed(&t, mon(MON))?;
        for op in &self.ops {
            let m = extract(&t).map_err(|e| format!("before {}: {}", op.show(), e))?;
            if let (StepResult::End, _) = step(&mut t, &m, *op, mon(MON))? {
                break;
            }
        }
        Ok(())
    }
}

fn judge_seed(t: &Tree, mon: Mon) -> Verdict {
    match mon {
        Mon::Spans => check_spans(t, &extract(t)?),
        Mon::Queries => super::query::check_queries(t, &extract(t)?),
        _ => Ok(()),
    }
}

struct State {
    t: Tree,
    seed: usize,
    ops: Vec<Op>,
}

pub struct Phase {
    pub name: &'static str,
    pub seeds: Vec<(M, B)>,
    pub depth: usize,
    pub space: OpSpace,
}

pub fn explore(sh: &Shared, ph: Phase, mon: Mon) {
    let texts: Vec<String> = ph.seeds.iter().map(|(m, _)| m.to_text()).collect();
    let frontier: Mutex<Vec<State>> = Mutex::new(Vec::new());
    sh.par(ph.seeds.len(), |i, l| {
        let (m, b) = &ph.seeds[i];
        match build(*b, m) {
            Ok((t, _)) => {
                l.count("seeds", 1);
                if mon == Mon::Spans || mon == Mon::Queries {
                    let text = show(&texts[i], *b, &[], None);
                    l.case_text(text, |_| judge_seed(&t, mon));
                }
                let new = l.state(&(ph.name, image(&t)));
                if new {
                    frontier.lock().unwrap().push(State { t, seed: i, ops: Vec::new() });
                }
            }
            Err(e) => {
                l.count("seed_skipped", 1);
                let mut n = l.sh.notes.lock().unwrap();
                if n.len() < 3 {
                    n.push(format!("seed skipped ({}): {} {}", b.name(), texts[i], e));
                }
            }
        }
    });
    let mut frontier = frontier.into_inner().unwrap();
    for d in 0..ph.depth {
        if sh.stopped() {
            break;
        }
        frontier.sort_by(|a, b| (a.seed, a.ops.len()).cmp(&(b.seed, b.ops.len())));
        let next: Mutex<Vec<State>> = Mutex::new(Vec::new());
        let last = d + 1 == ph.depth;
        sh.par(frontier.len(), |i, l| {
            let st = &frontier[i];
            let m = match extract(&st.t) {
                Ok(m) => m,
                Err(_) => {
                    l.count("unreadable_state", 1);
                    return;
                }
            };
            let (_, b) = &ph.seeds[st.seed];
            let mut news = Vec::new();
            for op in all_ops(&m, &ph.space) {
                if l.stopped() {
                    return;
                }
                let mut t = st.t.clone();
                let text = show(&texts[st.seed], *b, &st.ops, Some(op));
                let mut go_on = false;
                let ok = l.case_text(text, |l| {
                    let (r, what) = step(&mut t, &m, op, mon)?;
                    l.outcome(&format!("{} {}", name_of(op), what));
                    go_on = matches!(r, StepResult::Next);
                    Ok(())
                });
                l.count("transitions", 1);
                if last || !go_on {
                    l.count("traces", 1);
                }
                if ok && go_on && !last && l.state(&(ph.name, image(&t))) {
                    let mut ops = st.ops.clone();
                    ops.push(op);
                    news.push(State { t, seed: st.seed, ops });
                }
            }
            if !news.is_empty() {
                next.lock().unwrap().append(&mut news);
            }
        });
        frontier = next.into_inner().unwrap();
    }
}

fn name_of(op: Op) -> String {
    let s = op.show();
    s.split('(').next().unwrap().to_string()
}

pub fn with_builders(ms: &[M], bs: &[B]) -> Vec<(M, B)> {
    let mut v = Vec::new();
    for m in ms {
        for b in bs {
            if b.can(m) {
                v.push((m.clone(), *b));
            }
        }
    }
    v
}

pub fn all_routes(ms: &[M]) -> Vec<(M, B)> {
    ms.iter().flat_map(|m| routes(m).into_iter().map(move |b| (m.clone(), b))).collect()
}

/// Every placement of one secondary edge (both endpoints arbitrary, distinct).
pub fn with_secondary(ms: &[M]) -> Vec<M> {
    let mut v = Vec::new();
    for m in ms {
        for a in m.nodes.keys() {
            for b in m.nodes.keys() {
                if a != b {
                    let mut x = m.clone();
                    x.sec.push(Sec {
                        eid: 0,
                        src: *a,
                        dst: *b,
                        label: if (a + b) % 2 == 0 { Some("s1".into()) } else { None },
                    });
                    v.push(x);
                }
            }
        }
    }
    v
}

fn run(sh: &Shared, mon: Mon) {
    let transform = mon == Mon::Spans;
    let invalid = mon == Mon::Refusal;
    let sp = |secondary: bool, sparse: bool| OpSpace { invalid, secondary, transform, sparse };
    let mut phases = Vec::new();
    // large and medium trees, one step, all builders
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect();
    phases.push(Phase { name: "medium", seeds: all_routes(&med), depth: 1, space: sp(true, false) });
    let large: Vec<M> = gen::large(false).iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    phases.push(Phase {
        name: "large",
        seeds: with_builders(&large, &[B::Negra, B::Api]),
        depth: 1,
        space: sp(true, true),
    });
    let nested: Vec<M> = gen::deep().iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    phases.push(Phase { name: "deeply nested", seeds: with_builders(&nested, &[B::Api]), depth: 1, space: sp(true, true) });
    // repeated labels and forms
    let same = gen::models(4, 2, false, &[Deco::Same, Deco::Cycle]);
    phases.push(Phase {
        name: "repeated",
        seeds: with_builders(&same, &[B::Negra, B::Moved, B::Api]),
        depth: 1,
        space: sp(true, false),
    });
    // odd contents
    phases.push(Phase {
        name: "odd contents",
        seeds: with_builders(&gen::odd_models(3, 3, false), &[B::Api, B::Negra]),
        depth: sh.pick(1, 2),
        space: sp(false, false),
    });
    // with one secondary edge
    let sec = with_secondary(&gen::models(sh.pick(3, 4), 2, false, &[Deco::Rich]));
    phases.push(Phase {
        name: "secondary",
        seeds: with_builders(&sec, &[B::Negra, B::Holes, B::Api]),
        depth: sh.pick(1, 2),
        space: sp(true, false),
    });
    // histories
    let rich = gen::models(sh.pick(3, 4), 3, false, &[Deco::Rich]);
    phases.push(Phase {
        name: "histories2",
        seeds: all_routes(&rich),
        depth: 2,
        space: sp(true, false),
    });
    let m4: Vec<M> = gen::models(4, 3, false, &[Deco::Rich]).into_iter().filter(|m| m.n() == 4).collect();
    phases.push(Phase {
        name: "histories2-4",
        seeds: with_builders(&m4, if sh.quick() { &[B::Holes] } else { &[B::Negra, B::Api, B::Holes] }),
        depth: 2,
        space: sp(false, false),
    });
    let small = gen::models(3, 2, false, &[Deco::Rich]);
    phases.push(Phase {
        name: "histories3",
        seeds: with_builders(&small, &[B::Api, B::Negra]),
        depth: 3,
        space: OpSpace { invalid: false, secondary: false, transform: false, sparse: false },
    });
    let tiny = gen::models(2, 2, false, &[Deco::Rich]);
    phases.push(Phase {
        name: "histories4",
        seeds: with_builders(&tiny, &[B::Api]),
        depth: sh.pick(3, 5),
        space: OpSpace { invalid: false, secondary: true, transform, sparse: false },
    });
    if !sh.quick() {
        let m5: Vec<M> = gen::models(5, 4, false, &[Deco::Rich]).into_iter().filter(|m| m.n() == 5).collect();
        phases.push(Phase {
            name: "n5",
            seeds: with_builders(&m5, &[B::Negra, B::Api, B::Holes]),
            depth: 1,
            space: sp(false, false),
        });
        let m5: Vec<M> = gen::models(5, 2, false, &[Deco::Rich]).into_iter().filter(|m| m.n() == 5).collect();
        phases.push(Phase { name: "n5d2", seeds: with_builders(&m5, &[B::Api]), depth: 2, space: sp(false, false) });
        phases.push(Phase {
            name: "medium2",
            seeds: with_builders(&med, &[B::Api, B::Holes]),
            depth: 2,
            space: sp(false, false),
        });
        phases.push(Phase {
            name: "deep3",
            seeds: with_builders(&gen::models(4, 3, false, &[Deco::Distinct]), &[B::Api]),
            depth: 3,
            space: OpSpace { invalid: false, secondary: false, transform: false, sparse: false },
        });
        phases.push(Phase {
            name: "deep4",
            seeds: with_builders(&gen::models(3, 2, false, &[Deco::Distinct]), &[B::Api]),
            depth: 4,
            space: OpSpace { invalid: false, secondary: false, transform: false, sparse: false },
        });
    }
    for p in phases {
        if sh.stopped() {
            break;
        }
        let t0 = std::time::Instant::now();
        let name = p.name;
        let (n, d) = (p.seeds.len(), p.depth);
        explore(sh, p, mon);
        sh.note(format!("phase {}: {} seeds, depth {}, {:.1}s", name, n, d, t0.elapsed().as_secs_f64()));
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "T01",
            run: |sh| run(sh, Mon::WellFormed),
            replay: replay_as::<EditCase<1>>,
            what: "breadth-first exploration of edit histories on the real Tree; after every edit the graph is read and checked for being one rooted tree with positions 0..n",
        },
        Check {
            id: "T02",
            run: |sh| run(sh, Mon::Spans),
            replay: replay_as::<EditCase<2>>,
            what: "breadth-first exploration of edit and transformation histories on the real Tree; after every step all spans and the projectivity verdict are compared with the yields recomputed from the graph",
        },
        Check {
            id: "T03",
            run: |sh| run(sh, Mon::Effect),
            replay: replay_as::<EditCase<3>>,
            what: "breadth-first exploration of edit histories on the real Tree; every accepted edit is compared, handles and returned value included, with the reference effect on a model of the tree before it",
        },
        Check {
            id: "T04",
            run: |sh| run(sh, Mon::Refusal),
            replay: replay_as::<EditCase<4>>,
            what: "breadth-first exploration of edit histories on the real Tree with all arguments, invalid ones included; acceptance, refusal and panics are compared with the documented conditions and the tree after a refusal with the tree before",
        },
    ]
}
