//! T10: climbing visits the ancestors, also when the nodes it has just visited are edited.
//!
//! Every nonterminal is assigned an action that is performed when a climb visits it. The next node has
//! to be the one that was its parent (read from the graph) when it was visited.

use super::{field, replay_as, Check};
use crate::build::{build, routes, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{extract, Id, M};
use lumberjack::util::Climber;
use lumberjack::{Edge, Tree};
use petgraph::prelude::{Direction, EdgeIndex, EdgeRef, NodeIndex};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Act {
    Go,
    Stop,
    Remove,
    Above,
    Below,
    ToRoot,
    Write,
    RemoveStop,
    NewRoot,
    Drop,
}
use Act::*;

const ACTS: [Act; 10] = [Go, Remove, Above, Below, ToRoot, Drop, NewRoot, Stop, RemoveStop, Write];

fn letter(a: Act) -> char {
    match a {
        Go => '.',
        Stop => '!',
        Remove => 'r',
        Above => 'a',
        Below => 'b',
        ToRoot => 't',
        Write => 'w',
        RemoveStop => 'R',
        NewRoot => 'n',
        Drop => 'd',
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Map,
    Next,
    WithEdge,
    Mixed,
}

struct Climb {
    m: M,
    b: B,
    acts: Vec<Act>,
    mode: Mode,
}

/// The primary edge into a node, read from the graph.
fn above(t: &Tree, n: NodeIndex) -> Option<(NodeIndex, EdgeIndex)> {
    t.graph()
        .edges_directed(n, Direction::Incoming)
        .find(|e| match e.weight() {
            Edge::Primary(_) => true,
            Edge::Secondary(_) => false,
        })
        .map(|e| (e.source(), e.id()))
}

/// Perform the action when the climb from `start` visits `n`; whether to stop.
fn act(t: &mut Tree, start: NodeIndex, n: NodeIndex, a: Act) -> bool {
    match a {
        Go => false,
        Stop => true,
        Remove => {
            let _ = t.remove_node(n);
            false
        }
        RemoveStop => {
            let _ = t.remove_node(n);
            true
        }
        Above => {
            t.insert_unary_above(n, "A");
            false
        }
        Below => {
            let _ = t.insert_unary_below(n, "B");
            false
        }
        Drop => {
            // only once, and only the word
            if t.graph().contains_node(start) && t[start].is_terminal() {
                let _ = t.remove_node(start);
            }
            false
        }
        NewRoot => {
            let root = t.root();
            t.insert_unary_above(root, "N");
            false
        }
        ToRoot => {
            let root = t.root();
            if let Some((_, e)) = above(t, n) {
                let _ = t.reattach_node(root, e);
            }
            false
        }
        Write => {
            t[n].set_label("W");
            t[n].features_mut().insert("w", Some("1"));
            false
        }
    }
}

impl Climb {
    fn text(m: &str, b: B, mode: Mode, acts: &[Act]) -> String {
        format!("tree {}\nvia {}\nmode {:?}\nacts {}", m, b.name(), mode, acts.iter().map(|a| letter(*a)).collect::<String>())
    }
    fn map(&self, t: Tree, acts: &BTreeMap<NodeIndex, Act>) -> Verdict {
        let mut todo: BTreeSet<NodeIndex> = t.graph().node_indices().filter(|n| t[*n].is_terminal()).collect();
        let mut path: Option<(NodeIndex, Option<NodeIndex>)> = None;
        let mut err: Option<String> = None;
        let mut steps = 0usize;
        // every step is compared with the parent in the graph, so this is never reached by a right climb
        let limit = 1usize << 24;
        let mut t = t;
        let r = guard(|| {
            t.map_climber_path(|t, n, term| {
                steps += 1;
                if err.is_some() || steps > limit {
                    err = err.take().or_else(|| Some("climbing does not end".into()));
                    return true;
                }
                let want = match path {
                    Some((p, next)) if p == term => next,
                    _ => {
                        if let Some((p, Some(next))) = path {
                            err = Some(format!("climb from {:?} ended before {:?}", p, next));
                            return true;
                        }
                        if !todo.remove(&term) {
                            err = Some(format!("second climb from {:?}", term));
                            return true;
                        }
                        above(t, term).map(|(p, _)| p)
                    }
                };
                if want != Some(n) {
                    err = Some(format!("climb from {:?} visits {:?} instead of {:?}", term, n, want));
                    return true;
                }
                let next = above(t, n).map(|(p, _)| p);
                let stop = act(t, term, n, acts.get(&n).cloned().unwrap_or(Go));
                path = Some((term, if stop { None } else { next }));
                stop
            });
        });
        if let Some(e) = err {
            return Err(e);
        }
        r?;
        if let Some((p, Some(next))) = path {
            return Err(format!("climb from {:?} ended before {:?}", p, next));
        }
        if let Some(x) = todo.iter().find(|x| above(&t, **x).is_some()) {
            return Err(format!("no climb from {:?}", x));
        }
        extract(&t).map(|_| ()).map_err(|e| format!("afterwards: {}", e))
    }
    fn manual(&self, t: Tree, acts: &BTreeMap<NodeIndex, Act>, with_edge: fn(usize) -> bool) -> Verdict {
        let starts: Vec<NodeIndex> = t.graph().node_indices().collect();
        for start in starts {
            let mut t = t.clone();
            let mut c = guard(|| Climber::new(start, &t))?;
            let mut want = above(&t, start);
            let mut steps = 0;
            loop {
                steps += 1;
                let got = if with_edge(steps) {
                    guard(|| c.next_with_edge(&t))?
                } else {
                    guard(|| c.next(&t))?.map(|n| (n, want.map(|w| w.1).unwrap_or_default()))
                };
                if got != want {
                    return Err(format!("climb from {:?} gives {:?} instead of {:?}", start, got, want));
                }
                let n = match got {
                    Some((n, _)) => n,
                    None => break,
                };
                want = above(&t, n);
                // the caller decides to stop, the climber does not know
                guard(|| act(&mut t, start, n, acts.get(&n).cloned().unwrap_or(Go)))?;
            }
            if guard(|| c.next(&t))?.is_some() {
                return Err(format!("climb from {:?} goes on after its end", start));
            }
            extract(&t).map_err(|e| format!("afterwards: {}", e))?;
        }
        Ok(())
    }
}

impl Climb {
    fn judge(&self, built: &(Tree, BTreeMap<Id, NodeIndex>)) -> Verdict {
        let (t, map) = built;
        let acts: BTreeMap<NodeIndex, Act> = self
            .m
            .nodes
            .iter()
            .filter(|(_, n)| !n.is_t())
            .map(|(i, _)| map[i])
            .zip(self.acts.iter().cloned())
            .collect();
        match self.mode {
            Mode::Map => self.map(t.clone(), &acts),
            Mode::Next => self.manual(t.clone(), &acts, |_| false),
            Mode::WithEdge => self.manual(t.clone(), &acts, |_| true),
            Mode::Mixed => self.manual(t.clone(), &acts, |k| k % 2 == 1),
        }
    }
}

impl Case for Climb {
    fn show(&self) -> String {
        Self::text(&self.m.to_text(), self.b, self.mode, &self.acts)
    }
    fn parse(s: &str) -> Option<Self> {
        let m = M::parse(field(s, "tree")?)?;
        let b = B::parse(field(s, "via")?)?;
        let mode = *[Mode::Map, Mode::Next, Mode::WithEdge, Mode::Mixed]
            .iter()
            .find(|m| Some(format!("{:?}", m).as_str()) == field(s, "mode"))?;
        let acts = field(s, "acts")
            .unwrap_or("")
            .chars()
            .map(|c| ACTS.iter().find(|a| letter(**a) == c).cloned())
            .collect::<Option<Vec<_>>>()?;
        Some(Climb { m, b, acts, mode })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        self.judge(&build(self.b, &self.m)?)
    }
}

fn explore(sh: &Shared, name: &'static str, ms: Vec<(M, B)>, n_acts: usize) {
    let mut cases = 0u64;
    for (m, _) in &ms {
        cases += 4 * (n_acts as u64).pow(m.nodes.values().filter(|n| !n.is_t()).count() as u32);
    }
    sh.note(format!("phase {}: {} trees, {} assignments of {} actions", name, ms.len(), cases, n_acts));
    sh.par(ms.len(), |i, l| {
        let (m, b) = &ms[i];
        let built = match build(*b, m) {
            Ok(x) => x,
            Err(_) => {
                l.count("seed_skipped", 1);
                return;
            }
        };
        let text = m.to_text();
        l.state(&text);
        let k = m.nodes.values().filter(|n| !n.is_t()).count();
        for code in 0..n_acts.pow(k as u32) {
            let mut c = code;
            let acts: Vec<Act> = (0..k)
                .map(|_| {
                    let a = ACTS[c % n_acts];
                    c /= n_acts;
                    a
                })
                .collect();
            for mode in [Mode::Map, Mode::Next, Mode::WithEdge, Mode::Mixed].iter() {
                if l.stopped() {
                    return;
                }
                let case = Climb { m: m.clone(), b: *b, acts: acts.clone(), mode: *mode };
                l.case_text(Climb::text(&text, *b, *mode, &acts), |_| case.judge(&built));
                l.count("transitions", 1);
            }
        }
    });
}

fn run(sh: &Shared) {
    let every = |ms: &[M]| -> Vec<(M, B)> {
        ms.iter().flat_map(|m| routes(m).into_iter().map(move |b| (m.clone(), b))).collect()
    };
    explore(sh, "all actions", every(&gen::models(3, 3, false, &[Deco::Rich])), sh.pick(9, 10));
    // n = 4, and chains of nonterminals
    let m4 = gen::models(4, 3, false, &[Deco::Distinct]);
    let with = |ms: &[M], bs: &[B]| super::edit::with_builders(ms, bs);
    explore(sh, "four terminals", with(&m4, sh.pick(&[B::Holes][..], &[B::Holes, B::Negra, B::Api])), sh.pick(6, 10));
    let m2 = gen::models(2, 5, false, &[Deco::Distinct]);
    explore(sh, "chains", with(&m2, &[B::Api]), sh.pick(4, 6));
    // with secondary edges everywhere
    let sec = super::edit::with_secondary(&gen::models(3, sh.pick(2, 3), false, &[Deco::Distinct]));
    explore(sh, "secondary edges", with(&sec, &[B::Negra, B::Holes]), 10);
    if !sh.quick() {
        let m44: Vec<M> = gen::models(4, 4, false, &[Deco::Distinct]);
        explore(sh, "four and four", with(&m44, &[B::Api]), 6);
    }
    // long climbs
    let big: Vec<M> = gen::large(false).iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    sh.par(big.len(), |i, l| {
        let m = &big[i];
        let built = match build(B::Api, m) {
            Ok(x) => x,
            Err(_) => return,
        };
        let k = m.nodes.values().filter(|n| !n.is_t()).count();
        // a new root at every step would make the tree grow without end
        for a in ACTS.iter().filter(|a| **a != NewRoot) {
            for b in [Go, Remove, Above].iter() {
                for mode in [Mode::Map, Mode::Mixed].iter() {
                    let acts: Vec<Act> = (0..k).map(|j| if j % 2 == 0 { *a } else { *b }).collect();
                    let case = Climb { m: m.clone(), b: B::Api, acts, mode: *mode };
                    let text = case.show();
                    l.case_text(text, |_| case.judge(&built));
                }
            }
        }
    });
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "T10",
        run,
        replay: replay_as::<Climb>,
        what: "every assignment of actions (none, stop, remove, remove the word climbed from, insert above or below, insert a new root, reattach to the root, relabel) to the nonterminals of every small tree, performed when a climb visits them; every step of map_climber_path, Climber::next and next_with_edge compared with the parent read from the graph",
    }]
}
