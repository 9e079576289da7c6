//! M01–M07: transformations.

use super::{field, replay_as, Check};
use crate::build::{build, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{check_spans, extract, nx, Id, MNode, M};
use crate::ops::{all_ops, apply, diff, expect, Expect, Op, OpSpace};
use lumberjack::{AnnotatePOS, Edge, Projectivize, Tree, TreeOps, UnaryChains};
use petgraph::prelude::NodeIndex;
use std::collections::{BTreeMap, BTreeSet};

/// A predicate over numbered nodes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Bits(u64),
    Mod(usize, usize),
    From(usize),
    All,
}

impl Pred {
    pub fn has(self, i: usize) -> bool {
        match self {
            Pred::Bits(b) => i < 64 && b & (1 << i) != 0,
            Pred::Mod(k, r) => i % k == r,
            Pred::From(k) => i >= k,
            Pred::All => true,
        }
    }
    pub fn show(self) -> String {
        match self {
            Pred::Bits(b) => format!("b{}", b),
            Pred::Mod(k, r) => format!("m{}.{}", k, r),
            Pred::From(k) => format!("f{}", k),
            Pred::All => "a".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Pred> {
        let r = s.get(1..)?;
        Some(match &s[..1] {
            "b" => Pred::Bits(r.parse().ok()?),
            "m" => {
                let mut it = r.split('.');
                Pred::Mod(it.next()?.parse().ok()?, it.next()?.parse().ok()?)
            }
            "f" => Pred::From(r.parse().ok()?),
            "a" => Pred::All,
            _ => return None,
        })
    }
    /// All predicates over `n` nodes, or a spread of them if there are more than `max` bits.
    pub fn over(n: usize, max: usize) -> Vec<Pred> {
        if n <= max {
            return (0..(1u64 << n)).map(Pred::Bits).collect();
        }
        let mut v = vec![Pred::Bits(0), Pred::All, Pred::From(1), Pred::From(n / 2), Pred::From(n - 1)];
        for k in 2..5 {
            for r in 0..k {
                v.push(Pred::Mod(k, r));
            }
        }
        for i in (0..n.min(64)).step_by(1 + n / 24) {
            v.push(Pred::Bits(1 << i));
            v.push(Pred::Bits(!(1 << i)));
        }
        for i in (0..n.min(62)).step_by(1 + n / 12) {
            v.push(Pred::Bits(3 << i));
            v.push(Pred::Bits(5 << i));
        }
        v
    }
}

#[derive(Clone, Debug)]
pub enum Act {
    Projectivize,
    Collapse(usize),
    Filter(Pred),
    Intermediate(Pred, bool),
    Reattach(usize, Pred),
    Pos(usize),
    ParentTag,
    Project(Pred),
    Absolute,
    Relative,
    Export,
    Dummies(Pred, bool),
}

const DELIMS: [&str; 5] = ["+", "_", "é", "<>", "|~|"];

impl Act {
    fn show(&self) -> String {
        match self {
            Act::Projectivize => "projectivize".into(),
            Act::Collapse(d) => format!("collapse {}", d),
            Act::Filter(p) => format!("filter {}", p.show()),
            Act::Intermediate(p, b) => format!("intermediate {} {}", p.show(), *b as u8),
            Act::Reattach(a, p) => format!("reattach {} {}", a, p.show()),
            Act::Pos(k) => format!("pos {}", k),
            Act::ParentTag => "parenttag".into(),
            Act::Project(p) => format!("project {}", p.show()),
            Act::Absolute => "absolute".into(),
            Act::Relative => "relative".into(),
            Act::Export => "export".into(),
            Act::Dummies(p, b) => format!("dummies {} {}", p.show(), *b as u8),
        }
    }
    fn parse(s: &str) -> Option<Act> {
        let mut it = s.split(' ');
        Some(match it.next()? {
            "projectivize" => Act::Projectivize,
            "collapse" => Act::Collapse(it.next()?.parse().ok()?),
            "filter" => Act::Filter(Pred::parse(it.next()?)?),
            "intermediate" => Act::Intermediate(Pred::parse(it.next()?)?, it.next()? == "1"),
            "reattach" => Act::Reattach(it.next()?.parse().ok()?, Pred::parse(it.next()?)?),
            "pos" => Act::Pos(it.next()?.parse().ok()?),
            "parenttag" => Act::ParentTag,
            "project" => Act::Project(Pred::parse(it.next()?)?),
            "absolute" => Act::Absolute,
            "relative" => Act::Relative,
            "export" => Act::Export,
            "dummies" => Act::Dummies(Pred::parse(it.next()?)?, it.next()? == "1"),
            _ => return None,
        })
    }
}

pub struct TCase {
    m: M,
    b: B,
    /// primary edges were re-created after the secondary ones
    late: bool,
    /// operations before the judged one
    pre: Vec<Op>,
    act: Act,
}

/// Build the tree of a case.
fn prepare(m: &M, b: B, late: bool, pre: &[Op]) -> Result<(Tree, M), String> {
    let (mut t, _) = build(b, m)?;
    if late {
        let x = extract(&t)?;
        super::query::recreate_primary(&mut t, &x)?;
    }
    for op in pre {
        apply(&mut t, *op);
    }
    let x = extract(&t)?;
    check_spans(&t, &x)?;
    Ok((t, x))
}

impl Case for TCase {
    fn show(&self) -> String {
        format!(
            "tree {}\nvia {}\nlate {}\npre {}\nact {}",
            self.m.to_text(),
            self.b.name(),
            self.late,
            self.pre.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "),
            self.act.show()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        Some(TCase {
            m: M::parse(field(s, "tree")?)?,
            b: B::parse(field(s, "via")?)?,
            late: field(s, "late").map_or(false, |l| l == "true"),
            pre: field(s, "pre").map_or(vec![], |f| f.split("; ").filter_map(Op::parse).collect()),
            act: Act::parse(field(s, "act")?)?,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        // routes through text don't fix the numbering of a parsed model, canonical ids do
        let m = self.m.canon();
        let make = || prepare(&m, self.b, self.late, &self.pre);
        judge(&self.act, &make, l)
    }
}

pub type Make<'a> = &'a dyn Fn() -> Result<(Tree, M), String>;

/// A tree that can't be made in the first place is judged by T01, T02 and F03.
pub fn judge_seed(make: Make, l: &mut Local) -> Option<(Tree, M)> {
    match make() {
        Ok(v) => Some(v),
        Err(_) => {
            l.count("seed_skipped", 1);
            None
        }
    }
}

fn judge(act: &Act, make: Make, l: &mut Local) -> Verdict {
    if let Act::Absolute | Act::Relative | Act::Export | Act::Dummies(..) = act {
        return super::e::judge_e(act, make, l);
    }
    let (t, x) = match judge_seed(make, l) {
        Some(v) => v,
        None => return Ok(()),
    };
    match act {
        Act::Projectivize => projectivize(make, t, &x, l),
        Act::Collapse(d) => collapse(t, &x, DELIMS[*d], l),
        Act::Filter(p) => filter(t, &x, *p, l),
        Act::Intermediate(p, b) => intermediate(t, &x, *p, *b, l),
        Act::Reattach(a, p) => reattach(t, &x, *a, *p, l),
        Act::Pos(k) => annotate_pos(t, &x, *k, l),
        Act::ParentTag => parent_tag(t, &x, l),
        Act::Project(p) => project(t, &x, *p, l),
        Act::Absolute | Act::Relative | Act::Export | Act::Dummies(..) => unreachable!(),
    }
}

/// The tree after a transformation has to be well formed, with correct spans.
fn sound(t: &Tree) -> Result<M, String> {
    let y = extract(t)?;
    check_spans(t, &y)?;
    Ok(y)
}

/// Nodes of `x` in canonical order.
fn canonical(x: &M) -> Vec<Id> {
    let mut v: Vec<(Id, Id)> = x.canon_map().into_iter().map(|(a, b)| (b, a)).collect();
    v.sort();
    v.into_iter().map(|(_, a)| a).collect()
}

pub fn canonical_nts(x: &M) -> Vec<Id> {
    canonical(x).into_iter().filter(|i| !x.nodes[i].is_t()).collect()
}

fn same(y: &M, want: &M, what: &str) -> Verdict {
    if y == want {
        Ok(())
    } else {
        Err(format!("{}: result is\n  {}\ninstead of\n  {}{}", what, y.to_text(), want.to_text(), diff(y, want)))
    }
}

/// Forget the edge label above the given nodes.
fn blur(m: &M, ids: &BTreeSet<Id>) -> M {
    m.map_nodes(|i, n| {
        if ids.contains(&i) {
            n.edge = None
        }
    })
}

// ---------------------------------------------------------------------------------------------
// M01

/// Tree structure for the exploration of projectivization: parents and yields as bit sets.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct PTree {
    parent: Vec<Option<usize>>,
}

struct PInfo {
    ids: Vec<Id>,
    /// node at each position
    leaf: Vec<usize>,
    /// descendants in the original tree
    below: Vec<BTreeSet<usize>>,
}

impl PTree {
    fn yields(&self, inf: &PInfo) -> Vec<u128> {
        let mut y = vec![0u128; self.parent.len()];
        for (pos, &l) in inf.leaf.iter().enumerate() {
            let mut c = Some(l);
            while let Some(i) = c {
                y[i] |= 1 << pos;
                c = self.parent[i];
            }
        }
        y
    }
}

fn gaps(y: u128) -> Vec<usize> {
    let lo = y.trailing_zeros() as usize;
    let hi = 128 - y.leading_zeros() as usize;
    (lo..hi).filter(|i| y & (1 << i) == 0).collect()
}

/// Move the constituent with position `s` out of the way of `p`; returns (moved, old parent).
fn lift(t: &mut PTree, inf: &PInfo, y: &[u128], p: usize, s: usize) -> (usize, usize) {
    let mut prev = inf.leaf[s];
    loop {
        let a = t.parent[prev].expect("an ancestor covers the node");
        if y[a] & y[p] == y[p] {
            t.parent[prev] = Some(p);
            return (prev, a);
        }
        prev = a;
    }
}

/// Exhaustive exploration of all orders in which discontinuous nodes (bottom-up) and their gaps
/// can be processed. Returns the set of final structures, or None if there are too many states.
fn outcomes(x: &M, cap: usize) -> Option<(PInfo, BTreeSet<PTree>, usize)> {
    let ids: Vec<Id> = x.nodes.keys().cloned().collect();
    let at: BTreeMap<Id, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let inf = PInfo {
        leaf: x.terms().iter().map(|i| at[i]).collect(),
        below: ids.iter().map(|i| x.desc(*i).iter().map(|j| at[j]).collect()).collect(),
        ids,
    };
    let t0 = PTree { parent: inf.ids.iter().map(|i| x.nodes[i].parent.map(|p| at[&p])).collect() };
    if inf.leaf.len() > 120 {
        return None;
    }
    let mut seen: BTreeSet<(PTree, Vec<usize>, Option<usize>)> = BTreeSet::new();
    let mut out = BTreeSet::new();
    let all: Vec<usize> = (0..inf.ids.len()).filter(|i| !inf.leaf.contains(i)).collect();
    let mut stack = vec![(t0, all, None)];
    while let Some((t, rem, cur)) = stack.pop() {
        let y = t.yields(&inf);
        // nodes without a gap need no processing now, but may get one later: they stay in `rem`
        if rem.is_empty() && cur.is_none() {
            out.insert(t.clone());
            continue;
        }
        if !seen.insert((t.clone(), rem.clone(), cur)) {
            continue;
        }
        if seen.len() > cap {
            return None;
        }
        if let Some(p) = cur {
            let g = gaps(y[p]);
            if g.is_empty() {
                stack.push((t, rem, None));
                continue;
            }
            for s in g {
                let mut u = t.clone();
                lift(&mut u, &inf, &y, p, s);
                stack.push((u, rem.clone(), Some(p)));
            }
            continue;
        }
        // nodes all of whose descendants are done; continuous ones first (nothing to do for them
        // whenever they are visited before something is moved below them)
        for (k, &p) in rem.iter().enumerate() {
            if rem.iter().any(|q| inf.below[p].contains(q)) {
                continue;
            }
            let mut r = rem.clone();
            r.remove(k);
            stack.push((t.clone(), r, Some(p)));
        }
    }
    let n = seen.len();
    Some((inf, out, n))
}

/// Is the reported sequence of moves a run of the model (bottom-up, each discontinuous node until it
/// has no gap, every moved constituent the one right below the lowest covering ancestor), and does
/// it end in `y`?
fn conforms(x: &M, y: &M, moves: &[(NodeIndex, Edge, NodeIndex)]) -> Result<(), String> {
    let below: BTreeMap<Id, BTreeSet<Id>> = x.nodes.keys().map(|i| (*i, x.desc(*i))).collect();
    let terms = x.terms();
    // (model, node being processed, number of moves done)
    let mut stack: Vec<(M, Option<Id>, usize)> = vec![(x.without_sec(), None, 0)];
    let mut far = 0;
    while let Some((m, cur, k)) = stack.pop() {
        far = far.max(k);
        let yields: BTreeMap<Id, BTreeSet<usize>> = m.nodes.keys().map(|i| (*i, m.yield_of(*i))).collect();
        let gap = |i: Id| -> Vec<usize> {
            let y = &yields[&i];
            let (lo, hi) = (*y.iter().next().unwrap(), *y.iter().next_back().unwrap());
            if hi - lo + 1 == y.len() {
                return vec![];
            }
            (lo..hi).filter(|p| !y.contains(p)).collect()
        };
        if k == moves.len() {
            if m.nodes.keys().all(|i| gap(*i).is_empty()) && m == y.without_sec() {
                return Ok(());
            }
            continue;
        }
        let (a, e, c) = (moves[k].0.index(), &moves[k].1, moves[k].2.index());
        let cur = cur.filter(|p| !gap(*p).is_empty());
        let cands: Vec<Id> = match cur {
            Some(p) => vec![p],
            None => m
                .nodes
                .keys()
                .cloned()
                .filter(|p| !gap(*p).is_empty() && below[p].iter().all(|d| gap(*d).is_empty()))
                .collect(),
        };
        if m.nodes.get(&c).map_or(true, |n| n.parent != Some(a) || *e != Edge::Primary(n.edge.clone())) {
            continue;
        }
        for p in cands {
            let ok = gap(p).into_iter().any(|s| {
                let mut prev = terms[s];
                loop {
                    let up = m.nodes[&prev].parent.unwrap();
                    if yields[&up].is_superset(&yields[&p]) {
                        return (prev, up) == (c, a);
                    }
                    prev = up;
                }
            });
            if ok {
                let mut u = m.clone();
                let label = u.nodes[&c].edge.clone();
                u.attach(p, c, label);
                stack.push((u, Some(p), k + 1));
            }
        }
    }
    Err(format!(
        "the reported moves {:?} are not a bottom-up projectivization ending in the result (agreement up to move {})",
        moves.iter().map(|(a, e, b)| (a.index(), e, b.index())).collect::<Vec<_>>(),
        far
    ))
}

/// All trees the model can end in, explored over all bottom-up orders and all choices of gaps.
fn projectivized(x: &M, l: &mut Local) -> Option<Vec<M>> {
    if x.n() > 7 {
        return None;
    }
    let (inf, out, n) = outcomes(x, 40_000)?;
    l.count("model_states", n as u64);
    l.outcome(if out.len() == 1 { "all orders agree" } else { "orders of siblings differ" });
    Some(
        out.into_iter()
            .map(|p| {
                let mut m = x.clone();
                let edges: Vec<Option<String>> = inf.ids.iter().map(|i| x.nodes[i].edge.clone()).collect();
                for (i, par) in p.parent.iter().enumerate() {
                    if let Some(par) = par {
                        m.attach(inf.ids[*par], inf.ids[i], edges[i].clone());
                    }
                }
                m
            })
            .collect(),
    )
}

fn projectivize(make: Make, t0: Tree, x: &M, l: &mut Local) -> Verdict {
    if x.projective() {
        l.outcome("projective");
        let mut t = t0.clone();
        let before = crate::ops::snapshot(&t)?;
        let r = guard(|| t.projectivize())?;
        if r.is_some() {
            return Err(format!("projective tree reported as changed: {:?}", r));
        }
        if crate::ops::snapshot(&t)? != before {
            return Err("projective tree was changed".into());
        }
        return Ok(());
    }
    l.outcome("discontinuous");
    let wants = projectivized(x, l);
    // The iteration order of skipped positions depends on the hash seed: repeat the construction
    // until every position of every gap has come first.
    let mut firsts: BTreeMap<Id, BTreeSet<usize>> = BTreeMap::new();
    let total: usize = x.nodes.keys().filter(|i| x.has_gap(**i)).map(|i| gap_size(x, *i)).sum();
    let reps = if total <= 12 { 40 } else { 4 };
    let mut t = t0;
    let mut first: Option<M> = None;
    for rep in 0..reps {
        for i in x.nodes.keys() {
            if let Some(&f) = t[nx(*i)].span().skips().and_then(|s| s.iter().next()) {
                firsts.entry(*i).or_default().insert(f);
            }
        }
        l.count("transitions", 1);
        let moves = guard(|| t.projectivize())?.ok_or("discontinuous tree reported as projective")?;
        let y = sound(&t)?;
        if !t.is_projective() {
            return Err("the result is not projective".into());
        }
        if let Some(w) = &wants {
            if !w.contains(&y) {
                return Err(format!(
                    "attempt {}: result is\n  {}\nwhich no order gives, for example\n  {}{}",
                    rep,
                    y.to_text(),
                    w[0].to_text(),
                    diff(&y, &w[0])
                ));
            }
        }
        match &first {
            None => first = Some(y.clone()),
            Some(f) if *f != y => {
                return Err(format!(
                    "attempt {} on the same tree: result is\n  {}\nthe first time it was\n  {}",
                    rep,
                    y.to_text(),
                    f.to_text()
                ))
            }
            _ => (),
        }
        // undo the reported moves
        let mut u = y.clone();
        for (p, e, c) in moves.iter().rev() {
            let label = match e {
                Edge::Primary(l) => l.clone(),
                e => return Err(format!("reported edge {:?}", e)),
            };
            let (p, c) = (p.index(), c.index());
            if !u.nodes.contains_key(&p) || !u.nodes.contains_key(&c) || u.nodes[&p].is_t() {
                return Err(format!("reported move {:?}", (p, c)));
            }
            if u.nodes[&c].parent == Some(p) {
                return Err(format!("reported move of {} from {} to {}", c, p, p));
            }
            if u.desc(c).contains(&p) || p == c {
                return Err(format!("reported move of {} from its own descendant {}", c, p));
            }
            u.attach(p, c, label);
        }
        if u != *x {
            return Err(format!(
                "undoing the reported moves {:?} gives\n  {}\ninstead of\n  {}",
                moves.iter().map(|(a, e, b)| (a.index(), e, b.index())).collect::<Vec<_>>(),
                u.to_text(),
                x.to_text()
            ));
        }
        conforms(x, &y, &moves)?;
        if firsts.values().map(|s| s.len()).sum::<usize>() >= total && rep > 2 {
            break;
        }
        t = make()?.0;
    }
    let seen: usize = firsts.values().map(|s| s.len()).sum();
    l.count("gap_orders_seen", seen as u64);
    l.count("gap_orders_total", total as u64);
    Ok(())
}

fn gap_size(x: &M, i: Id) -> usize {
    let y = x.yield_of(i);
    y.iter().next_back().unwrap() - y.iter().next().unwrap() + 1 - y.len()
}

// ---------------------------------------------------------------------------------------------
// M02

/// For each node that ends a unary chain: the chain above it, bottom-up.
fn unary_chains(x: &M) -> BTreeMap<Id, Vec<Id>> {
    let single = |i: Id| !x.nodes[&i].is_t() && x.nodes[&i].kids.len() == 1;
    let mut v = BTreeMap::new();
    for i in x.nodes.keys().filter(|i| !single(**i)) {
        let chain: Vec<Id> = x.ancestors(*i).into_iter().take_while(|a| single(*a)).collect();
        if !chain.is_empty() {
            v.insert(*i, chain);
        }
    }
    v
}

fn collapse(mut t: Tree, x: &M, delim: &str, l: &mut Local) -> Verdict {
    if x.nodes.values().any(|n| delim.chars().any(|c| n.label().contains(c))) {
        return Ok(());
    }
    l.count("transitions", 3);
    // restoring without recorded chains changes nothing
    if !x.nodes.values().any(|n| n.feats.contains_key("unary_chain")) {
        let mut u = t.clone();
        guard(|| u.restore_unary_chains(delim))?.map_err(|e| format!("restoring nothing: {}", e))?;
        same(&sound(&u)?, x, "restoring without chains")?;
    }
    let chains = unary_chains(x);
    l.outcome(if chains.is_empty() { "no chains" } else { "chains" });
    guard(|| t.collapse_unary_chains(delim))?.map_err(|e| format!("collapsing: {}", e))?;
    let y = sound(&t)?;
    let mut want = x.clone();
    let mut blurred = BTreeSet::new();
    for (low, chain) in &chains {
        let labels: Vec<&str> = chain.iter().map(|i| x.nodes[i].label()).collect();
        let mut s = labels.join(delim);
        if let Some(Some(old)) = x.nodes[low].feats.get("unary_chain") {
            s = format!("{}{}{}", old, delim, s);
        }
        for c in chain {
            want.splice_out(*c);
        }
        want.nodes.get_mut(low).unwrap().feats.insert("unary_chain".into(), Some(s));
        blurred.insert(*low);
    }
    same(&blur(&y, &blurred), &blur(&want, &blurred), "collapsing")?;
    // a second time nothing is left to collapse
    let mut u = t.clone();
    guard(|| u.collapse_unary_chains(delim))?.map_err(|e| format!("collapsing twice: {}", e))?;
    same(&sound(&u)?, &y, "collapsing twice")?;
    // and back
    guard(|| t.restore_unary_chains(delim))?.map_err(|e| format!("restoring: {}", e))?;
    let z = sound(&t)?;
    let plain = |m: &M| {
        let ch = unary_chains(m);
        let mut blurred: BTreeSet<Id> = ch.keys().cloned().collect();
        let mut clear = BTreeSet::new();
        for c in ch.values() {
            blurred.extend(c.iter().cloned());
            clear.extend(c.iter().cloned());
        }
        let m = blur(m, &blurred).map_nodes(|i, n| {
            if clear.contains(&i) {
                n.feats.clear();
            }
            n.feats.remove("unary_chain");
        });
        m.without_sec().canon()
    };
    // trees that carried recorded chains before are expanded further
    if !x.nodes.values().any(|n| n.feats.contains_key("unary_chain")) {
        if z.nodes.values().any(|n| n.feats.contains_key("unary_chain")) {
            return Err("recorded chain left after restoring".into());
        }
        let (a, b) = (plain(&z), plain(x));
        same(&a, &b, "collapsing and restoring")?;
        if z.sec != y.sec {
            return Err(format!("restoring changed the secondary edges {:?} to {:?}", y.sec, z.sec));
        }
        // nodes that are in no chain keep their handles
        for i in y.nodes.keys() {
            if z.nodes.get(i).map(|n| n.label()) != Some(y.nodes[i].label()) {
                return Err(format!("node {} changed by restoring", i));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// M03

fn filter(mut t: Tree, x: &M, p: Pred, l: &mut Local) -> Verdict {
    l.count("transitions", 1);
    let nts: Vec<Id> = canonical_nts(x);
    let keep: BTreeSet<Id> = nts.iter().enumerate().filter(|(k, _)| p.has(*k)).map(|(_, i)| *i).collect();
    let k2 = keep.clone();
    guard(|| t.filter_nonterminals(|_, i| k2.contains(&i.index())))?
        .map_err(|e| format!("filtering: {}", e))?;
    let y = sound(&t)?;
    let mut want = x.clone();
    let mut blurred = BTreeSet::new();
    for i in &nts {
        if *i != x.root && !keep.contains(i) {
            blurred.extend(want.nodes[i].kids.iter().cloned());
            want.splice_out(*i);
        }
    }
    l.outcome(if blurred.is_empty() { "kept all" } else { "removed some" });
    same(&blur(&y, &blurred), &blur(&want, &blurred), "filtering")?;
    for b in blurred.iter().filter(|b| y.nodes.contains_key(b)) {
        let e = &y.nodes[b].edge;
        if e.is_some() && *e != x.nodes[b].edge {
            return Err(format!("edge above {} got the label {:?}", b, e));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// M04

fn intermediate(mut t: Tree, x: &M, p: Pred, one_label: bool, l: &mut Local) -> Verdict {
    l.count("transitions", 1);
    let nts = canonical_nts(x);
    let num: BTreeMap<Id, usize> = nts.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    // the label may depend on the children of the parent
    let name = |k: usize, kids: usize| if one_label { "ins".to_string() } else { format!("ins{}.{}", k, kids) };
    let n2 = num.clone();
    let r = guard(|| {
        t.insert_intermediate(|t, i| match n2.get(&i.index()) {
            Some(k) if p.has(*k) => Some(name(*k, t.children(i).count())),
            Some(_) => None,
            // a node that was just inserted
            None => Some("twice".to_string()),
        })
    })?;
    if x.nodes[&x.root].is_t() {
        l.outcome("no parent");
        if r.is_ok() {
            return Err("terminal without parent accepted".into());
        }
        return same(&sound(&t)?, x, "refused insertion");
    }
    if let Err(e) = r {
        return Err(format!("inserting: {}", e));
    }
    let y = sound(&t)?;
    // expected: new nodes are identified by the run they hold
    let mut want = x.clone();
    let mut fresh: BTreeMap<BTreeSet<Id>, String> = BTreeMap::new();
    let mut blurred = BTreeSet::new();
    for (i, k) in &num {
        if !p.has(*k) {
            continue;
        }
        let n_kids = x.nodes[i].kids.len();
        let mut ts: Vec<Id> = x.nodes[i].kids.iter().cloned().filter(|c| x.nodes[c].is_t()).collect();
        ts.sort_by_key(|c| x.nodes[c].pos());
        let mut runs: Vec<Vec<Id>> = Vec::new();
        for c in ts {
            match runs.last_mut() {
                Some(r) if x.nodes[r.last().unwrap()].pos() + 1 == x.nodes[&c].pos() => r.push(c),
                _ => runs.push(vec![c]),
            }
        }
        for r in runs {
            let set: BTreeSet<Id> = r.into_iter().collect();
            // find the new node in the result
            let cand: Vec<Id> = y
                .nodes
                .iter()
                .filter(|(j, n)| !x.nodes.contains_key(j) && n.kids == set)
                .map(|(j, _)| *j)
                .collect();
            if cand.len() != 1 {
                return Err(format!(
                    "{} new nodes directly above exactly the terminals {:?} of node {}\n  {}",
                    cand.len(),
                    set.iter().map(|c| x.nodes[c].pos()).collect::<Vec<_>>(),
                    i,
                    y.to_text()
                ));
            }
            want.nodes.insert(cand[0], MNode::new_n(&name(*k, n_kids)));
            want.attach(*i, cand[0], None);
            for c in &set {
                want.attach(cand[0], *c, None);
            }
            blurred.extend(set.iter().cloned());
            fresh.insert(set, name(*k, n_kids));
        }
    }
    l.outcome(&format!("{} runs", fresh.len().min(4)));
    let y2 = blur(&y, &blurred);
    same(&y2, &blur(&want, &blurred), "inserting")?;
    for b in &blurred {
        let e = &y.nodes[b].edge;
        if e.is_some() && *e != x.nodes[b].edge {
            return Err(format!("edge above {} got the label {:?}", b, e));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// M05

fn reattach(mut t: Tree, x: &M, a: usize, p: Pred, l: &mut Local) -> Verdict {
    l.count("transitions", 1);
    let nts = canonical_nts(x);
    let att = match nts.get(a) {
        Some(a) => *a,
        None => return Ok(()),
    };
    let ts = x.terms();
    let num: BTreeMap<Id, usize> = ts.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    guard(|| t.reattach_terminals(nx(att), |_, i| num.get(&i.index()).map_or(false, |k| p.has(*k))))?;
    let y = sound(&t)?;
    let mut want = x.clone();
    let matched: BTreeSet<Id> = ts.iter().enumerate().filter(|(k, _)| p.has(*k)).map(|(_, i)| *i).collect();
    for i in &matched {
        want.attach(att, *i, None);
    }
    let mut gone = 0;
    let mut blurred = matched.clone();
    loop {
        let e = want
            .nodes
            .iter()
            .find(|(i, n)| !n.is_t() && n.kids.is_empty() && **i != x.root && **i != att)
            .map(|(i, _)| *i);
        match e {
            Some(i) => {
                want.splice_out(i);
                gone += 1;
            }
            None => break,
        }
    }
    l.outcome(&format!("{} moved, {} emptied", matched.len().min(3), gone.min(3)));
    // the attachment point may be moved up when all nodes between it and its ancestor were emptied
    blurred.retain(|i| y.nodes.contains_key(i));
    same(&blur(&y, &blurred), &blur(&want, &blurred), "reattaching")
}

// ---------------------------------------------------------------------------------------------
// M06

/// Tags come from lists and from iterators that don't know how many there are.
fn annotate_pos(t0: Tree, x: &M, k: usize, l: &mut Local) -> Verdict {
    l.count("transitions", 4);
    let n = x.n();
    l.outcome(if k == n { "right number" } else { "wrong number" });
    let plain: Vec<String> = (0..k).map(|i| format!("P{}", i)).collect();
    // any text is a tag: the empty one, the one that is there already, words of the formats
    let old: Vec<String> = x.terms().into_iter().map(|id| x.nodes[&id].label().to_string()).collect();
    let odd: Vec<String> = (0..k)
        .map(|i| match i % 6 {
            0 => String::new(),
            1 => old.get(i).cloned().unwrap_or_default(),
            2 => old.get(i + 1).cloned().unwrap_or_default(),
            3 => "_".into(),
            4 => "a b|(".into(),
            _ => "--".into(),
        })
        .collect();
    let blank = vec![String::new(); k];
    let text = plain.join(" ");
    for form in 0..6 {
        let tags = match form {
            4 => &odd,
            5 => &blank,
            _ => &plain,
        };
        let mut t = t0.clone();
        let r = guard(|| match form {
            0 => t.annotate_pos(tags.clone()),
            1 => t.annotate_pos(text.split_whitespace()),
            2 => t.annotate_pos(tags.iter().map(String::as_str).chain(std::iter::once("").filter(|_| false))),
            4 | 5 => t.annotate_pos(tags.iter().map(String::as_str)),
            // too many
            _ => t.annotate_pos(tags.iter().cloned().chain(std::iter::repeat_with(|| "Q".to_string()).take(n + 1))),
        })?;
        let k = if form == 3 { k + n + 1 } else { k };
        annotated_pos(&t, r, x, k, tags).map_err(|e| format!("{} (tags given in form {})", e, form))?;
    }
    Ok(())
}

fn annotated_pos(t: &Tree, r: Result<(), failure::Error>, x: &M, k: usize, tags: &[String]) -> Verdict {
    let y = sound(t)?;
    let n = x.n();
    if k == n {
        r.map_err(|e| format!("annotating {} tags: {}", n, e))?;
        let mut want = x.clone();
        for (i, id) in x.terms().into_iter().enumerate() {
            want.nodes.get_mut(&id).unwrap().set_label(&tags[i]);
        }
        same(&y, &want, "annotating tags")
    } else {
        if r.is_ok() {
            return Err(format!("{} tags for {} terminals accepted", k, n));
        }
        // tags that were given before the mismatch was noticed may have been set
        let strip = |m: &M| {
            m.map_nodes(|_, n| {
                if n.is_t() {
                    n.set_label("")
                }
            })
        };
        same(&strip(&y), &strip(x), "refused annotation")
    }
}

fn parent_tag(mut t: Tree, x: &M, l: &mut Local) -> Verdict {
    l.count("transitions", 2);
    for f in ["parent", "morph"] {
        let r = guard(|| t.annotate_parent_tag(f))?;
        let y = sound(&t)?;
        if x.nodes[&x.root].is_t() {
            l.outcome("no parent");
            if r.is_ok() {
                return Err("terminal without parent accepted".into());
            }
            same(&y, x, "refused annotation")?;
            continue;
        }
        l.outcome("annotated");
        r.map_err(|e| format!("annotating parent tags: {}", e))?;
        let mut want = x.clone();
        for g in ["parent", "morph"] {
            for id in x.terms() {
                let lab = x.nodes[&x.nodes[&id].parent.unwrap()].label().to_string();
                want.nodes.get_mut(&id).unwrap().feats.insert(g.to_string(), Some(lab));
            }
            if g == f {
                break;
            }
        }
        same(&y, &want, "annotating parent tags")?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// M07

fn project(t0: Tree, x: &M, p: Pred, l: &mut Local) -> Verdict {
    l.count("transitions", 3);
    let nts = canonical_nts(x);
    let num: BTreeMap<Id, usize> = nts.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let hit = |i: Id| num.get(&i).map_or(false, |k| p.has(*k));
    let ts = x.terms();
    let near: Vec<Option<Id>> =
        ts.iter().map(|i| x.ancestors(*i).into_iter().find(|a| hit(*a))).collect();
    l.outcome(if near.iter().all(Option::is_some) {
        "all matched"
    } else if near.iter().any(Option::is_some) {
        "some matched"
    } else {
        "none matched"
    });
    let f = |_: &Tree, i: NodeIndex| hit(i.index());
    // indices
    let got: Vec<usize> = guard(|| t0.project_nt_indices(f))?.into_iter().map(|i| i.index()).collect();
    let want: Vec<usize> = near.iter().map(|a| a.unwrap_or(x.root)).collect();
    if got != want {
        return Err(format!("indices are {:?} instead of {:?}", got, want));
    }
    same(&sound(&t0)?, x, "projecting indices")?;
    for name in ["f", "morph"] {
        // tags
        let mut t = t0.clone();
        guard(|| t.project_tag_set(name, f))?;
        let mut want = x.clone();
        for (id, a) in ts.iter().zip(&near) {
            if let Some(a) = a {
                let lab = x.nodes[a].label().to_string();
                want.nodes.get_mut(id).unwrap().feats.insert(name.into(), Some(lab));
            }
        }
        same(&sound(&t)?, &want, "projecting tags")?;
        // ids
        let mut t = t0.clone();
        guard(|| t.project_ids(name, f))?;
        let y = sound(&t)?;
        let mut ids: BTreeMap<Id, String> = BTreeMap::new();
        let mut want = x.clone();
        for (id, a) in ts.iter().zip(&near) {
            if let Some(a) = a {
                let v = match y.nodes[id].feats.get(name) {
                    Some(Some(v)) => v.clone(),
                    v => return Err(format!("terminal {} has the id {:?}", id, v)),
                };
                if ids.entry(*a).or_insert_with(|| v.clone()) != &v {
                    return Err(format!("terminals of {} have different ids", a));
                }
                want.nodes.get_mut(id).unwrap().feats.insert(name.into(), Some(v));
            }
        }
        let mut vals: Vec<usize> = Vec::new();
        for v in ids.values() {
            vals.push(v.parse().map_err(|_| format!("id {:?}", v))?);
        }
        vals.sort();
        if vals.iter().cloned().ne(0..vals.len()) {
            return Err(format!("ids are {:?}", vals));
        }
        same(&y, &want, "projecting ids")?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// exploration

pub struct Seeds {
    pub name: &'static str,
    pub seeds: Vec<(M, B)>,
    /// also after every sequence of up to this many edits and transformations
    pub edits: usize,
    /// exhaustive predicates up to this number of nodes
    pub bits: usize,
}

pub fn sweep(sh: &Shared, ss: Vec<Seeds>, acts: impl Fn(&M, usize) -> Vec<Act> + Sync) {
    for s in ss {
        if sh.stopped() {
            return;
        }
        let t0 = std::time::Instant::now();
        sh.note(format!(
            "phase {}: {} constructed trees{}, all arguments",
            s.name,
            s.seeds.len(),
            match s.edits {
                0 => "".to_string(),
                1 => ", as they are and after every single edit or transformation".to_string(),
                k => format!(", as they are and after every sequence of up to {} edits and transformations", k),
            }
        ));
        // everything to start from, then everything that can be done with it
        let starts: std::sync::Mutex<Vec<(usize, bool, Vec<Op>)>> = Default::default();
        let ms: Vec<M> = s.seeds.iter().map(|(m, _)| m.canon()).collect();
        sh.par(s.seeds.len(), |i, l| {
            for late in [false, true] {
                if !late || !ms[i].sec.is_empty() {
                    match prefixes(s.edits, &ms[i], s.seeds[i].1, late) {
                        Some(pres) => starts.lock().unwrap().extend(pres.into_iter().map(|p| (i, late, p))),
                        None => l.count("seed_skipped", 1),
                    }
                }
            }
        });
        let mut starts = starts.into_inner().unwrap();
        starts.sort_by_key(|(i, late, _)| (*i, *late));
        sh.par(starts.len(), |k, l| {
            let (i, late, pre) = &starts[k];
            sweep_start(l, s.bits, &ms[*i], s.seeds[*i].1, *late, pre, &acts);
        });
        sh.note(format!("phase {} took {:.1}s", s.name, t0.elapsed().as_secs_f64()));
    }
}

/// All sequences of up to `edits` edits and transformations.
fn prefixes(edits: usize, m: &M, b: B, late: bool) -> Option<Vec<Vec<Op>>> {
    let x0 = match guard(|| prepare(m, b, late, &[])) {
        Ok(Ok((_, x))) => x,
        _ => return None,
    };
    let mut pres: Vec<Vec<Op>> = vec![vec![]];
    let mut level: Vec<(Vec<Op>, M)> = vec![(vec![], x0)];
    let sp = OpSpace { invalid: false, secondary: false, transform: true, sparse: false };
    for _ in 0..edits {
        let mut next = Vec::new();
        for (pre, x) in &level {
            for o in all_ops(x, &sp).into_iter().filter(|o| !o.is_edit() || matches!(expect(x, *o), Expect::Accept)) {
                let mut pre = pre.clone();
                pre.push(o);
                pres.push(pre.clone());
                if pre.len() < edits {
                    if let Ok(Ok((_, x))) = guard(|| prepare(m, b, late, &pre)) {
                        next.push((pre, x));
                    }
                }
            }
        }
        level = next;
    }
    Some(pres)
}

fn sweep_start(l: &mut Local, bits: usize, m: &M, b: B, late: bool, pre: &[Op], acts: &(impl Fn(&M, usize) -> Vec<Act> + Sync)) {
    // from scratch, so that hash seeds differ
    let make = || prepare(m, b, late, pre);
    let (t0, x) = match guard(&make) {
        Ok(Ok(v)) => v,
        _ => {
            l.count("seed_skipped", 1);
            return;
        }
    };
    l.state(&crate::model::image(&t0));
    for act in acts(&x, bits) {
        if l.stopped() {
            return;
        }
        let c = TCase { m: m.clone(), b, late, pre: pre.to_vec(), act };
        let text = c.show();
        // the first tree is reused by cloning; a replay makes it anew
        let first = std::cell::Cell::new(true);
        let make2 = || {
            if first.replace(false) {
                Ok((t0.clone(), x.clone()))
            } else {
                make()
            }
        };
        l.count("traces", 1);
        l.case_text(text, |l| judge(&c.act, &make2, l));
    }
}

pub fn canonical_seeds(ms: &[M], bs: Option<&[B]>) -> Vec<(M, B)> {
    match bs {
        None => super::edit::all_routes(ms),
        Some(b) => super::edit::with_builders(ms, b),
    }
}

pub fn with_weird_labels(ms: Vec<M>) -> Vec<M> {
    let mut v = Vec::new();
    for m in ms {
        let mut k = 0;
        let nts = canonical_nts(&m);
        let mut x = m.clone();
        for i in nts {
            if k % 2 == 1 {
                x.nodes.get_mut(&i).unwrap().set_label("");
            } else {
                x.nodes.get_mut(&i).unwrap().set_label("Ä β");
            }
            k += 1;
        }
        v.push(m);
        v.push(x);
    }
    v
}

/// Trees with secondary edges, added before or after the primary ones.
pub fn secondary_seeds(sh: &Shared, contig: bool) -> Vec<Seeds> {
    let one = super::edit::with_secondary(&gen::models(3, sh.pick(2, 3), contig, &[Deco::Rich]));
    let two = super::query::two_secondary(&gen::models(3, sh.pick(1, 2), contig, &[Deco::Rich]));
    let dense = |v: Vec<M>| -> Vec<M> { v.iter().map(super::query::dense).collect() };
    let all = dense(gen::models(4, 3, contig, &[Deco::Rich]));
    let small = dense(gen::models(3, 2, contig, &[Deco::Rich]));
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).filter(|m| !contig || m.projective()).collect();
    vec![
        Seeds { name: "one secondary edge", seeds: canonical_seeds(&one, Some(&[B::NegraRev, B::Holes])), edits: 0, bits: 6 },
        Seeds { name: "two secondary edges", seeds: canonical_seeds(&two, Some(&[B::Negra])), edits: 0, bits: 6 },
        Seeds { name: "dense secondary edges", seeds: canonical_seeds(&all, Some(&[B::Api])), edits: 0, bits: 6 },
        Seeds { name: "dense secondary edges, edited", seeds: canonical_seeds(&small, Some(&[B::Negra])), edits: 1, bits: 6 },
        Seeds { name: "medium with secondary edges", seeds: canonical_seeds(&dense(med), Some(&[B::ApiRev])), edits: 0, bits: 5 },
    ]
}

/// Small trees after every sequence of a few edits and transformations.
pub fn pipelines(sh: &Shared) -> Vec<Seeds> {
    let of = |n, k| gen::models(n, k, false, &[Deco::Rich]);
    let mut v = vec![
        Seeds { name: "pipelines", seeds: canonical_seeds(&of(3, sh.pick(2, 3)), Some(&[B::Negra])), edits: 2, bits: 4 },
        Seeds { name: "pipelines, four terminals", seeds: canonical_seeds(&of(4, if sh.quick() && (sh.id == "M05" || sh.id == "E03") { 1 } else { 2 }), Some(&[B::Holes])), edits: 2, bits: 2 },
        Seeds { name: "long pipelines", seeds: canonical_seeds(&of(2, sh.pick(1, 2)), Some(&[B::Api])), edits: 3, bits: 3 },
    ];
    if !sh.quick() {
        v.push(Seeds { name: "pipelines on larger trees", seeds: canonical_seeds(&of(4, 3), Some(&[B::Holes])), edits: 2, bits: 2 });
        v.push(Seeds { name: "longest pipelines", seeds: canonical_seeds(&of(2, 1), Some(&[B::Negra])), edits: 4, bits: 2 });
        v.push(Seeds { name: "long pipelines, three terminals", seeds: canonical_seeds(&of(3, 1), Some(&[B::Moved])), edits: 3, bits: 2 });
    }
    v
}

pub fn std_seeds(sh: &Shared, nk: (usize, usize), nk_edit: (usize, usize), decos: &[Deco]) -> Vec<Seeds> {
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect();
    let large: Vec<M> = gen::large(false).iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    let deep: Vec<M> = gen::deep().iter().map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    let small = with_weird_labels(gen::models(nk.0, nk.1, false, decos));
    let mut v = vec![
        Seeds { name: "small", seeds: canonical_seeds(&small, None), edits: 0, bits: 6 },
        Seeds {
            name: "edited",
            seeds: canonical_seeds(&gen::models(nk_edit.0, nk_edit.1, false, &[Deco::Rich]), Some(&[B::Negra, B::Moved, B::Holes])),
            edits: 1,
            bits: 6,
        },
        Seeds { name: "medium", seeds: canonical_seeds(&med, None), edits: 0, bits: 6 },
        Seeds { name: "large", seeds: canonical_seeds(&large, Some(&[B::NegraRev, B::Api, B::Holes])), edits: 0, bits: 5 },
        Seeds { name: "deeply nested", seeds: canonical_seeds(&deep, Some(&[B::Api])), edits: 0, bits: 3 },
    ];
    v.push(Seeds { name: "odd contents", seeds: canonical_seeds(&gen::odd_models(3, 3, false), Some(&[B::Api, B::NegraRev])), edits: 0, bits: 6 });
    v.push(Seeds { name: "odd contents, edited", seeds: canonical_seeds(&gen::odd_models(3, sh.pick(1, 2), false), Some(&[B::Holes])), edits: 1, bits: 6 });
    v.extend(secondary_seeds(sh, false));
    v.extend(pipelines(sh));
    if !sh.quick() {
        v.push(Seeds { name: "medium edited", seeds: canonical_seeds(&med, Some(&[B::Api, B::Holes])), edits: 1, bits: 4 });
    }
    v
}

fn run_m01(sh: &Shared) {
    let mut s = std_seeds(sh, (4, sh.pick(3, 4)), (sh.pick(3, 4), 3), &[Deco::Rich]);
    s.push(Seeds {
        name: "n5",
        seeds: canonical_seeds(
            &gen::models(5, sh.pick(3, 4), false, &[Deco::Same])
                .into_iter()
                .filter(|m| m.n() == 5 && !m.projective())
                .collect::<Vec<_>>(),
            Some(&[B::Negra, B::Holes]),
        ),
        edits: 0,
        bits: 0,
    });
    s.push(Seeds {
        name: "n6",
        seeds: canonical_seeds(
            &gen::shapes(6, 3, false)
                .iter()
                .map(|s| gen::to_m(s, Deco::Rich))
                .filter(|m| !m.projective())
                .collect::<Vec<_>>(),
            Some(&[B::NegraRev]),
        ),
        edits: 0,
        bits: 0,
    });
    sweep(sh, s, |_, _| vec![Act::Projectivize]);
}

fn run_m02(sh: &Shared) {
    let mut s = std_seeds(sh, (sh.pick(3, 4), sh.pick(4, 5)), (3, 3), &[Deco::Distinct, Deco::Same, Deco::Rich]);
    s.push(Seeds {
        name: "n4",
        seeds: canonical_seeds(&gen::models(4, 4, false, &[Deco::Rich]), Some(&[B::Negra, B::Api])),
        edits: 0,
        bits: 0,
    });
    // recorded chains from an earlier collapse, extended by further nodes
    let rec: Vec<M> = gen::models(3, 3, false, &[Deco::Distinct])
        .into_iter()
        .map(|m| m.map_nodes(|i, n| if i % 2 == 1 { n.feats.insert("unary_chain".into(), Some("Q".into())); }))
        .collect();
    s.push(Seeds { name: "recorded", seeds: canonical_seeds(&rec, Some(&[B::Api])), edits: 0, bits: 0 });
    sweep(sh, s, |_, _| (0..DELIMS.len()).map(Act::Collapse).collect());
}

fn run_m03(sh: &Shared) {
    let s = std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich, Deco::Same]);
    sweep(sh, s, |x, bits| Pred::over(x.nts().len(), bits).into_iter().map(Act::Filter).collect());
}

fn run_m04(sh: &Shared) {
    let mut s = std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich, Deco::Same]);
    s.push(Seeds {
        name: "n5",
        seeds: canonical_seeds(&gen::models(5, sh.pick(2, 4), false, &[Deco::Rich]), Some(&[B::Api, B::ApiRev, B::Moved, B::Holes])),
        edits: 0,
        bits: 6,
    });
    sweep(sh, s, |x, bits| {
        Pred::over(x.nts().len(), bits)
            .into_iter()
            .flat_map(|p| vec![Act::Intermediate(p, false), Act::Intermediate(p, true)])
            .collect()
    });
}

fn run_m05(sh: &Shared) {
    let s = std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich]);
    sweep(sh, s, |x, bits| {
        let nn = x.nts().len();
        let mut v = Vec::new();
        for a in 0..nn {
            if nn > 8 && a > 3 && a + 2 < nn && a % (nn / 4) != 0 {
                continue;
            }
            v.extend(Pred::over(x.n(), bits).into_iter().map(|p| Act::Reattach(a, p)));
        }
        v
    });
}

fn run_m06(sh: &Shared) {
    let mut s = std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich, Deco::Same]);
    s.push(Seeds {
        name: "n5",
        seeds: canonical_seeds(&gen::models(5, sh.pick(2, 4), false, &[Deco::Rich]), None),
        edits: 0,
        bits: 0,
    });
    sweep(sh, s, |x, _| {
        let n = x.n();
        let mut v: Vec<Act> = (0..=n + 2).filter(|k| n < 12 || *k + 2 > n || *k < 2).map(Act::Pos).collect();
        v.push(Act::ParentTag);
        v
    });
}

fn run_m07(sh: &Shared) {
    let s = std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich, Deco::Same]);
    sweep(sh, s, |x, bits| Pred::over(x.nts().len(), bits).into_iter().map(Act::Project).collect());
}

pub fn checks() -> Vec<Check> {
    let c = |id, run, what| Check { id, run, replay: replay_as::<TCase>, what };
    vec![
        c("M01", run_m01, "every bounded tree is projectivized until every skipped position has come first in the iteration order; the result has to be the tree on which the exhaustively explored model (all bottom-up orders, all choices of gaps) agrees, and undoing the reported moves has to give the original"),
        c("M02", run_m02, "every bounded tree is collapsed, collapsed again and restored with 5 delimiters; compared with the model"),
        c("M03", run_m03, "every bounded tree with every subset of its nonterminals; compared with the model"),
        c("M04", run_m04, "every bounded tree with every subset of its nonterminals; compared with the model"),
        c("M05", run_m05, "every bounded tree with every attachment point and every subset of its terminals; compared with the model"),
        c("M06", run_m06, "every bounded tree with every number of tags up to two more than terminals; compared with the model"),
        c("M07", run_m07, "every bounded tree with every subset of its nonterminals; compared with the model"),
    ]
}
