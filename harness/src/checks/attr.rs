//! T09: nodes and edges store exactly the attributes they were given.
//!
//! Breadth-first exploration of histories of attribute operations on the terminals, nonterminals and
//! edges of a real tree. The reference is a record of plain values per node and edge.

use super::{field, replay_as, Check};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use lumberjack::{Continuity, Edge, Features, Node, Terminal, Tree};
use petgraph::prelude::{EdgeIndex, NodeIndex};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

type F = BTreeMap<String, Option<String>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct NodeRec {
    terminal: bool,
    label: String,
    form: String,
    lemma: Option<String>,
    feats: F,
    covers: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct EdgeRec {
    primary: bool,
    label: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rec {
    nodes: Vec<NodeRec>,
    edges: Vec<EdgeRec>,
}

/// The tree and the handles of its nodes and edges, in the order of the record.
#[derive(Clone)]
struct Sys {
    t: Tree,
    nodes: Vec<NodeIndex>,
    edges: Vec<EdgeIndex>,
}

#[derive(Clone, Debug)]
enum Op {
    Label(usize, &'static str),
    Form(usize, &'static str),
    Lemma(usize, Option<&'static str>),
    SetFeats(usize, Option<Vec<(&'static str, Option<&'static str>)>>),
    Insert(usize, &'static str, Option<&'static str>),
    Remove(usize, &'static str),
    Touch(usize),
    EdgeLabel(usize, Option<&'static str>),
}

/// nodes of the tree: terminal, terminal, terminal, nonterminal with a gap, root
const TERMS: [usize; 3] = [0, 1, 2];
const NTS: [usize; 2] = [3, 4];
const N_EDGES: usize = 6;

fn table() -> &'static Vec<(Op, bool)> {
    static T: OnceLock<Vec<(Op, bool)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::new();
        let mut both = |o: Op, also_inner: bool| {
            v.push((o.clone(), false));
            if also_inner {
                v.push((o, true));
            }
        };
        // the third terminal is only watched
        for n in TERMS[..2].iter().chain(NTS.iter()).cloned() {
            let term = n < 3;
            for s in &["X", "NN", ""] {
                both(Op::Label(n, s), true);
            }
            if term {
                for s in &["Über", "", "w0"] {
                    both(Op::Form(n, s), false);
                }
                for s in &[None, Some("l"), Some("")] {
                    both(Op::Lemma(n, *s), false);
                }
            }
            both(Op::SetFeats(n, None), true);
            both(Op::SetFeats(n, Some(vec![])), true);
            both(Op::SetFeats(n, Some(vec![("k", None)])), true);
            both(Op::SetFeats(n, Some(vec![("k", Some("2")), ("m", None)])), true);
            for k in &["k", "m"] {
                for val in &[None, Some("1"), Some("2")] {
                    both(Op::Insert(n, k, *val), true);
                }
                both(Op::Remove(n, k), true);
            }
            both(Op::Touch(n), true);
        }
        for e in 0..N_EDGES {
            for s in &[None, Some("HD"), Some(""), Some("--")] {
                if e == 0 || e == 3 || e == N_EDGES - 1 || *s == Some("HD") {
                    both(Op::EdgeLabel(e, *s), false);
                }
            }
        }
        v
    })
}

fn init() -> (Sys, Rec) {
    // (S (NP (A w0) . (C w2)) (B w1)) and a secondary edge from S to C
    let mut t = Tree::new("w0", "A");
    let w0 = t.root();
    let root = t.insert_unary_above(w0, "S");
    let np = t.insert_unary_above(w0, "NP");
    let w2 = t.insert_terminal(np, Terminal::new("w2", "C", 1));
    let w1 = t.insert_terminal(root, Terminal::new("w1", "B", 1));
    let sec = t.add_secondary_edge(root, w2, Some("sec"));
    let sec2 = t.add_secondary_edge(np, w1, None::<String>);
    let mut edges: Vec<EdgeIndex> = [w0, w1, w2, np].iter().map(|n| t.parent(*n).unwrap().1).collect();
    edges.push(sec);
    edges.push(sec2);
    t[edges[2]].set_label(Some("HD"));
    let nodes = vec![w0, w1, w2, np, root];
    let sys = Sys { t, nodes, edges };
    let tn = |f: &str, p: &str, i: usize| NodeRec {
        terminal: true,
        label: p.into(),
        form: f.into(),
        lemma: None,
        feats: F::new(),
        covers: vec![i],
    };
    let nt = |l: &str, c: &[usize]| NodeRec {
        terminal: false,
        label: l.into(),
        form: String::new(),
        lemma: None,
        feats: F::new(),
        covers: c.to_vec(),
    };
    let pe = |primary: bool, l: Option<&str>| EdgeRec { primary, label: l.map(String::from) };
    let rec = Rec {
        nodes: vec![tn("w0", "A", 0), tn("w1", "B", 1), tn("w2", "C", 2), nt("NP", &[0, 2]), nt("S", &[0, 1, 2])],
        edges: vec![
            pe(true, None),
            pe(true, None),
            pe(true, Some("HD")),
            pe(true, None),
            pe(false, Some("sec")),
            pe(false, None),
        ],
    };
    (sys, rec)
}

fn real(f: &[(&str, Option<&str>)]) -> Features {
    f.iter().map(|(k, v)| (k.to_string(), v.map(String::from))).collect()
}
fn eff(f: Option<&Features>) -> F {
    f.map(|f| f.inner().clone()).unwrap_or_default()
}
fn model(f: &[(&str, Option<&str>)]) -> F {
    f.iter().map(|(k, v)| (k.to_string(), v.map(String::from))).collect()
}

/// What an operation returned, in plain values.
#[derive(Debug, PartialEq)]
enum Ret {
    S(String),
    OS(Option<String>),
    Feats(F),
    OOS(Option<Option<String>>),
    Unit,
}

fn apply_real(s: &mut Sys, op: &Op, inner: bool) -> Ret {
    let feats = |n: &mut Node, f: Option<Features>| -> Option<Features> {
        if !inner {
            n.set_features(f)
        } else if n.is_terminal() {
            n.terminal_mut().unwrap().set_features(f)
        } else {
            n.nonterminal_mut().unwrap().set_features(f)
        }
    };
    fn fm(n: &mut Node, inner: bool) -> &mut Features {
        if !inner {
            n.features_mut()
        } else if n.is_terminal() {
            n.terminal_mut().unwrap().features_mut()
        } else {
            n.nonterminal_mut().unwrap().features_mut()
        }
    }
    match op {
        Op::Label(n, v) => {
            let n = &mut s.t[s.nodes[*n]];
            Ret::S(if !inner {
                n.set_label(*v)
            } else if n.is_terminal() {
                n.terminal_mut().unwrap().set_label(*v)
            } else {
                n.nonterminal_mut().unwrap().set_label(*v)
            })
        }
        Op::Form(n, v) => Ret::S(s.t[s.nodes[*n]].terminal_mut().unwrap().set_form(*v)),
        Op::Lemma(n, v) => Ret::OS(s.t[s.nodes[*n]].terminal_mut().unwrap().set_lemma(*v)),
        Op::SetFeats(n, v) => {
            let f = v.as_ref().map(|v| real(v));
            Ret::Feats(eff(feats(&mut s.t[s.nodes[*n]], f).as_ref()))
        }
        Op::Insert(n, k, v) => Ret::OS(fm(&mut s.t[s.nodes[*n]], inner).insert(*k, *v)),
        Op::Remove(n, k) => Ret::OOS(fm(&mut s.t[s.nodes[*n]], inner).remove(k)),
        Op::Touch(n) => {
            fm(&mut s.t[s.nodes[*n]], inner);
            Ret::Unit
        }
        Op::EdgeLabel(e, v) => Ret::OS(s.t[s.edges[*e]].set_label(*v)),
    }
}

fn apply_model(r: &mut Rec, op: &Op) -> Ret {
    let own = |v: &Option<&'static str>| v.map(String::from);
    match op {
        Op::Label(n, v) => Ret::S(std::mem::replace(&mut r.nodes[*n].label, v.to_string())),
        Op::Form(n, v) => Ret::S(std::mem::replace(&mut r.nodes[*n].form, v.to_string())),
        Op::Lemma(n, v) => Ret::OS(std::mem::replace(&mut r.nodes[*n].lemma, own(v))),
        Op::SetFeats(n, v) => {
            let f = v.as_ref().map(|v| model(v)).unwrap_or_default();
            Ret::Feats(std::mem::replace(&mut r.nodes[*n].feats, f))
        }
        Op::Insert(n, k, v) => Ret::OS(r.nodes[*n].feats.insert(k.to_string(), own(v)).and_then(|v| v)),
        Op::Remove(n, k) => Ret::OOS(r.nodes[*n].feats.remove(*k)),
        Op::Touch(_) => Ret::Unit,
        Op::EdgeLabel(e, v) => Ret::OS(std::mem::replace(&mut r.edges[*e].label, own(v))),
    }
}

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if *g != *w {
            return Err(format!("{}: {:?} instead of {:?}", $what, g, w));
        }
    }};
}

/// Read everything through every accessor.
fn judge(s: &Sys, r: &Rec) -> Verdict {
    for (i, (idx, want)) in s.nodes.iter().zip(&r.nodes).enumerate() {
        let n = &s.t[*idx];
        same!(format!("kind of node {}", i), n.is_terminal(), want.terminal);
        same!(format!("label of node {}", i), n.label(), want.label.as_str());
        same!(format!("features of node {}", i), eff(n.features()), want.feats);
        let cov: Vec<usize> = n.span().into_iter().collect();
        same!(format!("span of node {}", i), cov, want.covers);
        let gap = want.covers.last().unwrap() - want.covers[0] + 1 != want.covers.len();
        let cont = if gap { Continuity::Discontinuous } else { Continuity::Continuous };
        same!(format!("continuity of node {}", i), n.continuity(), cont);
        for k in &["k", "m", "none"] {
            let got = n.features().and_then(|f| f.get_val(k));
            let w = want.feats.get(*k).map(|v| v.as_ref().map(String::as_str));
            same!(format!("feature {} of node {}", k, i), got, w);
        }
        if want.terminal {
            same!("nonterminal() of a terminal", n.nonterminal().is_none(), true);
            let t = n.terminal().ok_or("terminal() of a terminal")?;
            same!(format!("label of terminal {}", i), t.label(), want.label.as_str());
            same!(format!("form of terminal {}", i), t.form(), want.form.as_str());
            same!(format!("lemma of terminal {}", i), t.lemma(), want.lemma.as_ref().map(String::as_str));
            same!(format!("features of terminal {}", i), eff(t.features()), want.feats);
            same!(format!("index of terminal {}", i), t.idx(), want.covers[0]);
            let cov: Vec<usize> = t.span().into_iter().collect();
            same!(format!("span of terminal {}", i), cov, want.covers);
            let shown = format!("{} {}", want.label, want.form);
            same!(format!("display of terminal {}", i), t.to_string(), shown);
            same!(format!("display of node {}", i), n.to_string(), shown);
        } else {
            same!("terminal() of a nonterminal", n.terminal().is_none(), true);
            let t = n.nonterminal().ok_or("nonterminal() of a nonterminal")?;
            same!(format!("label of nonterminal {}", i), t.label(), want.label.as_str());
            same!(format!("features of nonterminal {}", i), eff(t.features()), want.feats);
            same!(format!("continuity of nonterminal {}", i), t.continuity(), cont);
            let cov: Vec<usize> = t.span().into_iter().collect();
            same!(format!("span of nonterminal {}", i), cov, want.covers);
            same!(format!("display of nonterminal {}", i), t.to_string(), want.label);
            same!(format!("display of node {}", i), n.to_string(), want.label);
        }
    }
    for (i, (idx, want)) in s.edges.iter().zip(&r.edges).enumerate() {
        let e = &s.t[*idx];
        same!(format!("kind of edge {}", i), e.is_primary(), want.primary);
        same!(format!("label of edge {}", i), e.label(), want.label.as_ref().map(String::as_str));
        let shown = want.label.clone().unwrap_or_else(|| "--".into());
        same!(format!("display of edge {}", i), e.to_string(), shown);
        let again = if want.primary {
            Edge::new_primary(want.label.clone())
        } else {
            Edge::new_secondary(want.label.clone())
        };
        same!(format!("edge {} and one built alike", i), *e == again, true);
    }
    // nodes and edges are equal exactly if all their attributes are
    for (i, a) in s.nodes.iter().enumerate() {
        for (j, b) in s.nodes.iter().enumerate() {
            let want = r.nodes[i] == r.nodes[j];
            same!(format!("node {} == node {}", i, j), s.t[*a] == s.t[*b], want);
        }
    }
    for (i, a) in s.edges.iter().enumerate() {
        for (j, b) in s.edges.iter().enumerate() {
            let want = r.edges[i] == r.edges[j];
            same!(format!("edge {} == edge {}", i, j), s.t[*a] == s.t[*b], want);
        }
    }
    // the structure is not touched
    let (w0, w1, w2, np, root) = (s.nodes[0], s.nodes[1], s.nodes[2], s.nodes[3], s.nodes[4]);
    let e = &s.edges;
    let mut np_kids: Vec<_> = s.t.children(np).collect();
    let mut kids: Vec<_> = s.t.children(root).collect();
    np_kids.sort();
    kids.sort();
    let mut want_np = vec![(w0, e[0]), (w2, e[2])];
    let mut want = vec![(w1, e[1]), (np, e[3])];
    want_np.sort();
    want.sort();
    same!("children of NP", np_kids, want_np);
    same!("children of S", kids, want);
    same!("root", s.t.root(), root);
    same!("number of terminals", s.t.n_terminals(), 3);
    same!("secondary parent of the third word", s.t.secondary_parent(w2), Some((root, e[4])));
    same!("secondary parent of the second word", s.t.secondary_parent(w1), Some((np, e[5])));
    Ok(())
}

/// Equal as constituency trees.
fn same_tree(a: &Rec, b: &Rec) -> bool {
    a.nodes == b.nodes
        && a.edges.iter().zip(&b.edges).all(|(x, y)| x.primary == y.primary && (!x.primary || x.label == y.label))
}

fn do_step(s: &mut Sys, r: &mut Rec, k: usize) -> Verdict {
    let (op, inner) = &table()[k];
    let before = s.clone();
    let r0 = r.clone();
    let got = guard(|| apply_real(s, op, *inner)).map_err(|e| format!("{:?}: {}", op, e))?;
    let want = apply_model(r, op);
    let what = |e: String| format!("after {:?}: {}", op, e);
    if got != want {
        return Err(what(format!("returned {:?} instead of {:?}", got, want)));
    }
    guard(|| judge(s, r)).and_then(|x| x).map_err(what)?;
    guard(|| judge(&before, &r0)).and_then(|x| x).map_err(|e| what(format!("the clone made before: {}", e)))?;
    for i in 0..r.nodes.len() {
        let eq = before.t[before.nodes[i]] == s.t[s.nodes[i]];
        if eq != (r0.nodes[i] == r.nodes[i]) {
            return Err(what(format!("node {} equal to itself before: {}", i, eq)));
        }
    }
    for i in 0..r.edges.len() {
        let eq = before.t[before.edges[i]] == s.t[s.edges[i]];
        if eq != (r0.edges[i] == r.edges[i]) {
            return Err(what(format!("edge {} equal to itself before: {}", i, eq)));
        }
    }
    let eq = guard(|| (before.t == s.t, s.t == before.t)).map_err(what)?;
    let want = same_tree(&r0, r);
    if eq != (want, want) {
        return Err(what(format!("tree equal to the one before: {:?}, should be {}", eq, want)));
    }
    Ok(())
}

struct Hist(Vec<usize>);

impl Case for Hist {
    fn show(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|k| k.to_string()).collect();
        let does: Vec<String> = self
            .0
            .iter()
            .map(|k| format!("{:?}{}", table()[*k].0, if table()[*k].1 { " on the inner value" } else { "" }))
            .collect();
        format!("attr {}\ndoes {}", v.join(" "), does.join("; "))
    }
    fn parse(s: &str) -> Option<Self> {
        let mut v = Vec::new();
        for w in field(s, "attr")?.split_whitespace() {
            v.push(w.parse().ok().filter(|k: &usize| *k < table().len())?);
        }
        Some(Hist(v))
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let (mut s, mut r) = guard(init).map_err(|e| format!("building the tree: {}", e))?;
        judge(&s, &r)?;
        for k in &self.0 {
            do_step(&mut s, &mut r, *k)?;
        }
        Ok(())
    }
}

/// Equality of two separately built values, each given attributes along its own history.
struct Pair {
    a: Vec<usize>,
    b: Vec<usize>,
}

impl Case for Pair {
    fn show(&self) -> String {
        let f = |v: &Vec<usize>| v.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" ");
        format!("pair\nleft {}\nright {}", f(&self.a), f(&self.b))
    }
    fn parse(s: &str) -> Option<Self> {
        let f = |k: &str| -> Option<Vec<usize>> {
            field(s, k).unwrap_or("").split_whitespace().map(|w| w.parse().ok().filter(|k: &usize| *k < table().len())).collect()
        };
        Some(Pair { a: f("left")?, b: f("right")? })
    }
    fn run(&self, _l: &mut Local) -> Verdict {
        let go = |v: &Vec<usize>| -> Result<(Sys, Rec), String> {
            let (mut s, mut r) = guard(init)?;
            for k in v {
                let (op, inner) = &table()[*k];
                guard(|| apply_real(&mut s, op, *inner))?;
                apply_model(&mut r, op);
            }
            Ok((s, r))
        };
        let (a, ra) = go(&self.a)?;
        let (b, rb) = go(&self.b)?;
        compare(&a, &ra, &b, &rb)
    }
}

fn compare(a: &Sys, ra: &Rec, b: &Sys, rb: &Rec) -> Verdict {
    for i in 0..ra.nodes.len() {
        for j in 0..rb.nodes.len() {
            let eq = a.t[a.nodes[i]] == b.t[b.nodes[j]];
            if eq != (ra.nodes[i] == rb.nodes[j]) {
                return Err(format!("{:?} == {:?} gave {}", ra.nodes[i], rb.nodes[j], eq));
            }
        }
    }
    let want = same_tree(ra, rb);
    let eq = guard(|| (a.t == b.t, b.t == a.t))?;
    if eq != (want, want) {
        return Err(format!("trees compare {:?}, should be {}", eq, want));
    }
    Ok(())
}

struct St {
    s: Sys,
    r: Rec,
    ops: Vec<usize>,
}

fn run(sh: &Shared) {
    let n_ops = table().len();
    let depth = sh.pick(3, 4);
    let mut frontier: Vec<St> = Vec::new();
    let ok = Mutex::new(false);
    sh.par(1, |_, l| {
        *ok.lock().unwrap() = l.case(&Hist(vec![]));
    });
    if !*ok.lock().unwrap() {
        return;
    }
    let (s, r) = init();
    frontier.push(St { s, r, ops: vec![] });
    let mut level1: Vec<Vec<usize>> = vec![vec![]];
    let mut level2: Vec<Vec<usize>> = Vec::new();
    for d in 0..depth {
        if sh.stopped() {
            return;
        }
        let last = d + 1 == depth;
        let next: Mutex<Vec<St>> = Mutex::new(Vec::new());
        sh.par(frontier.len(), |i, l| {
            let st = &frontier[i];
            let mut news = Vec::new();
            for k in 0..n_ops {
                if l.stopped() {
                    return;
                }
                let mut ops = st.ops.clone();
                ops.push(k);
                let h = Hist(ops);
                let mut s = st.s.clone();
                let mut r = st.r.clone();
                let ok = l.case_text(h.show(), |_| do_step(&mut s, &mut r, k));
                l.count("transitions", 1);
                // absent and empty features are different states of the code
                let raw: Vec<bool> = s.nodes.iter().map(|n| s.t[*n].features().is_some()).collect();
                if ok && l.state(&(&r, raw)) && !last {
                    news.push(St { s, r, ops: h.0 });
                }
            }
            next.lock().unwrap().append(&mut news);
        });
        frontier = next.into_inner().unwrap();
        frontier.sort_by(|a, b| a.ops.cmp(&b.ops));
        if d == 0 {
            level1.extend(frontier.iter().map(|s| s.ops.clone()));
        }
        if d == 1 {
            level2.extend(frontier.iter().map(|s| s.ops.clone()));
        }
    }
    // all pairs of versions: one change against one change, and one against two
    let stride = 1;
    sh.par(level1.len(), |i, l| {
        for b in level1.iter().chain(level2.iter().step_by(stride)) {
            if l.stopped() {
                return;
            }
            l.case(&Pair { a: level1[i].clone(), b: b.clone() });
            l.count("pairs", 1);
        }
    });
}

fn replay(s: &str, l: &mut Local) -> Option<Verdict> {
    if s.starts_with("pair") {
        replay_as::<Pair>(s, l)
    } else {
        replay_as::<Hist>(s, l)
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "T09",
        run,
        replay,
        what: "breadth-first exploration of histories of attribute operations on terminals, nonterminals, primary and secondary edges of a real tree; return values, every accessor, clones and equality compared with plain records after every step, and all pairs of short histories compared for equality",
    }]
}
