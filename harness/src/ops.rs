//! Edit operations: text form, execution on the real tree, reference effect on the model.

use crate::engine::guard;
use crate::model::{edge_above, ex, extract, mnode_of, nx, Id, Kind, MNode, Sec, M};
use lumberjack::{
    io::{Decode, Encode}, AnnotatePOS, Edge, NegraReader, Node, Projectivize, Terminal, Tree, TreeOps, UnaryChains, WriteTree,
};
use petgraph::prelude::{EdgeIndex, NodeIndex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// insert unary above node
    Ia(Id),
    /// insert unary below node
    Ib(Id),
    /// remove node
    Rm(Id),
    /// reattach child (second) to parent (first)
    Ra(Id, Id),
    /// reattach the secondary edge (second) to parent (first)
    Rs(Id, usize),
    /// reattach an edge that doesn't exist
    Rx(Id, usize),
    /// move terminal
    Mv(Id, usize),
    /// insert terminal below parent at index
    It(Id, usize),
    /// push terminal
    Pt,
    /// add secondary edge, labeled or not
    As(Id, Id, bool),
    /// remove secondary edge
    Rse(usize),
    // transformations
    Pj,
    Cl,
    Rc,
    Fl(u32),
    In(u32),
    Rt(Id, u32),
    Pos,
    /// write and read in Negra format
    Ng,
    /// annotate parent labels
    Tp,
    /// annotate both encodings
    Ab,
    /// project the labels of some nonterminals onto the words below
    Pn(u32),
    /// remove dummy nodes
    Rd,
}

impl Op {
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
    pub fn parse(s: &str) -> Option<Op> {
        let s = s.trim();
        let (name, args) = match s.find('(') {
            Some(i) => (&s[..i], s[i + 1..].trim_end_matches(')')),
            None => (s, ""),
        };
        let a: Vec<&str> = args.split(',').map(str::trim).collect();
        let n = |i: usize| -> Option<usize> { a.get(i)?.parse().ok() };
        Some(match name {
            "Ia" => Op::Ia(n(0)?),
            "Ib" => Op::Ib(n(0)?),
            "Rm" => Op::Rm(n(0)?),
            "Ra" => Op::Ra(n(0)?, n(1)?),
            "Rs" => Op::Rs(n(0)?, n(1)?),
            "Rx" => Op::Rx(n(0)?, n(1)?),
            "Mv" => Op::Mv(n(0)?, n(1)?),
            "It" => Op::It(n(0)?, n(1)?),
            "Pt" => Op::Pt,
            "As" => Op::As(n(0)?, n(1)?, *a.get(2)? == "true"),
            "Rse" => Op::Rse(n(0)?),
            "Pj" => Op::Pj,
            "Cl" => Op::Cl,
            "Rc" => Op::Rc,
            "Fl" => Op::Fl(n(0)? as u32),
            "In" => Op::In(n(0)? as u32),
            "Rt" => Op::Rt(n(0)?, n(1)? as u32),
            "Pos" => Op::Pos,
            "Ng" => Op::Ng,
            "Tp" => Op::Tp,
            "Ab" => Op::Ab,
            "Pn" => Op::Pn(n(0)? as u32),
            "Rd" => Op::Rd,
            _ => return None,
        })
    }
    pub fn is_edit(&self) -> bool {
        !matches!(
            self,
            Op::Pj | Op::Cl | Op::Rc | Op::Fl(_) | Op::In(_) | Op::Rt(..) | Op::Pos | Op::Ng | Op::Tp | Op::Ab | Op::Pn(_) | Op::Rd
        )
    }
}

/// All operations with all arguments on a tree with this model.
pub struct OpSpace {
    pub invalid: bool,
    pub secondary: bool,
    pub transform: bool,
    /// restrict positions and nodes to a spread of boundary values
    pub sparse: bool,
}

fn spread<T: Clone>(v: &[T], sparse: bool, cap: usize) -> Vec<T> {
    if !sparse || v.len() <= cap {
        return v.to_vec();
    }
    let n = v.len();
    let mut idx: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
    // exact powers around word sizes
    for k in [31, 32, 63, 64, 65, 127, 128] {
        if k < n {
            idx.push(k);
        }
    }
    idx.sort();
    idx.dedup();
    idx.truncate(cap.max(8));
    idx.into_iter().map(|i| v[i].clone()).collect()
}

pub fn all_ops(m: &M, sp: &OpSpace) -> Vec<Op> {
    let mut v = Vec::new();
    let ids: Vec<Id> = m.nodes.keys().cloned().collect();
    let terms = m.terms();
    let nts = m.nts();
    let n = terms.len();
    let fresh = m.fresh() + 3;
    let sids = if sp.sparse {
        let mut s = spread(&nts, true, 6);
        s.extend(spread(&terms, true, 8));
        s.sort();
        s
    } else {
        ids.clone()
    };
    for &i in &sids {
        v.push(Op::Ia(i));
        v.push(Op::Ib(i));
        v.push(Op::Rm(i));
    }
    for &p in &sids {
        for &c in &sids {
            if c != m.root {
                v.push(Op::Ra(p, c));
            }
        }
    }
    let posn: Vec<usize> = (0..n).collect();
    for &t in &spread(&terms, sp.sparse, 10) {
        for &i in &spread(&posn, sp.sparse, 10) {
            v.push(Op::Mv(t, i));
        }
    }
    let posn: Vec<usize> = (0..=n).collect();
    for &p in &spread(&nts, sp.sparse, 4) {
        for &i in &spread(&posn, sp.sparse, 10) {
            v.push(Op::It(p, i));
        }
    }
    v.push(Op::Pt);
    if sp.secondary {
        for s in &m.sec {
            v.push(Op::Rse(s.eid));
            for &p in &sids {
                v.push(Op::Rs(p, s.eid));
            }
        }
        if m.sec.len() < 2 {
            for &a in &sids {
                for &b in &sids {
                    if (a + b) % 2 == 0 || a == m.root {
                        v.push(Op::As(a, b, a % 2 == 0));
                    }
                }
            }
        }
    }
    if sp.invalid {
        let used: Vec<usize> = m.sec.iter().map(|s| s.eid).collect();
        for e in 0..ids.len() + 3 {
            if !used.contains(&e) {
                v.push(Op::Rse(e));
            }
        }
        v.push(Op::Rm(fresh));
        v.push(Op::Ra(fresh, *ids.iter().find(|i| **i != m.root).unwrap_or(&0)));
        v.push(Op::Rx(m.root, 1000));
        for &t in terms.first().iter().chain(terms.last().iter()) {
            v.push(Op::Mv(*t, n));
            v.push(Op::Mv(*t, n + 2));
            for i in 0..=n.min(3) {
                v.push(Op::It(*t, i));
            }
        }
        for &p in &spread(&nts, sp.sparse, 3) {
            v.push(Op::It(p, n + 1));
            v.push(Op::It(p, n + 3));
            for i in 0..=n.min(4) {
                v.push(Op::Mv(p, i));
            }
        }
    }
    if sp.transform {
        v.push(Op::Pj);
        v.push(Op::Cl);
        v.push(Op::Rc);
        let k = nts.len().min(4) as u32;
        for mask in 0..(1u32 << k) {
            v.push(Op::Fl(mask));
            v.push(Op::In(mask));
        }
        let k = n.min(4) as u32;
        for &p in &spread(&nts, true, 4) {
            for mask in 1..(1u32 << k) {
                v.push(Op::Rt(p, mask));
            }
        }
        v.push(Op::Ng);
        v.push(Op::Pos);
        v.push(Op::Tp);
        v.push(Op::Ab);
        v.push(Op::Pn(1));
        v.push(Op::Pn(6));
        v.push(Op::Rd);
    }
    v
}

#[derive(Debug)]
pub enum Got {
    Unit,
    Node(NodeIndex),
    Removed(Node),
    Re(EdgeIndex, Edge),
    Edge(EdgeIndex),
    OptEdge(Option<Edge>),
    Refused(String),
    Panicked(String),
    /// the operation has no defined arguments here
    NotApplicable,
}

pub const NEW_NT: &str = "u";
pub const NEW_T: &str = "nw";

pub fn apply(t: &mut Tree, op: Op) -> Got {
    let r = guard(|| apply_unguarded(t, op));
    match r {
        Ok(g) => g,
        Err(p) => Got::Panicked(p),
    }
}

fn res<T>(r: Result<T, failure::Error>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(v) => f(v),
        Err(e) => Got::Refused(e.to_string()),
    }
}

fn apply_unguarded(t: &mut Tree, op: Op) -> Got {
    match op {
        Op::Ia(i) => Got::Node(t.insert_unary_above(nx(i), NEW_NT)),
        Op::Ib(i) => res(t.insert_unary_below(nx(i), NEW_NT), Got::Node),
        Op::Rm(i) => res(t.remove_node(nx(i)), Got::Removed),
        Op::Ra(p, c) => match edge_above(t, c) {
            Some(e) => res(t.reattach_node(nx(p), e), |(i, e)| Got::Re(i, e)),
            None => Got::NotApplicable,
        },
        Op::Rs(p, e) | Op::Rx(p, e) => res(t.reattach_node(nx(p), ex(e)), |(i, e)| Got::Re(i, e)),
        Op::Mv(i, p) => {
            t.move_terminal(nx(i), p);
            Got::Unit
        }
        Op::It(p, i) => {
            let mut term = Terminal::new(NEW_T, "nt", i);
            term.set_lemma(Some("nl"));
            term.features_mut().insert("nf", Some("1"));
            Got::Node(t.insert_terminal(nx(p), term))
        }
        Op::Pt => res(t.push_terminal(NEW_T, "pt"), Got::Node),
        Op::As(a, b, l) => Got::Edge(t.add_secondary_edge(nx(a), nx(b), if l { Some("s") } else { None })),
        Op::Rse(e) => Got::OptEdge(t.remove_secondary_edge(ex(e))),
        Op::Pj => {
            t.projectivize();
            Got::Unit
        }
        Op::Cl => res(t.collapse_unary_chains("+"), |_| Got::Unit),
        Op::Rc => res(t.restore_unary_chains("+"), |_| Got::Unit),
        Op::Fl(mask) => {
            let nts: Vec<NodeIndex> = t.nonterminals().collect();
            let keep = move |_: &Tree, n: NodeIndex| {
                nts.iter().position(|x| *x == n).map_or(true, |p| p >= 32 || mask & (1 << p) != 0)
            };
            res(t.filter_nonterminals(keep), |_| Got::Unit)
        }
        Op::In(mask) => {
            let nts: Vec<NodeIndex> = t.nonterminals().collect();
            let f = move |_: &Tree, n: NodeIndex| match nts.iter().position(|x| *x == n) {
                Some(p) if p < 32 && mask & (1 << p) != 0 => Some("in".to_string()),
                _ => None,
            };
            res(t.insert_intermediate(f), |_| Got::Unit)
        }
        Op::Rt(p, mask) => {
            if t[nx(p)].is_terminal() {
                return Got::NotApplicable;
            }
            let f = move |t: &Tree, n: NodeIndex| {
                let i = t[n].span().start;
                i < 32 && mask & (1 << i) != 0
            };
            t.reattach_terminals(nx(p), f);
            Got::Unit
        }
        Op::Pos => {
            let n = t.n_terminals();
            res(t.annotate_pos((0..n).map(|i| format!("P{}", i))), |_| Got::Unit)
        }
        Op::Tp => res(t.annotate_parent_tag("parent"), |_| Got::Unit),
        Op::Ab => match t.annotate_absolute() {
            Ok(()) => res(t.annotate_relative(), |_| Got::Unit),
            Err(e) => Got::Refused(e.to_string()),
        },
        Op::Pn(mask) => {
            let nts: Vec<NodeIndex> = t.nonterminals().collect();
            let f = move |_: &Tree, n: NodeIndex| match nts.iter().position(|x| *x == n) {
                Some(p) => p < 32 && mask & (1 << p) != 0,
                None => false,
            };
            t.project_tag_set("projected", f);
            Got::Unit
        }
        Op::Rd => res(t.remove_dummy_nodes(), |_| Got::Unit),
        Op::Ng => {
            if t[t.root()].is_terminal() || negra_unwritable(t) {
                return Got::NotApplicable;
            }
            let mut out = Vec::new();
            if let Err(e) = lumberjack::io::NegraWriter::new(&mut out).write_tree(t) {
                return Got::Refused(e.to_string());
            }
            match NegraReader::new(out.as_slice()).next() {
                Some(Ok(x)) => {
                    *t = x;
                    Got::Unit
                }
                Some(Err(e)) => Got::Refused(e.to_string()),
                None => Got::Refused("nothing read".into()),
            }
        }
    }
}

/// Secondary edges the Negra format can't express.
fn negra_unwritable(t: &Tree) -> bool {
    use petgraph::visit::{EdgeRef, IntoEdgeReferences};
    t.graph()
        .edge_references()
        .any(|e| !e.weight().is_primary() && t[e.source()].is_terminal())
}

pub enum Expect {
    Accept,
    Refuse,
    Panic,
    /// documentation and established behaviour leave it open
    AcceptOrRefuse,
    /// not specified here
    Open,
}

/// Is the call to be accepted, refused or answered by a panic?
pub fn expect(m: &M, op: Op) -> Expect {
    use Expect::*;
    let n = m.n();
    let has = |i: Id| m.nodes.contains_key(&i);
    match op {
        Op::Ia(i) => {
            if has(i) {
                Accept
            } else {
                Open
            }
        }
        Op::Ib(i) => {
            if !has(i) {
                Open
            } else if m.nodes[&i].is_t() {
                Refuse
            } else {
                Accept
            }
        }
        Op::Rm(i) => {
            if !has(i) {
                return Panic;
            }
            let node = &m.nodes[&i];
            match (node.is_t(), node.parent) {
                (true, None) => Refuse,
                (true, Some(p)) => {
                    if m.nodes[&p].kids.len() > 1 {
                        Accept
                    } else {
                        Refuse
                    }
                }
                (false, None) => {
                    if node.kids.len() == 1 {
                        Accept
                    } else {
                        Refuse
                    }
                }
                (false, Some(_)) => Accept,
            }
        }
        Op::Ra(p, c) => {
            if !has(c) || m.nodes[&c].parent.is_none() {
                return Open;
            }
            if !has(p) {
                return Panic;
            }
            let old = m.nodes[&c].parent.unwrap();
            if p == c || m.nodes[&p].is_t() || m.desc(c).contains(&p) {
                Refuse
            } else if m.nodes[&old].kids.len() == 1 {
                if old == p {
                    AcceptOrRefuse
                } else {
                    Refuse
                }
            } else {
                Accept
            }
        }
        Op::Rs(p, e) => {
            let s = match m.sec.iter().find(|s| s.eid == e) {
                Some(s) => s,
                None => return Open,
            };
            if !has(p) {
                Panic
            } else if s.dst == p || m.nodes[&p].is_t() {
                Refuse
            } else {
                Accept
            }
        }
        Op::Rx(_, _) => Panic,
        Op::Mv(i, p) => {
            if !has(i) {
                Open
            } else if !m.nodes[&i].is_t() || p >= n {
                Panic
            } else {
                Accept
            }
        }
        Op::It(p, i) => {
            if !has(p) {
                Open
            } else if m.nodes[&p].is_t() || i > n {
                Panic
            } else {
                Accept
            }
        }
        Op::Pt => {
            if m.nodes[&m.root].is_t() {
                Refuse
            } else {
                Accept
            }
        }
        Op::As(a, b, _) => {
            if has(a) && has(b) {
                Accept
            } else {
                Open
            }
        }
        // answers with an option
        Op::Rse(_) => Accept,
        _ => Open,
    }
}

/// The model after an accepted edit, and the comparison of the returned value.
pub fn effect(m: &M, op: Op, got: &Got, t: &Tree) -> Result<M, String> {
    let mut m = m.clone();
    let new_node = |m: &M, got: &Got| -> Result<Id, String> {
        match got {
            Got::Node(i) if !m.nodes.contains_key(&i.index()) => Ok(i.index()),
            g => Err(format!("returned {:?} instead of a new node", g)),
        }
    };
    match op {
        Op::Ia(i) => {
            let new = new_node(&m, got)?;
            m.insert_above(i, new, NEW_NT);
        }
        Op::Ib(i) => {
            let new = new_node(&m, got)?;
            let kids: Vec<Id> = m.nodes[&i].kids.iter().cloned().collect();
            m.nodes.insert(new, MNode::new_n(NEW_NT));
            m.attach(i, new, None);
            for k in kids {
                m.attach(new, k, None);
            }
        }
        Op::Rm(i) => {
            let want = m.nodes[&i].clone();
            match got {
                Got::Removed(node) => {
                    let r = mnode_of(node);
                    if r.kind != want.kind || r.feats != want.feats {
                        return Err(format!("returned node {:?} instead of {:?}", r, want));
                    }
                }
                g => return Err(format!("returned {:?}", g)),
            }
            if want.is_t() {
                m.detach(i);
                m.nodes.remove(&i);
                m.sec.retain(|s| s.src != i && s.dst != i);
                m.compact();
            } else {
                m.splice_out(i);
            }
        }
        Op::Ra(p, c) => {
            let old = m.nodes[&c].edge.clone();
            match got {
                Got::Re(i, e) => {
                    if *e != Edge::Primary(old.clone()) {
                        return Err(format!("returned edge {:?} instead of {:?}", e, old));
                    }
                    check_edge(t, *i, p, c, &Edge::Primary(None))?;
                }
                g => return Err(format!("returned {:?}", g)),
            }
            m.attach(p, c, None);
        }
        Op::Rs(p, eid) => {
            let k = m.sec.iter().position(|s| s.eid == eid).unwrap();
            let s = m.sec.remove(k);
            match got {
                Got::Re(i, e) => {
                    if *e != Edge::Secondary(s.label.clone()) {
                        return Err(format!("returned edge {:?} instead of {:?}", e, s));
                    }
                    check_edge(t, *i, p, s.dst, &Edge::Secondary(None))?;
                    m.sec.push(Sec { eid: i.index(), src: p, dst: s.dst, label: None });
                }
                g => return Err(format!("returned {:?}", g)),
            }
            m.sec.sort();
        }
        Op::Mv(i, p) => {
            let mut order: Vec<Id> = m.terms().into_iter().filter(|x| *x != i).collect();
            order.insert(p, i);
            for (pos, x) in order.into_iter().enumerate() {
                m.nodes.get_mut(&x).unwrap().set_pos(pos);
            }
        }
        Op::It(p, idx) => {
            let new = new_node(&m, got)?;
            for x in m.terms() {
                let n = m.nodes.get_mut(&x).unwrap();
                if n.pos() >= idx {
                    n.set_pos(n.pos() + 1);
                }
            }
            let mut n = MNode::new_t(NEW_T, "nt", idx);
            if let Kind::T { lemma, .. } = &mut n.kind {
                *lemma = Some("nl".into());
            }
            n.feats.insert("nf".into(), Some("1".into()));
            m.nodes.insert(new, n);
            m.attach(p, new, None);
        }
        Op::Pt => {
            let new = new_node(&m, got)?;
            let n = m.n();
            m.nodes.insert(new, MNode::new_t(NEW_T, "pt", n));
            let r = m.root;
            m.attach(r, new, None);
        }
        Op::As(a, b, l) => {
            let label = if l { Some("s".to_string()) } else { None };
            match got {
                Got::Edge(i) => {
                    check_edge(t, *i, a, b, &Edge::Secondary(label.clone()))?;
                    if m.sec.iter().any(|s| s.eid == i.index()) {
                        return Err("edge handle is in use".into());
                    }
                    m.sec.push(Sec { eid: i.index(), src: a, dst: b, label });
                }
                g => return Err(format!("returned {:?}", g)),
            }
            m.sec.sort();
        }
        Op::Rse(eid) => {
            let k = m.sec.iter().position(|s| s.eid == eid);
            let want = k.map(|k| m.sec.remove(k)).map(|s| Edge::Secondary(s.label));
            match got {
                Got::OptEdge(e) if *e == want => (),
                g => return Err(format!("returned {:?} instead of {:?}", g, want)),
            }
        }
        _ => return Err("no reference effect".into()),
    }
    Ok(m)
}

fn check_edge(t: &Tree, i: EdgeIndex, src: Id, dst: Id, want: &Edge) -> Result<(), String> {
    let g = t.graph();
    if g.edge_endpoints(i) != Some((nx(src), nx(dst))) {
        return Err(format!("returned edge {:?} connects {:?}", i, g.edge_endpoints(i)));
    }
    if g.edge_weight(i) != Some(want) {
        return Err(format!("returned edge is {:?}", g.edge_weight(i)));
    }
    Ok(())
}

/// Which aspects of a step are judged.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mon {
    WellFormed,
    Spans,
    Effect,
    Refusal,
    Queries,
}

pub enum StepResult {
    /// continue from the tree
    Next,
    /// the history ends here (documented panic)
    End,
}

/// Execute one operation on `t` (in state `m`) and judge it.
pub fn step(t: &mut Tree, m: &M, op: Op, mon: Mon) -> Result<(StepResult, &'static str), String> {
    let e = expect(m, op);
    let before = if mon == Mon::Refusal { Some(snapshot(t)) } else { None };
    let got = apply(t, op);
    if let Got::NotApplicable = got {
        return Ok((StepResult::End, "n/a"));
    }
    let legal = !matches!(e, Expect::Panic) && (op.is_edit() && !matches!(e, Expect::Open) || !op.is_edit());
    if let Got::Panicked(p) = &got {
        if legal {
            return Err(format!("{}: {}", op.show(), p));
        }
        return Ok((StepResult::End, "panic"));
    }
    let refused = matches!(got, Got::Refused(_));
    match mon {
        Mon::Refusal => {
            match (&e, &got) {
                (Expect::Accept, Got::Refused(r)) => {
                    return Err(format!("{} has to be accepted but was refused: {}", op.show(), r))
                }
                (Expect::Refuse, g) if !refused => {
                    return Err(format!("{} has to be refused but returned {:?}", op.show(), g))
                }
                (Expect::Panic, g) => {
                    return Err(format!("{} has to panic but returned {:?}", op.show(), g))
                }
                _ => (),
            }
            if refused || matches!(got, Got::OptEdge(None)) {
                let after = snapshot(t);
                if before.as_ref() != Some(&after) {
                    return Err(format!(
                        "{} was refused but changed the tree from\n{}\nto\n{}",
                        op.show(),
                        before.unwrap().unwrap_or_else(|e| e),
                        after.unwrap_or_else(|e| e)
                    ));
                }
            }
        }
        Mon::Effect => {
            if let Expect::Panic = e {
                return Ok((StepResult::End, "panic"));
            }
            if op.is_edit() && !refused && !matches!(e, Expect::Open | Expect::Refuse) {
                let want = effect(m, op, &got, t).map_err(|e| format!("{}: {}", op.show(), e))?;
                let x = extract(t).map_err(|e| format!("{}: {}", op.show(), e))?;
                if x != want {
                    return Err(format!(
                        "{}: result differs from the documented effect\n  result:   {}\n  expected: {}{}",
                        op.show(),
                        x.to_text(),
                        want.to_text(),
                        diff(&x, &want)
                    ));
                }
            }
        }
        Mon::WellFormed => {
            if let Expect::Panic = e {
                return Ok((StepResult::End, "panic"));
            }
            extract(t).map_err(|e| format!("after {}: {}", op.show(), e))?;
        }
        Mon::Queries => {
            if let Expect::Panic = e {
                return Ok((StepResult::End, "panic"));
            }
            // T01 judges whether the tree is well formed
            if let Ok(x) = extract(t) {
                crate::checks::query::check_queries(t, &x).map_err(|e| format!("after {}: {}", op.show(), e))?;
            }
        }
        Mon::Spans => {
            if let Expect::Panic = e {
                return Ok((StepResult::End, "panic"));
            }
            let x = extract(t).map_err(|e| format!("after {}: {}", op.show(), e))?;
            crate::model::check_spans(t, &x).map_err(|e| format!("after {}: {}", op.show(), e))?;
        }
    }
    Ok((StepResult::Next, if refused { "refused" } else { "accepted" }))
}

pub fn diff(a: &M, b: &M) -> String {
    let mut s = String::new();
    if a.root != b.root {
        s.push_str(&format!("\n  root {} / {}", a.root, b.root));
    }
    for i in a.nodes.keys().chain(b.nodes.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.nodes.get(i) != b.nodes.get(i) {
            s.push_str(&format!("\n  node {}: {:?} / {:?}", i, a.nodes.get(i), b.nodes.get(i)));
        }
    }
    if a.sec != b.sec {
        s.push_str(&format!("\n  secondary {:?} / {:?}", a.sec, b.sec));
    }
    s
}

/// Everything observable about a tree, handles included.
pub fn snapshot(t: &Tree) -> Result<String, String> {
    let x = extract(t)?;
    let mut s = format!("{:?}", x);
    for i in x.nodes.keys() {
        let sp = t[nx(*i)].span();
        let mut sk: Vec<usize> = sp.skips().map(|s| s.iter().cloned().collect()).unwrap_or_default();
        sk.sort();
        s.push_str(&format!(
            " {}:{:?}{:?}{:?}{:?}",
            i,
            sp.bounds(),
            sk,
            t[nx(*i)].continuity(),
            t.parent(nx(*i)).map(|(p, e)| (p.index(), e.index()))
        ));
    }
    s.push_str(&format!(" {} {}", t.n_terminals(), t.is_projective()));
    Ok(s)
}
