//! Reference model of a constituency tree: plain maps, no spans, no incremental bookkeeping.
//!
//! `extract` reads a real `Tree` through its public graph and rejects anything that is not a
//! well-formed constituency tree; `check_spans` compares all spans with the actual yields.

use std::collections::{BTreeMap, BTreeSet};

use lumberjack::{Continuity, Edge, Features, Node, Tree};
use petgraph::prelude::{EdgeIndex, NodeIndex};
use petgraph::visit::{EdgeRef, IntoEdgeReferences};

pub type Id = usize;
pub type Feats = BTreeMap<String, Option<String>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    T {
        form: String,
        tag: String,
        lemma: Option<String>,
        pos: usize,
    },
    N {
        label: String,
    },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MNode {
    pub kind: Kind,
    pub feats: Feats,
    /// label of the incoming primary edge
    pub edge: Option<String>,
    pub parent: Option<Id>,
    pub kids: BTreeSet<Id>,
}

impl MNode {
    pub fn is_t(&self) -> bool {
        matches!(self.kind, Kind::T { .. })
    }
    pub fn label(&self) -> &str {
        match &self.kind {
            Kind::T { tag, .. } => tag,
            Kind::N { label } => label,
        }
    }
    pub fn set_label(&mut self, s: &str) {
        match &mut self.kind {
            Kind::T { tag, .. } => *tag = s.to_string(),
            Kind::N { label } => *label = s.to_string(),
        }
    }
    pub fn pos(&self) -> usize {
        match &self.kind {
            Kind::T { pos, .. } => *pos,
            _ => panic!("pos of nonterminal"),
        }
    }
    pub fn set_pos(&mut self, p: usize) {
        match &mut self.kind {
            Kind::T { pos, .. } => *pos = p,
            _ => panic!("pos of nonterminal"),
        }
    }
    pub fn new_n(label: &str) -> MNode {
        MNode {
            kind: Kind::N { label: label.to_string() },
            feats: Feats::new(),
            edge: None,
            parent: None,
            kids: BTreeSet::new(),
        }
    }
    pub fn new_t(form: &str, tag: &str, pos: usize) -> MNode {
        MNode {
            kind: Kind::T {
                form: form.to_string(),
                tag: tag.to_string(),
                lemma: None,
                pos,
            },
            feats: Feats::new(),
            edge: None,
            parent: None,
            kids: BTreeSet::new(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sec {
    pub eid: usize,
    pub src: Id,
    pub dst: Id,
    pub label: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct M {
    pub nodes: BTreeMap<Id, MNode>,
    pub root: Id,
    pub sec: Vec<Sec>,
}

impl M {
    pub fn n(&self) -> usize {
        self.nodes.values().filter(|n| n.is_t()).count()
    }
    pub fn terms(&self) -> Vec<Id> {
        let mut v: Vec<Id> = self.nodes.iter().filter(|(_, n)| n.is_t()).map(|(i, _)| *i).collect();
        v.sort_by_key(|i| self.nodes[i].pos());
        v
    }
    pub fn nts(&self) -> Vec<Id> {
        self.nodes.iter().filter(|(_, n)| !n.is_t()).map(|(i, _)| *i).collect()
    }
    pub fn yield_of(&self, id: Id) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut stack = vec![id];
        while let Some(x) = stack.pop() {
            let n = &self.nodes[&x];
            if n.is_t() {
                out.insert(n.pos());
            }
            stack.extend(n.kids.iter().cloned());
        }
        out
    }
    pub fn ancestors(&self, id: Id) -> Vec<Id> {
        let mut v = Vec::new();
        let mut cur = id;
        while let Some(p) = self.nodes[&cur].parent {
            v.push(p);
            cur = p;
        }
        v
    }
    pub fn desc(&self, id: Id) -> BTreeSet<Id> {
        let mut out = BTreeSet::new();
        let mut stack = vec![id];
        while let Some(x) = stack.pop() {
            if x != id {
                out.insert(x);
            }
            stack.extend(self.nodes[&x].kids.iter().cloned());
        }
        out
    }
    pub fn depth(&self, id: Id) -> usize {
        self.ancestors(id).len()
    }
    pub fn has_gap(&self, id: Id) -> bool {
        let y = self.yield_of(id);
        let lo = *y.iter().next().unwrap();
        let hi = *y.iter().next_back().unwrap();
        hi - lo + 1 != y.len()
    }
    pub fn projective(&self) -> bool {
        self.nodes.keys().all(|i| !self.has_gap(*i))
    }
    pub fn post_order(&self) -> Vec<Id> {
        fn rec(m: &M, x: Id, out: &mut Vec<Id>) {
            for k in m.sorted_kids(x) {
                rec(m, k, out);
            }
            out.push(x);
        }
        let mut v = Vec::new();
        rec(self, self.root, &mut v);
        v
    }
    pub fn pre_order(&self) -> Vec<Id> {
        fn rec(m: &M, x: Id, out: &mut Vec<Id>) {
            out.push(x);
            for k in m.sorted_kids(x) {
                rec(m, k, out);
            }
        }
        let mut v = Vec::new();
        rec(self, self.root, &mut v);
        v
    }
    pub fn sorted_kids(&self, id: Id) -> Vec<Id> {
        let mut v: Vec<(usize, Id)> = self.nodes[&id]
            .kids
            .iter()
            .map(|k| (*self.yield_of(*k).iter().next().unwrap_or(&usize::MAX), *k))
            .collect();
        v.sort();
        v.into_iter().map(|(_, k)| k).collect()
    }

    // ---- elementary edits of the model -------------------------------------------------------
    pub fn fresh(&self) -> Id {
        self.nodes.keys().next_back().map(|x| x + 1).unwrap_or(0)
    }
    pub fn attach(&mut self, parent: Id, child: Id, edge: Option<String>) {
        self.detach(child);
        self.nodes.get_mut(&parent).unwrap().kids.insert(child);
        let c = self.nodes.get_mut(&child).unwrap();
        c.parent = Some(parent);
        c.edge = edge;
    }
    pub fn detach(&mut self, child: Id) {
        if let Some(p) = self.nodes[&child].parent {
            self.nodes.get_mut(&p).unwrap().kids.remove(&child);
        }
        let c = self.nodes.get_mut(&child).unwrap();
        c.parent = None;
        c.edge = None;
    }
    /// Remove a nonterminal, its children move to its parent (or become the root).
    pub fn splice_out(&mut self, id: Id) {
        let parent = self.nodes[&id].parent;
        let kids: Vec<Id> = self.nodes[&id].kids.iter().cloned().collect();
        for k in kids {
            match parent {
                Some(p) => self.attach(p, k, None),
                None => {
                    self.detach(k);
                    self.root = k;
                }
            }
        }
        self.detach(id);
        self.nodes.remove(&id);
        self.sec.retain(|s| s.src != id && s.dst != id);
    }
    pub fn insert_above(&mut self, child: Id, new: Id, label: &str) {
        let parent = self.nodes[&child].parent;
        let edge = self.nodes[&child].edge.clone();
        self.nodes.insert(new, MNode::new_n(label));
        if let Some(p) = parent {
            self.attach(p, new, None);
        } else {
            self.root = new;
        }
        self.attach(new, child, edge);
    }
    /// Renumber terminal positions to 0.. keeping their order.
    pub fn compact(&mut self) {
        for (i, t) in self.terms().into_iter().enumerate() {
            self.nodes.get_mut(&t).unwrap().set_pos(i);
        }
    }

    // ---- canonical form ---------------------------------------------------------------------
    pub fn canon_map(&self) -> BTreeMap<Id, Id> {
        self.pre_order().into_iter().enumerate().map(|(i, x)| (x, i)).collect()
    }
    /// The same tree with nodes numbered in pre-order (children by first position).
    pub fn canon(&self) -> M {
        let map = self.canon_map();
        let nodes = self
            .nodes
            .iter()
            .map(|(i, n)| {
                let mut n = n.clone();
                n.parent = n.parent.map(|p| map[&p]);
                n.kids = n.kids.iter().map(|k| map[k]).collect();
                (map[i], n)
            })
            .collect();
        let mut sec: Vec<Sec> = self
            .sec
            .iter()
            .map(|s| Sec { eid: 0, src: map[&s.src], dst: map[&s.dst], label: s.label.clone() })
            .collect();
        sec.sort();
        M { nodes, root: 0, sec }
    }
    pub fn without_sec(&self) -> M {
        let mut m = self.clone();
        m.sec.clear();
        m
    }
    pub fn map_nodes(&self, f: impl Fn(Id, &mut MNode)) -> M {
        let mut m = self.clone();
        for (i, n) in m.nodes.iter_mut() {
            f(*i, n);
        }
        m
    }
    /// Only structure, node labels, forms, tags (what every format carries).
    pub fn bare(&self) -> M {
        let mut m = self.map_nodes(|_, n| {
            n.edge = None;
            n.feats.clear();
            if let Kind::T { lemma, .. } = &mut n.kind {
                *lemma = None;
            }
        });
        m.sec.clear();
        m
    }

    // ---- text -------------------------------------------------------------------------------
    pub fn to_text(&self) -> String {
        let c = self.canon();
        let mut s = String::new();
        c.fmt_node(c.root, &mut s);
        for e in &c.sec {
            s.push_str(&format!(" |{}>{}", e.src, e.dst));
            if let Some(l) = &e.label {
                s.push(':');
                atom(l, &mut s);
            }
        }
        s
    }
    fn fmt_node(&self, id: Id, s: &mut String) {
        let n = &self.nodes[&id];
        match &n.kind {
            Kind::T { form, tag, lemma, pos } => {
                s.push('[');
                s.push_str(&format!("{} ", pos));
                atom(form, s);
                s.push(' ');
                atom(tag, s);
                if let Some(l) = lemma {
                    s.push_str(" ~");
                    atom(l, s);
                }
            }
            Kind::N { label } => {
                s.push('(');
                atom(label, s);
            }
        }
        if let Some(e) = &n.edge {
            s.push_str(" :");
            atom(e, s);
        }
        for (k, v) in &n.feats {
            s.push_str(" @");
            atom(k, s);
            if let Some(v) = v {
                s.push('=');
                atom(v, s);
            }
        }
        match &n.kind {
            Kind::T { .. } => s.push(']'),
            Kind::N { .. } => {
                for k in self.sorted_kids(id) {
                    s.push(' ');
                    self.fmt_node(k, s);
                }
                s.push(')');
            }
        }
    }
    pub fn parse(text: &str) -> Option<M> {
        let cs: Vec<char> = text.chars().collect();
        let mut p = P { c: &cs, i: 0 };
        let mut m = M { nodes: BTreeMap::new(), root: 0, sec: Vec::new() };
        p.node(&mut m, None)?;
        loop {
            p.ws();
            if p.i >= cs.len() {
                break;
            }
            p.eat('|')?;
            let src = p.num()?;
            p.eat('>')?;
            let dst = p.num()?;
            let label = if p.peek() == Some(':') {
                p.i += 1;
                Some(p.atom()?)
            } else {
                None
            };
            m.sec.push(Sec { eid: 0, src, dst, label });
        }
        Some(m)
    }
}

fn atom(a: &str, s: &mut String) {
    if !a.is_empty() && a.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        s.push_str(a);
    } else {
        s.push_str(&quote(a));
    }
}
/// Printable single-line quoting.
pub fn quote(a: &str) -> String {
    let mut s = String::from("\"");
    for c in a.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            '\r' => s.push_str("\\r"),
            c if c.is_control() => s.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
pub fn unquote(a: &str) -> Option<String> {
    let cs: Vec<char> = a.chars().collect();
    let mut p = P { c: &cs, i: 0 };
    let r = p.atom()?;
    if p.i == cs.len() {
        Some(r)
    } else {
        None
    }
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).cloned()
    }
    fn ws(&mut self) {
        while self.peek() == Some(' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        self.ws();
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn num(&mut self) -> Option<usize> {
        self.ws();
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if c.is_ascii_digit() {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        s.parse().ok()
    }
    fn atom(&mut self) -> Option<String> {
        self.ws();
        let mut s = String::new();
        if self.peek() == Some('"') {
            self.i += 1;
            loop {
                let c = self.peek()?;
                self.i += 1;
                match c {
                    '"' => return Some(s),
                    '\\' => {
                        let e = self.peek()?;
                        self.i += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'u' => {
                                self.i += 1;
                                let mut h = String::new();
                                while self.peek()? != '}' {
                                    h.push(self.peek()?);
                                    self.i += 1;
                                }
                                self.i += 1;
                                s.push(std::char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        while let Some(c) = self.peek() {
            if c.is_ascii_alphanumeric() || c == '_' {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Some(s)
    }
    fn node(&mut self, m: &mut M, parent: Option<Id>) -> Option<Id> {
        self.ws();
        let id = m.nodes.len();
        let open = self.peek()?;
        self.i += 1;
        let mut n;
        if open == '[' {
            let pos = self.num()?;
            let form = self.atom()?;
            let tag = self.atom()?;
            n = MNode::new_t(&form, &tag, pos);
            self.ws();
            if self.peek() == Some('~') {
                self.i += 1;
                let l = self.atom()?;
                if let Kind::T { lemma, .. } = &mut n.kind {
                    *lemma = Some(l);
                }
            }
        } else if open == '(' {
            n = MNode::new_n(&self.atom()?);
        } else {
            return None;
        }
        self.ws();
        if self.peek() == Some(':') {
            self.i += 1;
            n.edge = Some(self.atom()?);
        }
        self.ws();
        while self.peek() == Some('@') {
            self.i += 1;
            let k = self.atom()?;
            let v = if self.peek() == Some('=') {
                self.i += 1;
                Some(self.atom()?)
            } else {
                None
            };
            n.feats.insert(k, v);
            self.ws();
        }
        n.parent = parent;
        m.nodes.insert(id, n);
        if open == '[' {
            self.eat(']')?;
        } else {
            loop {
                self.ws();
                if self.peek() == Some(')') {
                    self.i += 1;
                    break;
                }
                let k = self.node(m, Some(id))?;
                m.nodes.get_mut(&id).unwrap().kids.insert(k);
            }
        }
        Some(id)
    }
}

// ---------------------------------------------------------------------------------------------
// reading real trees

pub fn feats_of(f: Option<&Features>) -> Feats {
    f.map(|f| f.inner().clone()).unwrap_or_default()
}

pub fn mnode_of(n: &Node) -> MNode {
    match n {
        Node::Terminal(t) => MNode {
            kind: Kind::T {
                form: t.form().to_string(),
                tag: t.label().to_string(),
                lemma: t.lemma().map(ToOwned::to_owned),
                pos: t.idx(),
            },
            feats: feats_of(t.features()),
            edge: None,
            parent: None,
            kids: BTreeSet::new(),
        },
        Node::NonTerminal(nt) => MNode {
            kind: Kind::N { label: nt.label().to_string() },
            feats: feats_of(nt.features()),
            edge: None,
            parent: None,
            kids: BTreeSet::new(),
        },
    }
}

/// Read a real tree; `Err` describes why it is not a well-formed constituency tree.
pub fn extract(t: &Tree) -> Result<M, String> {
    let g = t.graph();
    let mut nodes: BTreeMap<Id, MNode> = BTreeMap::new();
    for i in g.node_indices() {
        nodes.insert(i.index(), mnode_of(&g[i]));
    }
    let mut sec = Vec::new();
    for e in g.edge_references() {
        let (s, d) = (e.source().index(), e.target().index());
        match e.weight() {
            Edge::Primary(l) => {
                let dn = nodes.get_mut(&d).ok_or("edge to missing node")?;
                if let Some(p) = dn.parent {
                    return Err(format!("node {} has two primary parents: {} and {}", d, p, s));
                }
                dn.parent = Some(s);
                dn.edge = l.clone();
                let sn = nodes.get_mut(&s).ok_or("edge from missing node")?;
                if sn.is_t() {
                    return Err(format!("terminal {} has a child", s));
                }
                sn.kids.insert(d);
            }
            Edge::Secondary(l) => sec.push(Sec {
                eid: e.id().index(),
                src: s,
                dst: d,
                label: l.clone(),
            }),
        }
    }
    sec.sort();
    let root = t.root().index();
    let m = M { nodes, root, sec };
    let r = m.nodes.get(&root).ok_or("root is not in the tree")?;
    if r.parent.is_some() {
        return Err("root has a parent".into());
    }
    for (i, n) in &m.nodes {
        if *i != root && n.parent.is_none() {
            return Err(format!("node {} has no parent and is not the root", i));
        }
        if !n.is_t() && n.kids.is_empty() {
            return Err(format!("nonterminal {} has no children", i));
        }
    }
    // reachability (no detached cycles)
    let mut seen = BTreeSet::new();
    let mut stack = vec![root];
    while let Some(x) = stack.pop() {
        if !seen.insert(x) {
            return Err("cycle".into());
        }
        stack.extend(m.nodes[&x].kids.iter().cloned());
    }
    if seen.len() != m.nodes.len() {
        return Err(format!(
            "nodes not reachable from the root: {:?}",
            m.nodes.keys().filter(|k| !seen.contains(k)).collect::<Vec<_>>()
        ));
    }
    let pos: Vec<usize> = {
        let mut v: Vec<usize> = m.nodes.values().filter(|n| n.is_t()).map(MNode::pos).collect();
        v.sort();
        v
    };
    if pos.iter().cloned().ne(0..pos.len()) {
        return Err(format!("terminal positions are {:?}", pos));
    }
    if t.n_terminals() != pos.len() {
        return Err(format!("n_terminals() is {} but there are {}", t.n_terminals(), pos.len()));
    }
    Ok(m)
}

/// Compare every span and the projectivity verdict of a (well-formed) tree with the actual yields.
pub fn check_spans(t: &Tree, m: &M) -> Result<(), String> {
    let n = m.n();
    let mut any = false;
    // yields bottom-up
    let mut yields: BTreeMap<Id, BTreeSet<usize>> = BTreeMap::new();
    let mut order = Vec::with_capacity(m.nodes.len());
    let mut stack = vec![m.root];
    while let Some(x) = stack.pop() {
        order.push(x);
        stack.extend(m.nodes[&x].kids.iter().cloned());
    }
    for id in order.into_iter().rev() {
        let node = &m.nodes[&id];
        let y: BTreeSet<usize> = if node.is_t() {
            Some(node.pos()).into_iter().collect()
        } else {
            node.kids.iter().flat_map(|k| yields[k].iter().cloned()).collect()
        };
        yields.insert(id, y);
    }
    for (id, y) in &yields {
        let node = &t[NodeIndex::new(*id)];
        let span = node.span();
        let lo = *y.iter().next().unwrap();
        let hi = *y.iter().next_back().unwrap() + 1;
        if (span.start, span.end) != (lo, hi) || span.bounds() != (lo, hi) {
            return Err(format!(
                "node {} covers {:?} but its span is {:?}",
                id, y, (span.start, span.end)
            ));
        }
        let gaps: BTreeSet<usize> = (lo..hi).filter(|i| !y.contains(i)).collect();
        match span.skips() {
            None => {
                if !gaps.is_empty() {
                    return Err(format!("node {} covers {:?} but reports no skips", id, y));
                }
            }
            Some(s) => {
                let s: BTreeSet<usize> = s.iter().cloned().collect();
                if gaps.is_empty() || s != gaps {
                    return Err(format!("node {} covers {:?} but reports skips {:?}", id, y, s));
                }
            }
        }
        if span.n_indices() != y.len() {
            return Err(format!("node {} covers {:?}, n_indices {}", id, y, span.n_indices()));
        }
        if span.into_iter().ne(y.iter().cloned()) {
            return Err(format!(
                "node {} covers {:?}, iteration gives {:?}",
                id, y, span.into_iter().collect::<Vec<_>>()
            ));
        }
        for i in 0..n + 2 {
            if span.contains(i) != y.contains(&i) {
                return Err(format!("node {} covers {:?}, contains({}) wrong", id, y, i));
            }
        }
        let disc = !gaps.is_empty();
        let c = node.continuity();
        if (c == Continuity::Discontinuous) != disc {
            return Err(format!("node {} covers {:?} but is {:?}", id, y, c));
        }
        if let Some(nt) = node.nonterminal() {
            if nt.continuity() != c || nt.span() != span {
                return Err(format!("node {} continuity of nonterminal differs", id));
            }
        }
        if let Some(term) = node.terminal() {
            if term.idx() != span.start || term.span() != span {
                return Err(format!("terminal {} idx {} span {:?}", id, term.idx(), span));
            }
        }
        any |= disc;
    }
    if t.is_projective() == any {
        return Err(format!(
            "is_projective() is {} but the tree has {} discontinuous node",
            t.is_projective(),
            if any { "a" } else { "no" }
        ));
    }
    Ok(())
}

pub fn nx(i: Id) -> NodeIndex {
    NodeIndex::new(i)
}
pub fn ex(i: usize) -> EdgeIndex {
    EdgeIndex::new(i)
}

/// The primary edge above `child`, found without using navigation methods.
pub fn edge_above(t: &Tree, child: Id) -> Option<EdgeIndex> {
    t.graph()
        .edge_references()
        .find(|e| e.target() == nx(child) && e.weight().is_primary())
        .map(|e| e.id())
}

/// A complete textual image of the value (all private fields included), with the only unordered
/// part, sets of skipped positions, sorted. Two trees with equal images have equal futures.
pub fn image(t: &Tree) -> String {
    let d = format!("{:?}", t);
    let mut out = String::with_capacity(d.len());
    let b: Vec<char> = d.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '{' {
            // sort `{1, 2}`
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == ',' || b[j] == ' ') {
                j += 1;
            }
            if j < b.len() && b[j] == '}' {
                let inner: String = b[i + 1..j].iter().collect();
                let mut v: Vec<usize> =
                    inner.split(',').filter_map(|x| x.trim().parse().ok()).collect();
                v.sort();
                out.push_str(&format!("{:?}", v));
                i = j + 1;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
