//! Construction of real trees from models along different public routes. The routes lead to equal
//! trees with different internal numbering, edge order and bookkeeping history.

use crate::engine::guard;
use crate::model::{extract, nx, Feats, Id, Kind, M};
use lumberjack::io::PTBFormat;
use lumberjack::{Features, NegraReader, Terminal, Tree};
use petgraph::prelude::NodeIndex;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Negra,
    NegraRev,
    Simple,
    TueBa,
    Api,
    ApiRev,
    Top,
    Moved,
    Holes,
}

pub const ALL: [B; 9] = [
    B::Negra,
    B::NegraRev,
    B::Simple,
    B::TueBa,
    B::Api,
    B::ApiRev,
    B::Top,
    B::Moved,
    B::Holes,
];

impl B {
    pub fn name(self) -> &'static str {
        match self {
            B::Negra => "Negra",
            B::NegraRev => "NegraRev",
            B::Simple => "Simple",
            B::TueBa => "TueBa",
            B::Api => "Api",
            B::ApiRev => "ApiRev",
            B::Top => "Top",
            B::Moved => "Moved",
            B::Holes => "Holes",
        }
    }
    pub fn parse(s: &str) -> Option<B> {
        ALL.iter().find(|b| b.name() == s).cloned()
    }
    /// Can this route build the model at all?
    pub fn can(self, m: &M) -> bool {
        let t = m.nodes[&m.root].is_t();
        match self {
            B::Negra | B::NegraRev => !t,
            B::Simple | B::TueBa => m.projective(),
            _ => true,
        }
    }
}

/// Builders that can construct `m`.
pub fn routes(m: &M) -> Vec<B> {
    ALL.iter().cloned().filter(|b| b.can(m)).collect()
}

pub fn feats_real(f: &Feats) -> Option<Features> {
    if f.is_empty() {
        None
    } else {
        Some(f.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    }
}

/// Build `m`; the map takes ids of `m` to nodes of the tree.
pub fn build(b: B, m: &M) -> Result<(Tree, BTreeMap<Id, NodeIndex>), String> {
    let r = guard(|| build_unchecked(b, m));
    let (t, map) = r.map_err(|e| format!("building: {}", e))??;
    // the result has to be the model
    let x = extract(&t).map_err(|e| format!("built tree is malformed: {}", e))?;
    let mut want = m.clone();
    want.sec.clear();
    let mut got = x.clone();
    got.sec.clear();
    if got.canon() != want.canon() {
        return Err(format!("built tree differs: {} instead of {}", got.to_text(), want.to_text()));
    }
    Ok((t, map))
}

fn build_unchecked(b: B, m: &M) -> Result<(Tree, BTreeMap<Id, NodeIndex>), String> {
    let mut t = structure(b, m)?;
    let x = extract(&t)?;
    let mut map: BTreeMap<Id, NodeIndex> = BTreeMap::new();
    for (i, n) in &x.nodes {
        let key = match &n.kind {
            Kind::T { form, .. } => form.clone(),
            Kind::N { .. } if *i == x.root => m.root.to_string(),
            Kind::N { label } => label.clone(),
        };
        let id: Id = key.parse().map_err(|_| format!("placeholder {:?}", key))?;
        if map.insert(id, nx(*i)).is_some() {
            return Err(format!("placeholder {} twice", id));
        }
    }
    if map.len() != m.nodes.len() {
        return Err("number of nodes".into());
    }
    for (id, n) in &m.nodes {
        let i = *map.get(id).ok_or("missing node")?;
        match &n.kind {
            Kind::T { form, tag, lemma, .. } => {
                let term = t[i].terminal_mut().ok_or("not a terminal")?;
                term.set_form(form.clone());
                term.set_label(tag.clone());
                term.set_lemma(lemma.clone());
            }
            Kind::N { label } => {
                t[i].set_label(label.clone());
            }
        }
        t[i].set_features(feats_real(&n.feats));
        if let Some(e) = crate::model::edge_above(&t, i.index()) {
            t[e].set_label(n.edge.clone());
        }
    }
    for s in &m.sec {
        t.add_secondary_edge(map[&s.src], map[&s.dst], s.label.clone());
    }
    Ok((t, map))
}

fn ptb_text(m: &M, id: Id, tueba: bool, out: &mut String) {
    let n = &m.nodes[&id];
    let sfx = if tueba { ":--" } else { "" };
    if n.is_t() {
        out.push_str(&format!("(t{} {})", sfx, id));
    } else {
        out.push_str(&format!("({}{}", id, sfx));
        for k in m.sorted_kids(id) {
            out.push(' ');
            ptb_text(m, k, tueba, out);
        }
        out.push(')');
    }
}

fn height(m: &M, id: Id) -> usize {
    m.nodes[&id].kids.iter().map(|k| height(m, *k) + 1).max().unwrap_or(0)
}

pub fn negra_text(m: &M, rev: bool) -> String {
    let mut ids: BTreeMap<Id, usize> = BTreeMap::new();
    ids.insert(m.root, 0);
    let mut nts: Vec<Id> = m.post_order().into_iter().filter(|i| !m.nodes[i].is_t()).collect();
    if rev {
        // children still have to be mentioned before their parents
        nts.reverse();
        let h: BTreeMap<Id, usize> = nts.iter().map(|i| (*i, height(m, *i))).collect();
        nts.sort_by_key(|i| h[i]);
    }
    for (i, id) in nts.iter().filter(|i| **i != m.root).enumerate() {
        ids.insert(*id, 500 + i);
    }
    let mut s = String::from("#BOS 1\n");
    for t in m.terms() {
        s.push_str(&format!("{} -- t -- -- {}\n", t, ids[&m.nodes[&t].parent.unwrap()]));
    }
    for id in nts {
        if id != m.root {
            s.push_str(&format!(
                "#{} -- {} -- -- {}\n",
                ids[&id],
                id,
                ids[&m.nodes[&id].parent.unwrap()]
            ));
        }
    }
    s.push_str("#EOS 1\n");
    s
}

fn group(t: &mut Tree, label: &str, kids: &[NodeIndex]) -> Result<NodeIndex, String> {
    let first = kids[0];
    let v = t.insert_unary_above(first, label);
    for k in &kids[1..] {
        let (_, e) = t.parent(*k).ok_or("no parent")?;
        t.reattach_node(v, e).map_err(|e| format!("{}", e))?;
    }
    Ok(v)
}

/// Flat tree first, then constituents bottom-up.
fn api(m: &M, pos: impl Fn(usize) -> usize, rev: bool, dummy: bool) -> Result<Tree, String> {
    let n = m.n();
    let mut order: Vec<Id> = vec![0; n];
    for t in m.terms() {
        order[pos(m.nodes[&t].pos())] = t;
    }
    let root_is_t = m.nodes[&m.root].is_t();
    let mut nodes: BTreeMap<Id, NodeIndex> = BTreeMap::new();
    let mut t;
    let root;
    let mut dummies = Vec::new();
    if dummy {
        t = Tree::new("x", "x");
        let d = t.root();
        root = t.insert_unary_above(d, m.root.to_string());
        let d2 = t.insert_unary_above(d, "y");
        dummies.push(d2);
        dummies.push(d);
        for o in &order {
            nodes.insert(*o, t.push_terminal(o.to_string(), "t").map_err(|e| format!("{}", e))?);
            let z = t.insert_unary_above(nodes[o], "z");
            dummies.insert(0, z);
        }
        // free some numbers in the middle before constituents are built
        let half = dummies.len() / 2;
        for d in dummies.drain(..half).collect::<Vec<_>>() {
            t.remove_node(d).map_err(|e| format!("{}", e))?;
        }
    } else if rev {
        t = Tree::new(order[n - 1].to_string(), "t");
        nodes.insert(order[n - 1], t.root());
        let r = t.root();
        root = t.insert_unary_above(r, m.root.to_string());
        for o in order[..n - 1].iter().rev() {
            let i = t.insert_terminal(root, Terminal::new(o.to_string(), "t", 0));
            nodes.insert(*o, i);
        }
    } else {
        t = Tree::new(order[0].to_string(), "t");
        nodes.insert(order[0], t.root());
        if root_is_t {
            return Ok(t);
        }
        let r = t.root();
        root = t.insert_unary_above(r, m.root.to_string());
        for o in &order[1..] {
            nodes.insert(*o, t.push_terminal(o.to_string(), "t").map_err(|e| format!("{}", e))?);
        }
    }
    // when helper nodes sit above terminals, group those instead
    let top = |t: &Tree, i: NodeIndex| -> NodeIndex {
        match t.parent(i) {
            Some((p, _)) if p != root && t[p].label() == "z" => p,
            _ => i,
        }
    };
    if !root_is_t {
        for id in m.post_order() {
            if m.nodes[&id].is_t() || id == m.root {
                continue;
            }
            let mut kids: Vec<NodeIndex> =
                m.sorted_kids(id).iter().map(|k| top(&t, nodes[k])).collect();
            if rev {
                kids.reverse();
            }
            let v = group(&mut t, &id.to_string(), &kids)?;
            nodes.insert(id, v);
        }
    }
    for d in dummies {
        t.remove_node(d).map_err(|e| format!("{}", e))?;
    }
    if root_is_t {
        t.remove_node(root).map_err(|e| format!("{}", e))?;
    }
    Ok(t)
}

/// Flat tree first, then constituents top-down, unary ones below their parent.
fn top_down(m: &M) -> Result<Tree, String> {
    let order = m.terms();
    let mut nodes: BTreeMap<Id, NodeIndex> = BTreeMap::new();
    let mut t = Tree::new(order[0].to_string(), "t");
    nodes.insert(order[0], t.root());
    if m.nodes[&m.root].is_t() {
        return Ok(t);
    }
    let r = t.root();
    let root = t.insert_unary_above(r, m.root.to_string());
    nodes.insert(m.root, root);
    for (i, o) in order.iter().enumerate().skip(1) {
        let x = t.insert_terminal(root, Terminal::new(o.to_string(), "t", i));
        nodes.insert(*o, x);
    }
    for id in m.pre_order() {
        if m.nodes[&id].is_t() || id == m.root {
            continue;
        }
        let p = m.nodes[&id].parent.unwrap();
        let v = if m.nodes[&p].kids.len() == 1 {
            t.insert_unary_below(nodes[&p], id.to_string()).map_err(|e| format!("{}", e))?
        } else {
            let y = m.yield_of(id);
            let ks: Vec<NodeIndex> = order
                .iter()
                .filter(|o| y.contains(&m.nodes[o].pos()))
                .map(|o| nodes[o])
                .collect();
            group(&mut t, &id.to_string(), &ks)?
        };
        nodes.insert(id, v);
    }
    Ok(t)
}

fn structure(b: B, m: &M) -> Result<Tree, String> {
    let n = m.n();
    match b {
        B::Negra | B::NegraRev => {
            let s = negra_text(m, b == B::NegraRev);
            NegraReader::new(s.as_bytes())
                .next()
                .ok_or("nothing read")?
                .map_err(|e| format!("{}", e))
        }
        B::Simple => {
            let mut s = String::new();
            ptb_text(m, m.root, false, &mut s);
            PTBFormat::Simple.string_to_tree(&s).map_err(|e| format!("{}", e))
        }
        B::TueBa => {
            let mut s = String::new();
            ptb_text(m, m.root, true, &mut s);
            PTBFormat::TueBa.string_to_tree(&s).map_err(|e| format!("{}", e))
        }
        B::Api => api(m, |p| p, false, false),
        B::ApiRev => api(m, |p| p, true, false),
        B::Holes => api(m, |p| p, false, true),
        B::Top => top_down(m),
        B::Moved => {
            // last word first, then moved to the end; and the first two words swapped
            let mut t = api(m, |p| (p + 1) % n, false, false)?;
            let last = t
                .terminals()
                .find(|i| t[*i].terminal().unwrap().idx() == 0)
                .ok_or("no first terminal")?;
            t.move_terminal(last, n - 1);
            Ok(t)
        }
    }
}
