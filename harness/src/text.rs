//! The file formats as reference functions: what each of them carries of a tree, a printer and a
//! parser that share nothing with the code under test.

use crate::model::{Id, Kind, MNode, M};
use lumberjack::io::PTBFormat;
use std::collections::{BTreeMap, BTreeSet};

pub const ANN: &str = "node_annotation";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fmt {
    Negra,
    Simple,
    Ptb,
    Tueba,
}
pub const FMTS: [Fmt; 4] = [Fmt::Negra, Fmt::Simple, Fmt::Ptb, Fmt::Tueba];
pub const BRACKETS: [Fmt; 3] = [Fmt::Simple, Fmt::Ptb, Fmt::Tueba];

impl Fmt {
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Negra => "negra",
            Fmt::Simple => "simple",
            Fmt::Ptb => "ptb",
            Fmt::Tueba => "tueba",
        }
    }
    pub fn parse(s: &str) -> Option<Fmt> {
        FMTS.iter().find(|f| f.name() == s).cloned()
    }
    pub fn real(self) -> PTBFormat {
        match self {
            Fmt::Simple => PTBFormat::Simple,
            Fmt::Ptb => PTBFormat::PTB,
            Fmt::Tueba => PTBFormat::TueBa,
            Fmt::Negra => panic!("src/text.rs: negra is not a bracket format"),
        }
    }
}

fn brackets_replaced(s: &str) -> String {
    s.replace('(', "LBR").replace(')', "RBR")
}

/// What reading a tree back from format `f` gives, before the identification of the sentence.
pub fn carry(f: Fmt, m: &M) -> M {
    let mut x = m.canon();
    let root = x.root;
    for (i, n) in x.nodes.iter_mut() {
        if *i == root {
            n.edge = None;
        }
        let t = n.is_t();
        n.feats.retain(|k, v| {
            v.is_some()
                && match f {
                    Fmt::Negra if t => k == "morph",
                    Fmt::Negra if *i == root => k == "sentence_id" || k == "metadata",
                    Fmt::Negra | Fmt::Ptb | Fmt::Tueba => !t && k == ANN,
                    Fmt::Simple => false,
                }
        });
        if f == Fmt::Simple || f == Fmt::Ptb {
            n.edge = None;
        }
        if f != Fmt::Negra {
            if let Kind::T { form, tag, lemma, .. } = &mut n.kind {
                *lemma = None;
                *form = brackets_replaced(form);
                *tag = brackets_replaced(tag);
            }
        }
    }
    if f != Fmt::Negra {
        x.sec.clear();
    } else if x.nodes[&root].is_t() {
        // a lone terminal is read below the virtual root
        let new = x.fresh();
        x.insert_above(root, new, "VROOT");
        x.nodes.get_mut(&root).unwrap().edge = None;
        x.nodes.get_mut(&root).unwrap().feats.retain(|k, _| k == "morph");
    } else {
        x.nodes.get_mut(&root).unwrap().set_label("VROOT");
    }
    x.canon()
}

/// `carry` with the sentence id a Negra file gives.
pub fn carry_numbered(f: Fmt, m: &M, id: &str) -> M {
    let mut x = carry(f, m);
    if f == Fmt::Negra {
        let r = x.root;
        x.nodes.get_mut(&r).unwrap().feats.insert("sentence_id".into(), Some(id.to_string()));
    }
    x
}

/// Parts of the identification of a sentence dropped.
pub fn anonymous(m: &M) -> M {
    let mut x = m.canon();
    let r = x.root;
    let n = x.nodes.get_mut(&r).unwrap();
    n.feats.remove("sentence_id");
    n.feats.remove("metadata");
    n.set_label("VROOT");
    x
}

// ---------------------------------------------------------------------------------------------
// printing

fn ann(n: &MNode) -> Option<&str> {
    n.feats.get(ANN).and_then(|v| v.as_ref().map(String::as_str))
}

/// Variations in the layout of a Negra sentence that don't change its meaning.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Layout {
    /// 0: tabs, 1: single spaces, 2: columns of spaces, 3: many tabs
    pub sep: u8,
    /// trailing comments
    pub comment: bool,
    /// order of the nonterminals among all orders that put children first
    pub order: u8,
    /// numbers of the nonterminals: 0: ascending from 500, 1: descending, 2: with holes
    pub ids: u8,
}

pub fn layouts() -> Vec<Layout> {
    let mut v = Vec::new();
    for sep in 0..4 {
        for order in 0..3 {
            for ids in 0..3 {
                v.push(Layout { sep, comment: sep % 2 == 1, order, ids });
            }
        }
    }
    v
}

impl Layout {
    pub fn code(self) -> String {
        format!("{}{}{}{}", self.sep, self.comment as u8, self.order, self.ids)
    }
    pub fn parse(s: &str) -> Option<Layout> {
        let d: Vec<u8> = s.bytes().map(|b| b.wrapping_sub(b'0')).collect();
        if d.len() != 4 {
            return None;
        }
        Some(Layout { sep: d[0], comment: d[1] == 1, order: d[2], ids: d[3] })
    }
    fn sep(self, len: usize, col: usize) -> String {
        match self.sep {
            0 => "\t".into(),
            1 => " ".into(),
            2 => " ".repeat(if len < col { col - len } else { 1 }),
            _ => "\t\t ".into(),
        }
    }
}

/// A nonterminal-rooted tree as Negra sentence.
pub fn print_negra(m: &M, id: &str, lay: Layout) -> String {
    let mut nts: Vec<Id> = m.post_order().into_iter().filter(|i| !m.nodes[i].is_t()).collect();
    nts.retain(|i| *i != m.root);
    match lay.order {
        1 => {
            let mut h: Vec<(usize, Id)> = nts.iter().rev().map(|i| (height(m, *i), *i)).collect();
            h.sort_by_key(|(h, _)| *h);
            nts = h.into_iter().map(|(_, i)| i).collect();
        }
        2 => {
            // deepest first
            let mut h: Vec<(isize, Id)> = nts.iter().map(|i| (-(m.depth(*i) as isize), *i)).collect();
            h.sort();
            nts = h.into_iter().map(|(_, i)| i).collect();
        }
        _ => (),
    }
    let k = nts.len();
    let mut num: BTreeMap<Id, usize> = BTreeMap::new();
    num.insert(m.root, 0);
    for (j, i) in nts.iter().enumerate() {
        num.insert(
            *i,
            match lay.ids {
                0 => 500 + j,
                1 => 500 + k - 1 - j,
                _ => 3 + 7 * j,
            },
        );
    }
    let mut s = format!("#BOS {}", id);
    if let Some(Some(meta)) = m.nodes[&m.root].feats.get("metadata") {
        s.push_str(if lay.sep % 2 == 0 { "  " } else { " " });
        s.push_str(meta);
    }
    s.push('\n');
    let mut line = |cells: [&str; 4], i: Id| {
        let mut l = String::new();
        for (c, w) in cells.iter().zip([24, 24, 8, 16].iter()) {
            l.push_str(c);
            l.push_str(&lay.sep(c.chars().count(), *w));
        }
        let e = m.nodes[&i].edge.clone().unwrap_or_else(|| "--".into());
        l.push_str(&e);
        l.push_str(&lay.sep(e.len(), 8));
        l.push_str(&num[&m.nodes[&i].parent.unwrap()].to_string());
        for x in m.sec.iter().filter(|x| x.dst == i) {
            l.push_str(&lay.sep(3, 8));
            l.push_str(x.label.as_ref().map(String::as_str).unwrap_or("--"));
            l.push_str(&lay.sep(3, 8));
            l.push_str(&num[&x.src].to_string());
        }
        if lay.comment {
            l.push_str(&lay.sep(3, 8));
            l.push_str("%% comment 500 x");
        }
        l.push('\n');
        s.push_str(&l);
    };
    for i in m.terms() {
        let n = &m.nodes[&i];
        if let Kind::T { form, tag, lemma, .. } = &n.kind {
            let morph = n.feats.get("morph").cloned().unwrap_or(None).unwrap_or_else(|| "--".into());
            let lemma = lemma.clone().unwrap_or_else(|| "--".into());
            line([form, &lemma, tag, &morph], i);
        }
    }
    for i in nts {
        let n = &m.nodes[&i];
        let mut label = n.label().to_string();
        if let Some(a) = ann(n) {
            label = format!("{}={}", label, a);
        }
        line([&format!("#{}", num[&i]), "--", &label, "--"], i);
    }
    s.push_str(&format!("#EOS {}\n", id));
    s
}

fn height(m: &M, id: Id) -> usize {
    m.nodes[&id].kids.iter().map(|k| height(m, *k) + 1).max().unwrap_or(0)
}

/// Tokens of a bracketed projective tree: between any two of them white space may be inserted, and
/// has to be where the flag says so.
pub fn bracket_tokens(f: Fmt, m: &M, id: Id, out: &mut Vec<(String, bool)>) {
    let n = &m.nodes[&id];
    let edge = match (f, &n.edge) {
        (Fmt::Tueba, Some(e)) if id != m.root => format!(":{}", e),
        (Fmt::Tueba, _) => ":--".to_string(),
        _ => String::new(),
    };
    match &n.kind {
        Kind::T { form, tag, .. } => {
            out.push(("(".into(), false));
            out.push((format!("{}{}", brackets_replaced(tag), edge), false));
            out.push((brackets_replaced(form), true));
            out.push((")".into(), false));
        }
        Kind::N { label } => {
            let a = match (f, ann(n)) {
                (Fmt::Ptb, Some(a)) => format!("-{}", a),
                (Fmt::Tueba, Some(a)) => format!("={}", a),
                _ => String::new(),
            };
            out.push(("(".into(), false));
            out.push((format!("{}{}{}", label, a, edge), false));
            for k in m.sorted_kids(id) {
                bracket_tokens(f, m, k, out);
            }
            out.push((")".into(), false));
        }
    }
}

/// Layouts: 0: no optional space, 1: space before brackets, 2: spaces everywhere, 3: indented lines.
pub fn print_brackets(f: Fmt, m: &M, style: u8) -> String {
    let mut toks = Vec::new();
    bracket_tokens(f, m, m.root, &mut toks);
    let mut s = String::new();
    let mut depth = 0;
    for (i, (t, must)) in toks.iter().enumerate() {
        if i > 0 {
            match style {
                0 if *must => s.push(' '),
                1 if *must || (t == "(") => s.push(' '),
                2 => s.push_str(if i % 2 == 0 { " " } else { "  " }),
                3 if t == "(" => {
                    s.push('\n');
                    s.push_str(&"  ".repeat(depth));
                }
                3 if *must => s.push(' '),
                _ => (),
            }
        }
        if t == "(" {
            depth += 1;
        }
        if t == ")" {
            depth -= 1;
        }
        s.push_str(t);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// parsing

/// Meaning of one bracketed tree, `None` if it has none.
pub fn parse_brackets(f: Fmt, s: &str) -> Option<M> {
    #[derive(PartialEq, Debug)]
    enum T<'a> {
        O,
        C,
        W(&'a str),
    }
    let mut toks = Vec::new();
    let mut start: Option<usize> = None;
    for (i, c) in s.char_indices() {
        let ws = c == ' ' || c == '\n' || c == '\r';
        if ws || c == '(' || c == ')' {
            if let Some(b) = start.take() {
                toks.push(T::W(&s[b..i]));
            }
        }
        match c {
            '(' => toks.push(T::O),
            ')' => toks.push(T::C),
            _ if ws => (),
            _ => {
                if start.is_none() {
                    start = Some(i);
                }
            }
        }
    }
    if let Some(b) = start {
        toks.push(T::W(&s[b..]));
    }
    // shift-reduce over an explicit stack
    let mut m = M { nodes: BTreeMap::new(), root: 0, sec: Vec::new() };
    let mut stack: Vec<(Id, usize)> = Vec::new(); // node, number of children so far
    let mut pos = 0;
    let mut i = 0;
    let mut done = false;
    while i < toks.len() {
        if done {
            return None;
        }
        match &toks[i] {
            T::O => {
                let label = match toks.get(i + 1) {
                    Some(T::W(w)) => *w,
                    _ => return None,
                };
                let id = m.nodes.len();
                let parent = stack.last().map(|(p, _)| *p);
                if let Some(l) = stack.last_mut() {
                    l.1 += 1;
                }
                let (mut n, edge);
                if let Some(T::W(form)) = toks.get(i + 2) {
                    if toks.get(i + 3) != Some(&T::C) {
                        return None;
                    }
                    let (tag, e) = match f {
                        Fmt::Tueba => split_edge(label),
                        _ => (label, None),
                    };
                    n = MNode::new_t(form, tag, pos);
                    edge = e;
                    pos += 1;
                    i += 4;
                    if stack.is_empty() {
                        done = true;
                    }
                } else {
                    let (rest, e) = match f {
                        Fmt::Tueba => split_edge(label),
                        _ => (label, None),
                    };
                    let delim = match f {
                        Fmt::Tueba => Some('='),
                        Fmt::Ptb => Some('-'),
                        _ => None,
                    };
                    let (l, a) = match delim.and_then(|d| rest.find(d)) {
                        Some(k) => (&rest[..k], Some(&rest[k + 1..])),
                        None => (rest, None),
                    };
                    n = MNode::new_n(l);
                    if let Some(a) = a {
                        n.feats.insert(ANN.into(), Some(a.to_string()));
                    }
                    edge = e;
                    stack.push((id, 0));
                    i += 2;
                }
                n.parent = parent;
                if parent.is_some() {
                    n.edge = edge.map(ToOwned::to_owned);
                }
                m.nodes.insert(id, n);
                if let Some(p) = parent {
                    m.nodes.get_mut(&p).unwrap().kids.insert(id);
                }
            }
            T::C => {
                let (_, k) = stack.pop()?;
                if k == 0 {
                    return None;
                }
                if stack.is_empty() {
                    done = true;
                }
                i += 1;
            }
            T::W(_) => return None,
        }
    }
    if done {
        Some(m)
    } else {
        None
    }
}

fn split_edge(l: &str) -> (&str, Option<&str>) {
    match l.rfind(':') {
        Some(i) => (&l[..i], Some(&l[i + 1..]).filter(|e| *e != "--")),
        None => (l, None),
    }
}

/// The lines of one Negra sentence, markers included.
pub struct NegraSentence {
    /// the tree described, if it is one
    pub tree: Option<M>,
    /// terminals first and children before their parents, no unusual lines
    pub ordinary: bool,
}

pub fn parse_negra(lines: &[&str]) -> NegraSentence {
    let mut ordinary = true;
    let tree = negra_tree(lines, &mut ordinary);
    NegraSentence { tree, ordinary }
}

fn negra_tree(lines: &[&str], ordinary: &mut bool) -> Option<M> {
    let (first, last) = (lines.first()?.trim(), lines.last()?.trim());
    if lines.len() < 2 || !first.starts_with("#BOS") || !last.starts_with("#EOS") {
        return None;
    }
    let head: Vec<&str> = first.split_whitespace().collect();
    let foot: Vec<&str> = last.split_whitespace().collect();
    if head.len() < 2 || foot.len() < 2 {
        return None;
    }
    let id: usize = head[1].parse().ok()?;
    if foot[1].parse::<usize>() != Ok(id) {
        return None;
    }
    if foot[1] != id.to_string() || head[1] != id.to_string() {
        *ordinary = false;
    }
    if head[0] != "#BOS" || foot[0] != "#EOS" || foot.len() > 2 || !first.starts_with(&format!("#BOS {}", id)) {
        *ordinary = false;
    }
    let mut root = MNode::new_n("VROOT");
    root.feats.insert("sentence_id".into(), Some(id.to_string()));
    let rest = first["#BOS".len()..].trim_start();
    let meta = rest[head[1].len()..].trim();
    if !meta.is_empty() {
        root.feats.insert("metadata".into(), Some(meta.to_string()));
    }
    struct L {
        node: MNode,
        num: Option<usize>,
        parent: usize,
        sec: Option<(usize, Option<String>)>,
    }
    let mut ls: Vec<L> = Vec::new();
    let mut pos = 0;
    let mut seen_nt = false;
    for line in &lines[1..lines.len() - 1] {
        let p: Vec<&str> = line.split_whitespace().collect();
        if p.is_empty() {
            *ordinary = false;
            continue;
        }
        if p.len() < 6 {
            return None;
        }
        let parent: usize = p[5].parse().ok()?;
        let sec = if p.len() > 6 && !p[6].starts_with('%') {
            let src: usize = p.get(7)?.parse().ok()?;
            Some((src, if p[6] == "--" { None } else { Some(p[6].to_string()) }))
        } else {
            None
        };
        if p.len() > 8 && !p[8].starts_with('%') && !p[6].starts_with('%') {
            // more than one secondary edge
            *ordinary = false;
        }
        let edge = if p[4] == "--" { None } else { Some(p[4].to_string()) };
        let (mut node, num) = if p[0].starts_with('#') {
            seen_nt = true;
            let num: usize = p[0][1..].parse().ok()?;
            if num == 0 {
                return None;
            }
            let (l, a) = match p[2].find('=') {
                Some(k) => (&p[2][..k], Some(&p[2][k + 1..])),
                None => (p[2], None),
            };
            let mut n = MNode::new_n(l);
            if let Some(a) = a {
                n.feats.insert(ANN.into(), Some(a.to_string()));
            }
            (n, Some(num))
        } else {
            if seen_nt {
                *ordinary = false;
            }
            let mut n = MNode::new_t(p[0], p[2], pos);
            if let Kind::T { lemma, .. } = &mut n.kind {
                if p[1] != "--" {
                    *lemma = Some(p[1].to_string());
                }
            }
            if p[3] != "--" {
                n.feats.insert("morph".into(), Some(p[3].to_string()));
            }
            pos += 1;
            (n, None)
        };
        node.edge = edge;
        ls.push(L { node, num, parent, sec });
    }
    if pos == 0 {
        return None;
    }
    let mut num: BTreeMap<usize, Id> = BTreeMap::new();
    num.insert(0, 0);
    let mut m = M { nodes: BTreeMap::new(), root: 0, sec: Vec::new() };
    m.nodes.insert(0, root);
    for (i, l) in ls.iter().enumerate() {
        if let Some(n) = l.num {
            if num.insert(n, i + 1).is_some() {
                return None;
            }
            // children come first
            let first_child = ls[..i].iter().any(|o| o.parent == n);
            let later_child = ls[i..].iter().any(|o| o.parent == n);
            if !first_child || later_child {
                *ordinary = false;
            }
        }
        m.nodes.insert(i + 1, l.node.clone());
    }
    for (i, l) in ls.iter().enumerate() {
        let p = *num.get(&l.parent)?;
        m.nodes.get_mut(&(i + 1)).unwrap().parent = Some(p);
        m.nodes.get_mut(&p).unwrap().kids.insert(i + 1);
    }
    for (i, l) in ls.iter().enumerate() {
        if let Some((src, label)) = &l.sec {
            let src = *num.get(src)?;
            m.sec.push(crate::model::Sec { eid: 0, src, dst: i + 1, label: label.clone() });
        }
    }
    // one rooted tree: everything is reached from the root, every nonterminal has children
    let mut seen = BTreeSet::new();
    let mut stack = vec![0];
    while let Some(x) = stack.pop() {
        if !seen.insert(x) {
            return None;
        }
        let n = &m.nodes[&x];
        if n.is_t() && !n.kids.is_empty() || !n.is_t() && n.kids.is_empty() {
            return None;
        }
        stack.extend(n.kids.iter().cloned());
    }
    if seen.len() != m.nodes.len() {
        return None;
    }
    Some(m.canon())
}
