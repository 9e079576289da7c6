//! Exhaustive enumeration of bounded trees, and parameterised families of large ones.

use crate::model::{Feats, Kind, MNode, M};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub enum Sh {
    L(usize),
    N(Vec<Sh>),
}

type Memo = HashMap<(u32, usize), Vec<Sh>>;

fn interval(s: u32) -> bool {
    let t = s >> s.trailing_zeros();
    t & (t + 1) == 0
}

fn forest(set: u32, k: usize, contig: bool, memo: &mut Memo) -> Vec<Vec<Sh>> {
    if set == 0 {
        return if k == 0 { vec![vec![]] } else { vec![] };
    }
    let lo = set & set.wrapping_neg();
    let rest = set ^ lo;
    let mut out = Vec::new();
    let mut sub = rest;
    loop {
        let block = sub | lo;
        if !contig || interval(block) {
            for k1 in 0..=k {
                let first = subtree(block, k1, contig, memo);
                if first.is_empty() {
                    continue;
                }
                let others = forest(set ^ block, k - k1, contig, memo);
                for f in &first {
                    for o in &others {
                        let mut v = vec![f.clone()];
                        v.extend(o.iter().cloned());
                        out.push(v);
                    }
                }
            }
        }
        if sub == 0 {
            break;
        }
        sub = (sub - 1) & rest;
    }
    out
}

fn subtree(set: u32, k: usize, contig: bool, memo: &mut Memo) -> Vec<Sh> {
    if k == 0 {
        return if set.count_ones() == 1 {
            vec![Sh::L(set.trailing_zeros() as usize)]
        } else {
            vec![]
        };
    }
    if let Some(v) = memo.get(&(set, k)) {
        return v.clone();
    }
    let v: Vec<Sh> = forest(set, k - 1, contig, memo).into_iter().map(Sh::N).collect();
    memo.insert((set, k), v.clone());
    v
}

/// All trees over `n` terminals with exactly `k` nonterminals.
pub fn shapes(n: usize, k: usize, contig: bool) -> Vec<Sh> {
    subtree((1u32 << n) - 1, k, contig, &mut HashMap::new())
}

/// All trees over 1..=n terminals with 0..=k nonterminals.
pub fn shapes_upto(n: usize, k: usize, contig: bool) -> Vec<Sh> {
    let mut v = Vec::new();
    for n in 1..=n {
        for k in 0..=k {
            v.extend(shapes(n, k, contig));
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Deco {
    /// all labels, forms and tags distinct
    Distinct,
    /// all labels, forms and tags the same
    Same,
    /// distinct labels plus edge labels, lemmas and features on part of the nodes
    Rich,
    /// labels, forms repeat in a short cycle, in decreasing order
    Cycle,
    /// labels, forms, tags, lemmas, feature values and edge labels from texts that mean something
    /// in some format or are empty; the number shifts who gets which
    Odd(u8),
}

const ODD: [&str; 11] = ["", "--", "DUMMY", "VROOT", "_", "a b", "%%", "NONE", "#500", "()", "Ä=|:~"];
const ODD_EDGES: [Option<&str>; 5] = [Some("--"), Some(""), None, Some("np"), Some("HD")];

fn odd(i: usize, o: u8) -> String {
    ODD[(i + o as usize) % ODD.len()].to_string()
}
fn odd_edge(i: usize, o: u8) -> Option<String> {
    ODD_EDGES[(i + o as usize) % ODD_EDGES.len()].map(ToOwned::to_owned)
}

pub fn nt_label(i: usize) -> String {
    if i < 26 {
        ((b'A' + i as u8) as char).to_string()
    } else {
        format!("N{}", i)
    }
}

pub fn to_m(sh: &Sh, deco: Deco) -> M {
    fn rec(
        sh: &Sh,
        parent: Option<usize>,
        nodes: &mut BTreeMap<usize, MNode>,
        nnt: &mut usize,
        deco: Deco,
    ) -> usize {
        let id = nodes.len();
        match sh {
            Sh::L(pos) => {
                let (form, tag) = match deco {
                    Deco::Distinct | Deco::Rich => (format!("w{}", pos), format!("T{}", pos)),
                    Deco::Same => ("w".into(), "t".into()),
                    Deco::Odd(o) => (odd(2 * pos, o), odd(pos + 5, o)),
                    Deco::Cycle => {
                        let c = ["c", "b", "a"][pos % 3];
                        (c.to_string(), c.to_string())
                    }
                };
                let mut n = MNode::new_t(&form, &tag, *pos);
                if deco == Deco::Rich {
                    if pos % 2 == 0 {
                        if let Kind::T { lemma, .. } = &mut n.kind {
                            *lemma = Some(format!("l{}", pos));
                        }
                    }
                    match pos % 3 {
                        1 => {
                            n.feats.insert("morph".into(), Some(format!("m{}", pos)));
                        }
                        2 => {
                            n.feats.insert("morph".into(), Some(format!("m{}", pos)));
                            n.feats.insert("k".into(), None);
                        }
                        _ => (),
                    }
                    if parent.is_some() && pos % 2 == 1 {
                        n.edge = Some(format!("e{}", id));
                    }
                }
                if let Deco::Odd(o) = deco {
                    if let Kind::T { lemma, .. } = &mut n.kind {
                        *lemma = odd_edge(pos + 3, o);
                    }
                    if (pos + o as usize) % 2 == 0 {
                        n.feats.insert("morph".into(), odd_edge(*pos, o));
                        n.feats.insert("".into(), odd_edge(pos + 1, o));
                    }
                    if parent.is_some() {
                        n.edge = odd_edge(*pos, o);
                    }
                }
                n.parent = parent;
                nodes.insert(id, n);
            }
            Sh::N(kids) => {
                let i = *nnt;
                *nnt += 1;
                let label = match deco {
                    Deco::Distinct | Deco::Rich => nt_label(i),
                    Deco::Same => "X".into(),
                    Deco::Cycle => ["c", "b", "a"][i % 3].to_string(),
                    Deco::Odd(o) => odd(i * 3, o),
                };
                let mut n = MNode::new_n(&label);
                if let Deco::Odd(o) = deco {
                    if (i + o as usize) % 2 == 1 {
                        n.feats.insert("node_annotation".into(), odd_edge(i, o));
                    }
                    if parent.is_some() {
                        n.edge = odd_edge(i, o);
                    }
                }
                if deco == Deco::Rich {
                    if i % 2 == 1 {
                        n.feats.insert("node_annotation".into(), Some(format!("an{}", i)));
                    }
                    if parent.is_some() && i % 3 != 0 {
                        n.edge = Some(format!("E{}", id));
                    }
                }
                n.parent = parent;
                nodes.insert(id, n);
                let mut ks = BTreeSet::new();
                for k in kids {
                    ks.insert(rec(k, Some(id), nodes, nnt, deco));
                }
                nodes.get_mut(&id).unwrap().kids = ks;
            }
        }
        id
    }
    let mut nodes = BTreeMap::new();
    let mut nnt = 0;
    let root = rec(sh, None, &mut nodes, &mut nnt, deco);
    M { nodes, root, sec: Vec::new() }
}

/// Trees with odd contents in several distributions.
pub fn odd_models(n: usize, k: usize, contig: bool) -> Vec<M> {
    models(n, k, contig, &[Deco::Odd(0), Deco::Odd(1), Deco::Odd(3), Deco::Odd(6), Deco::Odd(9)])
}

pub fn models(n: usize, k: usize, contig: bool, decos: &[Deco]) -> Vec<M> {
    let mut v = Vec::new();
    for s in shapes_upto(n, k, contig) {
        for d in decos {
            v.push(to_m(&s, *d));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// large families

pub fn leafs(r: impl IntoIterator<Item = usize>) -> Vec<Sh> {
    r.into_iter().map(Sh::L).collect()
}
pub fn flat(n: usize) -> Sh {
    Sh::N(leafs(0..n))
}
pub fn right(n: usize) -> Sh {
    let mut cur = Sh::N(vec![Sh::L(n - 1)]);
    for i in (0..n - 1).rev() {
        cur = Sh::N(vec![Sh::L(i), cur]);
    }
    cur
}
pub fn left(n: usize) -> Sh {
    let mut cur = Sh::N(vec![Sh::L(0)]);
    for i in 1..n {
        cur = Sh::N(vec![cur, Sh::L(i)]);
    }
    cur
}
/// `d` unary nodes above each of `n` terminals below one root
pub fn chains(n: usize, d: usize) -> Sh {
    Sh::N((0..n).map(|i| wrap(Sh::L(i), d)).collect())
}
pub fn wrap(mut s: Sh, d: usize) -> Sh {
    for _ in 0..d {
        s = Sh::N(vec![s]);
    }
    s
}
/// `m` interleaved discontinuous constituents over `n` terminals
pub fn comb(n: usize, m: usize) -> Sh {
    Sh::N((0..m).map(|j| Sh::N(leafs((0..n).filter(|i| i % m == j)))).collect())
}
/// nested discontinuities: node j covers j and n-1-j and the material of node j-1 is outside
pub fn onion(n: usize) -> Sh {
    let h = n / 2;
    let mut kids: Vec<Sh> = (0..h).map(|j| Sh::N(leafs(vec![j, n - 1 - j]))).collect();
    if n % 2 == 1 {
        kids.push(Sh::L(h));
    }
    Sh::N(kids)
}
/// crossing: node over {0, 2..}, with subconstituents, other material in between
pub fn crossing(n: usize) -> Sh {
    // ((0 (2 4 ..)) 1 3 ..)
    let ev: Vec<usize> = (0..n).filter(|i| i % 2 == 0).collect();
    let od: Vec<usize> = (0..n).filter(|i| i % 2 == 1).collect();
    let mut inner = leafs(ev[1..].iter().cloned());
    inner.sort_by_key(|s| match s {
        Sh::L(i) => *i,
        _ => 0,
    });
    let mut kids = vec![Sh::N(vec![Sh::L(0), Sh::N(inner)])];
    kids.extend(leafs(od));
    Sh::N(kids)
}
pub fn balanced(lo: usize, n: usize, b: usize) -> Sh {
    if n == 1 {
        return Sh::L(lo);
    }
    let mut kids = Vec::new();
    let b = b.min(n);
    let mut at = lo;
    for j in 0..b {
        let sz = (n + j) / b;
        if sz > 0 {
            kids.push(balanced(at, sz, b));
            at += sz;
        }
    }
    Sh::N(kids)
}
/// alternation of terminals, constituents and unary constituents below one root
pub fn mixed(n: usize) -> Sh {
    let mut kids = Vec::new();
    let mut i = 0;
    let mut t = 0;
    while i < n {
        match t % 4 {
            0 => {
                kids.push(Sh::L(i));
                i += 1;
            }
            1 if i + 1 < n => {
                kids.push(Sh::N(leafs(i..i + 2)));
                i += 2;
            }
            2 => {
                kids.push(wrap(Sh::L(i), 2));
                i += 1;
            }
            _ if i + 2 < n => {
                kids.push(Sh::N(vec![Sh::L(i), Sh::N(leafs(i + 1..i + 3))]));
                i += 3;
            }
            _ => {
                kids.push(Sh::L(i));
                i += 1;
            }
        }
        t += 1;
    }
    Sh::N(kids)
}

/// Medium sized trees (6 to 12 terminals) for single steps with all arguments.
pub fn medium() -> Vec<Sh> {
    let mut v = vec![
        flat(6),
        flat(9),
        right(7),
        left(7),
        chains(5, 2),
        chains(1, 6),
        wrap(flat(5), 4),
        comb(6, 2),
        comb(8, 2),
        comb(9, 3),
        onion(7),
        onion(8),
        crossing(7),
        crossing(8),
        balanced(0, 8, 2),
        balanced(0, 9, 3),
        mixed(8),
        mixed(11),
    ];
    // discontinuous node inside a discontinuous node, with unary chains in between
    v.push(Sh::N(vec![
        Sh::N(vec![
            Sh::L(0),
            wrap(Sh::N(vec![Sh::L(2), Sh::N(leafs(vec![4, 6])), Sh::L(9)]), 1),
        ]),
        Sh::L(1),
        Sh::N(leafs(vec![3, 7])),
        Sh::L(5),
        wrap(Sh::L(8), 2),
    ]));
    v
}

/// Large trees.
pub fn large(contig: bool) -> Vec<(String, Sh)> {
    let mut v: Vec<(String, Sh)> = Vec::new();
    for n in [17usize, 33, 65, 70, 130, 260] {
        v.push((format!("flat{}", n), flat(n)));
    }
    for n in [12usize, 40, 70] {
        v.push((format!("right{}", n), right(n)));
        v.push((format!("left{}", n), left(n)));
    }
    v.push(("chains6x4".into(), chains(6, 4)));
    v.push(("chains1x12".into(), chains(1, 12)));
    v.push(("chains3x30".into(), chains(3, 30)));
    v.push(("rootchain".into(), wrap(flat(20), 9)));
    v.push(("balanced32".into(), balanced(0, 32, 2)));
    v.push(("balanced81".into(), balanced(0, 81, 3)));
    v.push(("mixed40".into(), mixed(40)));
    v.push(("mixed90".into(), mixed(90)));
    if !contig {
        for n in [20usize, 66, 131] {
            v.push((format!("comb{}", n), comb(n, 2)));
            v.push((format!("comb3_{}", n), comb(n, 3)));
            v.push((format!("crossing{}", n), crossing(n)));
        }
        v.push(("onion21".into(), onion(21)));
        v.push(("onion70".into(), onion(70)));
    }
    v
}

/// Nesting beyond every small counter.
pub fn deep() -> Vec<(String, Sh)> {
    let mut v: Vec<(String, Sh)> = Vec::new();
    for n in [140usize, 300] {
        v.push((format!("right{}", n), right(n)));
        v.push((format!("left{}", n), left(n)));
    }
    v
}

pub fn feats(kv: &[(&str, Option<&str>)]) -> Feats {
    kv.iter().map(|(k, v)| (k.to_string(), v.map(ToOwned::to_owned))).collect()
}
