//! E01–E05: encodings and CoNLL-X.

use super::m::{canonical_seeds, judge_seed, sweep, with_weird_labels, Act, Make, Pred, Seeds, TCase};
use super::{field, replay_as, Check};
use crate::build::{build, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco};
use crate::model::{check_spans, extract, quote, unquote, Feats, Id, Kind, MNode, M};
use conllx::graph::{Node as CNode, Sentence};
use conllx::io::{ReadSentence, Reader, Writer};
use conllx::token::{Features as CFeatures, Token};
use lumberjack::io::{AbsoluteEncoding, Decode, Encode, RelativeEncoding, ToConllx, TryFromConllx};
use lumberjack::{Terminal, Tree, UnaryChains, WriteTree};
use petgraph::prelude::NodeIndex;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

/// Reference label: ancestor label and count.
pub type Lab = Option<(String, usize)>;

fn chain_of(x: &M, i: Id) -> Option<String> {
    x.nodes[&i].feats.get("unary_chain").cloned().unwrap_or(None)
}

/// Absolute encoding from the definition: lowest common ancestor of words i and i+1, number of
/// common ancestors.
pub fn abs_ref(x: &M) -> Vec<(Lab, Option<String>)> {
    let ts = x.terms();
    let anc: Vec<Vec<Id>> = ts.iter().map(|i| x.ancestors(*i)).collect();
    ts.iter()
        .enumerate()
        .map(|(k, t)| {
            let lab = if k + 1 < ts.len() {
                let common: Vec<Id> = anc[k].iter().cloned().filter(|a| anc[k + 1].contains(a)).collect();
                let lca = common[0];
                let label = match chain_of(x, lca) {
                    Some(c) => format!("{}_{}", c, x.nodes[&lca].label()),
                    None => x.nodes[&lca].label().to_string(),
                };
                Some((label, common.len()))
            } else {
                None
            };
            (lab, chain_of(x, *t))
        })
        .collect()
}

/// Relative form of reference labels as text.
fn rel_ref(a: &[(Lab, Option<String>)]) -> Vec<(Option<String>, Option<String>)> {
    let mut prev = 0isize;
    a.iter()
        .map(|(l, c)| {
            let s = l.as_ref().map(|(label, n)| {
                let off = *n as isize - prev;
                prev = *n as isize;
                if *n == 1 {
                    label.clone()
                } else {
                    format!("{}+{}", label, off)
                }
            });
            (s, c.clone())
        })
        .collect()
}

fn abs_of(e: &AbsoluteEncoding) -> Vec<(Lab, Option<String>)> {
    let v: Vec<(Lab, Option<String>)> =
        e.iter().map(|(a, c)| (a.as_ref().map(|a| (a.label().to_string(), a.n_common())), c.clone())).collect();
    // by value
    let w: Vec<(Lab, Option<String>)> = e
        .clone()
        .into_iter()
        .map(|(a, c)| {
            let a = a.map(|a| a.into_parts()).map(|(n, l)| (l, n));
            (a, c)
        })
        .collect();
    assert!(v == w && e.len() == v.len() && AbsoluteEncoding::new(e.to_vec()) == *e, "an encoding taken apart differs");
    v
}

fn rel_of(e: &RelativeEncoding) -> Vec<(Option<String>, Option<String>)> {
    e.iter().map(|(a, c)| (a.as_ref().map(|a| a.to_string()), c.clone())).collect()
}

fn terminals(t: &Tree) -> Vec<Terminal> {
    let mut v: Vec<Terminal> = t.terminals().map(|i| t[i].terminal().unwrap().clone()).collect();
    v.sort_by_key(|t| t.idx());
    v
}

fn sound(t: &Tree) -> Result<M, String> {
    let y = extract(t)?;
    check_spans(t, &y)?;
    Ok(y)
}

/// What an encoding carries: no edge labels, of the nonterminal features only recorded chains.
fn encoded_part(x: &M) -> M {
    x.map_nodes(|_, n| {
        n.edge = None;
        if !n.is_t() {
            n.feats.retain(|k, _| k == "unary_chain");
        }
    })
    .without_sec()
    .canon()
}

fn same(y: &M, want: &M, what: &str) -> Verdict {
    if y == want {
        Ok(())
    } else {
        Err(format!("{}: result is\n  {}\ninstead of\n  {}", what, y.to_text(), want.to_text()))
    }
}

fn has_char(x: &M, chars: &str) -> bool {
    x.nodes
        .values()
        .any(|n| n.label().chars().any(|c| chars.contains(c)) && !n.is_t())
}

fn has_unary(x: &M) -> bool {
    x.nodes.values().any(|n| !n.is_t() && n.kids.len() == 1)
}

// ---------------------------------------------------------------------------------------------
// E01

fn refused(t0: &Tree, x: &M) -> Verdict {
    let mut t = t0.clone();
    if guard(|| t.encode_absolute())?.is_ok() {
        return Err("absolute encoding of a discontinuous tree".into());
    }
    if guard(|| t.encode_relative())?.is_ok() {
        return Err("relative encoding of a discontinuous tree".into());
    }
    if guard(|| t.annotate_absolute())?.is_ok() {
        return Err("absolute annotation of a discontinuous tree".into());
    }
    if guard(|| t.annotate_relative())?.is_ok() {
        return Err("relative annotation of a discontinuous tree".into());
    }
    same(&sound(&t)?, x, "refused encoding")
}

pub fn e01(t: Tree, x: &M, l: &mut Local) -> Verdict {
    if !x.projective() {
        l.outcome("discontinuous");
        return refused(&t, x);
    }
    if has_char(x, "_") {
        return Ok(());
    }
    l.count("transitions", 4);
    let check = |t: &Tree, x: &M| -> Result<Tree, String> {
        let e = guard(|| t.encode_absolute())?.map_err(|e| format!("encoding: {}", e))?;
        let (got, want) = (abs_of(&e), abs_ref(x));
        if got != want {
            return Err(format!("encoding is {:?} instead of {:?}", got, want));
        }
        let d = guard(|| Tree::decode(e, terminals(t)))?;
        same(&encoded_part(&sound(&d)?), &encoded_part(x), "decoding")?;
        // and with new terminals
        Ok(d)
    };
    if !has_unary(x) {
        l.outcome("without unary nodes");
        let d = check(&t, x)?;
        let y = sound(&d)?;
        // terminals keep everything
        for (a, b) in x.terms().iter().zip(y.terms()) {
            let (a, b) = (&x.nodes[a], &y.nodes[&b]);
            if a.kind != b.kind || a.feats != b.feats {
                return Err(format!("terminal {:?} became {:?}", a, b));
            }
        }
        // nothing to remove
        let mut d2 = d.clone();
        if !x.nodes.values().any(|n| n.label() == "DUMMY") {
            guard(|| d2.remove_dummy_nodes())?.map_err(|e| e.to_string())?;
            same(&sound(&d2)?, &y, "removing no dummies")?;
        }
    }
    for delim in ["_", "^", "<>"].iter() {
        if has_char(x, delim) || x.nodes.values().any(|n| n.feats.contains_key("unary_chain")) {
            continue;
        }
        l.outcome("collapsed");
        let mut c = t.clone();
        guard(|| c.collapse_unary_chains(delim))?.map_err(|e| e.to_string())?;
        let y = sound(&c)?;
        let mut d = check(&c, &y)?;
        guard(|| d.restore_unary_chains(delim))?.map_err(|e| e.to_string())?;
        let strip = |m: &M| {
            m.map_nodes(|_, n| {
                n.edge = None;
                if !n.is_t() {
                    n.feats.clear();
                } else {
                    n.feats.remove("unary_chain");
                }
            })
            .without_sec()
            .canon()
        };
        same(&strip(&sound(&d)?), &strip(x), "encoding, decoding and restoring")?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// E02

fn text_roundtrip<T>(a: &T) -> Verdict
where
    T: ToString + PartialEq + std::fmt::Debug + for<'a> TryFrom<&'a str>,
{
    let s = a.to_string();
    let r = guard(|| T::try_from(&s).ok())?;
    match r {
        Some(b) if b == *a => Ok(()),
        Some(b) => Err(format!("{:?} prints as {:?}, which reads as {:?}", a, s, b)),
        None => Err(format!("{:?} prints as {:?}, which is not read", a, s)),
    }
}

pub fn e02(t0: Tree, x0: &M, l: &mut Local) -> Verdict {
    if !x0.projective() {
        return refused(&t0, x0);
    }
    l.count("transitions", 6);
    for collapsed in [false, true].iter() {
        let mut t = t0.clone();
        if *collapsed {
            if has_char(x0, "_") || x0.nodes.values().any(|n| n.feats.contains_key("unary_chain")) {
                continue;
            }
            guard(|| t.collapse_unary_chains("_"))?.map_err(|e| e.to_string())?;
        } else if has_unary(x0) {
            // encodings are defined for trees without unary chains
            continue;
        }
        let x = sound(&t)?;
        let aref = abs_ref(&x);
        let rref = rel_ref(&aref);
        let abs = guard(|| t.encode_absolute())?.map_err(|e| e.to_string())?;
        let rel = guard(|| t.encode_relative())?.map_err(|e| e.to_string())?;
        if rel_of(&rel) != rref {
            return Err(format!("relative encoding is {:?} instead of {:?}", rel_of(&rel), rref));
        }
        match guard(|| AbsoluteEncoding::try_from_relative(rel.clone()))?.into_result() {
            Ok(a) => {
                if a != abs {
                    return Err(format!("{:?} converts to {:?} instead of {:?}", rel, a, abs));
                }
            }
            Err(_) => return Err(format!("{:?} needs repair", rel)),
        }
        let fixed = guard(|| AbsoluteEncoding::try_from_relative(rel.clone()).unwrap_or_fix())?;
        if fixed != abs {
            return Err(format!("{:?} is repaired to {:?}", rel, fixed));
        }
        let back = guard(|| RelativeEncoding::from(abs.clone()))?;
        if back != rel {
            return Err(format!("{:?} converts to {:?} instead of {:?}", abs, back, rel));
        }
        // annotation
        for absolute in [true, false].iter() {
            let mut u = t.clone();
            let r = guard(|| if *absolute { u.annotate_absolute() } else { u.annotate_relative() })?;
            r.map_err(|e| e.to_string())?;
            let mut want = x.clone();
            for (k, id) in x.terms().into_iter().enumerate() {
                let s = if *absolute {
                    aref[k].0.as_ref().map(|(l, n)| format!("{}+{}", l, n))
                } else {
                    rref[k].0.clone()
                };
                let mut s = s.unwrap_or_else(|| "NONE".into());
                if let Some(c) = &aref[k].1 {
                    s = format!("{}~{}", s, c);
                }
                let key = if *absolute { "abs_ancestor" } else { "rel_ancestor" };
                want.nodes.get_mut(&id).unwrap().feats.insert(key.into(), Some(s));
            }
            same(&sound(&u)?, &want, "annotating")?;
        }
        // text (`+` separates a label from its number; a label or chain with a `+` has no textual form)
        let plus = |s: &Option<String>| s.as_ref().map_or(false, |s| s.contains('+'));
        if !has_char(&x, "+") && x.nodes.values().all(|n| n.feats.get("unary_chain").map_or(true, |c| !plus(c))) {
            for (a, _) in abs.iter() {
                if let Some(a) = a {
                    text_roundtrip(a)?;
                }
            }
            for (a, _) in rel.iter() {
                if let Some(a) = a {
                    if !a.to_string().is_empty() && !a.to_string().starts_with('+') {
                        text_roundtrip(a)?;
                    }
                }
            }
        }
        l.outcome(if *collapsed { "collapsed" } else { "plain" });
    }
    Ok(())
}

/// A sequence of absolute labels with arbitrary counts: conversions and textual forms.
struct ConvCase {
    labels: Vec<Lab>,
    chains: Vec<Option<String>>,
}

impl Case for ConvCase {
    fn show(&self) -> String {
        let l: Vec<String> = self.labels.iter().map(show_lab).collect();
        let c: Vec<String> = self.chains.iter().map(show_opt).collect();
        format!("convert {}\nchains {}", l.join(" "), c.join(" "))
    }
    fn parse(s: &str) -> Option<Self> {
        let labels: Option<Vec<Lab>> = field(s, "convert")?.split(' ').map(parse_lab).collect();
        let chains: Option<Vec<Option<String>>> = field(s, "chains")?.split(' ').map(parse_opt).collect();
        Some(ConvCase { labels: labels?, chains: chains? })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        l.count("transitions", 3);
        let abs = guard(|| make_abs(&self.labels, &self.chains))??;
        let aref: Vec<(Lab, Option<String>)> = self.labels.iter().cloned().zip(self.chains.iter().cloned()).collect();
        if abs_of(&abs) != aref {
            return Err(format!("labels were read as {:?}", abs));
        }
        let rel = guard(|| RelativeEncoding::from(abs.clone()))?;
        let rref = rel_ref(&aref);
        if rel_of(&rel) != rref {
            return Err(format!("{:?} converts to {:?} instead of {:?}", abs, rel_of(&rel), rref));
        }
        match guard(|| AbsoluteEncoding::try_from_relative(rel.clone()))?.into_result() {
            Ok(a) if a == abs => (),
            Ok(a) => return Err(format!("{:?} converts to {:?} instead of {:?}", rel, a, abs)),
            Err(_) => return Err(format!("{:?} needs repair", rel)),
        }
        let fixed = guard(|| AbsoluteEncoding::try_from_relative(rel.clone()).unwrap_or_fix())?;
        if fixed != abs {
            return Err(format!("{:?} is repaired to {:?}", rel, fixed));
        }
        for (a, _) in abs.iter() {
            if let Some(a) = a {
                text_roundtrip(a)?;
            }
        }
        for (a, _) in rel.iter() {
            if let Some(a) = a {
                text_roundtrip(a)?;
            }
        }
        Ok(())
    }
}

fn run_conversions(sh: &Shared) {
    let mut counts: Vec<usize> = (1..=sh.pick(12, 20)).collect();
    for bits in [7u32, 8, 15, 16, 31, 32, 53, 61] {
        for d in [-1i64, 0, 1] {
            counts.push(((1i64 << bits) + d) as usize);
        }
    }
    counts.extend([99, 100, 101, 999, 1000, 1001]);
    let names = ["L", "X-Y", "a=b", "-1", "7", "NONE", "Ä", "U_L", "."];
    let labs: Vec<Lab> = std::iter::once(None).chain(counts.iter().enumerate().map(|(i, c)| Some((names[i % names.len()].to_string(), *c)))).collect();
    for n in 1..=sh.pick(3usize, 4) {
        // the longest sequences over fewer counts
        let labs: Vec<Lab> = if n == 4 { labs.iter().step_by(2).cloned().collect() } else { labs.clone() };
        let total = labs.len().pow(n as u32);
        sh.note(format!("all {} sequences of {} absolute labels over {} counts up to 2^61 or none: conversions and textual forms", total, n, labs.len() - 1));
        sh.par((total + 1023) / 1024, |j, l| {
            for c in j * 1024..((j + 1) * 1024).min(total) {
                if l.stopped() {
                    return;
                }
                let labels: Vec<Lab> = (0..n).map(|i| labs[c / labs.len().pow(i as u32) % labs.len()].clone()).collect();
                let chains: Vec<Option<String>> = (0..n).map(|i| if (c + i) % 5 == 0 { Some("U_V".to_string()) } else { None }).collect();
                l.state(&labels);
                l.count("traces", 1);
                l.case(&ConvCase { labels, chains });
            }
        });
    }
    for c in 1..=sh.pick(5000usize, 100_000) {
        counts.push(c);
    }
    counts.sort();
    counts.dedup();
    sh.note(format!("{} pairs of counts and names", counts.len() * names.len()));
    sh.par(counts.len(), |j, l| {
        for name in names.iter() {
            if l.stopped() {
                return;
            }
            let labels: Vec<Lab> = vec![Some(("A".into(), 1)), Some((name.to_string(), counts[j])), Some(("B".into(), 2)), None];
            l.state(&labels);
            l.count("traces", 1);
            l.case(&ConvCase { labels, chains: vec![None; 4] });
        }
    });
}

fn replay_e02(s: &str, l: &mut Local) -> Option<Verdict> {
    if s.starts_with("convert ") {
        replay_as::<ConvCase>(s, l)
    } else {
        replay_as::<TCase>(s, l)
    }
}

// ---------------------------------------------------------------------------------------------
// E03

struct DecodeCase {
    labels: Vec<Lab>,
    chains: Vec<Option<String>>,
}

fn show_lab(l: &Lab) -> String {
    match l {
        None => "-".into(),
        Some((s, n)) => format!("{}{}", n, quote(s)),
    }
}
fn parse_lab(s: &str) -> Option<Lab> {
    if s == "-" {
        return Some(None);
    }
    let k = s.find('"')?;
    Some(Some((unquote(&s[k..])?, s[..k].parse().ok()?)))
}
fn show_opt(c: &Option<String>) -> String {
    c.as_ref().map(|c| quote(c)).unwrap_or_else(|| "-".into())
}
fn parse_opt(s: &str) -> Option<Option<String>> {
    if s == "-" {
        Some(None)
    } else {
        Some(Some(unquote(s)?))
    }
}

fn make_abs(labels: &[Lab], chains: &[Option<String>]) -> Result<AbsoluteEncoding, String> {
    let mut v = Vec::new();
    for (l, c) in labels.iter().zip(chains) {
        let a = match l {
            None => None,
            Some((s, n)) => {
                let text = format!("{}+{}", s, n);
                Some(TryFrom::try_from(text.as_str()).map_err(|e: failure::Error| format!("{:?}: {}", text, e))?)
            }
        };
        v.push((a, c.clone()));
    }
    Ok(AbsoluteEncoding::new(v))
}

/// The tree that a sequence of labels (all given, except possibly the last) describes: on every
/// depth one node for each maximal run of labels with more common ancestors than that.
fn decode_ref(labels: &[Lab], chains: &[Option<String>]) -> M {
    let n = labels.len();
    let mut m = M { nodes: BTreeMap::new(), root: 0, sec: Vec::new() };
    let cnt = |i: usize| labels[i].as_ref().map(|l| l.1).unwrap_or(0);
    let term = |i: usize| {
        let mut t = MNode::new_t(&format!("w{}", i), &format!("T{}", i), i);
        if let Some(c) = &chains[i] {
            t.feats.insert("unary_chain".into(), Some(c.clone()));
        }
        t
    };
    if n == 1 && labels[0].is_none() {
        m.nodes.insert(0, term(0));
        return m;
    }
    // (depth, first label, last label) -> node
    let maxd = (0..n).map(cnt).max().unwrap();
    let mut at: BTreeMap<(usize, usize), Id> = BTreeMap::new(); // (depth, word) -> node
    for d in 0..maxd.max(1) {
        let mut i = 0;
        while i < n {
            if cnt(i) <= d && !(d == 0) {
                i += 1;
                continue;
            }
            let a = i;
            while i < n && (cnt(i) > d || d == 0) {
                i += 1;
            }
            let b = i - 1;
            let id = m.nodes.len();
            let mut node = MNode::new_n("DUMMY");
            for k in a..=b {
                if let Some((lab, c)) = &labels[k] {
                    if *c == d + 1 {
                        match lab.rfind('_') {
                            Some(p) => {
                                node.set_label(&lab[p + 1..]);
                                node.feats.insert("unary_chain".into(), Some(lab[..p].to_string()));
                            }
                            None => node.set_label(lab),
                        }
                    }
                }
            }
            m.nodes.insert(id, node);
            if d > 0 {
                m.attach(at[&(d - 1, a)], id, None);
            } else {
                m.root = id;
            }
            for w in a..=(b + 1).min(n - 1) {
                at.insert((d, w), id);
            }
        }
    }
    for w in 0..n {
        let left = if w > 0 { cnt(w - 1) } else { 0 };
        let depth = left.max(cnt(w)).max(1) - 1;
        let id = m.nodes.len();
        m.nodes.insert(id, term(w));
        m.attach(at[&(depth, w)], id, None);
    }
    m
}

fn without_dummies(m: &M) -> M {
    let mut m = m.clone();
    for i in m.nts() {
        if i != m.root && m.nodes[&i].label() == "DUMMY" {
            m.splice_out(i);
        }
    }
    let r = m.root;
    if !m.nodes[&r].is_t() && m.nodes[&r].label() == "DUMMY" && m.nodes[&r].kids.len() == 1 {
        m.splice_out(r);
    }
    m
}

fn bare_terminals(n: usize) -> Vec<Terminal> {
    (0..n).map(|i| Terminal::new(format!("w{}", i), format!("T{}", i), i)).collect()
}

/// Features of labels with '_' that are said over by one without keep the recorded chain.
fn chain_insensitive(m: &M) -> M {
    m.map_nodes(|_, n| {
        if !n.is_t() {
            n.feats.clear()
        }
    })
}

impl Case for DecodeCase {
    fn show(&self) -> String {
        let l: Vec<String> = self.labels.iter().map(show_lab).collect();
        let c: Vec<String> = self.chains.iter().map(show_opt).collect();
        format!("labels {}\nchains {}", l.join(" "), c.join(" "))
    }
    fn parse(s: &str) -> Option<Self> {
        let labels: Option<Vec<Lab>> = field(s, "labels")?.split(' ').map(parse_lab).collect();
        let chains: Option<Vec<Option<String>>> = field(s, "chains")?.split(' ').map(parse_opt).collect();
        Some(DecodeCase { labels: labels?, chains: chains? })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let n = self.labels.len();
        l.count("transitions", 2);
        let e = make_abs(&self.labels, &self.chains)?;
        let mut t = guard(|| Tree::decode(e, bare_terminals(n)))?;
        let y = sound(&t)?;
        if !t.is_projective() {
            return Err("decoded tree is not projective".into());
        }
        let forms: Vec<String> = y
            .terms()
            .iter()
            .map(|i| match &y.nodes[i].kind {
                Kind::T { form, .. } => form.clone(),
                _ => unreachable!(),
            })
            .collect();
        let want: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
        if forms != want {
            return Err(format!("words are {:?}", forms));
        }
        let holes = self.labels[..n - 1].iter().any(Option::is_none);
        let overwritten = self.labels.iter().filter(|l| l.as_ref().map_or(false, |l| l.0.contains('_'))).count() > 0;
        let view = |m: &M| {
            let m = m.canon();
            if overwritten && n > 2 {
                chain_insensitive(&m)
            } else {
                m
            }
        };
        if !holes {
            l.outcome("complete");
            same(&view(&y), &view(&decode_ref(&self.labels, &self.chains)), "decoding")?;
            // the statement itself, independent of the construction above
            let ts = y.terms();
            for i in 0..n - 1 {
                let a = y.ancestors(ts[i]);
                let b = y.ancestors(ts[i + 1]);
                let common = a.iter().filter(|x| b.contains(x)).count();
                let stated = self.labels[i].as_ref().unwrap().1;
                if common != stated {
                    return Err(format!("words {} and {} have {} common ancestors, {} stated", i, i + 1, common, stated));
                }
            }
        } else {
            l.outcome("with gaps");
        }
        let r = guard(|| t.remove_dummy_nodes())?;
        r.map_err(|e| format!("removing dummies: {}", e))?;
        let z = sound(&t)?;
        // handles stay
        let w = without_dummies(&y);
        let blur = |m: &M| m.map_nodes(|_, n| n.edge = None);
        same(&blur(&z), &blur(&w), "removing dummies")?;
        Ok(())
    }
}

/// Relative label: offset, or None for a label without offset (the root).
type RLab = Option<(String, Option<isize>)>;

struct RelCase {
    labels: Vec<RLab>,
    chains: Vec<Option<String>>,
}

fn show_rlab(l: &RLab) -> String {
    match l {
        None => "-".into(),
        Some((s, None)) => s.clone(),
        Some((s, Some(o))) => format!("{}+{}", s, o),
    }
}

/// The absolute sequence with repairs, and whether one was needed.
fn rel_to_abs(labels: &[RLab]) -> (Vec<Lab>, bool) {
    let mut prev = 0isize;
    let mut bad = false;
    let v = labels
        .iter()
        .map(|l| {
            l.as_ref().map(|(s, o)| {
                let mut n = match o {
                    None => 1,
                    Some(o) => prev + o,
                };
                if n < 1 {
                    n = 2;
                    bad = true;
                }
                prev = n;
                (s.clone(), n as usize)
            })
        })
        .collect();
    (v, bad)
}

impl Case for RelCase {
    fn show(&self) -> String {
        let l: Vec<String> = self.labels.iter().map(show_rlab).collect();
        let c: Vec<String> = self.chains.iter().map(show_opt).collect();
        format!("rel {}\nchains {}", l.join(" "), c.join(" "))
    }
    fn parse(s: &str) -> Option<Self> {
        let labels: Option<Vec<RLab>> = field(s, "rel")?
            .split(' ')
            .map(|w| {
                if w == "-" {
                    return Some(None);
                }
                Some(Some(match w.find('+') {
                    None => (w.to_string(), None),
                    Some(k) => (w[..k].to_string(), Some(w[k + 1..].parse().ok()?)),
                }))
            })
            .collect();
        let chains: Option<Vec<Option<String>>> = field(s, "chains")?.split(' ').map(parse_opt).collect();
        Some(RelCase { labels: labels?, chains: chains? })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        l.count("transitions", 3);
        let n = self.labels.len();
        let enc = || -> Result<RelativeEncoding, String> {
            let mut v = Vec::new();
            for (l, c) in self.labels.iter().zip(&self.chains) {
                let a = match l {
                    None => None,
                    l => {
                        let text = show_rlab(l);
                        Some(TryFrom::try_from(text.as_str()).map_err(|e: failure::Error| format!("{:?}: {}", text, e))?)
                    }
                };
                v.push((a, c.clone()));
            }
            Ok(RelativeEncoding::from_labels(v))
        };
        let (want, bad) = rel_to_abs(&self.labels);
        let want: Vec<(Lab, Option<String>)> = want.into_iter().zip(self.chains.iter().cloned()).collect();
        let e = enc()?;
        let r = guard(|| AbsoluteEncoding::try_from_relative(e.clone()))?;
        l.outcome(if bad { "leaves the tree" } else { "valid" });
        match (guard(|| r.clone().into_result())?, bad) {
            (Ok(_), true) => return Err("sequence that leaves the tree is not reported".into()),
            (Err(_), false) => return Err("valid sequence is reported as an error".into()),
            (Ok(a), false) => {
                if abs_of(&a) != want {
                    return Err(format!("converts to {:?} instead of {:?}", abs_of(&a), want));
                }
            }
            (Err(e), true) => {
                let f = guard(|| e.fix())?;
                if abs_of(&f) != want {
                    return Err(format!("is repaired to {:?} instead of {:?}", abs_of(&f), want));
                }
            }
        }
        let f = guard(|| r.unwrap_or_fix())?;
        if abs_of(&f) != want {
            return Err(format!("is repaired to {:?} instead of {:?}", abs_of(&f), want));
        }
        let t = guard(|| Tree::decode(f, bare_terminals(n)))?;
        let y = sound(&t)?;
        if !t.is_projective() || y.n() != n {
            return Err("decoded tree is not projective over the words".into());
        }
        Ok(())
    }
}

/// All sequences of length `n` over the numbers below `k`.
fn tuples(n: usize, k: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = k.pow(n as u32);
    (0..total).map(move |mut c| {
        (0..n)
            .map(|_| {
                let d = c % k;
                c /= k;
                d
            })
            .collect()
    })
}

fn run_e03(sh: &Shared) {
    // absolute: all sequences of counts, last label given or not, labels assigned in several ways
    let spaces: Vec<(usize, usize)> = sh.pick(
        vec![(1, 6), (2, 6), (3, 5), (4, 5), (5, 4), (6, 4), (7, 3), (8, 3)],
        vec![(1, 8), (2, 8), (3, 8), (4, 7), (5, 6), (6, 5), (7, 4), (8, 4), (9, 3), (10, 3)],
    );
    for (n, k) in spaces {
        sh.note(format!("all sequences of {} labels with 1 to {} common ancestors or none, 6 assignments of labels and chains", n, k));
        let all: Vec<Vec<usize>> = tuples(n, k + 1).filter(|v| n <= 5 || v.iter().filter(|c| **c == 0).count() <= 1).collect();
        sh.par((all.len() + 63) / 64, |j, l| {
            for v in &all[j * 64..((j + 1) * 64).min(all.len())] {
                for scheme in 0..6 {
                    if l.stopped() {
                        return;
                    }
                    let name = |i: usize| -> String {
                        match scheme {
                            0 => format!("L{}", i),
                            1 => "X".into(),
                            2 => ["A", "DUMMY"][i % 2].into(),
                            3 => ["Ä", "B-C", "."][i % 3].into(),
                            4 => ["A", "C_B", "E_D_F"][i % 3].into(),
                            _ => ["DUMMY", "A", "B"][i % 3].into(),
                        }
                    };
                    let labels: Vec<Lab> = v.iter().enumerate().map(|(i, c)| if *c == 0 { None } else { Some((name(i), *c)) }).collect();
                    let chains: Vec<Option<String>> = (0..n).map(|i| if scheme % 2 == 1 && i % 2 == 0 { Some(format!("U{}_V", i)) } else { None }).collect();
                    l.state(&(&labels, &chains));
                    let c = DecodeCase { labels, chains };
                    l.count("traces", 1);
                    l.case(&c);
                }
            }
        });
    }
    // full label alphabets
    for n in 1..=3usize {
        let k = 4;
        let labs = ["A", "B", "DUMMY"];
        let all: Vec<Vec<usize>> = tuples(n, 1 + k * labs.len()).collect();
        sh.note(format!("all sequences of {} labels over 3 names and {} counts", n, k));
        sh.par((all.len() + 63) / 64, |j, l| {
            for v in &all[j * 64..((j + 1) * 64).min(all.len())] {
                if l.stopped() {
                    return;
                }
                let labels: Vec<Lab> = v
                    .iter()
                    .map(|c| if *c == 0 { None } else { Some((labs[(c - 1) % 3].to_string(), (c - 1) / 3 + 1)) })
                    .collect();
                l.state(&labels);
                let c = DecodeCase { labels, chains: vec![None; n] };
                l.count("traces", 1);
                l.case(&c);
            }
        });
    }
    // long sequences
    let mut long: Vec<Vec<usize>> = Vec::new();
    for n in [20usize, 33, 65, 90] {
        long.push((0..n).map(|i| i + 1).collect());
        long.push((0..n).map(|i| n - i).collect());
        long.push((0..n).map(|i| i % 7 + 1).collect());
        long.push((0..n).map(|i| if i % 2 == 0 { 1 } else { 40 }).collect());
        long.push((0..n).map(|i| (i * i + 3 * i) % 11 + 1).collect());
        long.push(vec![1; n]);
        long.push(vec![9; n]);
    }
    sh.note(format!("{} long sequences", long.len()));
    sh.par(long.len(), |i, l| {
        for last in [false, true].iter() {
            let v = &long[i];
            let n = v.len();
            let labels: Vec<Lab> =
                v.iter().enumerate().map(|(i, c)| if i + 1 == n && !last { None } else { Some((format!("L{}", i % 5), *c)) }).collect();
            let c = DecodeCase { labels, chains: vec![None; n] };
            l.state(&c.labels);
            l.count("traces", 1);
            l.case(&c);
        }
    });
    // relative sequences
    for n in 1..=sh.pick(5usize, 6) {
        let offs: Vec<Option<Option<isize>>> = if n <= 4 {
            let mut v = vec![None, Some(None)];
            v.extend((-4..=4).map(|o| Some(Some(o))));
            v
        } else {
            vec![None, Some(None), Some(Some(-3)), Some(Some(-1)), Some(Some(0)), Some(Some(1)), Some(Some(2))]
        };
        sh.note(format!("all sequences of {} relative labels over {} values", n, offs.len()));
        let all: Vec<Vec<usize>> = tuples(n, offs.len()).collect();
        sh.par((all.len() + 255) / 256, |j, l| {
            for v in &all[j * 256..((j + 1) * 256).min(all.len())] {
                if l.stopped() {
                    return;
                }
                let labels: Vec<RLab> = v.iter().enumerate().map(|(i, k)| offs[*k].map(|o| (format!("L{}", i), o))).collect();
                let chains = (0..n).map(|i| if i % 3 == 1 { Some("U".to_string()) } else { None }).collect();
                l.state(&labels);
                let c = RelCase { labels, chains };
                l.count("traces", 1);
                l.case(&c);
            }
        });
    }
    run_dummies(sh);
}

fn run_dummies(sh: &Shared) {
    let s = super::m::std_seeds(sh, (4, sh.pick(3, 4)), (3, 3), &[Deco::Rich]);
    sweep(sh, s, |x, bits| {
        let n = super::m::canonical_nts(x).len();
        super::m::Pred::over(n, bits.min(5))
            .into_iter()
            .enumerate()
            .map(|(k, p)| Act::Dummies(p, k % 2 == 1))
            .collect()
    });
}

fn replay_e03(s: &str, l: &mut Local) -> Option<Verdict> {
    if s.starts_with("rel ") {
        replay_as::<RelCase>(s, l)
    } else if s.starts_with("tree ") {
        replay_as::<TCase>(s, l)
    } else {
        replay_as::<DecodeCase>(s, l)
    }
}

// ---------------------------------------------------------------------------------------------
// E04

struct FileCase {
    trees: Vec<(M, B)>,
    absolute: bool,
}

impl Case for FileCase {
    fn show(&self) -> String {
        let mut s = format!("absolute {}\n", self.absolute as u8);
        for (m, b) in &self.trees {
            s.push_str(&format!("tree {} {}\n", b.name(), m.to_text()));
        }
        s
    }
    fn parse(s: &str) -> Option<Self> {
        let mut trees = Vec::new();
        for l in s.lines().filter(|l| l.starts_with("tree ")) {
            let r = &l[5..];
            let k = r.find(' ')?;
            trees.push((M::parse(&r[k + 1..])?, B::parse(&r[..k])?));
        }
        Some(FileCase { trees, absolute: field(s, "absolute")? == "1" })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let mut out: Vec<u8> = Vec::new();
        let mut wants = Vec::new();
        {
            let mut w = Writer::new(&mut out);
            for (m, b) in &self.trees {
                let mut t = match build(*b, m) {
                    Ok((t, _)) => t,
                    Err(_) => {
                        l.count("seed_skipped", 1);
                        return Ok(());
                    }
                };
                let x = sound(&t)?;
                wants.push(x.bare().canon());
                l.count("transitions", 4);
                guard(|| t.collapse_unary_chains("_"))?.map_err(|e| e.to_string())?;
                let r = guard(|| if self.absolute { t.annotate_absolute() } else { t.annotate_relative() })?;
                r.map_err(|e| e.to_string())?;
                guard(|| w.write_tree(&t))?.map_err(|e| format!("writing: {}", e))?;
            }
        }
        let mut got = Vec::new();
        for s in Reader::new(out.as_slice()).sentences() {
            let s = s.map_err(|e| format!("reading CoNLL-X: {}", e))?;
            let t = guard(|| {
                if self.absolute {
                    Tree::try_from_conllx_with_absolute_encoding(&s)
                } else {
                    Tree::try_from_conllx_with_relative_encoding(&s)
                }
            })?
            .map_err(|e| format!("reconstructing: {}\nfrom\n{}", e, String::from_utf8_lossy(&out)))?;
            got.push(sound(&t)?.bare().canon());
        }
        if got.len() != wants.len() {
            return Err(format!("{} sentences written, {} read", wants.len(), got.len()));
        }
        for (k, (a, b)) in got.iter().zip(&wants).enumerate() {
            same(a, b, &format!("sentence {}", k))
                .map_err(|e| format!("{}\nfrom\n{}", e, String::from_utf8_lossy(&out)))?;
        }
        Ok(())
    }
}

/// Tokens with the given feature columns (`None`: no features at all).
struct MalCase {
    cols: Vec<Option<String>>,
    absolute: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Grade {
    Good,
    Bad,
    Open,
}

/// The label in a feature column.
fn grade(col: &Option<String>, absolute: bool) -> (Grade, RLab, Option<String>) {
    let key = if absolute { "abs_ancestor" } else { "rel_ancestor" };
    let bad = (Grade::Bad, None, None);
    let col = match col {
        None => return bad,
        Some(c) => c,
    };
    let v = match col.split('|').find(|f| f.split(':').next() == Some(key)) {
        None => return bad,
        Some(f) => match f.splitn(2, ':').nth(1) {
            None => return bad,
            Some(v) => v,
        },
    };
    let mut it = v.split('~');
    let lab = it.next().unwrap();
    let chain = it.next().filter(|c| !c.is_empty()).map(|c| c.to_string());
    if it.next().is_some() || v.contains(':') {
        return (Grade::Open, None, None);
    }
    if lab == "NONE" {
        return (Grade::Good, None, chain);
    }
    let parts: Vec<&str> = lab.split('+').collect();
    let num = |s: &str| -> Option<isize> { s.parse::<isize>().ok() };
    match (parts.len(), absolute) {
        (1, true) => bad,
        (1, false) if parts[0].is_empty() => bad,
        (1, false) => (Grade::Good, Some((parts[0].into(), None)), chain),
        (2, true) => match num(parts[1]) {
            Some(n) if n > 0 && n < 1000 && !parts[0].is_empty() => (Grade::Good, Some((parts[0].into(), Some(n))), chain),
            Some(n) if n > 0 => (Grade::Open, None, None),
            _ => bad,
        },
        (2, false) => match num(parts[1]) {
            _ if parts[0].is_empty() => bad,
            Some(n) => (Grade::Good, Some((parts[0].into(), Some(n))), chain),
            _ => bad,
        },
        _ => {
            if parts[1].parse::<isize>().is_ok() {
                (Grade::Open, None, None)
            } else {
                bad
            }
        }
    }
}

/// Restore chains in a reference tree.
fn restore_ref(m: &M) -> M {
    let mut m = m.clone();
    for i in m.nodes.keys().cloned().collect::<Vec<_>>() {
        if let Some(Some(c)) = m.nodes.get_mut(&i).unwrap().feats.remove("unary_chain") {
            let mut cur = i;
            for lab in c.split('_') {
                let new = m.fresh();
                m.insert_above(cur, new, lab);
                cur = new;
            }
        }
    }
    m
}

impl Case for MalCase {
    fn show(&self) -> String {
        let c: Vec<String> = self.cols.iter().map(show_opt).collect();
        format!("mal {}\ncols {}", self.absolute as u8, c.join(" "))
    }
    fn parse(s: &str) -> Option<Self> {
        let c = field(s, "cols")?;
        let cols: Option<Vec<Option<String>>> =
            if c.is_empty() { Some(vec![]) } else { c.split(' ').map(parse_opt).collect() };
        Some(MalCase { cols: cols?, absolute: field(s, "mal")? == "1" })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let mut direct = Sentence::new();
        let mut text = String::new();
        for (i, c) in self.cols.iter().enumerate() {
            let mut t = Token::new(format!("w{}", i));
            t.set_pos(Some(format!("T{}", i)));
            t.set_features(c.as_ref().map(|c| CFeatures::from_string(c.clone())));
            direct.push(t);
            text.push_str(&format!("{}\tw{}\t_\t_\tT{}\t{}\t_\t_\t_\t_\n", i + 1, i, i, c.as_deref().filter(|c| !c.is_empty()).unwrap_or("_")));
        }
        text.push('\n');
        let mut sents = vec![direct];
        if !self.cols.is_empty() {
            match Reader::new(text.as_bytes()).read_sentence() {
                Ok(Some(s)) => sents.push(s),
                r => return Err(format!("CoNLL-X reader: {:?}", r.map(|s| s.is_some()))),
            }
        }
        let grades: Vec<_> = self.cols.iter().map(|c| grade(c, self.absolute)).collect();
        for s in &sents {
            l.count("transitions", 1);
            let r = guard(|| {
                if self.absolute {
                    Tree::try_from_conllx_with_absolute_encoding(s)
                } else {
                    Tree::try_from_conllx_with_relative_encoding(s)
                }
            })?;
            let bad = grades.is_empty() || grades.iter().any(|g| g.0 == Grade::Bad);
            let open = grades.iter().any(|g| g.0 == Grade::Open);
            match r {
                Err(e) => {
                    if !bad && !open {
                        return Err(format!("refused: {}", e));
                    }
                    l.outcome("refused");
                }
                Ok(t) => {
                    if bad {
                        return Err("accepted a sentence with missing or malformed labels".into());
                    }
                    let y = sound(&t)?;
                    if y.n() != self.cols.len() || !t.is_projective() {
                        return Err("the tree is not a projective tree over the tokens".into());
                    }
                    if open {
                        l.outcome("unspecified");
                        continue;
                    }
                    let labels: Vec<RLab> = grades.iter().map(|g| g.1.clone()).collect();
                    let n = labels.len();
                    let abs: Vec<Lab> = if self.absolute {
                        labels.iter().map(|l| l.as_ref().map(|(s, o)| (s.clone(), o.unwrap() as usize))).collect()
                    } else {
                        rel_to_abs(&labels).0
                    };
                    let chains: Vec<Option<String>> = grades.iter().map(|g| g.2.clone()).collect();
                    let overwritten = n > 2 && abs.iter().any(|l| l.as_ref().map_or(false, |l| l.0.contains('_')));
                    // what the file says is what its labels decode to
                    let mut given = Vec::new();
                    for (l, c) in abs.iter().zip(&chains) {
                        let a = match l {
                            None => None,
                            Some((s, k)) => {
                                let text = format!("{}+{}", s, k);
                                Some(TryFrom::try_from(text.as_str()).map_err(|e: failure::Error| format!("{:?}: {}", text, e))?)
                            }
                        };
                        given.push((a, c.clone()));
                    }
                    let direct = guard(|| {
                        let terms = (0..n)
                            .map(|i| lumberjack::Terminal::new(format!("w{}", i), format!("T{}", i), i))
                            .collect();
                        let mut t = Tree::decode(AbsoluteEncoding::new(given), terms);
                        t.restore_unary_chains("_").map(|_| t)
                    })?
                    .map_err(|e| format!("restoring chains: {}", e))?;
                    let x = sound(&direct)?;
                    if overwritten {
                        same(&chain_insensitive(&y.bare().canon()), &chain_insensitive(&x.bare().canon()), "reading against decoding the labels")?;
                    } else {
                        same(&y.bare().canon(), &x.bare().canon(), "reading against decoding the labels")?;
                    }
                    if labels[..n - 1].iter().any(Option::is_none) {
                        l.outcome("with gaps");
                        continue;
                    }
                    if overwritten {
                        l.outcome("repeated chains");
                        continue;
                    }
                    let want = restore_ref(&decode_ref(&abs, &chains));
                    same(&y.bare().canon(), &want.bare().canon(), "reconstructing")?;
                    l.outcome("reconstructed");
                }
            }
        }
        Ok(())
    }
}

fn weird_forms(m: &M) -> M {
    let forms = ["\"", "(", "|", "a:b", "+", "~", "#x", "a_b", "NONE", "ß€", "DUMMY", "%%", "-"];
    let labels = ["Ä", "-", ".", "$,", "NP-SBJ", "(", "a=b", "X1", "β"];
    let mut k = 0;
    let mut m = m.clone();
    for i in m.nodes.keys().cloned().collect::<Vec<_>>() {
        let n = m.nodes.get_mut(&i).unwrap();
        k += 1;
        match &mut n.kind {
            Kind::T { form, tag, pos, .. } => {
                *form = forms[(*pos * 5 + k) % forms.len()].into();
                *tag = ["NN", "$.", "A|B", "x+y", "_", "P:Q"][(*pos + k) % 6].into();
            }
            Kind::N { label } => *label = labels[k % labels.len()].into(),
        }
    }
    m
}

fn run_e04(sh: &Shared) {
    let proj = |v: Vec<M>| -> Vec<M> { v.into_iter().filter(|m| m.projective()).collect() };
    let mut files: Vec<Vec<(M, B)>> = Vec::new();
    let (n, k) = sh.pick((5, 4), (6, 5));
    let mut single: Vec<M> = gen::models(n, k, true, &[Deco::Rich]);
    single.extend(gen::models(3, sh.pick(4, 6), true, &[Deco::Distinct, Deco::Same, Deco::Cycle]));
    single.extend(gen::models(4, 4, true, &[Deco::Distinct]).iter().map(weird_forms));
    single.extend(proj(gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect()));
    single.extend(gen::large(true).iter().chain(gen::deep().iter()).map(|(_, s)| gen::to_m(s, Deco::Cycle)));
    for (i, m) in single.iter().enumerate() {
        let r = crate::build::routes(m);
        files.push(vec![(m.clone(), r[i % r.len()])]);
        if m.n() <= 3 {
            for b in r {
                files.push(vec![(m.clone(), b)]);
            }
        }
    }
    // several sentences
    let small = gen::models(2, 2, true, &[Deco::Distinct, Deco::Rich]);
    for a in &small {
        for b in &small {
            files.push(vec![(a.clone(), B::Api), (b.clone(), B::Holes)]);
        }
    }
    for w in single.windows(5).step_by(3) {
        files.push(w.iter().map(|m| (m.clone(), B::Api)).collect());
    }
    files.push(vec![]);
    sh.note(format!("{} files of up to 5 trees, in both encodings", files.len()));
    sh.par(files.len(), |i, l| {
        for absolute in [false, true].iter() {
            if l.stopped() {
                return;
            }
            let c = FileCase { trees: files[i].clone(), absolute: *absolute };
            let text = c.show();
            l.state(&text);
            l.count("traces", 1);
            l.case_text(text, |l| c.run(l));
        }
    });
    // malformed labels
    for absolute in [true, false].iter() {
        let key = if *absolute { "abs_ancestor" } else { "rel_ancestor" };
        let mut vals: Vec<Option<String>> = vec![None, Some("".into()), Some("other:1".into()), Some(key.into())];
        for v in [
            "", "S", "S+", "S+x", "S+0", "S+-1", "S+-3", "S++1", "S+1", "S+2", "T+3", "S+1~", "S+2~C", "S+1~C_D", "NONE", "NONE~C", "~C", "~", "+", "+1",
            "S+1+2", "S+1x", "S+ 1", "S+99999999999999999999", "U_S+2", "S+1~C~D", "NONE+1", "S+1.0",
        ]
        .iter()
        {
            vals.push(Some(format!("{}:{}", key, v)));
        }
        vals.push(Some(format!("a:b|{}:S+1", key)));
        vals.push(Some(format!("{}:S+2|z", key)));
        vals.push(Some(format!("x{}:S+2", key)));
        let few: Vec<Option<String>> = vals.iter().step_by(2).cloned().collect();
        let mut all: Vec<Vec<Option<String>>> = vec![vec![]];
        for n in 1..=sh.pick(2usize, 3) {
            all.extend(tuples(n, vals.len()).map(|v| v.iter().map(|i| vals[*i].clone()).collect()));
        }
        all.extend(tuples(3, few.len()).map(|v| v.iter().map(|i| few[*i].clone()).collect()));
        let good: Vec<Option<String>> = vals.iter().filter(|c| grade(c, *absolute).0 == Grade::Good).cloned().collect();
        all.extend(tuples(sh.pick(3, 4), good.len()).map(|v| v.iter().map(|i| good[*i].clone()).collect()));
        sh.note(format!("{} sentences of up to 4 tokens over {} feature columns with {}", all.len(), vals.len(), key));
        sh.par((all.len() + 63) / 64, |j, l| {
            for v in &all[j * 64..((j + 1) * 64).min(all.len())] {
                if l.stopped() {
                    return;
                }
                let c = MalCase { cols: v.clone(), absolute: *absolute };
                l.state(&(v, absolute));
                l.count("traces", 1);
                l.case(&c);
            }
        });
    }
}

fn replay_e04(s: &str, l: &mut Local) -> Option<Verdict> {
    if s.starts_with("mal ") {
        replay_as::<MalCase>(s, l)
    } else {
        replay_as::<FileCase>(s, l)
    }
}

// ---------------------------------------------------------------------------------------------
// E05

fn cfeats(f: &Feats) -> Option<BTreeMap<String, Option<String>>> {
    if f.is_empty() {
        None
    } else {
        Some(f.clone())
    }
}

fn check_tokens(s: &Sentence, x: &M, what: &str) -> Verdict {
    let ts: Vec<&Token> = s.iter().filter_map(CNode::token).collect();
    let terms = x.terms();
    if ts.len() != terms.len() || s.len() != terms.len() + 1 {
        return Err(format!("{}: {} tokens for {} terminals", what, ts.len(), terms.len()));
    }
    for (tok, id) in ts.iter().zip(terms) {
        let n = &x.nodes[&id];
        if let Kind::T { form, tag, lemma, .. } = &n.kind {
            let got = (
                tok.form().to_string(),
                tok.pos().map(|s| s.to_string()),
                tok.lemma().map(|s| s.to_string()),
                tok.features().map(|f| f.as_map().clone()),
                tok.cpos().map(|s| s.to_string()),
            );
            // an underscore is how the text says that there is nothing
            let given = |s: &String| what != "text" || s != "_";
            let want = (
                form.clone(),
                Some(tag.clone()).filter(given),
                lemma.clone().filter(given),
                cfeats(&n.feats),
                None,
            );
            if got != want {
                return Err(format!("{}: token {:?} instead of {:?}", what, got, want));
            }
        }
    }
    Ok(())
}

pub fn e05(t: Tree, x: &M, l: &mut Local) -> Verdict {
    l.count("transitions", 4);
    let before = crate::ops::snapshot(&t)?;
    let a = guard(|| t.to_conllx())?;
    check_tokens(&a, x, "to_conllx")?;
    let b = guard(|| Sentence::from(&t))?;
    check_tokens(&b, x, "from reference")?;
    let mut out: Vec<u8> = Vec::new();
    {
        let mut w = Writer::new(&mut out);
        for _ in 0..2 {
            guard(|| w.write_tree(&t))?.map_err(|e| format!("writing: {}", e))?;
        }
    }
    if crate::ops::snapshot(&t)? != before {
        return Err("a borrowing conversion changed the tree".into());
    }
    let text = String::from_utf8(out).map_err(|_| "output is not UTF-8".to_string())?;
    let mut k = 0;
    for s in Reader::new(text.as_bytes()).sentences() {
        let s = s.map_err(|e| format!("reading the text: {}\n{}", e, text))?;
        check_tokens(&s, x, "text").map_err(|e| format!("{}\n{}", e, text))?;
        k += 1;
    }
    if k != 2 {
        return Err(format!("{} sentences in the text instead of 2\n{}", k, text));
    }
    let c = guard(|| Sentence::from(t))?;
    check_tokens(&c, x, "from value")?;
    for (p, q) in a.iter().zip(c.iter()) {
        if format!("{:?}", p.token()) != format!("{:?}", q.token()) {
            // lazily parsed features aside
            let s = |t: Option<&Token>| t.map(|t| (t.form().to_string(), t.features().map(|f| f.as_str().to_string())));
            if s(p.token()) != s(q.token()) {
                return Err("consuming and borrowing conversion differ".into());
            }
        }
    }
    l.outcome(if x.projective() { "projective" } else { "discontinuous" });
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Name some nonterminals (and some tags) like the dummy nodes of decoding, and remove those.
fn dummies(mut t: Tree, mut x: M, p: Pred, tags: bool, l: &mut Local) -> Verdict {
    l.count("transitions", 1);
    let nts = super::m::canonical_nts(&x);
    for (k, i) in nts.into_iter().enumerate() {
        let name = if p.has(k) {
            "DUMMY"
        } else if tags {
            ["DUMMY-SBJ", "dummy", "XDUMMY", "", "DUMMY DUMMY"][k % 5]
        } else {
            continue;
        };
        t[NodeIndex::new(i)].set_label(name);
        x.nodes.get_mut(&i).unwrap().set_label(name);
    }
    if tags {
        for i in x.terms().into_iter().step_by(2) {
            t[NodeIndex::new(i)].set_label("DUMMY");
            x.nodes.get_mut(&i).unwrap().set_label("DUMMY");
        }
    }
    let r = guard(|| t.remove_dummy_nodes())?;
    r.map_err(|e| format!("removing dummies: {}", e))?;
    let z = sound(&t)?;
    let w = without_dummies(&x);
    l.outcome(if w.nodes.len() == x.nodes.len() { "no dummies" } else { "dummies removed" });
    // children of removed nodes may lose the labels of their edges
    let moved: BTreeSet<usize> =
        w.nodes.iter().filter(|(i, n)| n.parent != x.nodes[i].parent).map(|(i, _)| *i).collect();
    let blur = |m: &M| {
        m.map_nodes(|i, n| {
            if moved.contains(&i) {
                n.edge = None
            }
        })
    };
    same(&blur(&z), &blur(&w), "removing dummies")?;
    for i in moved.iter() {
        let e = &z.nodes[i].edge;
        if e.is_some() && *e != x.nodes[i].edge {
            return Err(format!("edge above {} got the label {:?}", i, e));
        }
    }
    Ok(())
}

/// Like `judge` of the transformations, for the single-tree actions of this file.
pub fn judge_e(act: &Act, make: Make, l: &mut Local) -> Verdict {
    let (t, x) = match judge_seed(make, l) {
        Some(v) => v,
        None => return Ok(()),
    };
    match act {
        Act::Absolute => e01(t, &x, l),
        Act::Relative => e02(t, &x, l),
        Act::Export => e05(t, &x, l),
        Act::Dummies(p, b) => dummies(t, x, *p, *b, l),
        _ => unreachable!(),
    }
}

fn enc_seeds(sh: &Shared) -> Vec<Seeds> {
    let n5 = gen::models(5, sh.pick(4, 6), true, &[Deco::Rich, Deco::Cycle]);
    let small = with_weird_labels(gen::models(4, sh.pick(4, 5), true, &[Deco::Distinct, Deco::Same, Deco::Rich]));
    let disc: Vec<M> = gen::models(4, 3, false, &[Deco::Rich]).into_iter().filter(|m| !m.projective()).collect();
    let med: Vec<M> = gen::medium().iter().map(|s| gen::to_m(s, Deco::Rich)).collect();
    let large: Vec<M> = gen::large(false).iter().map(|(_, s)| gen::to_m(s, Deco::Cycle)).collect();
    let deep: Vec<M> = gen::deep().iter().map(|(_, s)| gen::to_m(s, Deco::Cycle)).collect();
    let branching6: Vec<M> = gen::shapes(6, sh.pick(4, 5), true)
        .iter()
        .chain(gen::shapes(6, 3, true).iter())
        .map(|s| gen::to_m(s, Deco::Distinct))
        .filter(|m| !has_unary(m))
        .collect();
    let mut v = vec![
        Seeds { name: "small", seeds: canonical_seeds(&small, None), edits: 0, bits: 0 },
        Seeds { name: "n5", seeds: canonical_seeds(&n5, Some(&[B::Api, B::NegraRev, B::Moved])), edits: 0, bits: 0 },
        Seeds { name: "odd contents", seeds: canonical_seeds(&gen::odd_models(4, 2, true), Some(&[B::Api, B::NegraRev])), edits: 0, bits: 0 },
        Seeds { name: "branching6", seeds: canonical_seeds(&branching6, Some(&[B::ApiRev, B::Simple])), edits: 0, bits: 0 },
        Seeds { name: "discontinuous", seeds: canonical_seeds(&disc, Some(&[B::Api, B::Negra])), edits: 0, bits: 0 },
        Seeds { name: "medium", seeds: canonical_seeds(&med, None), edits: 0, bits: 0 },
        Seeds { name: "large", seeds: canonical_seeds(&large, Some(&[B::NegraRev, B::Api, B::Holes])), edits: 0, bits: 0 },
        Seeds { name: "deep", seeds: canonical_seeds(&deep, Some(&[B::NegraRev, B::Api])), edits: 0, bits: 0 },
        Seeds {
            name: "edited",
            seeds: canonical_seeds(&gen::models(4, 3, false, &[Deco::Rich]), Some(&[B::Api, B::Moved])),
            edits: 1,
            bits: 0,
        },
    ];
    v.extend(super::m::secondary_seeds(sh, true));
    v.extend(super::m::pipelines(sh));
    if !sh.quick() {
        v.push(Seeds { name: "medium edited", seeds: canonical_seeds(&med, Some(&[B::Api, B::Holes])), edits: 1, bits: 0 });
    }
    v
}

fn run_e01(sh: &Shared) {
    sweep(sh, enc_seeds(sh), |_, _| vec![Act::Absolute]);
}
fn run_e02(sh: &Shared) {
    sweep(sh, enc_seeds(sh), |_, _| vec![Act::Relative]);
    run_conversions(sh);
}
fn run_e05(sh: &Shared) {
    let mut s = enc_seeds(sh);
    let weird: Vec<M> = gen::models(4, 2, false, &[Deco::Rich]).iter().map(weird_forms).collect();
    s.push(Seeds { name: "special characters", seeds: canonical_seeds(&weird, None), edits: 0, bits: 0 });
    let feats: Vec<M> = gen::models(3, 2, false, &[Deco::Distinct])
        .into_iter()
        .map(|m| {
            m.map_nodes(|i, n| {
                n.feats = match i % 4 {
                    0 => gen::feats(&[("a", None), ("b", Some("1"))]),
                    1 => gen::feats(&[("k", None)]),
                    2 => gen::feats(&[("z", Some("ä+~")), ("y", Some("")), ("B", Some("_"))]),
                    _ => Feats::new(),
                }
            })
        })
        .collect();
    s.push(Seeds { name: "features", seeds: canonical_seeds(&feats, None), edits: 0, bits: 0 });
    sweep(sh, s, |_, _| vec![Act::Export]);
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "E01", run: run_e01, replay: replay_as::<TCase>, what: "every bounded projective tree is encoded, compared with the definition of the labels, decoded and restored; every bounded discontinuous tree has to be refused" },
        Check { id: "E02", run: run_e02, replay: replay_e02, what: "every bounded projective tree is encoded both ways, the encodings converted into each other, annotated, printed and parsed; so is every bounded sequence of labels over counts up to 2^61" },
        Check { id: "E03", run: run_e03, replay: replay_e03, what: "every sequence of absolute and of relative labels up to a length over a range of counts is decoded; compared with an independent construction from runs" },
        Check { id: "E04", run: run_e04, replay: replay_e04, what: "files of every bounded projective tree through CoNLL-X text and back; every sentence over an alphabet of well-formed and malformed feature columns" },
        Check { id: "E05", run: run_e05, replay: replay_as::<TCase>, what: "every bounded tree is exported along all conversions; compared token by token with the model" },
    ]
}
