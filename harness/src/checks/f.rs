//! F01, F02, F05: writing and reading the file formats.

use super::{field, replay_as, Check};
use crate::build::{build, routes, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco, Sh};
use crate::model::{check_spans, extract, Id, Kind, Sec, M};
use crate::text::{
    anonymous, carry_numbered, layouts, parse_brackets, parse_negra, print_brackets, print_negra, Fmt, Layout, ANN,
    BRACKETS, FMTS,
};
use lumberjack::io::{NegraWriter, PTBLineFormat, PTBWriter};
use lumberjack::{NegraReader, PTBReader, Tree, WriteTree};

pub fn sound(t: &Tree) -> Result<M, String> {
    let y = extract(t)?;
    check_spans(t, &y)?;
    Ok(y.canon())
}

pub fn same(y: &M, want: &M, what: &str) -> Verdict {
    if y == want {
        Ok(())
    } else {
        Err(format!("{}: got\n  {}\ninstead of\n  {}", what, y.to_text(), want.to_text()))
    }
}

/// Everything a reader gives for a text; more items than lines mean that it doesn't end.
pub fn read_all(f: Fmt, multi: bool, text: &[u8]) -> Result<Vec<Result<Tree, String>>, String> {
    let cap = text.len() + 3;
    let v: Vec<Result<Tree, String>> = match f {
        Fmt::Negra => guard(|| {
            NegraReader::new(text).take(cap).map(|r| r.map_err(|e| e.to_string())).collect()
        })?,
        _ => {
            let lf = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
            guard(|| {
                PTBReader::new(text, f.real(), lf)
                    .take(cap)
                    .map(|r| r.map_err(|e| e.to_string()))
                    .collect()
            })?
        }
    };
    if v.len() >= cap {
        return Err("reading does not end".into());
    }
    Ok(v)
}

fn read_trees(f: Fmt, multi: bool, text: &str) -> Result<Vec<Tree>, String> {
    read_all(f, multi, text.as_bytes())?
        .into_iter()
        .map(|r| r.map_err(|e| format!("reading {:?}: {}", text, e)))
        .collect()
}

pub fn write_all<'a>(f: Fmt, ts: impl Iterator<Item = &'a Tree>) -> Result<String, String> {
    let mut out: Vec<u8> = Vec::new();
    match f {
        Fmt::Negra => {
            let mut w = NegraWriter::new(&mut out);
            for t in ts {
                guard(|| w.write_tree(t))?.map_err(|e| format!("writing: {}", e))?;
            }
        }
        _ => {
            let mut w = PTBWriter::new(&mut out, f.real());
            for t in ts {
                guard(|| w.write_tree(t))?.map_err(|e| format!("writing: {}", e))?;
            }
        }
    }
    String::from_utf8(out).map_err(|e| e.to_string())
}

/// The reference reading of a file of ordinary sentences.
pub fn reference_read(f: Fmt, text: &str) -> Result<Vec<M>, String> {
    let mut v = Vec::new();
    if f == Fmt::Negra {
        let mut cur: Vec<&str> = Vec::new();
        for line in text.lines() {
            if line.starts_with("#BOS") || !cur.is_empty() {
                cur.push(line);
            }
            if line.starts_with("#EOS") {
                let s = parse_negra(&cur);
                if !s.ordinary {
                    return Err(format!("unusual sentence {:?}", cur));
                }
                v.push(s.tree.ok_or_else(|| format!("no sentence: {:?}", cur))?);
                cur.clear();
            }
        }
        if !cur.is_empty() {
            return Err("unfinished sentence".into());
        }
    } else {
        for line in text.lines() {
            v.push(parse_brackets(f, line).ok_or_else(|| format!("no tree: {:?}", line))?);
        }
    }
    Ok(v)
}

// ---------------------------------------------------------------------------------------------
// round trips

/// A file with the given trees, written and read back.
struct FileCase {
    f: Fmt,
    seq: Vec<(B, M)>,
}

fn show_seq(seq: &[(B, M)]) -> String {
    seq.iter().map(|(b, m)| format!("tree {} {}\n", b.name(), m.to_text())).collect()
}
fn parse_seq(s: &str) -> Option<Vec<(B, M)>> {
    s.lines()
        .filter_map(|l| l.strip_prefix("tree "))
        .map(|l| {
            let i = l.find(' ')?;
            Some((B::parse(&l[..i])?, M::parse(&l[i + 1..])?))
        })
        .collect()
}

pub fn numbered(f: Fmt, ms: &[&M]) -> Vec<M> {
    let mut counter = 0;
    ms.iter()
        .map(|m| {
            let id = match m.nodes[&m.root].feats.get("sentence_id") {
                Some(Some(i)) => i.clone(),
                _ => {
                    counter += 1;
                    (counter - 1).to_string()
                }
            };
            // a terminal doesn't keep the identification, but passes it on
            let mut x = carry_numbered(f, m, &id);
            if f == Fmt::Negra {
                if let Some(Some(meta)) = m.nodes[&m.root].feats.get("metadata") {
                    let r = x.root;
                    x.nodes.get_mut(&r).unwrap().feats.insert("metadata".into(), Some(meta.clone()));
                }
            }
            x
        })
        .collect()
}

impl Case for FileCase {
    fn show(&self) -> String {
        format!("format {}\n{}", self.f.name(), show_seq(&self.seq))
    }
    fn parse(s: &str) -> Option<Self> {
        Some(FileCase { f: Fmt::parse(field(s, "format")?)?, seq: parse_seq(s)? })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let mut ts = Vec::new();
        for (b, m) in &self.seq {
            match build(*b, &m.canon()) {
                Ok((t, _)) => ts.push(t),
                Err(_) => {
                    // judged by T01, T02 and F03
                    l.count("seed_skipped", 1);
                    return Ok(());
                }
            }
        }
        l.count("transitions", 2 * ts.len() as u64 + 1);
        let f = self.f;
        if f != Fmt::Negra && self.seq.iter().any(|(_, m)| !m.projective()) {
            l.outcome("discontinuous");
            return refusals(f, &self.seq, &ts);
        }
        l.outcome(if f == Fmt::Negra && self.seq.iter().any(|(_, m)| !m.projective()) {
            "discontinuous written"
        } else {
            "projective written"
        });
        let want = numbered(f, &self.seq.iter().map(|(_, m)| m).collect::<Vec<_>>());
        let text = write_all(f, ts.iter())?;
        // what was written means the trees
        let meant = reference_read(f, &text).map_err(|e| format!("written {:?}: {}", text, e))?;
        if meant.len() != want.len() {
            return Err(format!("{} trees written as {} sentences", want.len(), meant.len()));
        }
        for (a, b) in meant.iter().zip(&want) {
            same(&a.canon(), b, &format!("written text {:?}", text))?;
        }
        // and is read as the trees
        let modes: &[bool] = if f == Fmt::Negra { &[false] } else { &[false, true] };
        for multi in modes {
            let rs = read_trees(f, *multi, &text)?;
            if rs.len() != want.len() {
                return Err(format!("{} trees written, {} read from {:?}", want.len(), rs.len(), text));
            }
            for (i, r) in rs.iter().enumerate() {
                same(&sound(r)?, &want[i], &format!("reading {:?}", text))?;
                if self.seq[i].1.canon() == want[i] && (*r != ts[i] || ts[i] != *r) {
                    return Err("tree read back is not equal to the tree written".into());
                }
            }
            let again = write_all(f, rs.iter())?;
            if f != Fmt::Negra && again != text {
                return Err(format!("{:?} is printed again as {:?}", text, again));
            }
            if f != Fmt::Negra {
                for (r, line) in ts.iter().zip(text.lines()) {
                    let s = guard(|| f.real().tree_to_string(r))?.map_err(|e| e.to_string())?;
                    if s != line {
                        return Err(format!("tree_to_string gives {:?}, the writer {:?}", s, line));
                    }
                }
            }
        }
        Ok(())
    }
}

fn refusals(f: Fmt, seq: &[(B, M)], ts: &[Tree]) -> Verdict {
    let mut out: Vec<u8> = Vec::new();
    {
        let mut w = PTBWriter::new(&mut out, f.real());
        for ((_, m), t) in seq.iter().zip(ts) {
            let r = guard(|| w.write_tree(t))?;
            let s = guard(|| f.real().tree_to_string(t))?;
            if r.is_ok() != m.projective() || s.is_ok() != m.projective() {
                return Err(format!("writing {} is {:?}", m.to_text(), r.is_ok()));
            }
            same(&sound(t)?, &m.canon(), "refused tree")?;
        }
    }
    // the others are written as ever
    let ok: Vec<(&M, &Tree)> = seq
        .iter()
        .zip(ts)
        .filter(|((_, m), _)| m.projective())
        .map(|((_, m), t)| (m, t))
        .collect();
    let text = String::from_utf8(out).map_err(|e| e.to_string())?;
    let want = write_all(f, ok.iter().map(|(_, t)| *t))?;
    if text != want {
        return Err(format!("with refused trees {:?} is written, without {:?}", text, want));
    }
    Ok(())
}

fn with_root(m: &M, id: Option<&str>, meta: Option<&str>) -> M {
    let mut x = m.canon();
    let r = x.root;
    let n = x.nodes.get_mut(&r).unwrap();
    if !n.is_t() {
        n.set_label("VROOT");
        n.feats.clear();
    }
    if let Some(i) = id {
        n.feats.insert("sentence_id".into(), Some(i.into()));
    }
    if let Some(i) = meta {
        n.feats.insert("metadata".into(), Some(i.into()));
    }
    x
}

/// Fields no format carries are dropped, so that comparisons are complete.
fn tidy(m: &M) -> M {
    m.map_nodes(|_, n| {
        n.feats.remove("k");
    })
}

fn run_files(sh: &Shared, phase: &'static str, cases: Vec<(Vec<Fmt>, Vec<(B, M)>)>) {
    if sh.stopped() {
        return;
    }
    sh.note(format!("phase {}: {} files", phase, cases.iter().map(|c| c.0.len()).sum::<usize>()));
    let chunk = 64;
    sh.par((cases.len() + chunk - 1) / chunk, |c, l| {
        for (fs, seq) in &cases[c * chunk..((c + 1) * chunk).min(cases.len())] {
            for f in fs {
                if l.stopped() {
                    return;
                }
                l.count("traces", 1);
                let case = FileCase { f: *f, seq: seq.clone() };
                for (_, m) in seq {
                    l.state(&m.to_text());
                }
                l.case(&case);
            }
        }
    });
}

/// Every presence of every optional field.
fn masks(m: &M, limit: usize) -> Vec<M> {
    let m = m.canon();
    let mut slots: Vec<(Id, u8)> = Vec::new();
    for (i, n) in &m.nodes {
        if n.is_t() {
            slots.push((*i, 0));
            slots.push((*i, 1));
        } else if *i != m.root {
            slots.push((*i, 2));
        }
        if *i != m.root {
            slots.push((*i, 3));
        }
    }
    if slots.len() > limit {
        return vec![];
    }
    (0..1u32 << slots.len())
        .map(|bits| {
            let mut x = m.clone();
            for (j, (i, what)) in slots.iter().enumerate() {
                let on = bits >> j & 1 == 1;
                let n = x.nodes.get_mut(i).unwrap();
                let s = if on { Some(format!("{}{}", ["l", "m", "an", "E"][*what as usize], i)) } else { None };
                match what {
                    0 => {
                        if let Kind::T { lemma, .. } = &mut n.kind {
                            *lemma = s;
                        }
                    }
                    1 | 2 => {
                        if let Some(s) = s {
                            n.feats.insert(if *what == 1 { "morph" } else { ANN }.into(), Some(s));
                        }
                    }
                    _ => n.edge = s,
                }
            }
            x
        })
        .collect()
}

/// All sets of up to `k` secondary edges that a Negra file can express.
fn secondary_sets(m: &M, k: usize) -> Vec<M> {
    let m = m.canon();
    let dsts: Vec<Id> = m.nodes.keys().cloned().filter(|i| *i != m.root).collect();
    let srcs = m.nts();
    let mut out = vec![m.clone()];
    let mut cur: Vec<(M, usize)> = vec![(m.clone(), 0)];
    for _ in 0..k {
        let mut next = Vec::new();
        for (x, from) in &cur {
            for d in *from..dsts.len() {
                for s in &srcs {
                    let mut y = x.clone();
                    let label = match (d + s) % 3 {
                        0 => None,
                        1 => Some(format!("s{}", d)),
                        _ => Some("--HD".to_string()),
                    };
                    y.sec.push(Sec { eid: 0, src: *s, dst: dsts[d], label });
                    next.push((y, d + 1));
                }
            }
        }
        out.extend(next.iter().map(|(y, _)| y.canon()));
        cur = next;
    }
    out
}

fn filler(len: usize, wide: bool, seed: usize) -> String {
    let abc: Vec<char> = if wide { "äöüßéλж".chars().collect() } else { "abcdefghijklmnopqrstuvwxyz".chars().collect() };
    (0..len).map(|i| abc[(i + seed) % abc.len()]).collect()
}

/// Fields of a fixed tree: (VROOT (A=an:e (B:e w0) w1) w2), secondary edge from A to w2 and B.
const FIELDS: [&str; 11] =
    ["form", "lemma", "tag", "morph", "tedge", "label", "ann", "nedge", "slabel", "meta", "last form"];

fn set_field(m: &mut M, i: usize, s: &str) {
    // canonical ids: 0 root, 1 A, 2 B, 3 w0, 4 w1, 5 w2
    let s = s.to_string();
    fn kind<'a>(m: &'a mut M, i: Id) -> (&'a mut String, &'a mut String, &'a mut Option<String>) {
        match &mut m.nodes.get_mut(&i).unwrap().kind {
            Kind::T { form, tag, lemma, .. } => (form, tag, lemma),
            _ => panic!("src/checks/f.rs: terminal expected"),
        }
    }
    match i {
        0 => *kind(m, 3).0 = s,
        1 => *kind(m, 3).2 = Some(s),
        2 => *kind(m, 3).1 = s,
        3 => {
            m.nodes.get_mut(&3).unwrap().feats.insert("morph".into(), Some(s));
        }
        4 => m.nodes.get_mut(&3).unwrap().edge = Some(s),
        5 => m.nodes.get_mut(&2).unwrap().set_label(&s),
        6 => {
            m.nodes.get_mut(&2).unwrap().feats.insert(ANN.into(), Some(s));
        }
        7 => m.nodes.get_mut(&2).unwrap().edge = Some(s),
        8 => {
            for e in &mut m.sec {
                e.label = Some(s.clone());
            }
        }
        9 => {
            m.nodes.get_mut(&0).unwrap().feats.insert("metadata".into(), Some(s));
        }
        _ => *kind(m, 5).0 = s,
    }
}

fn field_tree(disc: bool, sec: bool) -> M {
    let sh = if disc {
        Sh::N(vec![Sh::N(vec![Sh::N(gen::leafs(vec![0])), Sh::L(2)]), Sh::L(1)])
    } else {
        Sh::N(vec![Sh::N(vec![Sh::N(gen::leafs(vec![0])), Sh::L(1)]), Sh::L(2)])
    };
    let mut m = with_root(&gen::to_m(&sh, Deco::Distinct), Some("7"), None);
    if sec {
        m.sec.push(Sec { eid: 0, src: 1, dst: 5, label: None });
        m.sec.push(Sec { eid: 0, src: 0, dst: 2, label: None });
        m.sec.push(Sec { eid: 0, src: 2, dst: 3, label: None });
    }
    m.canon()
}

fn run_f01(sh: &Shared) {
    let neg = vec![Fmt::Negra];
    // all trees
    let decos = [Deco::Distinct, Deco::Same, Deco::Rich, Deco::Cycle];
    let small: Vec<M> = gen::models(4, sh.pick(4, 5), false, &decos).iter().map(|m| with_root(&tidy(m), None, None)).collect();
    let mut cases = Vec::new();
    for (i, m) in small.iter().enumerate() {
        let rs = routes(m);
        // all routes for the smaller ones
        let n = if m.nodes.len() <= 6 { rs.len() } else { 2 };
        for j in 0..n {
            cases.push((neg.clone(), vec![(rs[(i + j) % rs.len()], m.clone())]));
        }
    }
    run_files(sh, "all trees", cases);
    let five: Vec<M> = gen::models(5, sh.pick(3, 4), false, &[Deco::Rich])
        .iter()
        .filter(|m| m.n() == 5)
        .map(|m| with_root(&tidy(m), Some("1"), Some("x y")))
        .collect();
    run_files(
        sh,
        "five terminals",
        five.iter()
            .enumerate()
            .map(|(i, m)| {
                let rs = routes(m);
                (neg.clone(), vec![(rs[i % rs.len()], m.clone())])
            })
            .collect(),
    );
    // secondary edges
    let mut cases = Vec::new();
    for m in gen::models(3, 3, false, &[Deco::Distinct]) {
        if m.nodes[&m.root].is_t() {
            continue;
        }
        for x in secondary_sets(&with_root(&m, None, None), if m.nodes.len() <= sh.pick(4, 6) { 3 } else { 2 }) {
            cases.push((neg.clone(), vec![(B::Negra, x)]));
        }
    }
    run_files(sh, "secondary edges", cases);
    // optional fields
    let mut cases = Vec::new();
    for m in gen::models(3, 3, false, &[Deco::Distinct]) {
        for x in masks(&with_root(&m, None, None), sh.pick(11, 13)) {
            cases.push((neg.clone(), vec![(B::Api, x)]));
        }
    }
    run_files(sh, "presence of fields", cases);
    // lengths
    let mut cases = Vec::new();
    for disc in [false, true].iter() {
        for i in 0..FIELDS.len() {
            for wide in [false, true].iter() {
                for len in 1..sh.pick(48, 300) {
                    let mut m = field_tree(*disc, true);
                    set_field(&mut m, i, &filler(len, *wide, i));
                    cases.push((neg.clone(), vec![(B::Negra, m)]));
                }
            }
        }
    }
    let lens: Vec<usize> = sh.pick(
        vec![1, 2, 8, 15, 16, 17, 24, 31, 32, 33],
        vec![1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 18, 22, 23, 24, 25, 26, 30, 31, 32, 33, 34, 40, 64, 65],
    );
    for i in 0..FIELDS.len() {
        for j in i + 1..FIELDS.len() {
            for a in &lens {
                for b in &lens {
                    let mut m = field_tree(true, true);
                    set_field(&mut m, i, &filler(*a, false, i));
                    set_field(&mut m, j, &filler(*b, (a + b) % 2 == 0, j));
                    cases.push((neg.clone(), vec![(B::Negra, m)]));
                }
            }
        }
    }
    run_files(sh, "lengths of fields", cases);
    // contents
    let odd = [
        "-", "---", "--x", "%", "%%", "=", "a=b=c", "a:b", "(", ")", "a#", "0", "500", "501", "VROOT", "ä", "𝄞x", "|", "_",
        "NONE", "a%b", "\"", "\\", "#",
    ];
    let mut cases = Vec::new();
    for i in 0..FIELDS.len() {
        for s in odd.iter() {
            for j in i..FIELDS.len() {
                for r in odd.iter() {
                    let mut m = field_tree(true, true);
                    let mut ok = true;
                    for (k, s) in [(i, s), (j, r)].iter() {
                        ok &= match k {
                            // lines starting with # are nonterminals
                            0 | 10 => !s.starts_with('#'),
                            // the rest of a line after a comment sign is a comment
                            8 => !s.starts_with('%'),
                            // the delimiter of annotations
                            5 => !s.contains('='),
                            _ => true,
                        };
                        set_field(&mut m, *k, s);
                    }
                    if ok && (i != j || s == r) {
                        cases.push((neg.clone(), vec![(B::Negra, m)]));
                    }
                }
            }
        }
    }
    run_files(sh, "contents of fields", cases);
    // several trees in a file
    let ids = [None, Some("0"), Some("1"), Some("12"), Some("4294967296")];
    let metas = [None, Some("x"), Some("2 1070544990 0 %% HEADLINE"), Some("a  b")];
    let mut pool: Vec<(B, M)> = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        for (j, meta) in metas.iter().enumerate() {
            let m = field_tree(j % 2 == 1, i % 2 == 1);
            pool.push((B::NegraRev, with_anonymous(&m, *id, *meta)));
        }
    }
    let mut lone = gen::to_m(&Sh::L(0), Deco::Rich);
    pool.push((B::Api, with_root(&lone, None, None)));
    lone.nodes.get_mut(&0).unwrap().feats.insert("morph".into(), Some("nsf".into()));
    pool.push((B::Api, lone));
    let mut cases = Vec::new();
    for a in &pool {
        cases.push((neg.clone(), vec![a.clone()]));
        for b in &pool {
            cases.push((neg.clone(), vec![a.clone(), b.clone()]));
            for c in &pool {
                cases.push((neg.clone(), vec![a.clone(), b.clone(), c.clone()]));
            }
        }
    }
    cases.push((neg.clone(), (0..25).map(|_| pool[2].clone()).collect()));
    // beyond every small counter
    for n in sh.pick(vec![300], vec![300, 1100, 70_000]) {
        cases.push((neg.clone(), (0..n).map(|_| pool[0].clone()).collect()));
        if n < 2000 {
            cases.push((neg.clone(), (0..n).map(|i| pool[i % pool.len()].clone()).collect()));
        }
    }
    run_files(sh, "files of several trees", cases);
    // large trees
    let cases = gen::large(false)
        .iter()
        .chain(gen::deep().iter())
        .chain(vec![("chains40x30".to_string(), gen::chains(40, 30)), ("flat1100".to_string(), gen::flat(1100))].iter())
        .flat_map(|(_, s)| {
            let m = with_root(&tidy(&gen::to_m(s, Deco::Rich)), Some("3"), None);
            vec![(neg.clone(), vec![(B::NegraRev, m.clone())]), (neg.clone(), vec![(B::Api, m)])]
        })
        .collect();
    run_files(sh, "large trees", cases);
}

fn with_anonymous(m: &M, id: Option<&str>, meta: Option<&str>) -> M {
    with_root(&anonymous(m), id, meta)
}

fn run_f02(sh: &Shared) {
    let all = BRACKETS.to_vec();
    let decos = [Deco::Distinct, Deco::Same, Deco::Rich];
    let mut cases = Vec::new();
    for (i, m) in gen::models(5, sh.pick(4, 5), true, &decos).iter().enumerate() {
        let m = tidy(m);
        let rs = routes(&m);
        let n = if m.nodes.len() <= 6 { rs.len() } else { 1 };
        for j in 0..n {
            cases.push((all.clone(), vec![(rs[(i + j) % rs.len()], m.clone())]));
        }
    }
    run_files(sh, "projective trees", cases);
    // refusals, alone and between others
    let ok = field_tree(false, false);
    let mut cases = Vec::new();
    for (i, m) in gen::models(sh.pick(4, 5), 4, false, &[Deco::Distinct]).into_iter().enumerate() {
        if m.projective() {
            continue;
        }
        let rs = routes(&m);
        for b in &rs {
            cases.push((all.clone(), vec![(*b, m.clone())]));
        }
        cases.push((all.clone(), vec![(B::Simple, ok.clone()), (rs[i % rs.len()], m), (B::Simple, ok.clone())]));
    }
    run_files(sh, "discontinuous trees", cases);
    // optional fields
    let mut cases = Vec::new();
    for m in gen::models(3, 3, true, &[Deco::Distinct]) {
        for x in masks(&m, sh.pick(11, 13)) {
            cases.push((all.clone(), vec![(B::Api, x)]));
        }
    }
    run_files(sh, "presence of fields", cases);
    // every short string as tag, label, annotation, edge and form
    let abc = ['a', '-', ':', '=', 'N'];
    let mut strs: Vec<String> = Vec::new();
    let mut layer = vec![String::new()];
    for _ in 0..sh.pick(3, 4) {
        layer = layer.iter().flat_map(|s| abc.iter().map(move |c| format!("{}{}", s, c))).collect();
        strs.extend(layer.iter().cloned());
    }
    for s in ["-NONE-", "-LRB-", "-RRB-", "NP-SBJ-1", "NP=2", "PRP$", "``", "''", "$(", "(", ")", "((", "%", "#", "ä", "--"].iter() {
        strs.push((*s).to_string());
    }
    let carriable = |f: Fmt, k: usize, s: &str| match (f, k) {
        // labels: the delimiter of annotations ends them
        (Fmt::Ptb, 5) => !s.contains('-') && !s.contains('(') && !s.contains(')'),
        (Fmt::Tueba, 5) => !s.contains('=') && !s.contains('(') && !s.contains(')'),
        (_, 5) | (Fmt::Ptb, 6) | (Fmt::Tueba, 6) => !s.contains('(') && !s.contains(')'),
        // edge labels: the delimiter of edge labels, and the sign for their absence
        (Fmt::Tueba, 4) | (Fmt::Tueba, 7) => !s.contains(':') && s != "--" && !s.contains('(') && !s.contains(')'),
        _ => true,
    };
    let mut cases = Vec::new();
    for k in [0, 2, 4, 5, 6, 7, 10].iter() {
        for s in &strs {
            let mut m = field_tree(false, false);
            set_field(&mut m, *k, s);
            let fs: Vec<Fmt> = BRACKETS.iter().cloned().filter(|f| carriable(*f, *k, s)).collect();
            cases.push((fs, vec![(B::Negra, m)]));
        }
    }
    let few: Vec<&String> = strs.iter().filter(|s| s.chars().count() <= 2 || s.len() > 3).collect();
    for k in [0, 2, 4, 5, 6, 7].iter() {
        for j in [2, 4, 5, 6, 7].iter().filter(|j| *j > k) {
            for s in &few {
                for r in &few {
                    let mut m = field_tree(false, false);
                    set_field(&mut m, *k, s);
                    set_field(&mut m, *j, r);
                    let fs: Vec<Fmt> = BRACKETS
                        .iter()
                        .cloned()
                        .filter(|f| carriable(*f, *k, s) && carriable(*f, *j, r))
                        .collect();
                    cases.push((fs, vec![(B::Negra, m)]));
                }
            }
        }
    }
    // labels and tags that are empty, where an annotation or edge label makes them writable
    for (empty, k, fs) in [(5, 6, vec![Fmt::Ptb, Fmt::Tueba]), (5, 7, vec![Fmt::Tueba]), (2, 4, vec![Fmt::Tueba])].iter() {
        for s in strs.iter().chain([String::new()].iter()) {
            let mut m = field_tree(false, false);
            set_field(&mut m, *empty, "");
            set_field(&mut m, *k, s);
            let fs: Vec<Fmt> = fs.iter().cloned().filter(|f| carriable(*f, *k, s)).collect();
            cases.push((fs, vec![(B::Api, m)]));
        }
    }
    run_files(sh, "contents of fields", cases);
    // empty annotations and edges
    let mut cases = Vec::new();
    for k in [6, 7, 4].iter() {
        let mut m = field_tree(false, false);
        set_field(&mut m, *k, "");
        cases.push((all.clone(), vec![(B::Negra, m)]));
    }
    // several trees
    let pool: Vec<(B, M)> = vec![
        (B::Simple, ok.clone()),
        (B::TueBa, tidy(&gen::to_m(&gen::mixed(5), Deco::Rich))),
        (B::Api, gen::to_m(&Sh::L(0), Deco::Distinct)),
        (B::Api, field_tree(true, false)),
        (B::Top, gen::to_m(&gen::chains(2, 2), Deco::Same)),
    ];
    for a in &pool {
        for b in &pool {
            cases.push((all.clone(), vec![a.clone(), b.clone()]));
            for c in &pool {
                cases.push((all.clone(), vec![a.clone(), b.clone(), c.clone()]));
            }
        }
    }
    for n in sh.pick(vec![300], vec![300, 1100, 10_000]) {
        let long: Vec<(B, M)> = (0..n).map(|i| pool[i % pool.len()].clone()).collect();
        cases.push((all.clone(), long));
    }
    run_files(sh, "files of several trees", cases);
    let cases = gen::large(true)
        .iter()
        .chain(gen::deep().iter())
        .flat_map(|(_, s)| {
            let m = tidy(&gen::to_m(s, Deco::Rich));
            vec![(all.clone(), vec![(B::NegraRev, m.clone())]), (all.clone(), vec![(B::Api, m)])]
        })
        .collect();
    run_files(sh, "large trees", cases);
    let cases = gen::large(false)
        .iter()
        .map(|(_, s)| (all.clone(), vec![(B::NegraRev, tidy(&gen::to_m(s, Deco::Rich)))]))
        .collect();
    run_files(sh, "large discontinuous trees", cases);
}

// ---------------------------------------------------------------------------------------------
// F05

/// A tree, printed by the reference printer in the first format, read, and converted onwards.
struct ChainCase {
    m: M,
    fs: Vec<Fmt>,
    style: u8,
    lay: Layout,
}

impl Case for ChainCase {
    fn show(&self) -> String {
        format!(
            "tree {}\nformats {}\nstyle {}\nlayout {}",
            self.m.to_text(),
            self.fs.iter().map(|f| f.name()).collect::<Vec<_>>().join(" "),
            self.style,
            self.lay.code()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        Some(ChainCase {
            m: M::parse(field(s, "tree")?)?,
            fs: field(s, "formats")?.split(' ').map(Fmt::parse).collect::<Option<Vec<_>>>()?,
            style: field(s, "style")?.parse().ok()?,
            lay: Layout::parse(field(s, "layout")?)?,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let mut want = self.m.canon();
        let f0 = self.fs[0];
        let text = match f0 {
            Fmt::Negra => print_negra(&want, "5", self.lay),
            f => print_brackets(f, &want, self.style),
        };
        l.count("transitions", self.fs.len() as u64);
        let rs = read_trees(f0, true, &text)?;
        if rs.len() != 1 {
            return Err(format!("{} trees read from {:?}", rs.len(), text));
        }
        let mut t = rs.into_iter().next().unwrap();
        want = carry_numbered(f0, &want, "5");
        same(&sound(&t)?, &want, &format!("reading {:?}", text))?;
        if f0 != Fmt::Negra {
            let u = guard(|| f0.real().string_to_tree(&text))?.map_err(|e| e.to_string())?;
            same(&sound(&u)?, &want, &format!("string_to_tree of {:?}", text))?;
        }
        for f in &self.fs[1..] {
            let text = write_all(*f, Some(&t).into_iter())?;
            let rs = read_trees(*f, false, &text)?;
            if rs.len() != 1 {
                return Err(format!("{} trees read from {:?}", rs.len(), text));
            }
            t = rs.into_iter().next().unwrap();
            want = numbered(*f, &[&want]).remove(0);
            same(&sound(&t)?, &want, &format!("converting to {}: {:?}", f.name(), text))?;
        }
        Ok(())
    }
}

fn run_f05(sh: &Shared) {
    let chains = |m: &M, depth: usize| -> Vec<Vec<Fmt>> {
        let mut out: Vec<Vec<Fmt>> = Vec::new();
        let mut layer: Vec<Vec<Fmt>> = vec![vec![]];
        for d in 0..depth {
            layer = layer
                .iter()
                .flat_map(|c| {
                    FMTS.iter()
                        .filter(|f| m.projective() || **f == Fmt::Negra)
                        .filter(|f| d > 0 || **f != Fmt::Negra || !m.nodes[&m.root].is_t())
                        .map(move |f| {
                            let mut c = c.clone();
                            c.push(*f);
                            c
                        })
                })
                .collect();
            out.extend(layer.iter().cloned());
        }
        out
    };
    let go = |phase: &str, ms: &[M], depth: usize, lays: &[Layout]| {
        if sh.stopped() {
            return;
        }
        sh.note(format!("phase {}: {} trees, all chains of up to {} formats, {} layouts", phase, ms.len(), depth, lays.len()));
        sh.par(ms.len(), |i, l| {
            let m = &ms[i];
            l.state(&m.to_text());
            for fs in chains(m, depth) {
                let one = fs.len() == 1;
                for (k, lay) in lays.iter().enumerate() {
                    if l.stopped() {
                        return;
                    }
                    // longer chains start from one layout each
                    if !one && k != i % lays.len() {
                        continue;
                    }
                    if fs[0] != Fmt::Negra && one && k > 3 {
                        continue;
                    }
                    let style = (if one { k } else { i }) as u8 % 4;
                    l.count("traces", 1);
                    l.case(&ChainCase { m: m.clone(), fs: fs.clone(), style, lay: *lay });
                }
            }
        });
    };
    let lays = layouts();
    let named = |m: &M| with_root(&tidy(m), None, Some("x"));
    let small: Vec<M> = gen::models(4, 4, true, &[Deco::Rich, Deco::Same]).iter().map(|m| tidy(m)).collect();
    go("projective trees", &small, 3, &lays);
    let five: Vec<M> = gen::models(5, sh.pick(4, 5), true, &[Deco::Rich])
        .iter()
        .filter(|m| m.n() == 5)
        .map(|m| tidy(m))
        .collect();
    go("five terminals", &five, sh.pick(2, 3), &lays[..6]);
    let disc: Vec<M> = gen::models(4, sh.pick(4, 5), false, &[Deco::Rich])
        .iter()
        .filter(|m| !m.projective())
        .map(|m| named(m))
        .collect();
    go("discontinuous trees", &disc, 2, &lays);
    let mut secs = Vec::new();
    for m in gen::models(3, 3, false, &[Deco::Distinct]) {
        if !m.nodes[&m.root].is_t() {
            secs.extend(secondary_sets(&named(&m), 2));
        }
    }
    go("secondary edges", &secs, 2, &lays[..5]);
    let mut odd = Vec::new();
    for k in 0..FIELDS.len() {
        for s in ["a=b", "a-b", "-a-", "a:b", "(", "--x", "%x", "ä", "500", ":", "="].iter() {
            let ok = match k {
                5 => !s.contains('=') && !s.contains('-') && !s.contains('('),
                6 => !s.contains('('),
                4 | 7 => !s.contains(':') && !s.contains('('),
                8 => !s.starts_with('%'),
                _ => true,
            };
            if ok {
                let mut m = field_tree(false, true);
                set_field(&mut m, k, s);
                odd.push(m);
            }
        }
    }
    go("contents", &odd, 4, &lays);
    let large: Vec<M> = gen::large(false).iter().map(|(_, s)| tidy(&gen::to_m(s, Deco::Rich))).collect();
    go("large trees", &large, 2, &lays[..4]);
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "F01",
            run: run_f01,
            replay: replay_as::<FileCase>,
            what: "trees written to Negra files by the real writer, parsed by a reference parser and by the real reader; both have to give the trees written",
        },
        Check {
            id: "F02",
            run: run_f02,
            replay: replay_as::<FileCase>,
            what: "trees written in all bracketed formats by the real writer, parsed by a reference parser and by the real reader in both line formats; printed again they have to be identical; discontinuous trees have to be refused",
        },
        Check {
            id: "F05",
            run: run_f05,
            replay: replay_as::<ChainCase>,
            what: "trees printed by a reference printer in every layout, read by the real reader and converted along every chain of formats; each step has to give what the formats so far can carry",
        },
    ]
}
