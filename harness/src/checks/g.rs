//! F03, F04, F06, F07: arbitrary input, framing, transfer faults, feature sets.

use super::f::{read_all, same, sound, write_all};
use super::{field, replay_as, Check};
use crate::build::{build, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco, Sh};
use crate::model::{quote, unquote, Feats, Kind, Sec, M};
use crate::text::{bracket_tokens, parse_brackets, parse_negra, print_brackets, print_negra, Fmt, Layout, BRACKETS};
use conllx::io::Writer as ConllxWriter;
use lumberjack::io::{NegraWriter, PTBLineFormat, PTBWriter};
use lumberjack::util::LabelSet;
use lumberjack::{Features, NegraReader, PTBReader, Tree, WriteTree};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::{self, BufReader, Read, Write};
use std::rc::Rc;

const PLAIN: Layout = Layout { sep: 0, comment: false, order: 0, ids: 0 };

// ---------------------------------------------------------------------------------------------
// F03

/// An arbitrary text given to the readers.
struct TextCase {
    f: Fmt,
    text: String,
}

impl Case for TextCase {
    fn show(&self) -> String {
        format!("format {}\ntext {}", self.f.name(), quote(&self.text))
    }
    fn parse(s: &str) -> Option<Self> {
        Some(TextCase { f: Fmt::parse(field(s, "format")?)?, text: unquote(field(s, "text")?)? })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        match self.f {
            Fmt::Negra => judge_negra_text(&self.text, l),
            f => judge_bracket_text(f, &self.text, l),
        }
    }
}

/// Bracketed text nested `deep` levels, read on a stack of the usual size of a main thread. Reading it
/// can end the process, so it is only executed in a process of its own (`PROBES`).
fn deep_text(deep: usize, l: &mut Local) -> Option<Verdict> {
    let text = format!("{}(P t){}\n", "(A ".repeat(deep), ")".repeat(deep));
    l.count("cases", 1);
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || read_all(Fmt::Simple, false, text.as_bytes()).map(|v| v.len()))
        .ok()?
        .join()
        .ok()?;
    Some(match r {
        Ok(1) => Ok(()),
        Ok(n) => Err(format!("{} items", n)),
        Err(e) => Err(e),
    })
}

fn replay_f03(s: &str, l: &mut Local) -> Option<Verdict> {
    match field(s, "deep") {
        Some(d) => deep_text(d.parse().ok()?, l),
        None => replay_as::<TextCase>(s, l),
    }
}

type Items = Vec<Result<M, String>>;

fn items(f: Fmt, multi: bool, text: &[u8]) -> Result<Items, String> {
    read_all(f, multi, text)?
        .into_iter()
        .map(|r| match r {
            Ok(t) => sound(&t).map(Ok),
            Err(e) => Ok(Err(e)),
        })
        .collect()
}

fn judge_negra_text(text: &str, l: &mut Local) -> Verdict {
    let got = items(Fmt::Negra, false, text.as_bytes())?;
    let lines: Vec<&str> = text.lines().map(str::trim).collect();
    // frames: a start marker up to the next marker, if that is an end marker
    let mut frames: Vec<Vec<&str>> = Vec::new();
    let mut clean: Vec<M> = Vec::new();
    let mut bad = false;
    let mut cur: Option<Vec<&str>> = None;
    let mut all: Vec<M> = Vec::new();
    for line in &lines {
        if line.starts_with("#BOS") {
            bad |= cur.is_some();
            cur = Some(vec![line]);
        } else if line.starts_with("#EOS") {
            match cur.take() {
                Some(mut f) => {
                    f.push(line);
                    let s = parse_negra(&f);
                    match s.tree {
                        Some(m) => {
                            if s.ordinary && !bad {
                                clean.push(m.clone());
                            } else if !bad {
                                // may be refused; what follows is not judged exactly
                                l.outcome("unusual sentence");
                                bad = got.iter().any(Result::is_err);
                                if !bad {
                                    clean.push(m.clone());
                                }
                            }
                            all.push(m);
                        }
                        None => bad = true,
                    }
                    frames.push(f);
                }
                None => bad = true,
            }
        } else if let Some(f) = cur.as_mut() {
            f.push(line);
        }
    }
    bad |= cur.is_some();
    l.outcome(match (bad, clean.len()) {
        (true, 0) => "malformed",
        (true, _) => "malformed after trees",
        (false, 0) => "no sentence",
        (false, _) => "trees",
    });
    for (i, m) in clean.iter().enumerate() {
        match got.get(i) {
            Some(Ok(g)) => same(g, m, &format!("sentence {}", i))?,
            Some(Err(e)) => return Err(format!("sentence {} describes {} but: {}", i, m.to_text(), e)),
            None => return Err(format!("sentence {} describes {} but is not read", i, m.to_text())),
        }
    }
    // every tree is described somewhere, in this order
    let mut at = 0;
    for g in got.iter().filter_map(|r| r.as_ref().ok()) {
        match all[at..].iter().position(|m| m == g) {
            Some(k) => at += k + 1,
            None => return Err(format!("tree {} is not described by the text", g.to_text())),
        }
    }
    let errs = got.iter().filter(|r| r.is_err()).count();
    if bad && errs == 0 {
        return Err("malformed sentence without an error".into());
    }
    if !bad && (errs > 0 || got.len() != clean.len()) {
        return Err(format!("{} items for {} sentences", got.len(), clean.len()));
    }
    Ok(())
}

/// Labels whose parts every reading agrees on.
fn plain_label(f: Fmt, s: &str, nt: bool) -> bool {
    let parts: Vec<&str> = match (f, nt) {
        (Fmt::Ptb, true) => s.splitn(2, '-').collect(),
        (Fmt::Tueba, _) => {
            if s.matches(':').count() > 1 || s.matches('=').count() > nt as usize {
                return false;
            }
            if let (Some(a), Some(b)) = (s.find('='), s.find(':')) {
                if b < a {
                    return false;
                }
            }
            s.split(|c| c == ':' || c == '=').collect()
        }
        _ => vec![s],
    };
    parts.iter().all(|p| !p.is_empty())
}

/// Compare as far as the labels are plain.
fn same_tree(f: Fmt, text: &str, got: &M, want: &M, what: &str) -> Verdict {
    let toks: Vec<&str> = text.split(|c| " ()\n\r".contains(c)).filter(|s| !s.is_empty()).collect();
    if toks.iter().all(|t| plain_label(f, t, true) && plain_label(f, t, false)) {
        same(got, &want.canon(), what)
    } else {
        let blur = |m: &M| {
            m.map_nodes(|_, n| {
                n.feats.clear();
                n.edge = None;
                n.set_label("");
            })
            .canon()
        };
        same(&blur(got), &blur(want), what)
    }
}

fn judge_bracket_text(f: Fmt, text: &str, l: &mut Local) -> Verdict {
    let want = parse_brackets(f, text);
    l.outcome(if want.is_some() { "tree" } else { "no tree" });
    let r = guard(|| f.real().string_to_tree(text))?;
    match (r, &want) {
        (Ok(t), Some(m)) => same_tree(f, text, &sound(&t)?, m, "string_to_tree")?,
        (Ok(t), None) => {
            return Err(format!("not one tree, but string_to_tree gives {}", sound(&t)?.to_text()))
        }
        (Err(e), Some(m)) => return Err(format!("describes {} but string_to_tree: {}", m.to_text(), e)),
        (Err(_), None) => (),
    }
    let has_lone_cr = text.replace("\r\n", "\n").contains('\r');
    // one tree per line
    let got = items(f, false, text.as_bytes())?;
    let mut it = got.into_iter().peekable();
    for line in text.lines() {
        if line.starts_with('%') {
            continue;
        }
        if line.trim().is_empty() {
            if let Some(Err(_)) = it.peek() {
                it.next();
            }
            continue;
        }
        match (it.next(), parse_brackets(f, line)) {
            (Some(Ok(g)), Some(m)) => same_tree(f, line, &g, &m, "line")?,
            (Some(Err(_)), None) => (),
            (g, m) => {
                return Err(format!(
                    "line {:?} is read as {:?} instead of {:?}",
                    line,
                    g.map(|r| r.map(|m| m.to_text())),
                    m.map(|m| m.to_text())
                ))
            }
        }
    }
    if it.next().is_some() {
        return Err("more items than lines".into());
    }
    if has_lone_cr {
        return Ok(());
    }
    // trees over several lines, as far as their ends are certain
    let mut want: Vec<Option<M>> = Vec::new();
    let mut certain = true;
    let mut lenient = false;
    let mut frame = String::new();
    let mut depth = 0i64;
    'lines: for line in text.lines() {
        if frame.is_empty() && (line.starts_with('%') || line.trim().is_empty()) {
            continue;
        }
        if line.starts_with('%') {
            // a comment or a tag
            lenient = true;
            break;
        }
        for c in line.chars() {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                _ => (),
            }
            if depth < 0 {
                certain = false;
                break 'lines;
            }
        }
        if !frame.is_empty() {
            frame.push('\n');
        }
        frame.push_str(line);
        if depth == 0 {
            want.push(parse_brackets(f, &frame));
            frame.clear();
        }
    }
    if !frame.is_empty() {
        certain = false;
    }
    let got = items(f, true, text.as_bytes())?;
    for (i, w) in want.iter().enumerate() {
        match (got.get(i), w) {
            (Some(Ok(g)), Some(m)) => same_tree(f, text, g, m, "multi-line tree")?,
            (Some(Err(_)), None) => (),
            (g, m) => {
                return Err(format!(
                    "multi-line tree {} is read as {:?} instead of {:?}",
                    i,
                    g.map(|r| r.as_ref().map(|m| m.to_text())),
                    m.as_ref().map(|m| m.to_text())
                ))
            }
        }
    }
    if lenient {
        return Ok(());
    }
    if certain && got.len() != want.len() {
        return Err(format!("{} items for {} multi-line trees", got.len(), want.len()));
    }
    if !certain && !got[want.len()..].iter().any(Result::is_err) {
        return Err("malformed multi-line tree without an error".into());
    }
    Ok(())
}

/// All sequences of up to `n` of the given pieces, joined.
fn sequences(sh: &Shared, phase: &str, fs: &[Fmt], pieces: &[&str], n: usize, around: (&str, &str)) {
    if sh.stopped() {
        return;
    }
    let k = pieces.len();
    sh.note(format!("phase {}: all sequences of up to {} of {:?} between {:?}", phase, n, pieces, around));
    // split by the first pieces
    let pre = n.min(if n > 4 { 3 } else { 1 });
    let total: usize = k.pow(pre as u32);
    let run = |seq: &[usize], l: &mut Local| {
        let mut text = around.0.to_string();
        for s in seq {
            text.push_str(pieces[*s]);
        }
        text.push_str(around.1);
        l.state(&text);
        for f in fs {
            l.count("transitions", seq.len() as u64 + 1);
            l.case(&TextCase { f: *f, text: text.clone() });
        }
    };
    sh.par(total + 1, |i, l| {
        if i == total {
            // the shorter ones
            let mut stack = vec![vec![]];
            while let Some(s) = stack.pop() {
                if l.stopped() {
                    return;
                }
                run(&s, l);
                if s.len() + 1 < pre {
                    for p in 0..k {
                        let mut t = s.clone();
                        t.push(p);
                        stack.push(t);
                    }
                }
            }
            return;
        }
        let mut first = Vec::new();
        let mut x = i;
        for _ in 0..pre {
            first.push(x % k);
            x /= k;
        }
        let mut stack = vec![first];
        while let Some(s) = stack.pop() {
            if l.stopped() {
                return;
            }
            run(&s, l);
            if s.len() < n {
                for p in 0..k {
                    let mut t = s.clone();
                    t.push(p);
                    stack.push(t);
                }
            }
        }
    });
}

/// Every single change of the lines and fields of a Negra sentence.
fn negra_mutants(lines: &[Vec<String>]) -> Vec<Vec<Vec<String>>> {
    let mut v = Vec::new();
    let n = lines.len();
    for i in 0..n {
        let mut x = lines.to_vec();
        x.remove(i);
        v.push(x);
        for j in 0..=n {
            let mut x = lines.to_vec();
            x.insert(j, lines[i].clone());
            v.push(x);
        }
        for j in i + 1..n {
            let mut x = lines.to_vec();
            x.swap(i, j);
            v.push(x);
        }
        for f in 0..lines[i].len() {
            let mut x = lines.to_vec();
            x[i].remove(f);
            v.push(x);
            let mut x = lines.to_vec();
            x[i].truncate(f);
            v.push(x);
            let mut x = lines.to_vec();
            x[i].insert(f, "x".into());
            v.push(x);
            for val in ["0", "1", "2", "500", "501", "502", "999", "x", "-1", "#", "#500", "#501", "#0", "#x", "#BOS", "#EOS", "%%", "--", "99999999999999999999"]
                .iter()
            {
                if lines[i][f] != *val {
                    let mut x = lines.to_vec();
                    x[i][f] = val.to_string();
                    v.push(x);
                }
            }
        }
        let mut x = lines.to_vec();
        x[i].push("s".into());
        x[i].push("500".into());
        v.push(x.clone());
        x[i].pop();
        v.push(x);
        let mut x = lines.to_vec();
        x[i].push("%".into());
        v.push(x);
    }
    v
}

fn join(lines: &[Vec<String>]) -> String {
    lines.iter().map(|l| l.join(" ") + "\n").collect()
}

fn negra_bases(n: usize, k: usize) -> Vec<Vec<Vec<String>>> {
    let mut v = Vec::new();
    for m in gen::models(n, k, false, &[Deco::Rich]) {
        if m.nodes[&m.root].is_t() {
            continue;
        }
        let mut m = m.canon();
        if m.nodes.len() > 3 {
            m.sec.push(Sec { eid: 0, src: m.nts()[m.nts().len() - 1], dst: m.terms()[0], label: Some("s".into()) });
        }
        v.push(
            print_negra(&m, "1", PLAIN)
                .lines()
                .map(|l| l.split_whitespace().map(ToOwned::to_owned).collect())
                .collect(),
        );
    }
    v
}

fn run_f03(sh: &Shared) {
    let neg = [Fmt::Negra];
    // bodies of a sentence
    let body = [
        "w -- T -- -- 0\n",
        "w -- T -- -- 500\n",
        "v -- T -- -- 501\n",
        "#500 -- A -- -- 0\n",
        "#500 -- A -- -- 501\n",
        "#500 -- A -- -- 500\n",
        "#501 -- B -- -- 0\n",
        "#501 -- B -- -- 500\n",
        "#0 -- R -- -- 0\n",
        "w -- T -- --\n",
        "w -- T -- -- 0 s 500\n",
    ];
    sequences(sh, "Negra sentences", &neg, &body, sh.pick(6, 7), ("#BOS 1\n", "#EOS 1\n"));
    sequences(sh, "Negra sentences with one terminal line before", &neg, &body[1..8], sh.pick(6, 8), ("#BOS 1\nu -- T -- -- 500\n", "#EOS 1\n"));
    // framing
    let framing = [
        "#BOS 1\n",
        "#BOS 2\n",
        "#EOS 1\n",
        "#EOS 2\n",
        "#BOS\n",
        "#EOS\n",
        "w -- T -- -- 0\n",
        "v -- T -- -- 500\n",
        "#500 -- A -- -- 0\n",
        "foo x\n",
        "\n",
    ];
    sequences(sh, "Negra framing", &neg, &framing, sh.pick(6, 7), ("", ""));
    // loose tokens
    let tokens = ["#BOS", "#EOS", " 1", "\n", "w -- T -- -- 0\n", "#500", " --", "0"];
    sequences(sh, "Negra tokens", &neg, &tokens, sh.pick(6, 8), ("", ""));
    let tail = [" w", " --", " 0", " 500", "\n", "#500", "%"];
    sequences(sh, "Negra fields", &neg, &tail, sh.pick(7, 8), ("#BOS 1\nw -- T --", "\n#EOS 1\n"));
    // changed sentences
    let bases = negra_bases(sh.pick(3, 4), 3);
    sh.note(format!("phase changed sentences: all single changes of lines and fields of {} sentences", bases.len()));
    sh.par(bases.len(), |i, l| {
        for x in negra_mutants(&bases[i]) {
            if l.stopped() {
                return;
            }
            l.count("transitions", 1);
            let text = join(&x);
            l.state(&text);
            l.case(&TextCase { f: Fmt::Negra, text: text.clone() });
            // followed by another sentence
            l.case(&TextCase { f: Fmt::Negra, text: format!("{}#BOS 9\nz -- Z -- -- 0\n#EOS 9\n", text) });
        }
    });
    let bases = negra_bases(2, sh.pick(2, 3));
    let mut firsts = Vec::new();
    for b in &bases {
        firsts.extend(negra_mutants(b));
    }
    sh.note(format!("phase twice changed sentences: all pairs of changes of {} sentences", bases.len()));
    sh.par(firsts.len(), |i, l| {
        for x in negra_mutants(&firsts[i]) {
            if l.stopped() {
                return;
            }
            l.count("transitions", 2);
            let text = join(&x);
            l.case(&TextCase { f: Fmt::Negra, text });
        }
    });
    // every permutation of the lines
    let bases = negra_bases(3, sh.pick(3, 4));
    sh.note(format!("phase order of lines: all permutations of {} sentences", bases.len()));
    sh.par(bases.len(), |i, l| {
        let b = &bases[i];
        let inner = b.len() - 2;
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for j in 0..inner {
            perms = perms
                .iter()
                .flat_map(|p| {
                    (0..=p.len()).map(move |at| {
                        let mut q = p.clone();
                        q.insert(at, j);
                        q
                    })
                })
                .collect();
        }
        for p in perms {
            if l.stopped() {
                return;
            }
            let mut x = vec![b[0].clone()];
            x.extend(p.iter().map(|j| b[j + 1].clone()));
            x.push(b[b.len() - 1].clone());
            l.count("transitions", 1);
            l.case(&TextCase { f: Fmt::Negra, text: join(&x) });
        }
    });
    // brackets
    sequences(sh, "brackets", &BRACKETS, &["(", ")", "a", " "], sh.pick(10, 12), ("", ""));
    sequences(sh, "brackets over lines", &BRACKETS, &["(", ")", "a", " ", "\n"], sh.pick(8, 9), ("", ""));
    sequences(sh, "labels", &BRACKETS, &["(", ")", "a", ":", "=", "-", " "], sh.pick(5, 7), ("(a", " (b c))"));
    sequences(sh, "tags", &BRACKETS, &["a", ":", "=", "-", "%", "\r\n"], sh.pick(5, 7), ("(x (", " c))"));
    sequences(
        sh,
        "bracket tokens",
        &BRACKETS,
        &["(A ", "( ", ") ", "w ", "(T w)", "\n", "%\n"],
        sh.pick(7, 8),
        ("", ""),
    );
    sequences(sh, "files of trees", &BRACKETS, &["(A (T w))", "(B (T v)\n(S u))", "\n", "(", ")", "%", "\r\n"], sh.pick(6, 7), ("", ""));
}

// ---------------------------------------------------------------------------------------------
// F04

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    /// well formed
    Sent(String),
    /// malformed
    Bad(String),
    Fill(String),
}

/// A file of pieces, possibly cut.
struct FileCase {
    f: Fmt,
    multi: bool,
    pieces: Vec<Piece>,
    crlf: bool,
    final_nl: bool,
    cut: Option<usize>,
}

impl FileCase {
    fn tree(&self, s: &str) -> Result<M, String> {
        match self.f {
            Fmt::Negra => parse_negra(&s.lines().collect::<Vec<_>>()).tree,
            f => parse_brackets(f, s),
        }
        .map(|m| m.canon())
        .ok_or_else(|| format!("src/checks/g.rs: bad piece {:?}", s))
    }
}

impl Case for FileCase {
    fn show(&self) -> String {
        let mut s = format!(
            "format {}\nmulti {}\ncrlf {}\nnewline {}\n",
            self.f.name(),
            self.multi,
            self.crlf,
            self.final_nl
        );
        if let Some(c) = self.cut {
            s.push_str(&format!("cut {}\n", c));
        }
        for p in &self.pieces {
            s.push_str(&match p {
                Piece::Sent(t) => format!("piece sentence {}\n", quote(t)),
                Piece::Bad(t) => format!("piece malformed {}\n", quote(t)),
                Piece::Fill(t) => format!("piece filler {}\n", quote(t)),
            });
        }
        s
    }
    fn parse(s: &str) -> Option<Self> {
        let pieces = s
            .lines()
            .filter_map(|l| l.strip_prefix("piece "))
            .map(|l| {
                let i = l.find(' ')?;
                let t = unquote(&l[i + 1..])?;
                Some(match &l[..i] {
                    "sentence" => Piece::Sent(t),
                    "malformed" => Piece::Bad(t),
                    _ => Piece::Fill(t),
                })
            })
            .collect::<Option<Vec<_>>>()?;
        Some(FileCase {
            f: Fmt::parse(field(s, "format")?)?,
            multi: field(s, "multi")? == "true",
            crlf: field(s, "crlf")? == "true",
            final_nl: field(s, "newline")? == "true",
            cut: field(s, "cut").and_then(|c| c.parse().ok()),
            pieces,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut text = String::new();
        // (start, end of its last visible character)
        let mut spans = Vec::new();
        for (i, p) in self.pieces.iter().enumerate() {
            let t = match p {
                Piece::Sent(t) | Piece::Bad(t) | Piece::Fill(t) => t,
            };
            let t = t.trim_end_matches('\n').replace('\n', nl);
            let start = text.len();
            text.push_str(&t);
            spans.push((start, text.trim_end().len().max(start)));
            if i + 1 < self.pieces.len() || self.final_nl {
                text.push_str(nl);
            }
        }
        l.count("transitions", self.pieces.len() as u64);
        let bytes = &text.as_bytes()[..self.cut.unwrap_or_else(|| text.len()).min(text.len())];
        let got = items(self.f, self.multi, bytes)?;
        let show = || {
            got.iter()
                .map(|r| r.as_ref().map(|m| m.to_text()).unwrap_or_else(|e| format!("error {}", e)))
                .collect::<Vec<_>>()
                .join("; ")
        };
        let mut at = 0;
        let mut failed = false;
        for (p, (start, end)) in self.pieces.iter().zip(&spans) {
            if *start >= bytes.len() {
                break;
            }
            let whole = *end <= bytes.len();
            match p {
                Piece::Fill(_) => (),
                Piece::Sent(s) if whole => {
                    let want = self.tree(s)?;
                    if self.f == Fmt::Negra && failed {
                        // what follows a malformed sentence is only required not to be wrong
                        continue;
                    }
                    match got.get(at) {
                        Some(Ok(g)) => same(g, &want, &format!("item {}", at))?,
                        _ => return Err(format!("item {} should be {}, got: {}", at, want.to_text(), show())),
                    }
                    at += 1;
                }
                _ => {
                    // malformed or cut off
                    let ambiguous = !whole
                        && match self.f {
                            // not even the marker is complete
                            Fmt::Negra => bytes.len() - start < 4,
                            _ => bytes[*start..].iter().all(u8::is_ascii_whitespace),
                        };
                    if ambiguous {
                        continue;
                    }
                    if self.f == Fmt::Negra && failed {
                        continue;
                    }
                    failed = true;
                    match got.get(at) {
                        Some(Err(_)) => at += 1,
                        _ => {
                            return Err(format!(
                                "item {} should be an error ({}), got: {}",
                                at,
                                if whole { "malformed" } else { "cut off" },
                                show()
                            ))
                        }
                    }
                }
            }
        }
        l.outcome(match (failed, self.cut.is_some()) {
            (true, true) => "cut inside of a sentence",
            (false, true) => "cut between sentences",
            (true, false) => "with malformed sentences",
            (false, false) => "well formed",
        });
        if self.f == Fmt::Negra && failed {
            // all other sentences are delivered in order; one that directly follows a sentence that breaks
            // off without a malformed line may be taken for a part of it
            let trees: Vec<&M> = got.iter().filter_map(|r| r.as_ref().ok()).collect();
            // possible numbers of trees up to here
            let mut pos: Vec<usize> = vec![0];
            let mut open = false;
            for (p, (_, end)) in self.pieces.iter().zip(&spans) {
                match p {
                    Piece::Sent(s) if *end <= bytes.len() => {
                        let want = self.tree(s)?;
                        let mut next: Vec<usize> =
                            pos.iter().filter(|k| trees.get(**k) == Some(&&want)).map(|k| k + 1).collect();
                        if open {
                            next.extend(pos);
                        }
                        next.sort();
                        next.dedup();
                        if next.is_empty() {
                            return Err(format!("no {} in its place, got: {}", want.to_text(), show()));
                        }
                        pos = next;
                        open = false;
                    }
                    Piece::Bad(t) => open = t.starts_with("#BOS") && !t.contains("\n#EOS") && !t.contains("broken"),
                    _ => (),
                }
            }
            if !pos.contains(&trees.len()) {
                return Err(format!("unexpected trees: {}", show()));
            }
        } else if self.cut.is_none() && at != got.len() || at > got.len() {
            return Err(format!("{} items expected, got: {}", at, show()));
        } else if self.cut.is_some() && got.len() > at + 1 {
            return Err(format!("{} items expected from the cut file, got: {}", at, show()));
        }
        Ok(())
    }
}

fn sent_model(i: usize) -> M {
    match i {
        0 => gen::to_m(&Sh::N(gen::leafs(0..1)), Deco::Distinct),
        1 => gen::to_m(&Sh::N(vec![Sh::N(gen::leafs(0..2)), Sh::L(2)]), Deco::Rich),
        2 => {
            let mut m = gen::to_m(&Sh::N(vec![Sh::L(0), gen::wrap(Sh::L(1), 1)]), Deco::Distinct);
            let t = m.terms();
            if let Kind::T { form, tag, .. } = &mut m.nodes.get_mut(&t[0]).unwrap().kind {
                *form = "%".into();
                *tag = "%".into();
            }
            if let Kind::T { form, .. } = &mut m.nodes.get_mut(&t[1]).unwrap().kind {
                *form = "grüße".into();
            }
            m
        }
        _ => gen::to_m(&Sh::N(vec![Sh::N(gen::leafs(vec![0, 2])), Sh::L(1)]), Deco::Rich),
    }
}

fn negra_sent(i: usize) -> String {
    let mut m = sent_model(i);
    let r = m.root;
    m.nodes.get_mut(&r).unwrap().feats.insert("metadata".into(), Some(format!("x{} y", i)));
    for n in m.nodes.values_mut() {
        n.feats.remove("k");
    }
    let ids = ["1", "2", "15", "15"];
    print_negra(&m, ids[i], Layout { sep: i as u8 % 4, comment: i == 1, order: 0, ids: i as u8 % 3 })
}

fn run_f04(sh: &Shared) {
    let run_all = |phase: &str, cases: Vec<FileCase>| {
        if sh.stopped() {
            return;
        }
        sh.note(format!("phase {}: {} files", phase, cases.len()));
        let chunk = 128;
        sh.par((cases.len() + chunk - 1) / chunk, |c, l| {
            for case in &cases[c * chunk..((c + 1) * chunk).min(cases.len())] {
                if l.stopped() {
                    return;
                }
                let text = case.show();
                l.state(&text);
                l.count("traces", 1);
                l.case_text(text, |l| case.run(l));
            }
        });
    };
    // all files of up to k sentences with fillers around them
    let arrange = |f: Fmt, multi: bool, k: usize, sents: &[Piece], fills: &[&str], two: bool| -> Vec<FileCase> {
        let mut gaps: Vec<Vec<Piece>> = vec![vec![]];
        for a in fills {
            gaps.push(vec![Piece::Fill(a.to_string())]);
            if two {
                for b in fills {
                    gaps.push(vec![Piece::Fill(a.to_string()), Piece::Fill(b.to_string())]);
                }
            }
        }
        let mut layer: Vec<Vec<Piece>> = gaps.clone();
        let mut files = layer.clone();
        for _ in 0..k {
            let mut next = Vec::new();
            for x in &layer {
                for s in sents {
                    for g in &gaps {
                        let mut y = x.clone();
                        y.push(s.clone());
                        y.extend(g.iter().cloned());
                        next.push(y);
                    }
                }
            }
            files.extend(next.iter().cloned());
            layer = next;
        }
        let mut v = Vec::new();
        for pieces in files {
            for crlf in [false, true].iter() {
                for final_nl in [false, true].iter() {
                    v.push(FileCase { f, multi, pieces: pieces.clone(), crlf: *crlf, final_nl: *final_nl, cut: None });
                }
            }
        }
        v
    };
    let neg: Vec<Piece> = (0..4).map(|i| Piece::Sent(negra_sent(i))).collect();
    let neg_bad: Vec<Piece> = [
        "#BOS 3\n#EOS 3",
        "#BOS 3\nw -- T -- -- 0\n#EOS 4",
        "#BOS 3\nw -- T -- -- 0\n#EOS",
        "#BOS 3\nw -- T -- -- 500\n#EOS 3",
        "#BOS 3\nw -- T -- 0\n#EOS 3",
        "#BOS 3\nw -- T -- -- 500\n#500 -- A -- -- 500\n#EOS 3",
        "#BOS x\nw -- T -- -- 0\n#EOS x",
        // neither of the following two completes the other
        "#BOS 5\nw -- T -- -- 0",
        "#EOS 6",
        // lost before the next sentence starts
        "#BOS 7\nw -- T -- -- 500\n#500 broken",
        "#BOS 8\nw broken",
        "#BOS broken",
    ]
    .iter()
    .map(|s| Piece::Bad(s.to_string()))
    .collect();
    let neg_fill = ["%% comment", "", " \t", "#FORMAT 4", "#BOT ORIGIN\n0\tname\tfoo\n#EOT ORIGIN", "some (A (T w)) text"];
    run_all("Negra files", arrange(Fmt::Negra, false, 2, &neg, &neg_fill, false));
    run_all("Negra files with two fillers in a place", arrange(Fmt::Negra, false, sh.pick(1, 2), &neg[1..3], &neg_fill, true));
    run_all("Negra files of more sentences", arrange(Fmt::Negra, false, sh.pick(3, 4), &neg[..3], &neg_fill[..sh.pick(2, 3)], false));
    let mut mixed = neg_bad.clone();
    mixed.extend(neg[..2].iter().cloned());
    run_all("Negra files with malformed sentences", arrange(Fmt::Negra, false, 3, &mixed, &neg_fill[..1], false));
    for f in BRACKETS.iter() {
        let sents: Vec<Piece> = (0..3).map(|i| Piece::Sent(print_brackets(*f, &sent_model(i), i as u8 % 3))).collect();
        let lone = Piece::Sent(print_brackets(*f, &gen::to_m(&Sh::L(0), Deco::Distinct), 0));
        let bad: Vec<Piece> = ["()", "(A)", "w", "(A (T w)) x", "(A (T w)))", "(A w v)", ")", "(A (T w)) (B (T v))", "(A (T w) v)"]
            .iter()
            .map(|s| Piece::Bad(s.to_string()))
            .collect();
        let mut all = sents.clone();
        all.push(lone.clone());
        run_all("one tree per line", arrange(*f, false, 3, &all, &["% comment", "%% (A (T w))", "%"], false));
        let mut mixed = bad.clone();
        mixed.push(Piece::Bad("(A (T w)".into()));
        mixed.push(Piece::Bad("(A".into()));
        mixed.push(Piece::Bad("((A (T w)))".into()));
        mixed.extend(sents[..2].iter().cloned());
        run_all("malformed trees, one per line", arrange(*f, false, 3, &mixed, &["% comment"], false));
        // over several lines
        let mut multi: Vec<Piece> = (0..3).map(|i| Piece::Sent(print_brackets(*f, &sent_model(i), 3))).collect();
        multi.push(sents[1].clone());
        multi.push(lone);
        run_all("multi-line files", arrange(*f, true, 3, &multi, &["% comment", "%% (A (T w)", "", "  "], false));
        run_all("multi-line files, two fillers in a place", arrange(*f, true, 2, &multi[..2], &["% comment", "%% (A (T w)", "", "  "], true));
        let mut mixed = bad.clone();
        mixed.push(Piece::Bad("(A\n(T w)\n))".into()));
        mixed.push(Piece::Bad("(A\n(B\n))".into()));
        mixed.extend(multi[..3].iter().cloned());
        run_all("malformed multi-line trees", arrange(*f, true, sh.pick(2, 3), &mixed, &["% comment", ""], false));
        // a break at every set of places
        let mut cases = Vec::new();
        for i in 0..3 {
            let m = sent_model(i);
            let mut toks = Vec::new();
            bracket_tokens(*f, &m, m.root, &mut toks);
            let gaps = toks.len() - 1;
            // closing brackets and adjacent places: all subsets up to a size, all positions
            let max = sh.pick(10, 14);
            let places: Vec<usize> = if gaps <= max {
                (1..=gaps).collect()
            } else {
                // spread, both ends included
                (0..max).map(|k| 1 + k * (gaps - 1) / (max - 1)).collect()
            };
            for bits in 0..1u32 << places.len() {
                for brk in ["\n", "\n  ", " \n", "\n\n"].iter() {
                    let mut s = String::new();
                    for (j, (t, must)) in toks.iter().enumerate() {
                        if j > 0 {
                            match places.iter().position(|p| *p == j) {
                                Some(p) if bits >> p & 1 == 1 => s.push_str(brk),
                                _ if *must => s.push(' '),
                                _ => (),
                            }
                        }
                        s.push_str(t);
                    }
                    let pieces = vec![
                        sents[0].clone(),
                        Piece::Sent(s),
                        Piece::Fill("% (".into()),
                        multi[1].clone(),
                    ];
                    for crlf in [false, true].iter() {
                        cases.push(FileCase { f: *f, multi: true, pieces: pieces.clone(), crlf: *crlf, final_nl: bits % 2 == 0, cut: None });
                    }
                }
            }
        }
        run_all("breaks at every set of places", cases);
        // cuts
        let mut cases = Vec::new();
        for is_multi in [false, true].iter() {
            let pool = if *is_multi { &multi } else { &sents };
            for a in 0..3 {
                for b in 0..3 {
                    for crlf in [false, true].iter() {
                        let pieces =
                            vec![Piece::Fill("% comment".into()), pool[a].clone(), pool[b].clone(), pool[2].clone()];
                        let len = pieces_len(&pieces, *crlf);
                        for cut in 0..len {
                            cases.push(FileCase { f: *f, multi: *is_multi, pieces: pieces.clone(), crlf: *crlf, final_nl: true, cut: Some(cut) });
                        }
                    }
                }
            }
        }
        run_all("cut bracket files", cases);
    }
    let mut cases = Vec::new();
    for a in 0..4 {
        for b in 0..4 {
            for crlf in [false, true].iter() {
                let pieces = vec![Piece::Fill("%% comment".into()), neg[a].clone(), Piece::Fill("".into()), neg[b].clone()];
                for cut in 0..pieces_len(&pieces, *crlf) {
                    cases.push(FileCase { f: Fmt::Negra, multi: false, pieces: pieces.clone(), crlf: *crlf, final_nl: true, cut: Some(cut) });
                }
            }
        }
    }
    run_all("cut Negra files", cases);
    // words, tags and labels that look like something else
    let odd = [
        "%", "%%", "a%%b", "%a", "a%", "%%x%%", "#", "#BOS", "#EOS", "#500", "a#b", "//", "\\", "\"", "'", "-", "--", "---", "*", "*T*-1", "0",
        "500", "=", "+", "|", "[", "]", "{", "<", ">", ";", "&", "#FORMAT", "#BOT", "-LRB-", "S1", "\u{feff}", "ä", "𝄞", "VROOT", "ROOT", "TOP", "\u{1}",
    ];
    let fields = |m: &M| 2 * m.n() + m.nts().len();
    let set = |m: &M, i: usize, s: &str| -> M {
        let mut m = m.clone();
        let ts = m.terms();
        if i < 2 * ts.len() {
            if let Kind::T { form, tag, .. } = &mut m.nodes.get_mut(&ts[i / 2]).unwrap().kind {
                *(if i % 2 == 0 { form } else { tag }) = s.to_string();
            }
        } else {
            let id = m.nts()[i - 2 * ts.len()];
            m.nodes.get_mut(&id).unwrap().set_label(s);
        }
        m
    };
    let mut cases = Vec::new();
    for f in BRACKETS.iter() {
        let base = [sent_model(0), sent_model(1), gen::to_m(&Sh::L(0), Deco::Distinct)];
        for (mi, m) in base.iter().enumerate() {
            for i in 0..fields(m) {
                for a in odd.iter() {
                    let x = set(m, i, a);
                    let others: Vec<M> = if sh.quick() {
                        vec![x.clone()]
                    } else {
                        (0..fields(m)).flat_map(|j| odd.iter().map(move |b| (j, b))).filter(|(j, _)| *j != i).map(|(j, b)| set(&x, j, b)).collect()
                    };
                    for x in others {
                        for style in 0..sh.pick(5u8, 4) {
                            let text = match style {
                                4 => print_brackets(*f, &x, 2).split_whitespace().collect::<Vec<_>>().join("\n"),
                                _ => print_brackets(*f, &x, style),
                            };
                            if parse_brackets(*f, &text).is_none() {
                                continue;
                            }
                            for multi in [false, true].iter() {
                                if !*multi && style > 2 {
                                    continue;
                                }
                                let o = Piece::Sent(print_brackets(*f, &sent_model(1 - mi.min(1)), style % 3));
                                let me = Piece::Sent(text.clone());
                                cases.push(FileCase {
                                    f: *f,
                                    multi: *multi,
                                    pieces: vec![me.clone(), o.clone(), me, Piece::Fill("% x".into()), o],
                                    crlf: style % 2 == 0,
                                    final_nl: i % 2 == 0,
                                    cut: None,
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    run_all("special words in brackets", cases);
    let mut cases = Vec::new();
    for mi in [0usize, 1, 3].iter() {
        let mut m = sent_model(*mi);
        let r = m.root;
        m.nodes.get_mut(&r).unwrap().feats.insert("metadata".into(), Some("x y".into()));
        for n in m.nodes.values_mut() {
            n.feats.remove("k");
        }
        for i in 0..fields(&m) {
            for a in odd.iter() {
                // lines that start like this are something else
                if i < 2 * m.n() && i % 2 == 0 && a.starts_with('#') {
                    continue;
                }
                let x = set(&m, i, a);
                for sep in 0..4u8 {
                    let text = print_negra(&x, "3", Layout { sep, comment: i % 2 == 1, order: 0, ids: 0 });
                    if parse_negra(&text.lines().collect::<Vec<_>>()).tree.is_none() {
                        continue;
                    }
                    let me = Piece::Sent(text);
                    let o = neg[1].clone();
                    cases.push(FileCase {
                        f: Fmt::Negra,
                        multi: false,
                        pieces: vec![me.clone(), o.clone(), me.clone(), Piece::Fill("%% x".into()), me, o],
                        crlf: sep % 2 == 0,
                        final_nl: i % 2 == 0,
                        cut: None,
                    });
                }
            }
        }
    }
    run_all("special words in Negra files", cases);
    // large sentences, with one and two breaks and breaks in regular distances
    let mut cases = Vec::new();
    let big: Vec<M> = gen::large(true).iter().chain(gen::deep().iter()).map(|(_, s)| gen::to_m(s, Deco::Rich)).collect();
    for f in BRACKETS.iter() {
        for m in &big {
            let mut toks = Vec::new();
            bracket_tokens(*f, m, m.root, &mut toks);
            let n = toks.len();
            let (singles, grid) = sh.pick((90, 12), (400, 30));
            let mut breaks: Vec<Box<dyn Fn(usize) -> bool>> = Vec::new();
            for k in [1usize, 2, 3, 7, 50, 255, 256, 257, 300, 1 << 20] {
                breaks.push(Box::new(move |j| j % k == 0));
            }
            let spread = |k: usize| (0..k.min(n - 1)).map(move |i| 1 + i * (n - 2) / (k.min(n - 1) - 1).max(1)).collect::<Vec<_>>();
            for p in spread(singles) {
                breaks.push(Box::new(move |j| j == p));
            }
            let g = spread(grid);
            for (i, &p) in g.iter().enumerate() {
                for &q in &g[i + 1..] {
                    breaks.push(Box::new(move |j| j == p || j == q));
                }
            }
            for (i, brk) in breaks.iter().enumerate() {
                let mut s = String::new();
                for (j, (t, must)) in toks.iter().enumerate() {
                    if j > 0 && brk(j) {
                        s.push('\n');
                    } else if j > 0 && *must {
                        s.push(' ');
                    }
                    s.push_str(t);
                }
                let o = |i: usize| Piece::Sent(print_brackets(*f, &sent_model(i), 3));
                let multi = s.contains('\n');
                cases.push(FileCase {
                    f: *f,
                    multi: multi || i % 2 == 0,
                    pieces: if multi {
                        vec![o(0), Piece::Sent(s), Piece::Fill("% (".into()), o(1)]
                    } else {
                        vec![Piece::Sent(s.clone()), Piece::Fill("% (".into()), Piece::Sent(s)]
                    },
                    crlf: i % 3 == 0,
                    final_nl: i % 2 == 0,
                    cut: None,
                });
            }
        }
    }
    run_all("large bracketed sentences", cases);
    let mut cases = Vec::new();
    for (_, s) in gen::large(false).iter().chain(gen::deep().iter()) {
        let mut m = gen::to_m(s, Deco::Rich);
        for n in m.nodes.values_mut() {
            n.feats.remove("k");
        }
        for sep in 0..4u8 {
            for (order, ids) in [(0, 0), (0, 1), (0, 2)].iter() {
                let text = print_negra(&m, "7", Layout { sep, comment: sep % 2 == 1, order: *order, ids: *ids });
                if parse_negra(&text.lines().collect::<Vec<_>>()).tree.is_none() {
                    continue;
                }
                let me = Piece::Sent(text);
                cases.push(FileCase {
                    f: Fmt::Negra,
                    multi: false,
                    pieces: vec![neg[1].clone(), me.clone(), Piece::Fill("%% x".into()), me, neg[2].clone()],
                    crlf: sep % 2 == 0,
                    final_nl: sep < 2,
                    cut: None,
                });
            }
        }
    }
    run_all("large Negra sentences", cases);
    // long files
    let mut cases = Vec::new();
    for n in [50usize, 400].iter() {
        cases.push(FileCase { f: Fmt::Negra, multi: false, pieces: (0..*n).map(|i| neg[i % 4].clone()).collect(), crlf: false, final_nl: true, cut: None });
        for f in BRACKETS.iter() {
            for multi in [false, true].iter() {
                let pieces = (0..*n)
                    .map(|i| Piece::Sent(print_brackets(*f, &sent_model(i % 3), if *multi { 3 } else { 1 })))
                    .collect();
                cases.push(FileCase { f: *f, multi: *multi, pieces, crlf: *multi, final_nl: true, cut: None });
            }
        }
    }
    run_all("long files", cases);
}

fn pieces_len(ps: &[Piece], crlf: bool) -> usize {
    ps.iter()
        .map(|p| match p {
            Piece::Sent(t) | Piece::Bad(t) | Piece::Fill(t) => {
                let t = t.trim_end_matches('\n');
                t.len() + 1 + if crlf { t.matches('\n').count() + 1 } else { 0 }
            }
        })
        .sum()
}

// ---------------------------------------------------------------------------------------------
// F06

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// transient
    Interrupted,
    Error,
    /// an error that is returned for ever
    Dead,
    /// no progress (writers)
    Zero,
    /// an invalid byte instead of this one (readers)
    Utf8,
    /// flush fails (writers)
    Flush,
}
const FAULTS: [(Fault, &str); 6] = [
    (Fault::Interrupted, "interrupted"),
    (Fault::Error, "error"),
    (Fault::Dead, "dead"),
    (Fault::Zero, "zero"),
    (Fault::Utf8, "utf8"),
    (Fault::Flush, "flush"),
];

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
];

#[derive(Clone, Debug)]
struct Script {
    /// sizes of transfers, the last one repeats
    chunks: Vec<usize>,
    /// at these byte positions, in ascending order
    faults: Vec<(usize, Fault)>,
    kind: usize,
}

impl Script {
    fn show(&self) -> String {
        format!(
            "chunks {}\nfaults {}\nkind {}\n",
            self.chunks.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
            self.faults
                .iter()
                .map(|(p, f)| format!("{}:{}", p, FAULTS.iter().find(|x| x.0 == *f).unwrap().1))
                .collect::<Vec<_>>()
                .join(" "),
            self.kind
        )
    }
    fn parse(s: &str) -> Option<Script> {
        Some(Script {
            chunks: field(s, "chunks")?.split_whitespace().map(|c| c.parse().ok()).collect::<Option<Vec<_>>>()?,
            faults: field(s, "faults")
                .unwrap_or("")
                .split_whitespace()
                .map(|x| {
                    let i = x.find(':')?;
                    let f = FAULTS.iter().find(|y| y.1 == &x[i + 1..])?.0;
                    Some((x[..i].parse().ok()?, f))
                })
                .collect::<Option<Vec<_>>>()?,
            kind: field(s, "kind")?.parse().ok()?,
        })
    }
    fn hard(&self) -> Option<usize> {
        self.faults.iter().find(|(_, f)| *f != Fault::Interrupted).map(|(p, _)| *p)
    }
}

struct Source {
    data: Vec<u8>,
    pos: usize,
    script: Script,
    next: usize,
    calls: usize,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut end = self.data.len();
        if let Some((p, f)) = self.script.faults.get(self.next).cloned() {
            if self.pos == p {
                match f {
                    Fault::Interrupted => {
                        self.next += 1;
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    Fault::Error => {
                        self.next += 1;
                        return Err(KINDS[self.script.kind].into());
                    }
                    Fault::Dead => return Err(KINDS[self.script.kind].into()),
                    _ => self.next += 1,
                }
                // look at the following faults, too
                return self.read(buf);
            }
            end = p;
        }
        let c = *self.script.chunks.get(self.calls).or_else(|| self.script.chunks.last()).unwrap_or(&usize::MAX);
        self.calls += 1;
        let n = c.max(1).min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct ReadCase {
    f: Fmt,
    multi: bool,
    text: String,
    cap: usize,
    script: Script,
}

impl Case for ReadCase {
    fn show(&self) -> String {
        format!(
            "read {}\nmulti {}\ntext {}\ncapacity {}\n{}",
            self.f.name(),
            self.multi,
            quote(&self.text),
            self.cap,
            self.script.show()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        Some(ReadCase {
            f: Fmt::parse(field(s, "read")?)?,
            multi: field(s, "multi")? == "true",
            text: unquote(field(s, "text")?)?,
            cap: field(s, "capacity")?.parse().ok()?,
            script: Script::parse(s)?,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let plain = items(self.f, self.multi, self.text.as_bytes())?;
        let mut data = self.text.clone().into_bytes();
        for (p, f) in &self.script.faults {
            if *f == Fault::Utf8 {
                data[*p] = 0xff;
            }
        }
        let src = Source { data, pos: 0, script: self.script.clone(), next: 0, calls: 0 };
        let r = BufReader::with_capacity(self.cap, src);
        let mut it: Box<dyn Iterator<Item = Result<Tree, String>>> = match self.f {
            Fmt::Negra => Box::new(NegraReader::new(r).map(|r| r.map_err(|e| e.to_string()))),
            f => {
                let lf = if self.multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
                Box::new(PTBReader::new(r, f.real(), lf).map(|r| r.map_err(|e| e.to_string())))
            }
        };
        l.count("transitions", self.script.faults.len() as u64 + 1);
        let hard = self.script.hard();
        let cap = self.text.len() + 5;
        let mut got: Items = Vec::new();
        let mut ended = false;
        while got.len() < cap {
            match guard(|| it.next())? {
                None => {
                    ended = true;
                    break;
                }
                Some(Ok(t)) => got.push(Ok(sound(&t)?)),
                Some(Err(e)) => {
                    got.push(Err(e));
                    if hard.is_some() {
                        // only that it doesn't panic afterwards
                        for _ in 0..4 {
                            guard(|| it.next().is_some())?;
                        }
                        break;
                    }
                }
            }
        }
        let shape = |v: &Items| -> Vec<String> {
            v.iter().map(|r| r.as_ref().map(|m| m.to_text()).unwrap_or_else(|_| "error".into())).collect()
        };
        match hard {
            None => {
                l.outcome("only short or interrupted transfers");
                if !ended {
                    return Err("reading does not end".into());
                }
                if shape(&got) != shape(&plain) {
                    return Err(format!("read {:?} instead of {:?}", shape(&got), shape(&plain)));
                }
            }
            Some(p) => {
                l.outcome("failed transfer");
                // complete before the fault, with the end of its last line
                let line_end = self.text.as_bytes()[..p].iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
                let certain = complete(self.f, self.multi, &self.text[..line_end])
                    .min(plain.iter().position(Result::is_err).unwrap_or(usize::MAX));
                let (last, oks) = match got.split_last() {
                    Some((Err(_), rest)) => ((), rest),
                    _ => return Err(format!("failure is not reported: {:?}", shape(&got))),
                };
                let _ = last;
                if shape(&oks.to_vec())[..] != shape(&plain)[..oks.len().min(plain.len())] || oks.len() > plain.len() {
                    return Err(format!("before the failure {:?} instead of {:?}", shape(&got), shape(&plain)));
                }
                if oks.len() < certain {
                    return Err(format!("{} trees before the failure instead of {}", oks.len(), certain));
                }
            }
        }
        Ok(())
    }
}

/// Number of items a reader has to give when these are the complete lines.
fn complete(f: Fmt, multi: bool, text: &str) -> usize {
    match f {
        Fmt::Negra => text.lines().filter(|l| l.starts_with("#EOS")).count(),
        _ if multi => {
            let (mut n, mut depth) = (0, 0i64);
            for line in text.lines().filter(|l| !l.starts_with('%') && !l.is_empty()) {
                depth += line.matches('(').count() as i64 - line.matches(')').count() as i64;
                if depth == 0 {
                    n += 1;
                }
            }
            n
        }
        _ => text.lines().filter(|l| !l.starts_with('%')).count(),
    }
}

/// A sink with faults; what was accepted stays visible.
struct Sink {
    out: Rc<RefCell<Vec<u8>>>,
    script: Script,
    next: usize,
    calls: usize,
    dead: bool,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let pos = self.out.borrow().len();
        let mut room = usize::MAX;
        if self.dead {
            return Err(KINDS[self.script.kind].into());
        }
        if let Some((p, f)) = self.script.faults.get(self.next).cloned() {
            if f != Fault::Flush {
                if pos == p {
                    self.next += 1;
                    return match f {
                        Fault::Interrupted => Err(io::ErrorKind::Interrupted.into()),
                        Fault::Zero => Ok(0),
                        Fault::Dead => {
                            self.dead = true;
                            Err(KINDS[self.script.kind].into())
                        }
                        _ => Err(KINDS[self.script.kind].into()),
                    };
                }
                room = p - pos;
            }
        }
        let c = *self.script.chunks.get(self.calls).or_else(|| self.script.chunks.last()).unwrap_or(&usize::MAX);
        self.calls += 1;
        let n = c.max(1).min(buf.len()).min(room);
        self.out.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.script.faults.iter().any(|(_, f)| *f == Fault::Flush) {
            return Err(KINDS[self.script.kind].into());
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    F(Fmt),
    Conllx,
}
const OUTS: [Out; 5] =
    [Out::F(Fmt::Negra), Out::F(Fmt::Simple), Out::F(Fmt::Ptb), Out::F(Fmt::Tueba), Out::Conllx];

impl Out {
    fn name(self) -> &'static str {
        match self {
            Out::F(f) => f.name(),
            Out::Conllx => "conllx",
        }
    }
    fn writer<'a, W: Write + 'a>(self, w: W) -> Box<dyn WriteTree + 'a> {
        match self {
            Out::F(Fmt::Negra) => Box::new(NegraWriter::new(w)),
            Out::F(f) => Box::new(PTBWriter::new(w, f.real())),
            Out::Conllx => Box::new(ConllxWriter::new(w)),
        }
    }
}

struct WriteCase {
    o: Out,
    ms: Vec<M>,
    script: Script,
}

impl Case for WriteCase {
    fn show(&self) -> String {
        format!(
            "write {}\n{}{}",
            self.o.name(),
            self.script.show(),
            self.ms.iter().map(|m| format!("tree {}\n", m.to_text())).collect::<String>()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        let o = field(s, "write")?;
        Some(WriteCase {
            o: OUTS.iter().find(|x| x.name() == o).cloned()?,
            ms: s.lines().filter_map(|l| l.strip_prefix("tree ")).map(M::parse).collect::<Option<Vec<_>>>()?,
            script: Script::parse(s)?,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let ts = self.ms.iter().map(|m| build(B::Api, m).map(|x| x.0)).collect::<Result<Vec<_>, _>>();
        let ts = match ts {
            Ok(t) => t,
            Err(_) => {
                l.count("seed_skipped", 1);
                return Ok(());
            }
        };
        // what a perfect sink gets, tree by tree
        let perfect = Rc::new(RefCell::new(Vec::new()));
        let mut marks = Vec::new();
        {
            let s = Script { chunks: vec![], faults: vec![], kind: 0 };
            let mut w = self.o.writer(Sink { out: perfect.clone(), script: s, next: 0, calls: 0, dead: false });
            for t in &ts {
                guard(|| w.write_tree(t))?.map_err(|e| format!("perfect sink: {}", e))?;
                marks.push(perfect.borrow().len());
            }
        }
        let perfect = perfect.borrow().clone();
        let out = Rc::new(RefCell::new(Vec::new()));
        let mut w = self.o.writer(Sink { out: out.clone(), script: self.script.clone(), next: 0, calls: 0, dead: false });
        l.count("transitions", self.script.faults.len() as u64 + 1);
        let mut failed = false;
        for (i, t) in ts.iter().enumerate() {
            let r = guard(|| w.write_tree(t))?;
            if r.is_ok() {
                if out.borrow()[..] != perfect[..marks[i]] {
                    return Err(format!(
                        "tree {} is reported as written, but the sink has {:?} instead of {:?}",
                        i,
                        String::from_utf8_lossy(&out.borrow()),
                        String::from_utf8_lossy(&perfect[..marks[i]])
                    ));
                }
            } else {
                failed = true;
                if !perfect.starts_with(&out.borrow()) {
                    return Err(format!("corrupted output {:?}", String::from_utf8_lossy(&out.borrow())));
                }
                break;
            }
        }
        l.outcome(if failed { "failed write" } else { "written" });
        let must_fail = self.script.faults.iter().any(|(p, f)| *p < perfect.len() && *f != Fault::Interrupted && *f != Fault::Flush);
        let may_fail = must_fail || self.script.faults.iter().any(|(_, f)| *f == Fault::Flush);
        if failed && !may_fail {
            return Err("short or interrupted transfers are reported as failure".into());
        }
        if must_fail && !failed {
            return Err("failure is not reported".into());
        }
        Ok(())
    }
}

fn run_f06(sh: &Shared) {
    let mut texts: Vec<(Fmt, bool, String)> = Vec::new();
    let neg: String = format!("%% c\n{}\n{}", negra_sent(0), negra_sent(2));
    texts.push((Fmt::Negra, false, neg));
    texts.push((Fmt::Negra, false, format!("{}{}", negra_sent(2), "#BOS 3\nw -- T -- --\n#EOS 3\n")));
    for f in BRACKETS.iter() {
        let s: Vec<String> = (0..3).map(|i| print_brackets(*f, &sent_model(i), 1)).collect();
        texts.push((*f, false, format!("% c\n{}\n{}\n", s[0], s[2])));
        let m: Vec<String> = (0..3).map(|i| print_brackets(*f, &sent_model(i), 3)).collect();
        texts.push((*f, true, format!("% c\n\n{}\n{}\n", m[0], m[2])));
    }
    texts.push((Fmt::Simple, false, format!("(A (T ä))\n(A)\n{}", print_brackets(Fmt::Simple, &sent_model(1), 0))));
    let whole = usize::MAX;
    let mut scripts: Vec<(usize, usize, Script)> = Vec::new(); // text, capacity, script
    for (ti, (_, _, text)) in texts.iter().enumerate() {
        let n = text.len();
        // short transfers
        for cap in [1, 2, 3, 5, 16, 8192].iter() {
            for c in 1..=17 {
                scripts.push((ti, *cap, Script { chunks: vec![c], faults: vec![], kind: 0 }));
            }
        }
        for a in 1..n {
            scripts.push((ti, 8192, Script { chunks: vec![a, whole], faults: vec![], kind: 0 }));
            for b in (1..n - a).step_by(sh.pick(5, 1)) {
                scripts.push((ti, 8192, Script { chunks: vec![a, b, whole], faults: vec![], kind: 0 }));
            }
        }
        for p in 0..=n {
            // interruptions
            for rep in 1..4 {
                let faults = vec![(p, Fault::Interrupted); rep];
                for c in [1, 3, whole].iter() {
                    scripts.push((ti, 64, Script { chunks: vec![*c], faults: faults.clone(), kind: 0 }));
                }
            }
            for q in (p + 1..=n).step_by(sh.pick(7, 1)) {
                scripts.push((ti, 32, Script { chunks: vec![whole], faults: vec![(p, Fault::Interrupted), (q, Fault::Interrupted)], kind: 0 }));
            }
            // failures
            for kind in 0..KINDS.len() {
                for f in [Fault::Error, Fault::Dead].iter() {
                    for (cap, c) in [(1usize, 1usize), (7, 3), (8192, whole)].iter() {
                        scripts.push((ti, *cap, Script { chunks: vec![*c], faults: vec![(p, *f)], kind }));
                        scripts.push((ti, *cap, Script { chunks: vec![*c], faults: vec![(p, Fault::Interrupted), (p, *f)], kind }));
                    }
                }
            }
            for q in (p + 1..=n).step_by(sh.pick(7, 1)) {
                scripts.push((ti, 64, Script { chunks: vec![whole], faults: vec![(p, Fault::Interrupted), (q, Fault::Error)], kind: p % 6 }));
                if !sh.quick() {
                    scripts.push((ti, 64, Script { chunks: vec![whole], faults: vec![(p, Fault::Error), (q, Fault::Error)], kind: p % 6 }));
                }
            }
            if p < n {
                for c in [1, whole].iter() {
                    scripts.push((ti, 16, Script { chunks: vec![*c], faults: vec![(p, Fault::Utf8)], kind: 0 }));
                }
            }
        }
    }
    sh.note(format!("phase reading: {} texts, {} transfer scripts", texts.len(), scripts.len()));
    let chunk = 64;
    sh.par((scripts.len() + chunk - 1) / chunk, |c, l| {
        for (ti, cap, s) in &scripts[c * chunk..((c + 1) * chunk).min(scripts.len())] {
            if l.stopped() {
                return;
            }
            let (f, multi, text) = &texts[*ti];
            let case = ReadCase { f: *f, multi: *multi, text: text.clone(), cap: *cap, script: s.clone() };
            l.state(&(ti, cap, s.show()));
            l.count("faults", s.faults.len() as u64);
            l.case(&case);
        }
    });
    // writing
    let ms: Vec<Vec<M>> = vec![
        vec![sent_model(0), sent_model(2)],
        vec![sent_model(2)],
        vec![sent_model(1), sent_model(1), sent_model(0)],
    ];
    let mut cases: Vec<(Out, usize, Script)> = Vec::new();
    for o in OUTS.iter() {
        for (mi, m) in ms.iter().enumerate() {
            let n = match o {
                Out::F(f) => {
                    let ts: Vec<Tree> = m.iter().filter_map(|m| build(B::Api, m).ok().map(|x| x.0)).collect();
                    write_all(*f, ts.iter()).map(|s| s.len()).unwrap_or(200)
                }
                Out::Conllx => 200,
            };
            for c in 1..=12 {
                cases.push((*o, mi, Script { chunks: vec![c], faults: vec![], kind: 0 }));
            }
            for a in 1..n {
                cases.push((*o, mi, Script { chunks: vec![a, 1, whole], faults: vec![], kind: 0 }));
            }
            for p in 0..=n + 1 {
                for c in [1, 3, whole].iter() {
                    for rep in 1..3 {
                        cases.push((*o, mi, Script { chunks: vec![*c], faults: vec![(p, Fault::Interrupted); rep], kind: 0 }));
                    }
                    cases.push((*o, mi, Script { chunks: vec![*c], faults: vec![(p, Fault::Zero)], kind: 0 }));
                    for kind in 0..KINDS.len() {
                        for f in [Fault::Error, Fault::Dead].iter() {
                            cases.push((*o, mi, Script { chunks: vec![*c], faults: vec![(p, *f)], kind }));
                            cases.push((*o, mi, Script { chunks: vec![*c], faults: vec![(p, Fault::Interrupted), (p, *f)], kind }));
                        }
                    }
                }
                for q in (p + 1..=n).step_by(sh.pick(11, 1)) {
                    cases.push((*o, mi, Script { chunks: vec![5, 2], faults: vec![(p, Fault::Interrupted), (q, Fault::Error)], kind: q % 6 }));
                    if !sh.quick() {
                        cases.push((*o, mi, Script { chunks: vec![whole], faults: vec![(p, Fault::Interrupted), (q, Fault::Zero)], kind: 0 }));
                    }
                }
            }
            cases.push((*o, mi, Script { chunks: vec![whole], faults: vec![(0, Fault::Flush)], kind: 0 }));
        }
    }
    sh.note(format!("phase writing: {} writers, {} transfer scripts", OUTS.len(), cases.len()));
    sh.par((cases.len() + chunk - 1) / chunk, |c, l| {
        for (o, mi, s) in &cases[c * chunk..((c + 1) * chunk).min(cases.len())] {
            if l.stopped() {
                return;
            }
            l.state(&(o.name(), mi, s.show()));
            l.count("faults", s.faults.len() as u64);
            l.case(&WriteCase { o: *o, ms: ms[*mi].clone(), script: s.clone() });
        }
    });
}

fn replay_f06(s: &str, l: &mut Local) -> Option<Verdict> {
    if field(s, "read").is_some() {
        replay_as::<ReadCase>(s, l)
    } else {
        replay_as::<WriteCase>(s, l)
    }
}

// ---------------------------------------------------------------------------------------------
// F07

#[derive(Clone, Debug, PartialEq)]
enum FOp {
    Insert(String, Option<String>),
    InsertMut(String, Option<String>),
    Remove(String),
    Get(String),
    /// print and parse
    Text,
    /// collect from the pairs in reverse
    Collect,
}

struct FeatCase {
    start: Option<String>,
    ops: Vec<FOp>,
}

fn show_val(v: &Option<String>) -> String {
    v.as_ref().map(|v| quote(v)).unwrap_or_else(|| "-".into())
}

impl Case for FeatCase {
    fn show(&self) -> String {
        let mut s = String::new();
        if let Some(t) = &self.start {
            s.push_str(&format!("start {}\n", quote(t)));
        }
        for o in &self.ops {
            s.push_str(&match o {
                FOp::Insert(k, v) => format!("op insert {} {}\n", quote(k), show_val(v)),
                FOp::InsertMut(k, v) => format!("op insertmut {} {}\n", quote(k), show_val(v)),
                FOp::Remove(k) => format!("op remove {}\n", quote(k)),
                FOp::Get(k) => format!("op get {}\n", quote(k)),
                FOp::Text => "op text\n".to_string(),
                FOp::Collect => "op collect\n".to_string(),
            });
        }
        s
    }
    fn parse(s: &str) -> Option<Self> {
        let mut ops = Vec::new();
        for l in s.lines().filter_map(|l| l.strip_prefix("op ")) {
            let mut p = l.splitn(2, ' ');
            let name = p.next()?;
            let rest = p.next().unwrap_or("");
            let kv = || -> Option<(String, Option<String>)> {
                // keys contain no quotes
                let i = rest[1..].find('"')? + 2;
                let v = rest.get(i + 1..)?;
                Some((unquote(&rest[..i])?, if v == "-" { None } else { Some(unquote(v)?) }))
            };
            ops.push(match name {
                "insert" => {
                    let (k, v) = kv()?;
                    FOp::Insert(k, v)
                }
                "insertmut" => {
                    let (k, v) = kv()?;
                    FOp::InsertMut(k, v)
                }
                "remove" => FOp::Remove(unquote(rest)?),
                "get" => FOp::Get(unquote(rest)?),
                "text" => FOp::Text,
                "collect" => FOp::Collect,
                _ => return None,
            });
        }
        let start = match field(s, "start") {
            Some(t) => Some(unquote(t)?),
            None => None,
        };
        Some(FeatCase { start, ops })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let mut m: Feats = BTreeMap::new();
        let mut f = match &self.start {
            None => {
                let f = guard(Features::new)?;
                agree(&f, &m)?;
                f
            }
            Some(t) => {
                for part in t.split('|').filter(|p| !p.is_empty()) {
                    match part.find(':') {
                        Some(i) => m.insert(part[..i].into(), Some(part[i + 1..].into())),
                        None => m.insert(part.into(), None),
                    };
                }
                let f = guard(|| Features::from(t))?;
                agree(&f, &m)?;
                f
            }
        };
        for o in &self.ops {
            l.count("transitions", 1);
            feat_step(&mut f, &mut m, o)?;
            agree(&f, &m)?;
        }
        // the printed form
        let text = guard(|| f.to_string())?;
        let want: String = m
            .iter()
            .map(|(k, v)| match v {
                Some(v) => format!("{}:{}", k, v),
                None => k.clone(),
            })
            .collect::<Vec<_>>()
            .join("|");
        if text != want {
            return Err(format!("{:?} is printed as {:?} instead of {:?}", m, text, want));
        }
        if !m.contains_key("") {
            agree(&guard(|| Features::from(&text))?, &m)?;
        }
        Ok(())
    }
}

fn feat_step(f: &mut Features, m: &mut Feats, o: &FOp) -> Verdict {
    match o {
        FOp::Insert(k, v) => {
            let got = guard(|| f.insert(k.as_str(), v.clone()))?;
            let want = m.insert(k.clone(), v.clone()).and_then(|v| v);
            if got != want {
                return Err(format!("insert {:?} returns {:?} instead of {:?}", k, got, want));
            }
        }
        FOp::InsertMut(k, v) => {
            guard(|| f.inner_mut().insert(k.clone(), v.clone()))?;
            m.insert(k.clone(), v.clone());
        }
        FOp::Remove(k) => {
            let got = guard(|| f.remove(k))?;
            let want = m.remove(k);
            if got != want {
                return Err(format!("remove {:?} returns {:?} instead of {:?}", k, got, want));
            }
        }
        FOp::Get(k) => {
            let got = guard(|| f.get_val(k).map(|v| v.map(ToOwned::to_owned)))?;
            let want = m.get(k).cloned();
            if got != want {
                return Err(format!("get {:?} returns {:?} instead of {:?}", k, got, want));
            }
        }
        FOp::Text => *f = guard(|| Features::from(f.to_string()))?,
        FOp::Collect => {
            *f = guard(|| f.inner().clone().into_iter().rev().collect())?;
        }
    }
    Ok(())
}

fn agree(f: &Features, m: &Feats) -> Verdict {
    if f.inner() != m {
        return Err(format!("features are {:?} instead of {:?}", f.inner(), m));
    }
    for (k, v) in m {
        if f.get_val(k) != Some(v.as_ref().map(String::as_str)) {
            return Err(format!("{:?} of {:?} is {:?}", k, m, f.get_val(k)));
        }
    }
    for k in ["a", "b", "ab", "", "c"].iter() {
        if f.get_val(k).is_some() != m.contains_key(*k) {
            return Err(format!("{:?} of {:?} is {:?}", k, m, f.get_val(k)));
        }
    }
    let g: Features = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if *f != g || f.clone() != *f {
        return Err(format!("{:?} is not equal to a set with the same content", f));
    }
    Ok(())
}

struct SetCase {
    members: Vec<String>,
    negative: bool,
}

const UNIVERSE: [&str; 9] = ["", "a", "b", "ab", "A", "NP", "NP ", "N", "ä"];

impl Case for SetCase {
    fn show(&self) -> String {
        format!(
            "set {}\n{}",
            self.negative,
            self.members.iter().map(|m| format!("member {}\n", quote(m))).collect::<String>()
        )
    }
    fn parse(s: &str) -> Option<Self> {
        Some(SetCase {
            negative: field(s, "set")? == "true",
            members: s.lines().filter_map(|l| l.strip_prefix("member ")).map(unquote).collect::<Option<Vec<_>>>()?,
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        let set: HashSet<String> = self.members.iter().cloned().collect();
        let s = if self.negative { LabelSet::Negative(set) } else { LabelSet::Positive(set) };
        for x in [&s, &s.clone()].iter() {
            for q in UNIVERSE.iter().chain(["c", "abc", "a b"].iter()) {
                l.count("transitions", 1);
                let want = self.members.iter().any(|m| m == q) != self.negative;
                if guard(|| x.matches(*q))? != want || guard(|| x.matches(q.to_string()))? != want {
                    return Err(format!("{:?} should{} match", q, if want { "" } else { " not" }));
                }
            }
        }
        Ok(())
    }
}

fn replay_f07(s: &str, l: &mut Local) -> Option<Verdict> {
    if field(s, "set").is_some() {
        replay_as::<SetCase>(s, l)
    } else {
        replay_as::<FeatCase>(s, l)
    }
}

fn run_f07(sh: &Shared) {
    let keys = ["a", "b", "ab"];
    let vals: [Option<&str>; 5] = [None, Some(""), Some("x"), Some("x:y"), Some(":")];
    let mut ops = vec![FOp::Text, FOp::Collect];
    for k in keys.iter() {
        for v in vals.iter() {
            ops.push(FOp::Insert(k.to_string(), v.map(ToOwned::to_owned)));
        }
        ops.push(FOp::InsertMut(k.to_string(), Some("z".into())));
        ops.push(FOp::Remove(k.to_string()));
        ops.push(FOp::Get(k.to_string()));
    }
    // all histories
    let depth = sh.pick(4, 5);
    sh.note(format!("phase histories: all sequences of up to {} of {} operations", depth, ops.len()));
    let n = ops.len();
    sh.par(n * n + 1, |i, l| {
        let mut stack: Vec<Vec<usize>> = if i == n * n {
            vec![vec![]]
        } else {
            vec![vec![i / n, i % n]]
        };
        if i == n * n {
            for k in 0..n {
                stack.push(vec![k]);
            }
        }
        while let Some(s) = stack.pop() {
            if l.stopped() {
                return;
            }
            let case = FeatCase { start: None, ops: s.iter().map(|k| ops[*k].clone()).collect() };
            l.count("traces", 1);
            l.case(&case);
            if s.len() >= 2 && s.len() < depth {
                for k in 0..n {
                    let mut t = s.clone();
                    t.push(k);
                    stack.push(t);
                }
            }
        }
    });
    // all reachable states with all operations
    let mut seen: HashSet<Feats> = HashSet::new();
    let mut queue: VecDeque<(Feats, Vec<FOp>)> = VecDeque::new();
    seen.insert(Feats::new());
    queue.push_back((Feats::new(), vec![]));
    let mut cases = Vec::new();
    while let Some((m, path)) = queue.pop_front() {
        for o in &ops {
            let mut next = m.clone();
            match o {
                FOp::Insert(k, v) | FOp::InsertMut(k, v) => {
                    next.insert(k.clone(), v.clone());
                }
                FOp::Remove(k) => {
                    next.remove(k);
                }
                _ => (),
            }
            let mut p = path.clone();
            p.push(o.clone());
            cases.push(FeatCase { start: None, ops: p.clone() });
            if seen.insert(next.clone()) {
                queue.push_back((next, p));
            }
        }
    }
    sh.note(format!("phase states: all {} reachable contents with all operations", seen.len()));
    sh.par(cases.len(), |i, l| {
        l.state(&cases[i].show());
        l.case(&cases[i]);
    });
    // all texts
    let len = sh.pick(9, 11);
    sh.note(format!("phase texts: all texts of up to {} characters of 'a', 'b', ':', '|', and up to {} with ' '", len, len - 2));
    let abc = ['a', 'b', ':', '|'];
    sh.par(64, |i, l| {
        let first: String = vec![abc[i % 4], abc[i / 4 % 4], abc[i / 16]].into_iter().collect();
        let mut stack = vec![first.clone()];
        for k in 0..3 {
            // each shorter text once
            if i < 4usize.pow(k as u32) {
                stack.push(first[..k].to_string());
            }
        }
        while let Some(s) = stack.pop() {
            if l.stopped() {
                return;
            }
            l.state(&s);
            l.case(&FeatCase { start: Some(s.clone()), ops: vec![FOp::Text, FOp::Insert("a".into(), Some("v".into())), FOp::Remove("b".into())] });
            if s.len() >= 3 && s.len() < len {
                for c in &abc {
                    stack.push(format!("{}{}", s, c));
                }
            }
        }
    });
    let spaced = ['a', ':', '|', ' '];
    sh.par(64, |i, l| {
        let mut stack: Vec<String> = vec![vec![spaced[i % 4], spaced[i / 4 % 4], spaced[i / 16]].into_iter().collect()];
        while let Some(s) = stack.pop() {
            if l.stopped() {
                return;
            }
            l.state(&s);
            l.case(&FeatCase { start: Some(s.clone()), ops: vec![FOp::Text] });
            if s.len() < len - 2 {
                for c in &spaced {
                    stack.push(format!("{}{}", s, c));
                }
            }
        }
    });
    // unusual contents and many keys
    let odd_keys = ["a", " a", "a ", "\ta", "A", "\u{e4}", "a=b", "_", "--", "None", "%", "#", "a,b", " ", "0", "01", "a\n"];
    let odd_vals = [
        None, Some(""), Some(" "), Some(" x"), Some("x "), Some("\t"), Some("_"), Some("--"), Some("x::y"), Some(":x"),
        Some("x:"), Some("\u{e4}"), Some("\n"), Some("0"), Some("None"), Some("a"), Some("A"), Some("x\r"), Some("\"x\""),
    ];
    sh.note(format!(
        "phase unusual contents: all pairs of two of {} keys with {} values, whitespace and markers of the formats among them; 1 to 300 keys",
        odd_keys.len(),
        odd_vals.len()
    ));
    let (nk, nv) = (odd_keys.len(), odd_vals.len());
    sh.par(nk * nv, |i, l| {
        let (k, v) = (odd_keys[i % nk].to_string(), odd_vals[i / nk].map(ToOwned::to_owned));
        for k2 in odd_keys.iter() {
            for v2 in odd_vals.iter() {
                let (k2, v2) = (k2.to_string(), v2.map(ToOwned::to_owned));
                l.count("traces", 1);
                l.case(&FeatCase {
                    start: None,
                    ops: vec![
                        FOp::Insert(k.clone(), v.clone()),
                        FOp::Text,
                        FOp::InsertMut(k2.clone(), v2.clone()),
                        FOp::Text,
                        FOp::Collect,
                        FOp::Get(k.clone()),
                        FOp::Insert(k.clone(), v2),
                        FOp::Remove(k2),
                    ],
                });
            }
        }
    });
    sh.par(300, |i, l| {
        let mut ops: Vec<FOp> = (0..=i)
            .map(|k| FOp::Insert(format!("k{}", k * 7 % 301), if k % 3 == 0 { None } else { Some(k.to_string()) }))
            .collect();
        ops.push(FOp::Text);
        ops.push(FOp::Collect);
        ops.push(FOp::Remove("k0".into()));
        l.count("traces", 1);
        l.case(&FeatCase { start: None, ops });
    });
    // label sets
    sh.note("phase label sets: all subsets of 9 labels, positive and negative, all queries");
    sh.par(1 << UNIVERSE.len(), |i, l| {
        for negative in [false, true].iter() {
            let members = (0..UNIVERSE.len()).filter(|k| i >> k & 1 == 1).map(|k| UNIVERSE[k].to_string()).collect();
            l.state(&(i, negative));
            l.case(&SetCase { members, negative: *negative });
        }
    });
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "F03",
            run: run_f03,
            replay: replay_f03,
            what: "all bounded texts over format tokens and all bounded changes of valid sentences, read by the real readers; a reference parser decides whether a text describes a tree, and which",
        },
        Check {
            id: "F04",
            run: run_f04,
            replay: replay_as::<FileCase>,
            what: "all arrangements of sentences, malformed sentences, fillers, line ends, breaks and cuts, read by the real readers; the items have to be the arranged sentences",
        },
        Check {
            id: "F06",
            run: run_f06,
            replay: replay_f06,
            what: "real readers and writers on sources and sinks with every bounded script of short, interrupted and failed transfers; compared with undisturbed transfers",
        },
        Check {
            id: "F07",
            run: run_f07,
            replay: replay_f07,
            what: "all bounded histories of operations on real feature sets against a map, all bounded texts, all subsets of a label universe",
        },
    ]
}
