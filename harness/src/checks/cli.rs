//! C01: the conversion tool.

use super::{field, replay_as, Check};
use crate::build::{build, B};
use crate::engine::{guard, Case, Local, Shared, Verdict};
use crate::gen::{self, Deco, Sh};
use crate::model::{quote, unquote, Kind, M};
use crate::text::{parse_negra, print_brackets, print_negra, Fmt, Layout, BRACKETS};
use conllx::graph::{Node, Sentence};
use conllx::io::{ReadSentence, Reader as ConllxReader, Writer as ConllxWriter};
use lumberjack::io::{Decode, Encode, NegraWriter, PTBLineFormat, PTBWriter, TryFromConllx};
use lumberjack::util::LabelSet;
use lumberjack::{AnnotatePOS, NegraReader, PTBReader, Projectivize, Tree, TreeOps, UnaryChains, WriteTree};
use std::cell::RefCell;
use std::fs::File;
use std::io::Write;
use std::net::Shutdown;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

const OUT: [&str; 7] = ["absolute", "conllx", "negra", "ptb", "relative", "simple", "tueba"];

/// How input and output are passed.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Io {
    in_file: bool,
    out_file: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Break {
    None,
    /// a file that is named doesn't exist
    Input,
    Filter,
    Ids,
    Insertion,
    Pos,
    /// the directory of the output doesn't exist
    Output,
    /// nobody reads the output
    ClosedPipe,
}
const BREAKS: [(Break, &str); 8] = [
    (Break::None, "none"),
    (Break::Input, "input"),
    (Break::Filter, "filter"),
    (Break::Ids, "ids"),
    (Break::Insertion, "insertion"),
    (Break::Pos, "pos"),
    (Break::Output, "output"),
    (Break::ClosedPipe, "closed"),
];

#[derive(Clone, Debug, Default, PartialEq)]
struct Opts {
    dummies: bool,
    projectivize: bool,
    sec: bool,
    reattach: Option<String>,
    /// contents of the files
    filter: Option<String>,
    ids: Option<String>,
    id_feature: Option<String>,
    insertion: Option<String>,
    label: Option<String>,
    parent: Option<String>,
}

#[derive(Clone, Debug)]
struct CliCase {
    /// an empty name stands for the default
    in_f: String,
    out_f: String,
    multi: bool,
    io: Io,
    brk: Break,
    o: Opts,
    /// the input, one piece per sentence
    input: Vec<String>,
    pos: Option<Vec<String>>,
    /// options in reverse order
    rev: bool,
}

thread_local! {
    static DIR: RefCell<Option<Scratch>> = RefCell::new(None);
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> PathBuf {
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
            let mut p = base.join(format!("ljmc-cli-{}-{:?}", std::process::id(), std::thread::current().id()));
            if std::fs::create_dir_all(&p).is_err() {
                p = std::env::temp_dir().join(format!("ljmc-cli-{}-{:?}", std::process::id(), std::thread::current().id()));
                std::fs::create_dir_all(&p).expect("scratch directory");
            }
            *d = Some(Scratch(p));
        }
        d.as_ref().unwrap().0.clone()
    })
}

pub fn tool() -> PathBuf {
    match std::env::var_os("LJMC_CLI") {
        Some(p) => p.into(),
        None => crate::home().join("target/cli/release/lumberjack-conversion"),
    }
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
    /// contents of the output file
    file: Option<Vec<u8>>,
}

/// A sink whose content stays visible.
#[derive(Clone)]
struct Shown(Rc<RefCell<Vec<u8>>>);
impl Write for Shown {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl CliCase {
    fn text(&self) -> String {
        self.input.concat()
    }

    fn run_tool(&self) -> Result<Ran, String> {
        let dir = scratch();
        let put = |name: &str, text: &str| -> String {
            let p = dir.join(name);
            std::fs::write(&p, text).expect("scratch file");
            p.to_str().unwrap().to_string()
        };
        let missing = |_: &str| dir.join("missing").join("file").to_str().unwrap().to_string();
        let mut args: Vec<Vec<String>> = Vec::new();
        let mut arg = |name: &str, val: Option<String>| {
            let mut a = vec![format!("--{}", name)];
            a.extend(val);
            args.push(a);
        };
        if !self.in_f.is_empty() {
            arg("input_format", Some(self.in_f.clone()));
        }
        if !self.out_f.is_empty() {
            arg("output_format", Some(self.out_f.clone()));
        }
        if self.multi {
            arg("multiline_brackets", None);
        }
        let input = put("input", &self.text());
        if self.brk == Break::Input {
            arg("input_file", Some(missing("input")));
        } else if self.io.in_file {
            arg("input_file", Some(input.clone()));
        }
        let out_path = dir.join("output");
        let _ = std::fs::remove_file(&out_path);
        if self.brk == Break::Output {
            arg("output_file", Some(missing("output")));
        } else if self.io.out_file {
            arg("output_file", Some(out_path.to_str().unwrap().to_string()));
        }
        let o = &self.o;
        if o.dummies {
            arg("remove_dummies", None);
        }
        if o.projectivize {
            arg("projectivize", None);
        }
        if o.sec {
            arg("sec_edges", None);
        }
        if let Some(p) = &o.reattach {
            arg("reattach", Some(p.clone()));
        }
        let mut set = |name: &str, text: &Option<String>, b: Break| {
            if let Some(t) = text {
                arg(name, Some(if self.brk == b { missing(name) } else { put(name, t) }));
            }
        };
        set("filter", &o.filter, Break::Filter);
        set("id_set", &o.ids, Break::Ids);
        set("insertion_set", &o.insertion, Break::Insertion);
        set("pos", &self.pos.as_ref().map(|p| p.concat()), Break::Pos);
        if let Some(p) = &o.id_feature {
            arg("id_feature", Some(p.clone()));
        }
        if let Some(p) = &o.label {
            arg("insertion_label", Some(p.clone()));
        }
        if let Some(p) = &o.parent {
            arg("parent", Some(p.clone()));
        }
        if self.rev {
            args.reverse();
        }
        let stdin: Stdio = if self.io.in_file { Stdio::null() } else { File::open(&input).expect("scratch").into() };
        let so = dir.join("stdout");
        let se = dir.join("stderr");
        let stdout: Stdio = if self.brk == Break::ClosedPipe {
            // shut down before the tool starts, for every descriptor that refers to it
            let (ours, theirs) = UnixStream::pair().expect("socket");
            ours.shutdown(Shutdown::Both).expect("socket");
            OwnedFd::from(theirs).into()
        } else {
            File::create(&so).expect("scratch").into()
        };
        let mut ch = Command::new(tool())
            .args(args.iter().flatten())
            .env_remove("RUST_BACKTRACE")
            .current_dir(&dir)
            .stdin(stdin)
            .stdout(stdout)
            .stderr(File::create(&se).expect("scratch"))
            .spawn()
            .map_err(|e| format!("cannot run {}: {}", tool().display(), e))
            .expect("the tool");
        let t0 = Instant::now();
        let mut nap = 200;
        let st = loop {
            match ch.try_wait() {
                Ok(Some(st)) => break st,
                _ if t0.elapsed() > Duration::from_secs(20) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err("the tool does not end within 20 s".into());
                }
                _ => {
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 2).min(2000);
                }
            }
        };
        Ok(Ran {
            code: st.code(),
            out: std::fs::read(&so).unwrap_or_default(),
            err: String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned(),
            file: std::fs::read(&out_path).ok(),
        })
    }

    /// The same steps with the library: everything that is written, the end of the last complete
    /// tree, and why it ends early.
    fn compose(&self) -> (Vec<u8>, usize, Option<String>) {
        let out = Shown(Rc::new(RefCell::new(Vec::new())));
        let mut done = 0;
        let r = guard(|| self.steps(&out, &mut done));
        let v = out.0.borrow().clone();
        let why = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) | Err(e) => Some(e),
        };
        (v, done, why)
    }

    fn steps(&self, out: &Shown, done: &mut usize) -> Result<(), String> {
        fn e<T, X: std::fmt::Display>(r: Result<T, X>) -> Result<T, String> {
            r.map_err(|e| e.to_string())
        }
        let o = &self.o;
        match self.brk {
            Break::None | Break::ClosedPipe => (),
            _ => return Err("a file is missing".into()),
        }
        if o.sec && !o.projectivize {
            return Err("sec_edges requires projectivize".into());
        }
        let text = self.text();
        let in_f = if self.in_f.is_empty() { "tueba" } else { self.in_f.as_str() };
        let out_f = if self.out_f.is_empty() { "simple" } else { self.out_f.as_str() };
        let lf = if self.multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
        let bytes = text.as_bytes();
        let trees: Box<dyn Iterator<Item = Result<Tree, String>>> = match in_f {
            "absolute" => Box::new(ConllxReader::new(bytes).sentences().map(|s| {
                e(s).and_then(|s| e(Tree::try_from_conllx_with_absolute_encoding(&s)))
            })),
            "relative" => Box::new(ConllxReader::new(bytes).sentences().map(|s| {
                e(s).and_then(|s| e(Tree::try_from_conllx_with_relative_encoding(&s)))
            })),
            "negra" => Box::new(NegraReader::new(bytes).map(e)),
            f => Box::new(PTBReader::new(bytes, Fmt::parse(f).unwrap().real(), lf).map(e)),
        };
        let mut w: Box<dyn WriteTree> = match out_f {
            "absolute" | "conllx" | "relative" => Box::new(ConllxWriter::new(out.clone())),
            "negra" => Box::new(NegraWriter::new(out.clone())),
            f => Box::new(PTBWriter::new(out.clone(), Fmt::parse(f).unwrap().real())),
        };
        let set = |t: &Option<String>| {
            t.as_ref().map(|t| LabelSet::Positive(t.split_whitespace().map(ToOwned::to_owned).collect()))
        };
        let (filter, ids, insertion) = (set(&o.filter), set(&o.ids), set(&o.insertion));
        let pos_text = self.pos.as_ref().map(|p| p.concat());
        let mut pos = pos_text.as_ref().map(|p| ConllxReader::new(p.as_bytes()));
        for t in trees {
            let mut t = t?;
            if o.dummies {
                e(t.remove_dummy_nodes())?;
            }
            if o.projectivize {
                for (p, edge, c) in t.projectivize().into_iter().flatten() {
                    if o.sec {
                        let label = match edge.label() {
                            Some(l) => format!("np_{}", l),
                            None => "np".into(),
                        };
                        t.add_secondary_edge(p, c, Some(label));
                    }
                }
            }
            if let Some(p) = pos.as_mut() {
                let s = e(p.read_sentence())?.ok_or("no POS sentence")?;
                let tags = s
                    .iter()
                    .filter_map(Node::token)
                    .map(|t| t.pos().map(ToOwned::to_owned))
                    .collect::<Option<Vec<_>>>()
                    .ok_or("no POS")?;
                e(t.annotate_pos(tags))?;
            }
            if let Some(prefix) = &o.reattach {
                let root = t.root();
                t.reattach_terminals(root, |t, n| t[n].label().starts_with(prefix.as_str()));
            }
            if let Some(f) = &filter {
                e(t.filter_nonterminals(|t, n| f.matches(t[n].label())))?;
            }
            if let Some(f) = &ids {
                let name = o.id_feature.as_ref().map(String::as_str).unwrap_or("id");
                t.project_ids(name, |t, n| n == t.root() || f.matches(t[n].label()));
            }
            if let Some(f) = &insertion {
                let label = o.label.as_ref().map(String::as_str).unwrap_or("UNK");
                e(t.insert_intermediate(|t, n| if f.matches(t[n].label()) { None } else { Some(label.to_string()) }))?;
            }
            if let Some(p) = &o.parent {
                e(t.annotate_parent_tag(p))?;
            }
            if out_f == "absolute" || out_f == "relative" {
                e(t.collapse_unary_chains("_"))?;
                if out_f == "absolute" {
                    e(t.annotate_absolute())?;
                } else {
                    e(t.annotate_relative())?;
                }
            }
            e(w.write_tree(&t))?;
            *done = out.0.borrow().len();
        }
        Ok(())
    }

    fn judge(&self) -> Result<String, String> {
        let (want, done, why) = self.compose();
        let r = self.run_tool()?;
        if self.brk == Break::ClosedPipe {
            if want.is_empty() {
                return Ok("nothing to write".into());
            }
            return if r.code == Some(0) || r.err.trim().is_empty() {
                Err(format!("the output can't be written, but the tool ends with {:?} and says {:?}", r.code, r.err))
            } else {
                Ok("unwritable output".into())
            };
        }
        let got = if self.io.out_file && self.brk != Break::Output {
            if !r.out.is_empty() {
                return Err(format!("unexpected standard output {:?}", String::from_utf8_lossy(&r.out)));
            }
            match (r.file, &why) {
                (Some(f), _) => f,
                (None, Some(_)) if want.is_empty() => vec![],
                (None, _) => return Err("no output file is written".into()),
            }
        } else {
            if r.file.is_some() {
                return Err("unexpected output file".into());
            }
            r.out
        };
        match why {
            None => {
                if r.code != Some(0) {
                    return Err(format!("exit status {:?}: {}", r.code, r.err));
                }
                if got != want {
                    return Err(format!(
                        "output\n{}\ninstead of\n{}",
                        String::from_utf8_lossy(&got),
                        String::from_utf8_lossy(&want)
                    ));
                }
                Ok(if want.is_empty() { "no trees" } else { "converted" }.into())
            }
            Some(why) => {
                if r.code == Some(0) {
                    return Err(format!("exit status 0, but: {}", why));
                }
                if r.err.trim().is_empty() {
                    return Err(format!("exit status {:?} without a message: {}", r.code, why));
                }
                if !got.starts_with(&want[..done]) || !want.starts_with(&got) {
                    return Err(format!(
                        "{}: output\n{}\ninstead of\n{}",
                        why,
                        String::from_utf8_lossy(&got),
                        String::from_utf8_lossy(&want[..done])
                    ));
                }
                let why: String = why.chars().take(40).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                Ok(format!("{}: {}", if done == 0 { "refused" } else { "trees before an error" }, why))
            }
        }
    }

    /// Without the sentences that the steps refuse, unless these are all.
    fn accepted(self) -> CliCase {
        if self.compose().2.is_none() {
            return self;
        }
        let mut c = self.clone();
        c.input.clear();
        if let Some(p) = c.pos.as_mut() {
            p.clear();
        }
        for (i, x) in self.input.iter().enumerate() {
            let mut one = self.clone_empty();
            one.input = vec![x.clone()];
            one.pos = self.pos.as_ref().map(|p| vec![p[i].clone()]);
            if one.compose().2.is_none() {
                c.input.push(x.clone());
                if let (Some(p), Some(q)) = (c.pos.as_mut(), one.pos) {
                    p.extend(q);
                }
            }
        }
        if c.input.is_empty() {
            self
        } else {
            c
        }
    }

    fn clone_empty(&self) -> CliCase {
        CliCase {
            in_f: self.in_f.clone(),
            out_f: self.out_f.clone(),
            multi: self.multi,
            io: self.io,
            brk: self.brk,
            o: self.o.clone(),
            input: vec![],
            pos: None,
            rev: self.rev,
        }
    }

    /// A smaller case that fails as well.
    fn shrink(&self) -> CliCase {
        for i in 0..self.input.len() {
            let mut c = self.clone();
            c.input = vec![self.input[i].clone()];
            if let Some(p) = &self.pos {
                match p.get(i) {
                    Some(p) => c.pos = Some(vec![p.clone()]),
                    None => c.pos = Some(vec![]),
                }
            }
            if c.judge().is_err() {
                return c;
            }
        }
        self.clone()
    }
}

impl Case for CliCase {
    fn show(&self) -> String {
        let o = &self.o;
        let mut s = format!(
            "from {}\nto {}\nmulti {}\ninfile {}\noutfile {}\nbreak {}\nreverse {}\ndummies {}\nprojectivize {}\nsec {}\n",
            quote(&self.in_f),
            quote(&self.out_f),
            self.multi,
            self.io.in_file,
            self.io.out_file,
            BREAKS.iter().find(|b| b.0 == self.brk).unwrap().1,
            self.rev,
            o.dummies,
            o.projectivize,
            o.sec
        );
        for (k, v) in [
            ("reattach", &o.reattach),
            ("filter", &o.filter),
            ("ids", &o.ids),
            ("idfeature", &o.id_feature),
            ("insertion", &o.insertion),
            ("label", &o.label),
            ("parent", &o.parent),
        ]
        .iter()
        {
            if let Some(v) = v {
                s.push_str(&format!("{} {}\n", k, quote(v)));
            }
        }
        for i in &self.input {
            s.push_str(&format!("input {}\n", quote(i)));
        }
        if let Some(p) = &self.pos {
            s.push_str("pos\n");
            for p in p {
                s.push_str(&format!("tags {}\n", quote(p)));
            }
        }
        s
    }
    fn parse(s: &str) -> Option<Self> {
        let b = |k: &str| field(s, k).map(|v| v == "true");
        let t = |k: &str| field(s, k).and_then(unquote);
        let all = |k: &str| -> Option<Vec<String>> {
            s.lines().filter_map(|l| l.strip_prefix(k)).map(unquote).collect()
        };
        Some(CliCase {
            in_f: t("from")?,
            out_f: t("to")?,
            multi: b("multi")?,
            io: Io { in_file: b("infile")?, out_file: b("outfile")? },
            brk: BREAKS.iter().find(|x| Some(x.1) == field(s, "break"))?.0,
            rev: b("reverse")?,
            o: Opts {
                dummies: b("dummies")?,
                projectivize: b("projectivize")?,
                sec: b("sec")?,
                reattach: t("reattach"),
                filter: t("filter"),
                ids: t("ids"),
                id_feature: t("idfeature"),
                insertion: t("insertion"),
                label: t("label"),
                parent: t("parent"),
            },
            input: all("input ")?,
            pos: if s.lines().any(|l| l == "pos") { Some(all("tags ")?) } else { None },
        })
    }
    fn run(&self, l: &mut Local) -> Verdict {
        l.count("transitions", self.input.len() as u64);
        let kind = self.judge()?;
        l.outcome(&kind);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// corpora

/// Sentences of a format with as many tags for each.
struct Corpus {
    name: &'static str,
    in_f: &'static str,
    multi: bool,
    input: Vec<String>,
    pos: Vec<String>,
}

const NTS: [&str; 4] = ["S", "NP", "PX", "DUMMY"];
const TAGS: [&str; 3] = ["N", "$,", "$."];

/// All shapes with all labels of nonterminals out of the first `labels`, terminals tagged in turn.
fn trees(n: usize, k: usize, contig: bool, labels: usize) -> Vec<M> {
    let mut v = Vec::new();
    let mut turn = 0;
    for m in gen::models(n, k, contig, &[Deco::Rich]) {
        let nts = m.nts();
        if nts.is_empty() {
            continue;
        }
        let free: Vec<_> = nts.iter().filter(|x| **x != m.root).cloned().collect();
        for c in 0..labels.pow(free.len() as u32) {
            let mut m = m.clone();
            let mut x = c;
            for f in &free {
                m.nodes.get_mut(f).unwrap().set_label(NTS[1..=labels][x % labels]);
                x /= labels;
            }
            let r = m.root;
            m.nodes.get_mut(&r).unwrap().set_label("S");
            for t in m.terms() {
                turn += 1;
                if let Kind::T { tag, .. } = &mut m.nodes.get_mut(&t).unwrap().kind {
                    *tag = TAGS[(turn * 7 / 4) % 3].to_string();
                }
            }
            for n in m.nodes.values_mut() {
                n.feats.clear();
            }
            v.push(m);
        }
    }
    v
}

/// Labels that are prefixes of others or look like something else, features and secondary edges.
fn odd_trees(ms: Vec<M>, negra: bool) -> Vec<M> {
    let nts = ["NP-SBJ", "NP", "Ä", "UNK", "VROOT", "S", "np", "N"];
    let tags = ["N", "$(", "NP", "Ä$", "$", "NP-SBJ", "n", "N+A", "n:x", "$(=", "NP_1"];
    let mut v = Vec::new();
    let mut turn = 0;
    for m in ms {
        for shift in 0..nts.len() {
            let mut m = m.clone();
            for (k, i) in m.nts().into_iter().enumerate() {
                m.nodes.get_mut(&i).unwrap().set_label(nts[(shift + 3 * k) % nts.len()]);
            }
            for i in m.terms() {
                turn += 1;
                if let Kind::T { tag, .. } = &mut m.nodes.get_mut(&i).unwrap().kind {
                    *tag = tags[(turn * 9 / 5) % tags.len()].to_string();
                }
            }
            for n in m.nodes.values_mut() {
                n.feats.remove("k");
                if !negra {
                    n.feats.clear();
                    n.edge = None;
                }
            }
            v.push(m);
        }
    }
    v
}

fn tags_for(n: usize, turn: usize) -> String {
    let tags = ["A", "$(", "B", "$"];
    let mut s: String = (0..n).map(|i| format!("{}\tx\t_\tC\t{}\t_\t_\t_\t_\t_\n", i + 1, tags[(i * 3 + turn) % 4])).collect();
    s.push('\n');
    s
}

fn conllx(m: &M, relative: bool) -> Option<String> {
    let (mut t, _) = build(B::Api, m).ok()?;
    guard(|| {
        t.collapse_unary_chains("_").ok()?;
        if relative {
            t.annotate_relative().ok()?;
        } else {
            t.annotate_absolute().ok()?;
        }
        Some(format!("{}\n\n", Sentence::from(&t)))
    })
    .ok()?
}

/// All sequences of encoded labels, of which many don't describe a tree as they stand.
fn sequences(relative: bool, n: usize) -> Vec<String> {
    let labs = if relative {
        ["NONE", "S", "NP+1", "PX+-1", "S+2~NP_PX"]
    } else {
        ["NONE~NP", "S+1", "NP+2", "PX+1~NP_PX", "PX+3"]
    };
    let mut v = Vec::new();
    for len in 1..=n {
        for c in 0..labs.len().pow(len as u32) {
            let mut x = c;
            let mut s = String::new();
            for i in 0..len {
                s.push_str(&format!(
                    "{}\tw{}\t_\t_\t{}\t{}:{}\t_\t_\t_\t_\n",
                    i + 1,
                    i,
                    TAGS[(i + c) % 3],
                    if relative { "rel_ancestor" } else { "abs_ancestor" },
                    labs[x % labs.len()]
                ));
                x /= labs.len();
            }
            s.push('\n');
            v.push(s);
        }
    }
    v
}

fn corpora(sh: &Shared) -> Vec<Corpus> {
    let mut v = Vec::new();
    let plain = trees(3, sh.pick(2, 3), true, 3);
    let dummies = trees(3, 3, true, 3);
    let any = trees(4, sh.pick(3, 4), false, 2);
    let crossing: Vec<M> = any.into_iter().filter(|m| !m.projective()).collect();
    let pos = |ms: &[M]| -> Vec<String> { ms.iter().enumerate().map(|(i, m)| tags_for(m.n(), i)).collect() };
    let lay = Layout { sep: 0, comment: false, order: 0, ids: 0 };
    {
        for f in BRACKETS.iter() {
            for multi in [false, true].iter() {
                let ms = if sh.quick() && (*f != Fmt::Simple || *multi) { &plain } else { &dummies };
                v.push(Corpus {
                    name: "bracketed trees",
                    in_f: f.name(),
                    multi: *multi,
                    input: ms.iter().map(|m| print_brackets(*f, m, if *multi { 3 } else { 0 }).trim_end().to_string() + "\n").collect(),
                    pos: pos(ms),
                });
            }
        }
    }
    let negra = |ms: &[M]| -> Vec<String> {
        ms.iter().enumerate().map(|(i, m)| print_negra(m, &(i + 1).to_string(), lay)).collect()
    };
    v.push(Corpus { name: "Negra trees", in_f: "negra", multi: false, input: negra(&dummies), pos: pos(&dummies) });
    v.push(Corpus { name: "discontinuous Negra trees", in_f: "negra", multi: false, input: negra(&crossing), pos: pos(&crossing) });
    let lone: Vec<M> = TAGS
        .iter()
        .map(|tag| {
            let mut m = gen::to_m(&Sh::L(0), Deco::Distinct);
            m.nodes.values_mut().for_each(|n| n.set_label(tag));
            m
        })
        .collect();
    {
        let f = &BRACKETS[0];
        let mut ms = lone.clone();
        ms.extend(plain.iter().take(3).cloned());
        v.push(Corpus {
            name: "lone words",
            in_f: f.name(),
            multi: false,
            input: ms.iter().map(|m| print_brackets(*f, m, 0).trim_end().to_string() + "\n").collect(),
            pos: pos(&ms),
        });
    }
    for relative in [false, true].iter() {
        let in_f = if *relative { "relative" } else { "absolute" };
        let mut input = Vec::new();
        let mut p = Vec::new();
        for (i, m) in dummies.iter().enumerate() {
            if let Some(s) = conllx(m, *relative) {
                input.push(s);
                p.push(tags_for(m.n(), i));
            }
        }
        v.push(Corpus { name: "encoded trees", in_f, multi: false, input, pos: p });
        let mut input = Vec::new();
        let mut p = Vec::new();
        for (i, s) in sequences(*relative, sh.pick(3, 4)).into_iter().enumerate() {
            let c = CliCase {
                in_f: in_f.into(),
                out_f: "simple".into(),
                multi: false,
                io: Io { in_file: true, out_file: false },
                brk: Break::None,
                o: Opts::default(),
                input: vec![s.clone()],
                pos: None,
                rev: false,
            };
            if c.compose().2.is_none() {
                p.push(tags_for(s.lines().filter(|l| !l.is_empty()).count(), i));
                input.push(s);
            }
        }
        v.push(Corpus { name: "all label sequences", in_f, multi: false, input, pos: p });
    }
    v
}

fn all_opts(thorough: bool) -> Vec<(Opts, bool)> {
    let s = |s: &str| Some(s.to_string());
    let mut v = Vec::new();
    let mut prefixes = vec![None, s("$")];
    let mut filters = vec![None, s("S NP\n")];
    let mut ids = vec![(None, None), (s("NP\nUNK\n"), None), (s("S\tPX  "), s("k"))];
    let mut ins = vec![(None, None), (s("NP"), None), (s(""), s("X"))];
    if thorough {
        prefixes.push(s(""));
        filters.push(s(""));
        filters.push(s("DUMMY\nX  PX"));
        ids.push((None, s("k")));
        ins.push((None, s("X")));
        ins.push((s("S DUMMY"), s("DUMMY")));
    }
    for dummies in [false, true].iter() {
        for p in 0..3 {
            for pos in [false, true].iter() {
                for r in &prefixes {
                    for f in &filters {
                        for (is, idf) in &ids {
                            for (insertion, label) in &ins {
                                for parent in [None, s("parent")].iter() {
                                    v.push((
                                        Opts {
                                            dummies: *dummies,
                                            projectivize: p > 0,
                                            sec: p == 2,
                                            reattach: r.clone(),
                                            filter: f.clone(),
                                            ids: is.clone(),
                                            id_feature: idf.clone(),
                                            insertion: insertion.clone(),
                                            label: label.clone(),
                                            parent: parent.clone(),
                                        },
                                        *pos,
                                    ));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// Corpora with labels that only differ a little, and options for them.
fn odd_corpora(sh: &Shared) -> (Vec<Corpus>, Vec<(Opts, bool)>) {
    let of = |k, contig| gen::models(3, k, contig, &[Deco::Rich]).into_iter().filter(|m| !m.nodes[&m.root].is_t()).collect::<Vec<_>>();
    let k = sh.pick(2, 3);
    let brackets = odd_trees(of(k, true), false);
    let mut negra = odd_trees(of(k, false), true);
    negra.extend(odd_trees(super::edit::with_secondary(&of(1, false)), true).into_iter().filter(|m| m.sec.iter().all(|s| !m.nodes[&s.src].is_t())));
    let pos = |ms: &[M]| -> Vec<String> { ms.iter().enumerate().map(|(i, m)| tags_for(m.n(), i)).collect() };
    let lay = Layout { sep: 1, comment: true, order: 0, ids: 0 };
    let cs = vec![
        Corpus {
            name: "trees with similar labels",
            in_f: "ptb",
            multi: true,
            input: brackets.iter().map(|m| print_brackets(Fmt::Ptb, m, 3).trim_end().to_string() + "\n").collect(),
            pos: pos(&brackets),
        },
        Corpus {
            name: "annotated Negra trees with similar labels",
            in_f: "negra",
            multi: false,
            input: negra.iter().enumerate().map(|(i, m)| print_negra(m, &(i * 7 + 1).to_string(), lay)).collect(),
            pos: pos(&negra),
        },
    ];
    let s = |s: &str| Some(s.to_string());
    let mut v = Vec::new();
    for sec in [false, true] {
        for reattach in [None, s(""), s("$("), s("Ä"), s("NP"), s("n"), s("N")] {
            for filter in [None, s(""), s("NP"), s("NP-SBJ\r\nÄ\r\n"), s("\n\nN S UNK")] {
                for ids in [None, s("NP-SBJ")] {
                    for insertion in [None, s("Ä NP"), s("VROOT\u{a0}UNK")] {
                        for parent in [None, s("Ä")] {
                            let o = Opts {
                                dummies: false,
                                projectivize: true,
                                sec,
                                reattach: reattach.clone(),
                                filter: filter.clone(),
                                id_feature: parent.clone(),
                                ids: ids.clone(),
                                label: insertion.as_ref().map(|_| "Ä|_".to_string()),
                                insertion: insertion.clone(),
                                parent,
                            };
                            v.push((o, v.len() % 5 == 0));
                        }
                    }
                }
            }
        }
    }
    (cs, v)
}

fn run_c01(sh: &Shared) {
    if !tool().is_file() {
        sh.harness_errors.lock().unwrap().push(format!("{} is missing", tool().display()));
        return;
    }
    let go = |c: &CliCase, l: &mut Local| {
        l.state(&c.show());
        if !l.case(c) {
            // report the smallest one first
            let s = c.shrink();
            let mut v = l.sh.violations.lock().unwrap();
            if let (Some(i), Err(m)) = (v.iter().position(|x| x.0 == c.show()), s.judge()) {
                v[i] = (s.show(), m);
            }
        }
    };
    let cs = corpora(sh);
    let opts = all_opts(!sh.quick());
    for c in &cs {
        sh.note(format!("corpus {}: {} {} sentences{}", c.name, c.input.len(), c.in_f, if c.multi { " over several lines" } else { "" }));
    }
    let ios: Vec<Io> = (0..4).map(|i| Io { in_file: i & 1 == 1, out_file: i & 2 == 2 }).collect();
    // every pair of formats with every set of options
    let n = cs.len() * OUT.len() * opts.len();
    sh.note(format!("phase options: {} corpora, {} output formats, {} sets of options", cs.len(), OUT.len(), opts.len()));
    sh.par(n, |i, l| {
        let c = &cs[i % cs.len()];
        let out_f = OUT[i / cs.len() % OUT.len()];
        let (o, pos) = &opts[i / cs.len() / OUT.len()];
        // these differ in little from the first one: each only with half of the options
        let k = i % cs.len();
        if l.sh.quick() && c.name == "bracketed trees" && k > 0 && (i / cs.len() / OUT.len() + k) % 2 == 0 {
            return;
        }
        go(
            &CliCase {
                in_f: c.in_f.into(),
                out_f: out_f.into(),
                multi: c.multi,
                io: ios[(i / 3) % 4],
                brk: Break::None,
                o: o.clone(),
                input: c.input.clone(),
                pos: if *pos { Some(c.pos.clone()) } else { None },
                rev: i % 2 == 1,
            }
            .accepted(),
            l,
        );
    });
    let (odd, odd_opts) = odd_corpora(sh);
    let n = odd.len() * OUT.len() * odd_opts.len();
    sh.note(format!("phase labels: {} corpora, {} output formats, {} sets of options", odd.len(), OUT.len(), odd_opts.len()));
    sh.par(n, |i, l| {
        let c = &odd[i % odd.len()];
        let (o, pos) = &odd_opts[i / odd.len() / OUT.len()];
        go(
            &CliCase {
                in_f: c.in_f.into(),
                out_f: OUT[i / odd.len() % OUT.len()].into(),
                multi: c.multi,
                io: ios[(i / 3) % 4],
                brk: Break::None,
                o: o.clone(),
                input: c.input.clone(),
                pos: if *pos { Some(c.pos.clone()) } else { None },
                rev: i % 2 == 1,
            }
            .accepted(),
            l,
        );
    });
    // every way to pass input and output, layouts and defaults
    let mut cases = Vec::new();
    for c in &cs {
        for out_f in OUT.iter() {
            for io in &ios {
                for multi in [false, true].iter() {
                    for p in [false, true].iter() {
                        let mut x = CliCase {
                            in_f: c.in_f.into(),
                            out_f: out_f.to_string(),
                            multi: *multi,
                            io: *io,
                            brk: Break::None,
                            o: Opts { projectivize: *p, ..Opts::default() },
                            input: c.input.clone(),
                            pos: None,
                            rev: *p,
                        };
                        cases.push(x.clone());
                        if x.in_f == "tueba" {
                            x.in_f = String::new();
                            cases.push(x.clone());
                        }
                        if x.out_f == "simple" {
                            x.out_f = String::new();
                            cases.push(x.clone());
                        }
                        // each sentence with the faults of the environment
                        x.input.truncate(3);
                        for b in [Break::Input, Break::Output, Break::ClosedPipe].iter() {
                            let mut y = x.clone();
                            y.brk = *b;
                            if *b == Break::ClosedPipe {
                                y.io.out_file = false;
                            }
                            cases.push(y);
                        }
                        for b in [Break::Filter, Break::Ids, Break::Insertion, Break::Pos].iter() {
                            let mut y = x.clone();
                            y.brk = *b;
                            y.o.filter = Some("S".into());
                            y.o.ids = Some("S".into());
                            y.o.insertion = Some("S".into());
                            y.pos = Some(c.pos[..3.min(c.pos.len())].to_vec());
                            cases.push(y);
                        }
                        let mut y = x.clone();
                        y.o.sec = true;
                        y.o.projectivize = false;
                        cases.push(y);
                    }
                }
            }
        }
    }
    sh.note(format!("phase transfer: {} calls", cases.len()));
    sh.par(cases.len(), |i, l| go(&cases[i], l));
    // a bad sentence at every position
    let mut cases = Vec::new();
    let bad_conllx = ["1\tw\t_\tN\t_\t_\t_\t_\t_\t_\n\n", "1\tw\t_\tN\t_\tabs_ancestor:x+y|rel_ancestor:x+y\t_\t_\t_\t_\n\n", "w\n\n", "1\tw\t_\t_\t_\tabs_ancestor:S+0|rel_ancestor:+1\t_\t_\t_\t_\n\n"];
    let bad_brackets = ["(S (N w)\n", "(S)\n", "w\n", ")\n", "(S (N w))) \n"];
    let bad_negra = ["#BOS 7\n#EOS 7\n", "#BOS 7\nw -- T -- -- 500\n#EOS 7\n", "#BOS 7\nw -- T -- -- 0\n", "#BOS 7\nw -- T -- 0\n#EOS 7\n"];
    for c in &cs {
        let bads: &[&str] = match c.in_f {
            "negra" => &bad_negra,
            "absolute" | "relative" => &bad_conllx,
            _ => &bad_brackets,
        };
        let good: Vec<String> = c.input.iter().step_by(1 + c.input.len() / 5).cloned().collect();
        let good_pos: Vec<String> = c.pos.iter().step_by(1 + c.input.len() / 5).cloned().collect();
        for (oi, out_f) in OUT.iter().enumerate() {
            for (ii, io) in ios.iter().enumerate() {
                for at in 0..=good.len() {
                    if sh.quick() && (at + oi) % 4 != ii {
                        continue;
                    }
                    let base = CliCase {
                        in_f: c.in_f.into(),
                        out_f: out_f.to_string(),
                        multi: c.multi,
                        io: *io,
                        brk: Break::None,
                        o: Opts { projectivize: true, ..Opts::default() },
                        input: good.clone(),
                        pos: None,
                        rev: false,
                    };
                    for b in bads {
                        let mut x = base.clone();
                        x.input.insert(at, b.to_string());
                        cases.push(x);
                    }
                    // tags: too few sentences, too few or too many tokens, no tag
                    let mut x = base.clone();
                    x.pos = Some(good_pos[..at.min(good_pos.len())].to_vec());
                    cases.push(x.clone());
                    if at < good_pos.len() {
                        let n = good_pos[at].lines().count() - 1;
                        let mut alts = vec![tags_for(n + 1, 0), good_pos[at].replace('$', "").replace("\tA\t", "\t_\t").replace("\tB\t", "\t_\t"), "x\n\n".to_string()];
                        if n > 1 {
                            alts.push(tags_for(n - 1, 0));
                        }
                        for a in alts {
                            let mut p = good_pos.clone();
                            p[at] = a;
                            x.pos = Some(p);
                            cases.push(x.clone());
                        }
                    }
                }
            }
        }
    }
    sh.note(format!("phase errors: {} calls", cases.len()));
    sh.par(cases.len(), |i, l| go(&cases[i], l));
    // output that a format can't express, at every position
    let lay = Layout { sep: 0, comment: false, order: 0, ids: 0 };
    let cross = gen::to_m(&Sh::N(vec![Sh::N(gen::leafs(vec![0, 2])), Sh::L(1)]), Deco::Distinct);
    let fine = gen::to_m(&Sh::N(gen::leafs(0..2)), Deco::Distinct);
    let mut cases = Vec::new();
    for len in 0..sh.pick(4, 5) {
        for bits in 0..1u32 << len {
            for out_f in OUT.iter() {
                for io in &ios {
                    for p in [false, true].iter() {
                        cases.push(CliCase {
                            in_f: "negra".into(),
                            out_f: out_f.to_string(),
                            multi: false,
                            io: *io,
                            brk: Break::None,
                            o: Opts { projectivize: *p, sec: *p, ..Opts::default() },
                            input: (0..len)
                                .map(|i| print_negra(if bits >> i & 1 == 1 { &cross } else { &fine }, &format!("{}", i + 1), lay))
                                .collect(),
                            pos: None,
                            rev: false,
                        });
                    }
                }
            }
        }
    }
    sh.note(format!("phase inexpressible trees: {} calls", cases.len()));
    sh.par(cases.len(), |i, l| go(&cases[i], l));
    debug_assert!(parse_negra(&["#BOS 1", "w -- T -- -- 0", "#EOS 1"]).tree.is_some());
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C01",
        run: run_c01,
        replay: replay_as::<CliCase>,
        what: "the real conversion tool called with every pair of formats and every set of options on corpora of all small trees, with every way of passing files and faults at every sentence; compared with the library's operations in the documented order",
    }]
}
