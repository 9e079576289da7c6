#!/usr/bin/env python3
"""mkseed.py SPEC.py...: write /verif/seeded/<id>/ from a specification.

A specification defines ID, PROPERTY, EDITS = [(file, old, new)...], MAIN (body of the demonstration
program; `check!(cond, ..)` ends it with status 1) or TOOL (shell script using $tool), NEEDS, BREAKS."""
import difflib, json, os, runpy, stat, subprocess, sys

REPO = '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')

DEMO = r'''#!/bin/bash
# cwd: /repo. Exit 0 if the property held in this demonstration, nonzero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
'''
DEMO_MAIN = DEMO + r'''mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
lumberjack = { path = "$repo/lumberjack" }
petgraph = "0.4"
conllx = "0.11"
failure = "0.1"
END
cd "$work" && cargo build -q --offline --target-dir "$work/target" || exit 2
timeout 60 "$work/target/debug/demo"
'''
DEMO_TOOL = DEMO + r'''cargo build -q --offline --manifest-path "$repo/Cargo.toml" -p lumberjack-utils \
    --bin lumberjack-conversion --target-dir "$work/target" || exit 2
tool="$work/target/debug/lumberjack-conversion"
cd "$work" || exit 2
'''
HEAD = r'''#![allow(unused_imports, dead_code, unused_macros)]
use conllx::graph::Sentence;
use failure::Error;
use lumberjack::io::*;
use lumberjack::util::*;
use lumberjack::*;
use petgraph::prelude::{EdgeIndex, NodeIndex};
use std::io::{BufReader, Read, Write};

macro_rules! check {
    ($cond:expr, $($msg:tt)*) => {
        if !$cond {
            println!($($msg)*);
            std::process::exit(1);
        }
    };
}

fn simple(s: &str) -> Tree {
    PTBFormat::Simple.string_to_tree(s).unwrap()
}
fn tueba(s: &str) -> Tree {
    PTBFormat::TueBa.string_to_tree(s).unwrap()
}
fn negra(s: &str) -> Tree {
    NegraReader::new(BufReader::new(s.as_bytes())).next().unwrap().unwrap()
}
fn write_negra(t: &Tree) -> String {
    let mut out = Vec::new();
    NegraWriter::new(&mut out).write_tree(t).unwrap();
    String::from_utf8(out).unwrap()
}
fn nt(t: &Tree, label: &str) -> NodeIndex {
    t.nonterminals().find(|n| t[*n].label() == label).unwrap()
}
fn term(t: &Tree, form: &str) -> NodeIndex {
    t.terminals().find(|n| t[*n].terminal().unwrap().form() == form).unwrap()
}
/// positions dominated by a node, found by walking down
fn yield_of(t: &Tree, n: NodeIndex) -> Vec<usize> {
    if t[n].is_terminal() {
        return vec![t[n].span().start];
    }
    let mut v: Vec<usize> = t.children(n).flat_map(|(c, _)| yield_of(t, c)).collect();
    v.sort();
    v
}
/// every span is the yield and projectivity is the absence of gaps
fn spans_ok(t: &Tree) -> bool {
    let mut gaps = false;
    for n in t.graph().node_indices() {
        let y = yield_of(t, n);
        if t[n].span().into_iter().collect::<Vec<_>>() != y {
            return false;
        }
        gaps |= y[y.len() - 1] - y[0] + 1 != y.len();
    }
    t.is_projective() == !gaps
}
'''

for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(OUT, s['ID'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in s['EDITS']:
        src = files.get(f)
        if src is None:
            src = open(os.path.join(REPO, f)).read()
        assert src.count(old) == 1, (s['ID'], f, old, src.count(old))
        files[f] = src.replace(old, new)
    for f, new in files.items():
        old = open(os.path.join(REPO, f)).read()
        patch += 'diff --git a/%s b/%s\n' % (f, f)
        patch += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    if 'MAIN' in s:
        open(os.path.join(d, 'main.rs'), 'w').write(HEAD + '\nfn main() {\n' + s['MAIN'].strip('\n') + '\n}\n')
        demo = DEMO_MAIN
    else:
        demo = DEMO_TOOL + s['TOOL'].strip('\n') + '\n'
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(demo)
    os.chmod(p, 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.check_call(['git', '-C', REPO, 'apply', '--check', os.path.join(d, 'patch.diff')])
    print('wrote', d)
