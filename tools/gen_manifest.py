#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
LTS = "explicit-state model checking of the real code: exhaustive exploration of all bounded edit histories, every step compared with an abstract tree model"
EXH = "bounded exhaustive checking of the real code against an executable reference model (all inputs and parameters within the bounds)"
TXT = "bounded exhaustive model checking: all texts and files over format tokens within the bounds, the real readers compared with a reference recogniser"
FLT = "exhaustive fault injection: every transfer script (short, interrupted, failed at each byte) within the bounds on the real readers and writers"
RT = "bounded exhaustive checking of round trips of the real readers and writers against reference printers and parsers"
N = {
 "T01": (LTS, "model_checking", "every history of public edits up to the bound from every small tree, plus single steps on larger shapes"),
 "T02": (LTS, "model_checking", "spans, gaps and projectivity of every node after every step of every bounded history, transformation, read and decode"),
 "T03": (LTS, "model_checking", "complete public view before and after every accepted edit compared with the model's effect"),
 "T04": (LTS, "model_checking", "every edit call with valid and invalid arguments; refusals change nothing and occur exactly when specified"),
 "T05": (EXH, "model_checking", "all queries on all nodes and pairs of every small tree, along every construction route"),
 "T06": (EXH, "model_checking", "all pairs of small trees and all single differences of them, along all construction routes"),
 "T07": (LTS, "model_checking", "every operation on every small tree with every bounded set of secondary edges, compared with the same tree without them"),
 "T08": (EXH, "model_checking", "all sets of positions up to the bound, all pairs of them, as spans of real trees"),
 "T09": (LTS, "model_checking", "every history of attribute operations up to the bound on terminals, nonterminals and both kinds of edges of a tree, and all pairs of short histories"),
 "T10": (LTS, "model_checking", "every assignment of edits to the nonterminals of every small tree, performed when a climb visits them, along every construction route"),
 "T11": (LTS, "model_checking", "every history of edits and transformations up to the bound, carried out several times from scratch with work on other trees in between, and its last step on both of two copies"),
 "M01": (EXH, "model_checking", "all small discontinuous trees, all construction routes, repeated with different hash seeds"),
 "M02": (EXH, "model_checking", "all small trees with unary chains, all labels and delimiters of the bound"),
 "M03": (EXH, "model_checking", "all small trees with all subsets of nonterminals to keep"),
 "M04": (EXH, "model_checking", "all small trees with all predicates on parents"),
 "M05": (EXH, "model_checking", "all small trees with all subsets of terminals and all attachment points; a watchdog decides termination"),
 "M06": (EXH, "model_checking", "all small trees with all numbers of tags"),
 "M07": (EXH, "model_checking", "all small trees with all subsets of matching nonterminals"),
 "E01": (EXH, "model_checking", "all small projective trees"),
 "E02": (EXH, "model_checking", "all small projective trees and their labels"),
 "E03": (EXH, "model_checking", "all label sequences up to the bound"),
 "E04": (RT, "model_checking", "all files of small trees and all malformed labels of the bound"),
 "E05": (EXH, "model_checking", "all small trees, all construction routes, all contents of the bound"),
 "F01": (RT, "model_checking", "all small trees, decorations, layouts and files of the bound"),
 "F02": (RT, "model_checking", "all small trees, contents and layouts of the bound"),
 "F03": (TXT, "model_checking", "all token sequences up to the bound and all single and double changes of valid sentences"),
 "F04": (TXT, "model_checking", "all arrangements of sentences, malformed sentences and fillers, all cuts and line breaks of the bound"),
 "F05": (RT, "model_checking", "all sequences of conversions between the formats for all small trees"),
 "F06": (FLT, "fault_enumeration", "every position and kind of fault for a set of files and tree sequences"),
 "F07": (LTS, "model_checking", "all histories of operations up to the bound, all reachable contents, all texts up to the bound, all subsets of a universe of labels"),
 "C01": (EXH, "model_checking", "the real binary with every pair of formats and every set of options on corpora of all small trees, with faults of files and transfers; the steps themselves are the library's, decided by the other properties"),
}
TRUST = " Trusted: the reference model in harness/src, the Rust standard library, petgraph, pest and the conllx crate. Nothing is claimed beyond the bounds that the evidence file lists."
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {
  "guard": "--cfg lumberjack_verif",
  "enable": "rustflags in harness/.cargo/config.toml, which run.sh builds with",
  "source_commits": ["afd9fe0"],
 },
 "checks": [
  {"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": n[0].upper() + n[1:] + "." + TRUST}
  for i, (t, lv, n) in N.items()],
 "not_applicable": [],
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
assert sorted(ids) == sorted(N), set(ids) ^ set(N)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
