#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
L = "lumberjack/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- tree editing
prop("T01", "A tree stays a well-formed constituency tree under every edit history",
  "After any sequence of public tree edits (insert, push, move and remove terminals, insert unary nodes above or below, remove nodes, reattach nodes, add and remove secondary edges), whether each edit was accepted or refused, the value is still a single rooted tree: every node except the root has exactly one primary parent, every node is reachable from the root, terminals have no children and every nonterminal has at least one. The terminals' sentence positions are exactly 0..n-1 without gaps or duplicates and n is what the tree reports as its number of terminals.",
  ["histories", "inputs"],
  "every finite history of public edit operations with any valid arguments, from every constructible tree (projective or discontinuous, unary chains, single-terminal trees)",
  "The unit tests run one or two edits on a handful of fixed trees; they cannot cover the combinations of operations (e.g. removing a terminal after moving one, reattaching below an own descendant).",
  [L+"tree.rs"],
  [("edge rewiring in every edit operation", L+"tree.rs: insert_terminal, push_terminal, move_terminal, insert_unary_above, insert_unary_below, remove_node, reattach_node"),
   ("terminal position renumbering", L+"tree.rs: compact_terminal_spans, move_terminal, insert_terminal")],
  ["Tree::graph, Tree::root, Tree::children, Tree::parent, Tree::terminals, Terminal::idx, Tree::n_terminals"],
  [("StableGraph + root + n_terminals", "the tree itself", L+"tree.rs: struct Tree")])
prop("T02", "Spans and projectivity always describe the actual yield",
  "At every point of every edit or transformation history, and for every tree produced by a reader or decoder, a node's span covers exactly the sentence positions of the terminals it dominates, its bounds are the first and one past the last of them, and it reports skipped positions exactly for the gaps (and none when there is no gap). A tree reports itself projective exactly when no node has a gap.",
  ["histories", "inputs"],
  "every node of every tree reachable by any history of edits, transformations, reads and decodes",
  "Spans and the discontinuity count are maintained incrementally by each operation; tests look at single operations on small, mostly projective trees, so stale spans on other nodes or a drifting count go unseen.",
  [L+"tree.rs", L+"span.rs", L+"node.rs", L+"tree_modification.rs", L+"io/negra.rs", L+"io/ptb.rs", L+"io/encode.rs"],
  [("incremental span maintenance", L+"tree.rs: reattach_primary, reset_nt_spans, projectivity_change"),
   ("span algebra", L+"span.rs: merge_spans, remove_indices, from_vec, extend")],
  ["Node::span, Span::contains/bounds/skips/n_indices/iteration, Node::continuity, Tree::is_projective"],
  [("num_discontinuous", "number of nodes with gaps", L+"tree.rs: struct Tree"), ("Span{start,end,skips}", "covered positions", L+"span.rs")])
prop("T03", "Every accepted edit has exactly its documented effect",
  "An accepted edit changes the tree exactly as documented and nothing else: the requested node, terminal or edge is inserted, moved, removed or reattached at the requested place; the returned handle or value is that node or edge; all other nodes keep their parents, labels, features, relative sentence order and handles. Edges created by an edit are unlabeled; existing edges keep their labels, and inserting a node above another leaves the lower node's edge label on the edge to it.",
  ["histories", "inputs"],
  "every accepted edit operation with any arguments in any reachable tree",
  "Tests compare one printed tree per operation; they never compare the complete state (all handles, orders, labels, edge labels) before and after, nor from states produced by other edits.",
  [L+"tree.rs"],
  [("edit operations", L+"tree.rs: insert_terminal, push_terminal, move_terminal, insert_unary_above, insert_unary_below, remove_node, reattach_node")],
  ["complete public view of the tree before and after each call, and the call's return value"])
prop("T04", "Edits that would break the tree are refused and change nothing",
  "Edits documented as returning an error (removing the last node, a branching root or the last terminal of a branch; reattaching to a terminal, to the node itself, below the node's own descendants, or the last child of another node; inserting below a terminal; pushing to a terminal root; removing a secondary edge that is absent or primary) are refused exactly in those cases. A refused edit leaves the tree observably identical to before the call, and the documented panics (out-of-range index, terminal as parent, moving a nonterminal) are raised exactly in their cases.",
  ["histories", "inputs"],
  "every edit call with every combination of node, edge and index arguments, in every reachable tree",
  "Refusal depends on the whole surrounding structure; the tests try a few refusals and do not compare the tree afterwards.",
  [L+"tree.rs"],
  [("precondition checks before mutation", L+"tree.rs: remove_nonterminal, remove_terminal, reattach_primary, reattach_secondary, insert_unary_below, push_terminal, remove_secondary_edge")],
  ["Result of each call; complete public view of the tree before and after"])
prop("T05", "All navigation queries describe the same tree",
  "Parent, children, siblings, sibling-relation, dominated-terminals, secondary parent/children, terminal and nonterminal listings and climbing from a node upwards always agree with one another and with the tree's actual primary and secondary edges. In particular two distinct nodes are siblings exactly when the same node immediately dominates both, and climbing visits exactly the ancestors from nearest to root, once each.",
  ["inputs", "histories"],
  "every pair of nodes in every constructible tree, including discontinuous ones and ones with secondary edges",
  "Tests query single nodes of single trees; several queries have no test at all.",
  [L+"tree.rs", L+"util.rs"],
  [("edge filtering by kind", L+"tree.rs: parent, children, secondary_parent, secondary_children, siblings, are_siblings, descendent_terminals"),
   ("Climber", L+"util.rs")],
  ["Tree::parent/children/siblings/are_siblings/descendent_terminals/terminals/nonterminals/secondary_*, util::Climber"])
prop("T06", "Tree equality is exactly sameness of the constituency tree",
  "Two trees compare equal if and only if they have the same structure with the same node labels, node features, spans, terminal forms, tags, lemmas, features and sentence order, and the same primary edge labels. The result does not depend on how, or in which order, the trees were built, nor on internal numbering, and treats absent and empty feature sets as the same.",
  ["inputs", "histories"],
  "every ordered pair of constructible trees; every pair of construction histories of one tree",
  "Tests compare a few pairs; equality must hold and fail correctly for all pairs, including single-terminal trees and trees differing in one attribute only.",
  [L+"tree.rs", L+"node.rs", L+"features.rs"],
  [("recursive comparison", L+"tree.rs: subtree_eq, PartialEq for Tree"), ("node comparison", L+"node.rs: PartialEq for Terminal, NonTerminal")],
  ["== on Tree values"])
prop("T07", "Secondary edges never influence the primary structure",
  "Adding, removing or carrying secondary edges, however they are placed, never changes any primary query, span, projectivity verdict, tree edit, transformation, encoding or bracketed output. Edits and transformations leave the secondary edges between surviving nodes unchanged, and a secondary edge disappears only when removed explicitly or when one of its end nodes is removed.",
  ["histories", "inputs"],
  "every placement of up to k secondary edges (any endpoints, labeled or not, added before or after other edges) in every tree, followed by any edit, transformation or output",
  "Only a few tests use secondary edges at all, and only with the Negra reader; everything traverses a shared edge list that mixes both kinds.",
  [L+"tree.rs", L+"tree_modification.rs", L+"io/encode.rs", L+"io/ptb.rs", L+"io/negra.rs", L+"util.rs"],
  [("primary/secondary filtering", L+"tree.rs: parent, children, GraphWrap"), ("reattach_secondary", L+"tree.rs")],
  ["the same operation on the tree with and without secondary edges"])
prop("T08", "Spans behave as the finite sets of positions they cover",
  "For every span of every tree, membership, iteration, number of positions, bounds and gaps agree with one set of positions; a span covers another exactly if its set includes the other's; and span ordering is a consistent order by first position, last position and number of positions covered.",
  ["inputs"],
  "every pair of spans over positions 0..k, continuous or not",
  "Tests check a few spans; the answers depend on an interplay of bounds and skipped indices that must be right for every pair.",
  [L+"span.rs"],
  [("Span set operations", L+"span.rs: contains, covers_span, n_indices, iteration, Ord")],
  ["Span::contains, covers_span, n_indices, bounds, skips, iteration, cmp"])

prop("T09", "Nodes and edges keep exactly the attributes they were given",
  "A terminal's form, tag and lemma, a nonterminal's label, a node's features and an edge's label are, through every accessor, the last values given to them: a setter returns the value it replaced and changes no other attribute, node or edge, and neither the structure nor any span. Printing a node or edge shows its current label (and form). A clone of a tree shares nothing with the original: changing one leaves the other as it was. Two nodes are equal exactly if they are of the same kind, cover the same positions and agree in label, form, lemma and features (having no features is the same as having an empty set of them); two edges are equal exactly if they agree in kind and label.",
  ["histories", "inputs"],
  "every finite history of setting labels, forms, lemmas, features and edge labels on the terminals, nonterminals and primary and secondary edges of a tree, through the node and through its inner value",
  "Tests set each attribute once on a fresh value and read it back through one accessor; a setter that drops, merges or shares state on a second use, or on the other kind of node, is not seen.",
  [L+"node.rs", L+"edge.rs", L+"features.rs", L+"tree.rs"],
  [("attribute setters and accessors", L+"node.rs: Node, NonTerminal, Terminal; "+L+"edge.rs: Edge"),
   ("equality of nodes", L+"node.rs: PartialEq for NonTerminal, Terminal")],
  ["Node/Terminal/NonTerminal accessors and setters, Edge::label/set_label/is_primary, Display, PartialEq, Clone"])
prop("T10", "Climbing visits the ancestors even while visited nodes are edited",
  "Climbing from a node yields its parent, that node's parent and so on up to the root, each once, and then nothing more. Editing the tree at the node just visited (removing it, inserting a node directly above or below it, reattaching it, relabelling it) or above the root neither ends nor diverts the climb: the next node is the one that immediately dominated the visited node when it was visited. Applying a closure along the paths of all terminals starts exactly one climb from every terminal, in the tree as earlier edits left it, and goes on to the next terminal as soon as the closure returns true.",
  ["histories", "inputs"],
  "every tree, every starting node and every edit by the caller at the node just visited, through single steps, steps with edges and the closure over all terminals",
  "Collapsing unary chains and the documented use of the closure remove nodes while climbing; the tests climb one unchanged tree.",
  [L+"util.rs", L+"tree.rs"],
  [("look-ahead of the climber", L+"util.rs: Climber::new, next, next_with_edge"),
   ("climbs from all terminals", L+"tree.rs: map_climber_path")],
  ["Climber::next, Climber::next_with_edge, arguments of the closure of Tree::map_climber_path"])
prop("T11", "Trees are values: copies are independent, equal histories give equal trees",
  "A clone of a tree equals it in everything observable, and from then on no edit or transformation of the one shows in the other. Trees made by the same sequence of constructions, edits and transformations are the same in everything observable - node handles, attributes, spans, query results, written, exported and encoded forms, refusals included - whatever hash seeds they were made with and whatever was done to other trees before and in between. Exempt is only the order of children and the numbering of edges once a projectivization has moved nodes, since the order of its moves is not fixed.",
  ["histories", "schedules"],
  "every sequence of constructions, edits and transformations, every point of it at which a copy is taken, every hash-map iteration order and every interleaving with work on other trees",
  "Batch conversions handle thousands of trees in one process and rely on reproducible results; each test looks at one fresh tree once.",
  [L+"tree.rs", L+"tree_modification.rs", L+"span.rs", L+"util.rs"],
  [("Tree, Node and Span are plain cloned data", L+"tree.rs: struct Tree (Clone)"), ("skipped positions in a hash set", L+"span.rs: Span::skips"),
   ("counters, maps and visit maps are per call", L+"tree.rs: project_ids, TerminalDescendents")],
  ["Clone for Tree, results of all edits, transformations, queries, writers and encoders"])
# ---------------------------------------------------------------- transformations
prop("M01", "Projectivization removes all crossings and nothing else",
  "Projectivizing any tree yields a projective tree over the same terminals in the same order with the same nonterminals, node labels, features and edge labels, in which every unmoved node keeps its parent and each moved constituent is reattached to the highest node that allows non-crossing edges; an already projective tree is left unchanged and reported as such. The reported moves name exactly the moved nodes with their previous parents and edge labels (so adding them back describes the original tree), and the outcome does not depend on hash seeds.",
  ["inputs", "schedules"],
  "every discontinuous tree (any number of overlapping gaps, nested discontinuities, unary chains) and every hash-map iteration order",
  "The tests projectivize the fixture treebank and compare its text; the order in which gaps are resolved comes from hash iteration and varies between runs.",
  [L+"tree_modification.rs", L+"tree.rs"],
  [("lowest-first re-attachment of gap material", L+"tree_modification.rs: Projectivize for Tree::projectivize"), ("reattach_node span maintenance", L+"tree.rs: reattach_primary")],
  ["Projectivize::projectivize: resulting tree and returned moves"])
prop("M02", "Collapsing and restoring unary chains are inverse",
  "Collapsing leaves no nonterminal with a single child except where none can be removed, removes exactly the upper nodes of each unary chain, records their labels bottom-up on the lowest node of the chain and keeps every other node, label and the terminals. For any non-empty delimiter none of whose characters occur in labels, restoring a collapsed tree reproduces the original structure and labels exactly (edge labels and features of the collapsed nodes excepted), also for discontinuous and single-terminal trees; without recorded chains restoring changes nothing.",
  ["inputs"],
  "every tree with unary chains of any length at any place (above terminals, inside, at the root) and every delimiter not occurring in labels",
  "Tests cover five hand-written trees and one delimiter.",
  [L+"tree_modification.rs"],
  [("UnaryChains for Tree", L+"tree_modification.rs: collapse_unary_chains, restore_unary_chains")],
  ["UnaryChains::collapse_unary_chains, restore_unary_chains"])
prop("M03", "Filtering keeps exactly the root, matched nodes and all terminals",
  "Filtering nonterminals removes exactly the non-root nonterminals that the predicate rejects; every surviving node's parent becomes its nearest surviving ancestor, and terminals, sentence order, labels and features of survivors are unchanged. The result does not depend on the order in which nodes are visited.",
  ["inputs"],
  "every tree (projective or not) and every subset of nonterminals as the set to keep",
  "Tests filter two trees by label; adjacent removed nodes, removed unary chains and discontinuous nodes are combinations they do not enumerate.",
  [L+"tree_modification.rs", L+"tree.rs"],
  [("filter_nonterminals", L+"tree_modification.rs"), ("remove_nonterminal", L+"tree.rs")],
  ["TreeOps::filter_nonterminals"])
prop("M04", "Intermediate nodes are inserted exactly above each run of matched terminals",
  "For each parent the predicate answers with a label (it sees the parent before its terminals are moved), every maximal run of its terminal children that are adjacent in the sentence gets exactly one new nonterminal with that label directly below the parent, holding exactly that run; parents answered with nothing, nonterminal children, the order of the sentence and all other nodes are unchanged. The result depends only on the tree, not on how it was built, and a terminal without a parent is an error.",
  ["inputs", "histories"],
  "every tree (any interleaving of terminal and nonterminal children, discontinuous ones, node numbering differing from sentence order) and every choice of matched parents",
  "Tests insert into two trees whose node numbering equals the sentence order; trees edited beforehand are not tried.",
  [L+"tree_modification.rs"],
  [("insert_intermediate with visit map over terminals", L+"tree_modification.rs")],
  ["TreeOps::insert_intermediate"])
prop("M05", "Reattaching terminals moves exactly the matched ones and always ends",
  "Reattaching matched terminals to a nonterminal puts exactly those terminals directly below it, keeps every other terminal's ancestors (apart from emptied ones), sentence order and labels, and removes exactly the nonterminals left without terminals, never the root or the attachment point. It terminates without panicking for every predicate, including ones that match every terminal or terminals that are only children.",
  ["inputs"],
  "every tree, every attachment nonterminal and every subset of terminals as matches",
  "Tests reattach in two trees to the root; only-child terminals under the root, chains at the attachment point and non-root attachment points are not reached.",
  [L+"tree_modification.rs", L+"tree.rs"],
  [("emptied-branch removal loop", L+"tree_modification.rs: reattach_terminals")],
  ["TreeOps::reattach_terminals"])
prop("M06", "POS and parent-tag annotation address terminals by sentence position",
  "Annotating n tags on a tree of n terminals gives the i-th word of the sentence the i-th tag and changes nothing else, and any other number of tags is an error. Annotating parent tags gives every terminal the label of its immediate parent under the requested feature, changes nothing else, and is an error if a terminal has no parent.",
  ["inputs", "histories"],
  "every tree however constructed (node numbering may differ from sentence order) and every tag sequence of length 0..n+1",
  "Tests annotate freshly parsed trees, whose internal order happens to equal the sentence order.",
  [L+"tree_modification.rs"],
  [("annotate_pos, annotate_parent_tag", L+"tree_modification.rs")],
  ["AnnotatePOS::annotate_pos, TreeOps::annotate_parent_tag"])
prop("M07", "Projections assign every terminal its nearest matching ancestor",
  "Projecting tags, ids or node indices gives each terminal the label, id or index of its nearest matching ancestor; terminals without one get no feature (tags, ids) or the root's index (indices). Ids are equal for two terminals exactly when they share that nearest ancestor and are numbered consecutively from zero; nothing but the requested feature changes.",
  ["inputs"],
  "every tree and every subset of nonterminals as the matching set",
  "Tests project on two trees with one predicate.",
  [L+"tree.rs", L+"util.rs"],
  [("project_tag_set, project_ids, project_nt_indices, map_climber_path", L+"tree.rs")],
  ["Tree::project_tag_set, project_ids, project_nt_indices, map_climber_path"])

# ---------------------------------------------------------------- encodings
prop("E01", "Absolute encoding of a projective tree decodes to the same tree",
  "For every projective tree without unary chains, and every projective tree after collapsing its unary chains, decoding its absolute-scale encoding over its terminals gives back the same tree (node labels, structure, terminals, recorded chains), and after restoring chains the original. The i-th label states the lowest common ancestor of words i and i+1 and the number of their common ancestors, and discontinuous trees are refused with an error.",
  ["inputs"],
  "every projective tree shape and labeling within the bound, with unary chains anywhere",
  "Tests round-trip the fixture treebank; depth changes between neighbouring words have infinitely many combinations (large drops and rises, right-branching, root-attached words).",
  [L+"io/encode.rs", L+"tree_modification.rs"],
  [("encode_absolute / get_common", L+"io/encode.rs"), ("Decode for Tree", L+"io/encode.rs: decode")],
  ["Encode::encode_absolute, Decode::decode, UnaryChains"])
prop("E02", "Relative and absolute encodings carry the same information",
  "For every projective tree the relative encoding converts to exactly its absolute encoding without needing repair, the absolute encoding converts to exactly the relative one, and the labels annotated as features print exactly those encodings. The textual form of every label parses back to the same label (`+` is reserved: it separates a label from its number).",
  ["inputs"],
  "every projective tree within the bound and every sequence of absolute labels within the bound",
  "Tests convert three short sequences.",
  [L+"io/encode.rs"],
  [("encode_relative, annotate_relative, annotate_absolute, From<AbsoluteEncoding>, try_from_relative", L+"io/encode.rs")],
  ["Encode::encode_relative, annotate_*, AbsoluteEncoding::try_from_relative, RelativeEncoding::from"])
prop("E03", "Every label sequence decodes to a well-formed tree",
  "Every non-empty sequence of absolute labels with positive counts, one per terminal, decodes without panicking to a well-formed projective tree with exactly those terminals in order, in which words i and i+1 have the stated number of common ancestors and their lowest one carries the stated label (the last statement about a node wins, unmentioned nodes are dummies). Relative sequences that leave the tree are reported as errors exactly when a running count drops below one, and repairing replaces exactly those counts by two. Removing dummies from any tree (decoded or not, discontinuous, with secondary edges or features, as it is or after edits) removes exactly the nonterminals labeled DUMMY except a branching root, joins their children to the next node above that stays and leaves everything else as it is; words tagged DUMMY and nodes with similar labels stay.",
  ["inputs"],
  "every sequence of absolute or relative labels up to the bound, including inconsistent ones as a tagger would predict; every bounded tree with every subset of its nonterminals as dummies",
  "Decoding must accept arbitrary predicted sequences; tests decode three of them.",
  [L+"io/encode.rs"],
  [("decode insertion of dummy nodes", L+"io/encode.rs: decode"), ("RelativeToAbsoluteError::fix", L+"io/encode.rs"), ("remove_dummy_nodes", L+"io/encode.rs")],
  ["Decode::decode, Decode::remove_dummy_nodes, AbsoluteEncoding::try_from_relative, ConversionResult"])
prop("E04", "CoNLL-X files with encoded trees read back as the same trees",
  "Collapsing unary chains, annotating the absolute or relative encoding, writing the tree as CoNLL-X text, reading that text and reconstructing gives a tree with the same structure, node labels, forms and tags, for any number of sentences in one file. Reading any sentence gives what its labels decode to, where NONE, with or without a chain, is no label wherever it stands. Sentences with missing, incomplete or malformed labels, or with no tokens, are reported as errors and never panic.",
  ["inputs"],
  "every projective tree within the bound, in files of several sentences, and every malformed label over a small alphabet",
  "Tests convert the fixture treebank in memory, never through text, and no malformed sentence is read.",
  [L+"io/conllx.rs", L+"io/encode.rs"],
  [("TryFromConllx for Tree", L+"io/conllx.rs"), ("annotate_absolute, annotate_relative", L+"io/encode.rs")],
  ["WriteTree for conllx Writer, TryFromConllx"])
prop("E05", "CoNLL-X export writes one faithful token per terminal",
  "Converting a tree to CoNLL-X gives exactly one token per terminal in sentence order with the terminal's form, lemma, tag and features (absent when it has none), no matter how the tree was built or whether it is discontinuous. The consuming, borrowing and text-writing conversions agree, and the borrowing ones leave the tree unchanged.",
  ["inputs", "histories"],
  "every tree within the bound including ones whose node numbering differs from sentence order, with any combination of lemma and features",
  "Tests convert one or two trees with node numbering equal to sentence order.",
  [L+"io/conllx.rs", L+"features.rs"],
  [("From<Tree>/From<&Tree> for Sentence, From<&Terminal> for Token", L+"io/conllx.rs")],
  ["ToConllx::to_conllx, Sentence::from, WriteTree"])

# ---------------------------------------------------------------- formats
prop("F01", "Negra export round-trips every tree",
  "Writing any tree whose root is a nonterminal in Negra export format and reading it back gives an equal tree: same structure (also discontinuous), node labels and annotations, primary edge labels, secondary edges (at most one per node), forms, lemmas, tags, morphology, sentence id and metadata, the root being labeled VROOT. This holds for any number of trees in one file and any field lengths; a tree consisting of a single terminal is written so that it reads back as that terminal below the root. Contents the format has no notation for are excepted (empty fields, whitespace, forms starting with '#', '--' for anything but absence, '=' in nonterminal labels, secondary edge labels starting with '%', sentence ids that are not plain numbers).",
  ["inputs"],
  "every tree within the bound with every combination of present and absent optional fields, field lengths around every column width, and any number of nodes",
  "Tests round-trip the fixture treebank, whose field contents, lengths and shapes are a small sample.",
  [L+"io/negra.rs"],
  [("NegraWriter (id assignment, padding)", L+"io/negra.rs: write_tree, pad, get_parent_edge"), ("NegraReader/Builder", L+"io/negra.rs")],
  ["NegraWriter::write_tree, NegraReader::next"])
prop("F02", "Bracketed output reads back as the same tree",
  "Writing any projective tree in simple, PTB or TüBa bracketed format and reading it back in the same format gives the same structure, forms, tags and node labels, plus node annotations (PTB, TüBa) and edge labels (TüBa); what is read prints identically again. This holds for every content the format has a notation for (no brackets or whitespace; no delimiter of the format inside of labels that take annotations). Discontinuous trees are refused with an error instead of being written in the wrong word order.",
  ["inputs"],
  "every projective tree within the bound, every combination of labels, annotations and edge labels the format can carry, for all three formats",
  "Tests round-trip fixture lines of one format and a few hand-written strings; special tags such as -NONE- and -LRB- or chained annotations are not among them.",
  [L+"io/ptb.rs"],
  [("tree_to_string / format_sub_tree", L+"io/ptb.rs"), ("string_to_tree / process_label", L+"io/ptb.rs"), ("grammar", L+"io/ptb.pest")],
  ["PTBFormat::tree_to_string, PTBFormat::string_to_tree, PTBWriter"])
prop("F03", "Readers answer every input with well-formed trees or errors",
  "For every input text, the Negra and bracket readers neither panic nor hang; every tree they yield is well formed with correct spans. Input that does not describe exactly one rooted tree over its terminals (missing or duplicate or unattached nodes, cycles, unknown parents, missing fields, mismatched or missing sentence markers, unbalanced or trailing brackets, no terminals) is answered with an error and never with a tree, and the order of nonterminal lines in a Negra sentence never changes the tree that is read (a line before all lines of its children may be refused).",
  ["inputs"],
  "every text up to the bound over an alphabet of format tokens, and every line-level mutation (drop, duplicate, swap, retarget, truncate) of valid sentences",
  "Tests feed about ten malformed samples; the space of malformed input is open-ended and its effects are structural.",
  [L+"io/negra.rs", L+"io/ptb.rs", L+"io/ptb.pest"],
  [("Builder validation", L+"io/negra.rs: try_into_tree, process_nonterminal_line, process_terminal_line"), ("PTB grammar and parse_value", L+"io/ptb.rs")],
  ["NegraReader::next, PTBReader::next, PTBFormat::string_to_tree"])
prop("F04", "Readers deliver every sentence of a file once, in order",
  "Reading a file of k sentences yields exactly k items, the i-th describing the i-th sentence, independent of comments, lines between sentences, blank lines (multi-line and Negra input), line endings, final newline, and whether a bracketed tree is on one line or broken at any whitespace in multi-line mode. A malformed or cut-off sentence produces an error for itself rather than silently vanishing, and sentences before it are delivered; bracketed sentences after it are delivered too wherever its end can be recognised (each line for one tree per line, balanced or surplus closing brackets otherwise), and so are Negra sentences, unless they directly follow one that breaks off without a malformed line or an end marker.",
  ["inputs", "histories"],
  "every arrangement of up to k sentences with fillers between them, every line break position, every truncation point",
  "Tests read well-formed fixture files; framing errors need particular placements of comments, blank lines, breaks and truncations.",
  [L+"io/negra.rs", L+"io/ptb.rs"],
  [("NegraReader::next framing", L+"io/negra.rs"), ("PTBReader::next buffering and bracket counting", L+"io/ptb.rs")],
  ["NegraReader and PTBReader as iterators"])
prop("F05", "The formats agree on one tree",
  "Expressing the same projective tree in Negra, TüBa, PTB and simple format and reading each gives trees with the same structure, labels, forms and tags, and converting between formats in any order loses nothing both formats can carry.",
  ["inputs"],
  "every projective tree within the bound and every pair and triple of formats",
  "Tests convert the fixture treebank between two formats.",
  [L+"io/negra.rs", L+"io/ptb.rs", L+"io/encode.rs", L+"io/conllx.rs"],
  [("readers and writers of all formats", L+"io/")],
  ["string_to_tree, tree_to_string, NegraReader, NegraWriter"])
prop("F06", "I/O failures and partial transfers never corrupt or hide data",
  "However the underlying reader or writer splits, interrupts or fails its transfers, readers yield the same trees as from one contiguous buffer up to a failure and report the failure as an error, and writers produce the same bytes or return an error: a write reported as successful has been passed to the sink completely. No transfer behaviour causes a panic, a hang, or a wrong tree before the failure is reported.",
  ["fault_sequences", "inputs"],
  "every position of an error, interruption, zero-length or short transfer in the sequence of read or write calls, for every reader and writer",
  "The tests only use in-memory buffers and files that never fail.",
  [L+"io/negra.rs", L+"io/ptb.rs", L+"io/conllx.rs"],
  [("error propagation from lines() and writeln!", L+"io/negra.rs, "+L+"io/ptb.rs")],
  ["NegraReader, PTBReader over a faulty Read; NegraWriter, PTBWriter, conllx Writer over a faulty Write"])
prop("F07", "Feature and label sets behave as maps and sets",
  "A feature set behaves as a map from key to optional value under every sequence of inserts, removals and lookups, with the documented return values; printing and parsing are inverse for non-empty keys without '|' and ':' and values without '|'. A positive label set matches exactly its members, a negative one exactly the rest.",
  ["inputs", "histories"],
  "every operation sequence up to the bound over a small key/value alphabet including empty and missing values and values containing ':'",
  "Tests use one feature string.",
  [L+"features.rs", L+"util.rs"],
  [("Features", L+"features.rs"), ("LabelSet::matches", L+"util.rs")],
  ["Features, LabelSet"])
# ---------------------------------------------------------------- tool
prop("C01", "The conversion tool applies exactly the requested steps in documented order",
  "For every combination of input format, output format and options, the conversion tool's output is, for each input tree in order, what the library produces by applying the requested steps in this order: remove dummies, projectivize (optionally recording moved edges as secondary edges labeled np or np_<label>), annotate POS, reattach by tag prefix to the root, filter (keeping the listed labels), annotate ids (of the listed labels, root included), insert intermediate nodes (above terminals whose parents are not listed), annotate parent tags, encode. Options not given have no effect, and unreadable input, impossible output or missing POS annotations end with an error message and a non-zero exit status, after all preceding trees were written.",
  ["configurations", "inputs"],
  "every pair of formats with every subset of options (and both ways of passing input and output) over corpora that make the steps' order observable",
  "One end-to-end run with one option is tested; the options interact.",
  ["lumberjack-utils/src/bin/lumberjack-conversion.rs", L+"tree_modification.rs"],
  [("main loop", "lumberjack-utils/src/bin/lumberjack-conversion.rs: main, get_reader, get_writer")],
  ["stdout / output file, stderr and exit status of lumberjack-conversion"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
