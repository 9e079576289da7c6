From 408df11707f1da01de1591d4ec705c6ecdd7b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 01/27] fix: remove terminal before recalculating positions and
 spans

Tree::remove_node on a terminal renumbered the sentence and reset spans while
the terminal was still attached, leaving gaps in the positions and stale spans.
---
 lumberjack/src/tree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..cf70a5a 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,12 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        // the terminal has to be removed before spans are recalculated
+        let node = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(node)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From 9a9517e2a1251d28e9887d01780fca1176d39450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 02/27] fix: count unary nodes inserted at discontinuous nodes
 as discontinuous

insert_unary_above/below copied a discontinuous span without counting the new
node, so is_projective() became wrong and later removals underflowed.
---
 lumberjack/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index cf70a5a..bc260d1 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,6 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
@@ -288,6 +291,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
         self.graph
-- 
2.43.0


From 5d0ba8154a37d9e4a41f5a47d7dab3b4055618e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/27] fix: update spans of all former ancestors when
 reattaching a node

reattach_node only removed the reattached positions from the old ancestors if
the new parent dominated the old one; otherwise they kept stale spans.
---
 lumberjack/src/tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index bc260d1..ee6d0da 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -608,25 +608,25 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes that dominate the child after reattachment
+        let mut new_path = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            new_path.push(node);
+        }
+        // nodes between the child and the lowest node on the new path don't cover the child anymore
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if new_path.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From 62fbbf916f527222b73df58895a3730e54901a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/27] fix: refuse to reattach a node below its own
 descendants

Reattaching below a dominated node detached the subtree from the root and
created a cycle.
---
 lumberjack/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index ee6d0da..a30e4e1 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -342,6 +342,8 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is the node itself or dominated by it through primary edges, unless `edge`
+    ///     is a secondary edge.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -612,6 +614,9 @@ impl Tree {
         let mut new_path = vec![new_parent];
         let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
+            if node == child {
+                return Err(format_err!("New parent is dominated by the node."));
+            }
             new_path.push(node);
         }
         // nodes between the child and the lowest node on the new path don't cover the child anymore
-- 
2.43.0


From cc13f7a0bfaa99e2c62da7bbdf908dc2a9e2967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 05/27] fix: compare parent nodes only in are_siblings

The incoming edges of distinct nodes always differ, so are_siblings was false
for every pair of distinct nodes.
---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a30e4e1..2e4c0fd 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -402,7 +402,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 34a3bb528338a1445e02295db9350b6901a6ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 06/27] fix: return None when removing an absent secondary edge

remove_secondary_edge panicked for edges that are not in the graph although it
is documented to return None.
---
 lumberjack/src/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 2e4c0fd..dd25e5d 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -134,10 +134,9 @@ impl Tree {
     ///
     /// Returns `None` if the edge is not present in the graph.
     pub fn remove_secondary_edge(&mut self, edge: EdgeIndex) -> Option<Edge> {
-        if !self[edge].is_primary() {
-            self.graph.remove_edge(edge)
-        } else {
-            None
+        match self.graph.edge_weight(edge) {
+            Some(Edge::Secondary(_)) => self.graph.remove_edge(edge),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 917b8aec0f78b9bb16c441becec3fc1deea67dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 07/27] fix: compare terminal forms and single-node roots in
 equality

Terminals with different forms were equal, and trees consisting of a single
terminal were equal regardless of that terminal.
---
 lumberjack/src/node.rs | 6 +++++-
 lumberjack/src/tree.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index dd25e5d..e0c5203 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -820,6 +820,10 @@ impl PartialEq for Tree {
             return false;
         };
 
+        if self[self.root()] != other[other.root()] {
+            return false;
+        }
+
         subtree_eq(self.root(), self, other.root(), other)
     }
 }
-- 
2.43.0


From fb9c54c1d05fd9cbe8dc835d1e4b91b203c95cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 08/27] fix: mark the first terminal of a run as visited in
 insert_intermediate

If terminals are not stored in sentence order, the first terminal of a run was
visited again and received a second intermediate node.
---
 lumberjack/src/tree_modification.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..0107528 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -177,6 +177,7 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From 870734fb18cdb408c2951b5ea7e4cc0c4374f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 09/27] fix: end reattach_terminals at the root and at the
 attachment point

The loop never ended if the terminal was the only child of the root or of the
attachment point, and otherwise removed ancestors above the attachment point.
---
 lumberjack/src/tree_modification.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 0107528..d86eb53 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -222,16 +222,19 @@ impl TreeOps for Tree {
 
         for terminal in terminals {
             if match_fn(&self, terminal) {
-                let mut climber = Climber::new(terminal, self);
-                while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
-                            self.remove_node(parent).unwrap();
-                        }
+                // remove nodes which are left without terminals after reattachment
+                while let Some((parent, _)) = self.parent(terminal) {
+                    if parent == self.root()
+                        || parent == attachment
+                        || self.siblings(terminal).count() != 0
+                    {
+                        break;
                     }
+                    self.remove_node(parent).unwrap();
+                }
+                if let Some((_, edge)) = self.parent(terminal) {
+                    self.reattach_node(attachment, edge).unwrap();
                 }
-                let (_, edge) = self.parent(terminal).unwrap();
-                self.reattach_node(attachment, edge).unwrap();
             }
         }
         self.reset_nt_spans();
-- 
2.43.0


From a90f35a645529284f7633af6ce9300ab1238c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/27] fix: annotate POS tags in sentence order

Tags were assigned in order of node indices which differs from the order of the
sentence in modified trees.
---
 lumberjack/src/tree_modification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index d86eb53..0bb80e8 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,8 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From adc344facefcceba19847ccb95165d769e2e1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 11/27] fix: reject Negra sentences that don't describe a tree

Sentences without terminals and secondary edges from unknown nodes caused
panics. Nonterminals attached twice, attached roots, cycles and unattached nodes
were read as broken trees, and nonterminals listed before their descendants got
wrong spans.
---
 lumberjack/src/io/negra.rs | 63 ++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..ba590d4 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -1,12 +1,13 @@
-use std::collections::{hash_map::Entry, HashMap, VecDeque};
+use std::collections::{hash_map::Entry, HashMap, HashSet, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
+use petgraph::prelude::{Dfs, NodeIndex, StableGraph};
 use petgraph::visit::{VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
-use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
+use crate::tree::GraphWrap;
+use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
 ///
@@ -82,8 +83,8 @@ struct Builder {
     n_terminals: usize,
     sentence_id: String,
     finished_terminals: bool,
-    num_non_projective: usize,
     processed_nts: usize,
+    attached: HashSet<usize>,
     sec_edges: Vec<(usize, String, NodeIndex)>,
 }
 
@@ -118,8 +119,8 @@ impl Builder {
             sentence_id: bos_id.to_string(),
             finished_terminals: false,
             n_terminals: 0,
-            num_non_projective: 0,
             processed_nts: 1,
+            attached: HashSet::new(),
             sec_edges: Vec::new(),
         })
     }
@@ -129,6 +130,9 @@ impl Builder {
     ///   * panics if the footer doesn't start with `#EOS`.
     ///   * returns `Err` if the sentence id doesn't match.
     ///   * returns `Err` if not all NonTerminals were processed.
+    ///   * returns `Err` if the sentence has no terminals.
+    ///   * returns `Err` if a secondary edge refers to an unknown node.
+    ///   * returns `Err` if not all nodes are dominated by the root.
     fn try_into_tree(mut self, footer: &str) -> Result<Tree, Error> {
         assert!(
             footer.starts_with("#EOS"),
@@ -144,25 +148,34 @@ impl Builder {
                 eos_id
             ));
         }
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source = *self
+                .nt_indices
+                .get(&source)
+                .ok_or_else(|| format_err!("Secondary edge from unknown node: {}", source))?;
+            self.graph
+                .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
-        self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
-            self.graph,
-            self.n_terminals,
-            root,
-            self.num_non_projective,
-        ))
+        let mut n_dominated = 0;
+        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
+        while dfs.next(GraphWrap::new(&self.graph)).is_some() {
+            n_dominated += 1;
+        }
+        if n_dominated != self.graph.node_count() {
+            return Err(format_err!("Not all nodes are dominated by the root."));
+        }
+        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
+        // spans can only be determined after all nodes were attached
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
@@ -179,6 +192,7 @@ impl Builder {
     /// Returns Err if:
     ///   * No terminals were added yet.
     ///   * Parts are missing.
+    ///   * The NonTerminal is the root or was already processed.
     fn process_nonterminal_line(&mut self, line: &str) -> Result<(), Error> {
         if self.n_terminals == 0 {
             return Err(format_err!("Tree without Terminal nodes."));
@@ -195,6 +209,9 @@ impl Builder {
             .nt_indices
             .get(&self_id)
             .ok_or_else(|| format_err!("Nonterminal without children."))?;
+        if self_id == 0 || !self.attached.insert(self_id) {
+            return Err(format_err!("Nonterminal can't be attached: {}", self_id));
+        }
         read_required_string_field(parts.next())?;
 
         let mut label_parts = read_required_string_field(parts.next())?.split('=');
@@ -209,18 +226,6 @@ impl Builder {
         read_required_string_field(parts.next())?;
 
         self.process_edges(self_idx, parts)?;
-
-        let coverage = self
-            .graph
-            .edges_directed(self_idx, Direction::Outgoing)
-            .filter(|e| e.weight().is_primary())
-            .flat_map(|e| self.graph[e.target()].span().into_iter())
-            .collect();
-        let span = Span::from_vec(coverage)?;
-        if span.skips().is_some() {
-            self.num_non_projective += 1;
-        }
-        self.graph[self_idx].set_span(span)?;
         Ok(())
     }
 
-- 
2.43.0


From 44ac6a47d908bc08ea5bad2b218920e4ad56cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 12/27] fix: report a Negra sentence without #EOS at the end of
 the input

The reader silently dropped a sentence that was cut off by the end of the input
although violations of #BOS -> #EOS are documented as errors.
---
 lumberjack/src/io/negra.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index ba590d4..c6dc222 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -72,7 +72,8 @@ where
                 }
             }
         }
-        None
+        // input ended inside of a sentence
+        cur.map(|_| Err(format_err!("Missing #EOS at the end of the input.")))
     }
 }
 
-- 
2.43.0


From 3f936e4948167ed38c8eedf15f7d606e6955f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 13/27] fix: read unlabeled secondary edges from Negra as
 unlabeled

The writer prints '--' for secondary edges without label, the reader returned
it as the label.
---
 lumberjack/src/io/negra.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index c6dc222..2c6e6ee 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -86,7 +86,7 @@ struct Builder {
     finished_terminals: bool,
     processed_nts: usize,
     attached: HashSet<usize>,
-    sec_edges: Vec<(usize, String, NodeIndex)>,
+    sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
 
 impl Builder {
@@ -158,7 +158,7 @@ impl Builder {
                 .get(&source)
                 .ok_or_else(|| format_err!("Secondary edge from unknown node: {}", source))?;
             self.graph
-                .add_edge(source, target, Edge::Secondary(Some(label)));
+                .add_edge(source, target, Edge::Secondary(label));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
@@ -282,7 +282,12 @@ impl Builder {
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
-            self.sec_edges.push((id, label.to_string(), node_idx));
+            let label = if label == "--" {
+                None
+            } else {
+                Some(label.to_string())
+            };
+            self.sec_edges.push((id, label, node_idx));
         }
         Ok(())
     }
-- 
2.43.0


From 27261c6c2bea74dc4e05cf034f0fe6660192e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 14/27] fix: write trees consisting of a single terminal in
 Negra format

NegraWriter panicked on terminals without parent.
---
 lumberjack/src/io/negra.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 2c6e6ee..fae5461 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -401,10 +401,15 @@ impl<W> NegraWriter<W> {
 
     /// Get the Negra String representation for edge and parent ID.
     fn get_parent_edge(idx: NodeIndex, tree: &Tree, id_map: &HashMap<NodeIndex, String>) -> String {
-        let (parent, edge) = tree.parent(idx).unwrap();
-        let mut edge_rep = tree[edge].label().unwrap_or_else(|| "--").to_string();
+        // a terminal without parent is the only node of the tree and gets attached to the virtual root
+        let (mut edge_rep, id) = match tree.parent(idx) {
+            Some((parent, edge)) => (
+                tree[edge].label().unwrap_or_else(|| "--").to_string(),
+                id_map.get(&parent).unwrap().as_str(),
+            ),
+            None => ("--".to_string(), "0"),
+        };
         edge_rep.push_str(&Self::pad(edge_rep.len(), 8));
-        let id = id_map.get(&parent).unwrap();
         edge_rep.push_str(id);
         if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {
             edge_rep.push_str(&Self::pad(id.len(), 8));
-- 
2.43.0


From 45538c1c905895026c38a9081e85153648a2b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 15/27] fix: strip the delimiter from PTB annotations

The annotation was read as '-annotation' instead of 'annotation' and printed
with a doubled delimiter.
---
 lumberjack/src/io/ptb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..90a278c 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -240,7 +240,7 @@ impl PTBFormat {
             match self {
                 PTBFormat::PTB => {
                     if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
+                        Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
                     }
-- 
2.43.0


From 2ca7f7355b3c41a9d70ed5e4d52540267dd39ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 16/27] fix: don't split part-of-speech tags in PTB format

Tags like -NONE- or -LRB- were read as empty tags, which can't be printed and
read again.
---
 lumberjack/src/io/ptb.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 90a278c..09da9d2 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -215,7 +215,14 @@ impl PTBFormat {
     ) -> Result<(Option<&'a str>, &'a str, &'a str), Error> {
         let mut pairs = pair.into_inner();
         let pos = pairs.next().unwrap();
-        let (tag, edge, _) = self.process_label(pos)?;
+        let (tag, edge) = match self {
+            // part-of-speech tags are not annotated in PTB format, but can contain the delimiter
+            PTBFormat::PTB => (pos.as_str(), None),
+            _ => {
+                let (tag, edge, _) = self.process_label(pos)?;
+                (tag, edge)
+            }
+        };
 
         let form = pairs.next().unwrap();
         if let Rule::terminal = form.as_rule() {
-- 
2.43.0


From 47c5ec5bb47dccd766b69959dc1a89196213ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 17/27] fix: frame multi-line bracketed trees correctly

Excess closing brackets caused an underflow panic, line breaks between tag and
form joined the tokens, trees cut off by the end of the input were silently
dropped and lines consisting of whitespace were read as broken trees.
---
 lumberjack/src/io/ptb.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 09da9d2..6edb912 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -317,13 +317,24 @@ where
                 if (line.starts_with('%') && buffer.is_empty()) || line.is_empty() {
                     continue;
                 }
+                if buffer.is_empty() && line.trim().is_empty() {
+                    continue;
+                }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
-                open -= line_closed;
-                buffer.push_str(line.as_str());;
-                if open == 0 {
+                if !buffer.is_empty() {
+                    buffer.push('\n');
+                }
+                buffer.push_str(line.as_str());
+                // more closing than opening brackets end the tree as well, but it can't be parsed
+                if open <= line_closed {
                     return Some(self.format.string_to_tree(&buffer));
                 }
+                open -= line_closed;
+            }
+            // input ended inside of a tree
+            if !buffer.is_empty() {
+                return Some(self.format.string_to_tree(&buffer));
             }
         }
         None
-- 
2.43.0


From 7980c5ed5203735911cb6e18491d3526c74896ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 18/27] fix: reject absolute labels without common ancestors

Decoding a label like 'X+0' underflowed.
---
 lumberjack/src/io/encode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..eb2dc1d 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -380,6 +380,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        if offset == 0 {
+            return Err(format_err!("Number of common ancestors has to be positive."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
-- 
2.43.0


From e91aaa25af85e68f1e113da1c7fe7db2c2be0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 19/27] fix: return an error for CONLLX sentences without
 tokens

Decoding an empty sequence of labels panicked.
---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..35bdecd 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -77,6 +77,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
         tree.restore_unary_chains("_")?;
         Ok(tree)
@@ -113,6 +116,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Sentence without tokens."));
+        }
         let encoding = match AbsoluteEncoding::try_from_relative(RelativeEncoding::new(encoding)) {
             ConversionResult::Success(encoding) => encoding,
             ConversionResult::Error(err) => err.fix(),
-- 
2.43.0


From 0e1b8bc6549d1d4a25a3a9eb013646ee9399f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 20/27] fix: keep feature values containing ':'

Values were truncated at the first colon when parsing printed features.
---
 lumberjack/src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/features.rs b/lumberjack/src/features.rs
index 523ec47..85b1385 100644
--- a/lumberjack/src/features.rs
+++ b/lumberjack/src/features.rs
@@ -21,7 +21,7 @@ where
             .split('|')
             .filter(|s| !s.is_empty())
             .map(|f| {
-                let mut parts = f.split(':');
+                let mut parts = f.splitn(2, ':');
                 let k = parts.next().unwrap();
                 let v = parts.next();
                 (k, v)
-- 
2.43.0


From ffe20c02d8ca647800644db187b6b4dfbcff0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 21/27] fix: refuse terminals as new parents of secondary edges

reattach_node is documented to return Err if the new parent is a terminal.
---
 lumberjack/src/tree.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index e0c5203..92e8bf7 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -370,6 +370,10 @@ impl Tree {
             return Err(format_err!("New parent is node itself."));
         }
 
+        if self[new_parent].is_terminal() {
+            return Err(format_err!("Terminal node as new parent."));
+        }
+
         match self[edge] {
             Edge::Primary(_) => self.reattach_primary(new_parent, edge),
             Edge::Secondary(_) => Ok(self.reattach_secondary(new_parent, edge)),
@@ -604,9 +608,7 @@ impl Tree {
     ) -> Result<(EdgeIndex, Edge), Error> {
         let (parent, child) = self.graph.edge_endpoints(edge).unwrap();
         // ensure we're not removing the last child of a node
-        if self[new_parent].is_terminal() {
-            return Err(format_err!("Terminal node as new parent."));
-        } else if self.siblings(child).count() == 0 && parent != new_parent {
+        if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
         // nodes that dominate the child after reattachment
-- 
2.43.0


From 3f582766f45396ced4d8595c1bc85a5174b3144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 22/27] fix: always panic when moving nonterminals

The documented panic was skipped if the nonterminal started at the index.
---
 lumberjack/src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 92e8bf7..ac9fff2 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -146,11 +146,11 @@ impl Tree {
     ///
     /// Panics if index is out of bounds or the index of a NonTerminal is passed as argument.
     pub fn move_terminal(&mut self, terminal: NodeIndex, index: usize) {
+        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
+        assert!(index < self.n_terminals, "Index out of bounds.");
         if self[terminal].span().start == index {
             return;
         }
-        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
-        assert!(index < self.n_terminals, "Index out of bounds.");
         let old_pos = self[terminal].span().start;
         let terminals = self
             .terminals()
-- 
2.43.0


From 2d75e72207315da16a8530d3783fea3ddfde93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 23/27] fix: export empty features as absent to CONLLX

Empty feature sets, e.g. left by restore_unary_chains, resulted in an empty
column instead of '_'.
---
 lumberjack/src/io/conllx.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 35bdecd..d958639 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -140,7 +140,7 @@ impl<'a> From<&'a Terminal> for Token {
         let mut token = Token::new(terminal.form());
         token.set_lemma(terminal.lemma());
         token.set_pos(Some(terminal.label()));
-        if let Some(features) = terminal.features() {
+        if let Some(features) = terminal.features().filter(|f| !f.inner().is_empty()) {
             token.set_features(Some(Features::from_string(features.to_string())));
         }
         token
@@ -160,7 +160,10 @@ impl From<Tree> for Sentence {
             let lemma = terminal.set_lemma::<String>(None);
             token.set_lemma(lemma);
             token.set_pos(Some(terminal.set_label(String::new())));
-            if let Some(morph) = terminal.set_features(None) {
+            if let Some(morph) = terminal
+                .set_features(None)
+                .filter(|f| !f.inner().is_empty())
+            {
                 token.set_features(Some(Features::from_string(morph.to_string())));
             }
             tokens.push((token, terminal.span().start));
-- 
2.43.0


From 50efdf655133902b30904011b9765e2b614ba03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 24/27] fix: filter nodes before projecting IDs in
 lumberjack-conversion

The README documents the order reattach, filter, IDs, insertion, parent tags.
---
 lumberjack-utils/src/bin/lumberjack-conversion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumberjack-utils/src/bin/lumberjack-conversion.rs b/lumberjack-utils/src/bin/lumberjack-conversion.rs
index 7b0060c..8ea27a1 100644
--- a/lumberjack-utils/src/bin/lumberjack-conversion.rs
+++ b/lumberjack-utils/src/bin/lumberjack-conversion.rs
@@ -99,17 +99,17 @@ fn main() {
             tree.reattach_terminals(root, |tree, nt| tree[nt].label().starts_with(label))
         }
 
+        if let Some(filter_set) = filter_set.as_ref() {
+            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))
+                .or_exit("Can't filter nodes.", 1);
+        }
+
         if let Some(id_set) = id_set.as_ref() {
             tree.project_ids(id_feature_name, |tree, nt| {
                 tree.root() == nt || id_set.matches(tree[nt].label())
             })
         }
 
-        if let Some(filter_set) = filter_set.as_ref() {
-            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))
-                .or_exit("Can't filter nodes.", 1);
-        }
-
         if let Some(insertion_set) = insertion_set.as_ref() {
             tree.insert_intermediate(|tree, nt| {
                 if !insertion_set.matches(tree[nt].label()) {
-- 
2.43.0


From afd9fe0cc1916422e5079d9390005d2a5e556cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 25/27] Allow constructing relative encodings under
 cfg(lumberjack_verif)

---
 lumberjack/src/io/encode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index eb2dc1d..3541dfa 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -626,10 +626,17 @@ impl IntoIterator for AbsoluteEncoding {
 #[derive(Clone, Debug, PartialEq)]
 pub struct RelativeEncoding(Vec<(Option<RelativeAncestor>, Option<String>)>);
 
+#[allow(unexpected_cfgs)]
 impl RelativeEncoding {
     pub(crate) fn new(inner: Vec<(Option<RelativeAncestor>, Option<String>)>) -> Self {
         RelativeEncoding(inner)
     }
+
+    /// Construct an encoding from arbitrary labels, used by external verification.
+    #[cfg(lumberjack_verif)]
+    pub fn from_labels(inner: Vec<(Option<RelativeAncestor>, Option<String>)>) -> Self {
+        RelativeEncoding(inner)
+    }
 }
 
 impl Deref for RelativeEncoding {
-- 
2.43.0


From 414ac30b7aa912df9d4e0b7fa52e7e0444635a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 26/27] fix: keep '=' in annotations of Negra nonterminals

---
 lumberjack/src/io/negra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index fae5461..1c39048 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -215,7 +215,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        let mut label_parts = read_required_string_field(parts.next())?.split('=');
+        let mut label_parts = read_required_string_field(parts.next())?.splitn(2, '=');
         let label = read_required_string_field(label_parts.next())?;
         self.graph[self_idx].set_label(label);
 
-- 
2.43.0


From 32d4ffe2e5b9dd523456599f451b1f96dd9e5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 27/27] =?UTF-8?q?fix:=20keep=20':'=20in=20tags=20and=20'?=
 =?UTF-8?q?=3D'=20in=20annotations=20and=20tags=20of=20T=C3=BCBa=20bracket?=
 =?UTF-8?q?s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lumberjack/src/io/ptb.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 6edb912..b519cda 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -217,11 +217,8 @@ impl PTBFormat {
         let pos = pairs.next().unwrap();
         let (tag, edge) = match self {
             // part-of-speech tags are not annotated in PTB format, but can contain the delimiter
-            PTBFormat::PTB => (pos.as_str(), None),
-            _ => {
-                let (tag, edge, _) = self.process_label(pos)?;
-                (tag, edge)
-            }
+            PTBFormat::PTB | PTBFormat::Simple => (pos.as_str(), None),
+            PTBFormat::TueBa => Self::split_edge(pos.as_str()),
         };
 
         let form = pairs.next().unwrap();
@@ -235,6 +232,17 @@ impl PTBFormat {
         }
     }
 
+    // Split a label in TueBa format into tag and edge label. Edge labels don't contain the delimiter.
+    fn split_edge(label: &str) -> (&str, Option<&str>) {
+        match label.rfind(':') {
+            Some(idx) => (
+                &label[..idx],
+                Some(&label[idx + 1..]).filter(|edge| edge != &"--"),
+            ),
+            None => (label, None),
+        }
+    }
+
     // All nodes in the tree start with a label corresponding either to the parse tag or to the POS of
     // a given token. The label is optionally followed by an edge label.
     fn process_label<'a>(
@@ -253,10 +261,8 @@ impl PTBFormat {
                     }
                 }
                 PTBFormat::TueBa => {
-                    let mut parts = label.split(':');
-                    let tag = parts.next().unwrap();
-                    let edge = parts.next().filter(|s| s != &"--");
-                    let mut label_parts = tag.split('=');
+                    let (tag, edge) = Self::split_edge(label);
+                    let mut label_parts = tag.splitn(2, '=');
                     let label = label_parts.next().unwrap();
                     let annotation = label_parts.next();
                     Ok((label, edge, annotation))
-- 
2.43.0

