From 64e7b405af4e970638751fcc333bee9cea6528fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 01/28] fix: remove_node on a terminal updates positions and
 spans after the removal

---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..c049327 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -693,10 +693,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let node = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(node)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From 30728ec444f4e59029070c47bdab263a46b2fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 02/28] fix: reattach_node updates the spans of all former
 ancestors

---
 lumberjack/src/tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index c049327..2e29e7e 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -602,25 +602,25 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes dominating the new attachment point still cover the child's indices afterwards
+        let mut climber = Climber::new(new_parent, self);
+        let mut dominating = vec![new_parent];
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            dominating.push(node);
+        }
+        // remove the indices from the spans of all other nodes dominating the child
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if dominating.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From 40f256fbbc449d6b7b1da27d63109f9f94cd322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 03/28] fix: reattach_node refuses to attach a node below its
 own descendant

---
 lumberjack/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 2e29e7e..8b3f1e1 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -336,6 +336,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is the reattached node or dominated by it.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -608,6 +609,9 @@ impl Tree {
         while let Some(node) = climber.next(self) {
             dominating.push(node);
         }
+        if dominating.contains(&child) {
+            return Err(format_err!("New parent is dominated by the node."));
+        }
         // remove the indices from the spans of all other nodes dominating the child
         let coverage = self[child].span().into_iter().collect::<Vec<_>>();
         let mut climber = Climber::new(child, self);
-- 
2.43.0


From 4e1c9c3076ebceecd6f18ced53dace101392026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 04/28] fix: count discontinuous nodes inserted above or below
 discontinuous nodes

---
 lumberjack/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 8b3f1e1..bb4241c 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,6 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
@@ -288,6 +291,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
         self.graph
-- 
2.43.0


From 73b7643fd7b7a6758f4e90963cfbf3b6f798dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 05/28] fix: are_siblings compares the parents and not the
 incoming edges

---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index bb4241c..0072488 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -401,7 +401,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 7778f4fc80e10644ce21a963e09e31d65d2008be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 06/28] fix: remove_secondary_edge returns None if the edge is
 not in the tree

---
 lumberjack/src/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 0072488..1d3e01d 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -134,10 +134,9 @@ impl Tree {
     ///
     /// Returns `None` if the edge is not present in the graph.
     pub fn remove_secondary_edge(&mut self, edge: EdgeIndex) -> Option<Edge> {
-        if !self[edge].is_primary() {
-            self.graph.remove_edge(edge)
-        } else {
-            None
+        match self.graph.edge_weight(edge) {
+            Some(Edge::Secondary(_)) => self.graph.remove_edge(edge),
+            _ => None,
         }
     }
 
-- 
2.43.0


From bb269eec39102052dee0ade1f88ad07c940842fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 07/28] fix: terminals with different forms are not equal

---
 lumberjack/src/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..ba18079 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,10 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form || self.pos != other.pos {
+            return false;
+        }
+        if self.span != other.span || self.lemma != other.lemma {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From 8de186d8128ec39f22ac50de74be52237b068080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 08/28] fix: compare the roots of trees

---
 lumberjack/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 1d3e01d..f1c5613 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -818,6 +818,11 @@ impl PartialEq for Tree {
             return false;
         };
 
+        // subtree_eq compares the nodes below the root
+        if self[self.root] != other[other.root] {
+            return false;
+        }
+
         subtree_eq(self.root(), self, other.root(), other)
     }
 }
-- 
2.43.0


From e470a9a98619c88a718cfb78a4b0273219f145d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 09/28] fix: annotate_pos assigns tags in sentence order

---
 lumberjack/src/tree_modification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..17bcf57 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,7 +22,8 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
         let mut pos_iter = pos_iter.into_iter();
         for terminal in terminals {
             if let Some(pos) = pos_iter.next() {
-- 
2.43.0


From 858d006ac9cd116204451bb3152980f6e718e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/28] fix: insert_intermediate visits the terminals in
 sentence order

---
 lumberjack/src/tree_modification.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 17bcf57..b21ba7f 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -160,7 +160,9 @@ impl TreeOps for Tree {
     where
         F: Fn(&Tree, NodeIndex) -> Option<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        // the first terminal of each run has to be visited first
+        self.sort_indices(&mut terminals);
         let mut visit_map = self.graph().visit_map();
 
         for terminal in terminals.into_iter() {
-- 
2.43.0


From f1295d8694eb5acbedc5ec818861fe42c8d35690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 11/28] fix: reattach_terminals stops climbing at the root and
 at the attachment point

---
 lumberjack/src/tree_modification.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index b21ba7f..c29898f 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -226,14 +226,17 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != self.root() && parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        // neither the root nor the attachment point get removed
+                        _ => break,
                     }
                 }
-                let (_, edge) = self.parent(terminal).unwrap();
-                self.reattach_node(attachment, edge).unwrap();
+                if let Some((_, edge)) = self.parent(terminal) {
+                    self.reattach_node(attachment, edge).unwrap();
+                }
             }
         }
         self.reset_nt_spans();
-- 
2.43.0


From 01f0e49881dccf396891407e951fe00c9bb512da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 12/28] fix: keep the full value of features containing colons

---
 lumberjack/src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/features.rs b/lumberjack/src/features.rs
index 523ec47..85b1385 100644
--- a/lumberjack/src/features.rs
+++ b/lumberjack/src/features.rs
@@ -21,7 +21,7 @@ where
             .split('|')
             .filter(|s| !s.is_empty())
             .map(|f| {
-                let mut parts = f.split(':');
+                let mut parts = f.splitn(2, ':');
                 let k = parts.next().unwrap();
                 let v = parts.next();
                 (k, v)
-- 
2.43.0


From e06fceffb5a0927b174190b2cdf4d1217e166313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 13/28] fix: PTB annotations do not include the separating '-'

---
 lumberjack/src/io/ptb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..90a278c 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -240,7 +240,7 @@ impl PTBFormat {
             match self {
                 PTBFormat::PTB => {
                     if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
+                        Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
                     }
-- 
2.43.0


From 5ae1766bc9cec3617f1741526ea703e5c81e5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 14/28] fix: PTB labels starting with '-' are not split into an
 empty label

---
 lumberjack/src/io/ptb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 90a278c..c7b7057 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -239,7 +239,8 @@ impl PTBFormat {
             // split label and edge label
             match self {
                 PTBFormat::PTB => {
-                    if let Some(idx) = label.find('-') {
+                    // labels such as `-NONE-` start with the separator
+                    if let Some(idx) = label.find('-').filter(|idx| *idx > 0) {
                         Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
-- 
2.43.0


From ebe5f8f7fb9b9999b99b423b8628ca99407cee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 15/28] fix: line breaks separate tokens in multi-line
 bracketed trees

---
 lumberjack/src/io/ptb.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index c7b7057..31df744 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -314,7 +314,9 @@ where
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
                 open -= line_closed;
-                buffer.push_str(line.as_str());;
+                buffer.push_str(line.as_str());
+                // line breaks separate tokens
+                buffer.push('\n');
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
                 }
-- 
2.43.0


From d003ee1aa9e04d6d4ec07bddfdb0e8e7e5b37b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 16/28] fix: surplus closing brackets in multi-line trees are
 an error, not an underflow

---
 lumberjack/src/io/ptb.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 31df744..fd37a9b 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -313,13 +313,14 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
-                open -= line_closed;
                 buffer.push_str(line.as_str());
                 // line breaks separate tokens
                 buffer.push('\n');
-                if open == 0 {
+                // surplus closing brackets can't be matched by later lines, parsing reports the error
+                if line_closed >= open {
                     return Some(self.format.string_to_tree(&buffer));
                 }
+                open -= line_closed;
             }
         }
         None
-- 
2.43.0


From 58933a81370562dd9b09b57ae5c3618c479129ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 17/28] fix: report a multi-line tree cut off by the end of the
 input

---
 lumberjack/src/io/ptb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index fd37a9b..6a4909a 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -322,6 +322,10 @@ where
                 }
                 open -= line_closed;
             }
+            // the last tree is cut off by the end of the input, parsing reports the error
+            if !buffer.is_empty() {
+                return Some(self.format.string_to_tree(&buffer));
+            }
         }
         None
     }
-- 
2.43.0


From 2efabef48cb5234b2d8a7e03ae4f04b0e56e12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 18/28] fix: NEGRA secondary edges from unknown nonterminals
 are an error

---
 lumberjack/src/io/negra.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..143cf3d 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -145,11 +145,11 @@ impl Builder {
             ));
         }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source = *self.nt_indices.get(&source).ok_or_else(|| {
+                format_err!("Secondary edge from unknown nonterminal {}", source)
+            })?;
+            self.graph
+                .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
-- 
2.43.0


From 7725724fd5e1e8276cac6ad6e70646ec56b54343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 19/28] fix: NEGRA sentences without terminals are an error

---
 lumberjack/src/io/negra.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 143cf3d..56e201f 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -128,6 +128,7 @@ impl Builder {
     ///
     ///   * panics if the footer doesn't start with `#EOS`.
     ///   * returns `Err` if the sentence id doesn't match.
+    ///   * returns `Err` if the sentence has no terminals.
     ///   * returns `Err` if not all NonTerminals were processed.
     fn try_into_tree(mut self, footer: &str) -> Result<Tree, Error> {
         assert!(
@@ -144,6 +145,9 @@ impl Builder {
                 eos_id
             ));
         }
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
         for (source, label, target) in self.sec_edges {
             let source = *self.nt_indices.get(&source).ok_or_else(|| {
                 format_err!("Secondary edge from unknown nonterminal {}", source)
-- 
2.43.0


From 5838fc5fda06467badb43d93eec6ef11d627e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 20/28] fix: read '--' as absent label of NEGRA secondary edges

---
 lumberjack/src/io/negra.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 56e201f..82f74ff 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -84,7 +84,7 @@ struct Builder {
     finished_terminals: bool,
     num_non_projective: usize,
     processed_nts: usize,
-    sec_edges: Vec<(usize, String, NodeIndex)>,
+    sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
 
 impl Builder {
@@ -153,7 +153,7 @@ impl Builder {
                 format_err!("Secondary edge from unknown nonterminal {}", source)
             })?;
             self.graph
-                .add_edge(source, target, Edge::Secondary(Some(label)));
+                .add_edge(source, target, Edge::Secondary(label));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
@@ -280,7 +280,12 @@ impl Builder {
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
-            self.sec_edges.push((id, label.to_string(), node_idx));
+            let label = if label == "--" {
+                None
+            } else {
+                Some(label.to_string())
+            };
+            self.sec_edges.push((id, label, node_idx));
         }
         Ok(())
     }
-- 
2.43.0


From 0173d89fea9bf34306d5e413b4669755ad44c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 21/28] fix: NEGRA spans do not depend on the order of the
 nonterminal lines

---
 lumberjack/src/io/negra.rs | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 82f74ff..1a65ba0 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -2,11 +2,11 @@ use std::collections::{hash_map::Entry, HashMap, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
+use petgraph::prelude::{NodeIndex, StableGraph};
 use petgraph::visit::{VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
-use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
+use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
 ///
@@ -82,7 +82,6 @@ struct Builder {
     n_terminals: usize,
     sentence_id: String,
     finished_terminals: bool,
-    num_non_projective: usize,
     processed_nts: usize,
     sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
@@ -118,7 +117,6 @@ impl Builder {
             sentence_id: bos_id.to_string(),
             finished_terminals: false,
             n_terminals: 0,
-            num_non_projective: 0,
             processed_nts: 1,
             sec_edges: Vec::new(),
         })
@@ -160,13 +158,10 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
-        self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
-            self.graph,
-            self.n_terminals,
-            root,
-            self.num_non_projective,
-        ))
+        // the lines of nonterminals can precede those of their children, spans are only known now
+        let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
+        tree.reset_nt_spans();
+        Ok(tree)
     }
 
     /// Add the given line to the builder.
@@ -212,20 +207,7 @@ impl Builder {
         }
         read_required_string_field(parts.next())?;
 
-        self.process_edges(self_idx, parts)?;
-
-        let coverage = self
-            .graph
-            .edges_directed(self_idx, Direction::Outgoing)
-            .filter(|e| e.weight().is_primary())
-            .flat_map(|e| self.graph[e.target()].span().into_iter())
-            .collect();
-        let span = Span::from_vec(coverage)?;
-        if span.skips().is_some() {
-            self.num_non_projective += 1;
-        }
-        self.graph[self_idx].set_span(span)?;
-        Ok(())
+        self.process_edges(self_idx, parts)
     }
 
     /// Process line containing a NonTerminal.
-- 
2.43.0


From b1fdb42c11f953d819faf3801f9c7650b292da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 22/28] fix: NEGRA sentences that do not form a tree are an
 error

---
 lumberjack/src/io/negra.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 1a65ba0..1f4d89c 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -2,7 +2,7 @@ use std::collections::{hash_map::Entry, HashMap, VecDeque};
 use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
-use petgraph::prelude::{NodeIndex, StableGraph};
+use petgraph::prelude::{EdgeRef, NodeIndex, StableGraph};
 use petgraph::visit::{VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
@@ -128,6 +128,7 @@ impl Builder {
     ///   * returns `Err` if the sentence id doesn't match.
     ///   * returns `Err` if the sentence has no terminals.
     ///   * returns `Err` if not all NonTerminals were processed.
+    ///   * returns `Err` if the lines don't describe a single tree below the root.
     fn try_into_tree(mut self, footer: &str) -> Result<Tree, Error> {
         assert!(
             footer.starts_with("#EOS"),
@@ -158,6 +159,9 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
+        if !is_tree(&self.graph, root) {
+            return Err(format_err!("Nodes don't form a tree."));
+        }
         // the lines of nonterminals can precede those of their children, spans are only known now
         let mut tree = Tree::new_from_parts(self.graph, self.n_terminals, root, 0);
         tree.reset_nt_spans();
@@ -286,6 +290,24 @@ impl Builder {
     }
 }
 
+/// Returns whether the primary edges form a tree with the given root over all nodes.
+fn is_tree(graph: &StableGraph<Node, Edge>, root: NodeIndex) -> bool {
+    let mut visit_map = graph.visit_map();
+    visit_map.visit(root);
+    let mut n_visited = 1;
+    let mut stack = vec![root];
+    while let Some(node) = stack.pop() {
+        for edge in graph.edges(node).filter(|e| e.weight().is_primary()) {
+            if !visit_map.visit(edge.target()) {
+                return false;
+            }
+            n_visited += 1;
+            stack.push(edge.target());
+        }
+    }
+    n_visited == graph.node_count()
+}
+
 fn read_required_string_field(field: Option<&str>) -> Result<&str, Error> {
     field.ok_or_else(|| format_err!("Line missing field."))
 }
-- 
2.43.0


From b5bb9d5a00600fb9533d7ebc9e44acd804810869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 23/28] fix: report a NEGRA sentence cut off by the end of the
 input

---
 lumberjack/src/io/negra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 1f4d89c..4b61345 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -12,7 +12,8 @@ use crate::{Edge, Node, NonTerminal, Terminal, Tree, WriteTree};
 ///
 /// `next()` moves the reader until the first `#BOS` is found, then collects lines until `#EOS` is
 /// found. Returns `Some(Error)` if overlapping sentences are found, `'#BOS` -> `#EOS` is violated
-/// or if the collected lines are not a well formed NEGRA sentence.
+/// or if the collected lines are not a well formed NEGRA sentence. A sentence cut off by the end of
+/// the input is also an error.
 ///
 /// Note:   If the reader never encounters a line starting with to `#BOS`, `None` is returned.
 pub struct NegraReader<R>
@@ -71,7 +72,7 @@ where
                 }
             }
         }
-        None
+        cur.map(|_| Err(format_err!("Reached end of input before #EOS")))
     }
 }
 
-- 
2.43.0


From 178800cd95e964cbc96c93e3d8a133044d2ff13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 24/28] fix: NegraWriter refuses trees that consist of a single
 terminal

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 4b61345..9f2a46a 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -426,6 +426,9 @@ where
     W: Write,
 {
     fn write_tree(&mut self, tree: &Tree) -> Result<(), Error> {
+        if tree[tree.root()].is_terminal() {
+            return Err(format_err!("Can't write tree without root nonterminal."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From d5e53b47898f38002b4dcc67cd8389a9e5f89f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 25/28] fix: absolute labels without a common ancestor are an
 error

---
 lumberjack/src/io/encode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..eb2dc1d 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -380,6 +380,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        if offset == 0 {
+            return Err(format_err!("Number of common ancestors has to be positive."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
-- 
2.43.0


From 841d4f154e243edcaaabdeca1de84d961b342fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 26/28] fix: decoding an empty CoNLL-X sentence is an error

---
 lumberjack/src/io/conllx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..89e6a1b 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -77,6 +77,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Can't construct tree from empty sentence."));
+        }
         let mut tree = Tree::decode(AbsoluteEncoding::new(encoding), terminals);
         tree.restore_unary_chains("_")?;
         Ok(tree)
@@ -113,6 +116,9 @@ impl TryFromConllx for Tree {
             };
             encoding.push((ancestor, unary_chain))
         }
+        if terminals.is_empty() {
+            return Err(format_err!("Can't construct tree from empty sentence."));
+        }
         let encoding = match AbsoluteEncoding::try_from_relative(RelativeEncoding::new(encoding)) {
             ConversionResult::Success(encoding) => encoding,
             ConversionResult::Error(err) => err.fix(),
-- 
2.43.0


From 66c3820300b71316d271fcb7e60d8f2f5023d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 27/28] fix: projectivize fills the gaps of a span from left to
 right, not in hash order

---
 lumberjack/src/tree_modification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c29898f..a911a7c 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -328,7 +328,7 @@ impl Projectivize for Tree {
                 while let Some(&skipped) = self[attachment_point]
                     .span()
                     .skips()
-                    .and_then(|s| s.iter().next())
+                    .and_then(|s| s.iter().min())
                 {
                     let mut prev = terminals[skipped];
                     // start climbing at skipped index
-- 
2.43.0


From 98d97896f3de56186e23533f8918ee09c7b276e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:42 +0000
Subject: [PATCH 28/28] fix: move_terminal panics for every nonterminal, also
 at the position it starts at

---
 lumberjack/src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index f1c5613..bb17e1e 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -146,11 +146,11 @@ impl Tree {
     ///
     /// Panics if index is out of bounds or the index of a NonTerminal is passed as argument.
     pub fn move_terminal(&mut self, terminal: NodeIndex, index: usize) {
+        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
+        assert!(index < self.n_terminals, "Index out of bounds.");
         if self[terminal].span().start == index {
             return;
         }
-        assert!(self[terminal].is_terminal(), "Can't move NonTerminals.");
-        assert!(index < self.n_terminals, "Index out of bounds.");
         let old_pos = self[terminal].span().start;
         let terminals = self
             .terminals()
-- 
2.43.0

