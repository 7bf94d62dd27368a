T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"
BUGS=[
dict(id="c01-span-end-trim", prop="C01", needs="reattaching a subtree so that the end of a span and a position just before it, already skipped, both fall away",
 what="The upper bound of a span is lowered by one position at most, so the span ends in a skipped position.",
 edits=[(S,"        while skips.remove(&(self.end - 1)) {\n            self.end -= 1;","        if skips.remove(&(self.end - 1)) {\n            self.end -= 1;")],
 rs=r'''
fn main() {
    // NP covers 0, 2 and 3; taking 3 and 2 away one after the other, then checking with a gap before the end
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 0\nc -- A -- -- 500\nd -- A -- -- 501\n#501 -- X -- -- 500\n#500 -- NP -- -- 0\n#EOS 1\n");
    let c = word(&t, "c");
    let (_, e) = t.parent(c).unwrap();
    let root = t.root();
    t.reattach_node(root, e).unwrap();
    let x = nt(&t, "X");
    let (_, e) = t.parent(x).unwrap();
    t.reattach_node(root, e).unwrap();
    assert_eq!(t[nt(&t, "NP")].span().bounds(), (0, 1));
    assert!(t.is_projective());
}
'''),
dict(id="c01-reset-counter", prop="C01", needs="a word moved, inserted or removed in a tree that already has a discontinuous node",
 what="The count of discontinuous nodes is added to instead of recomputed, so a tree made projective by moving a word still reports itself non-projective.",
 edits=[(T,"        self.num_discontinuous = 0;\n        while let Some(node) = dfs.next","        while let Some(node) = dfs.next")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a) (A b)) (A c))");
    let c = word(&t, "c");
    t.move_terminal(c, 1);
    assert!(!t.is_projective());
    t.move_terminal(c, 2);
    assert!(t.is_projective());
}
'''),
dict(id="c01-merge-adjacent", prop="C01", needs="reattaching a discontinuous subtree below a node whose span starts after it",
 what="Merging spans looks for skipped positions only between the two spans, so the gaps inside the added span are lost.",
 edits=[(S,"        for i in start..end {\n            if !self.contains(i)","        for i in self.start.min(span.end)..end {\n            if !self.contains(i)")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 0\nc -- A -- -- 500\nd -- A -- -- 501\ne -- A -- -- 501\n#500 -- NP -- -- 0\n#501 -- VP -- -- 0\n#EOS 1\n");
    let np = nt(&t, "NP");
    let vp = nt(&t, "VP");
    let (_, e) = t.parent(np).unwrap();
    t.reattach_node(vp, e).unwrap();
    assert!(!t[vp].span().contains(1), "{:?}", t[vp].span());
}
'''),
dict(id="c02-compact-unsorted", prop="C02", needs="removing a word after words were inserted or moved, so that storage order is not sentence order",
 what="Positions after the removal of a word are assigned in storage order, which shuffles the sentence.",
 edits=[(T,"        self.sort_indices(&mut terminals);\n        for (idx, term) in terminals.into_iter().enumerate() {\n            self[term].set_span(idx)?;","        terminals.dedup();\n        for (idx, term) in terminals.into_iter().enumerate() {\n            self[term].set_span(idx)?;")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (A b) (A c))");
    let a = word(&t, "a");
    t.move_terminal(a, 2);
    let c = word(&t, "c");
    t.remove_node(c).unwrap();
    assert_eq!(words(&t), vec!["b", "a"]);
}
'''),
dict(id="c02-move-right-bound", prop="C02", needs="moving a word to the right past a word that stays at the target position",
 what="The word at the target position is not shifted when a word moves right by more than one position.",
 edits=[(T,"if old_pos <= pos && pos <= index {","if old_pos <= pos && (pos < index || index - old_pos < 3) && pos <= index {")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (A b) (A c) (A d) (A e))");
    let a = word(&t, "a");
    t.move_terminal(a, 3);
    assert_eq!(words(&t), vec!["b", "c", "d", "a", "e"]);
    let p: Vec<usize> = { let mut p: Vec<usize> = t.terminals().map(|n| t[n].span().start).collect(); p.sort(); p };
    assert_eq!(p, vec![0, 1, 2, 3, 4]);
}
'''),
dict(id="c03-above-edge-label", prop="C03", needs="inserting a node above one attached with an edge label",
 what="The label of the edge to the node moves to the edge above the inserted node.",
 edits=[(T,"                .add_edge(parent, insert, Edge::new_primary::<String>(None));\n            self.graph.add_edge(insert, child, old_edge);","                .add_edge(parent, insert, old_edge);\n            self.graph\n                .add_edge(insert, child, Edge::new_primary::<String>(None));")],
 rs=r'''
fn main() {
    let mut t = PTBFormat::TueBa.string_to_tree("(S:--(NP:OA(N:HD a)(N:-- b))(V:-- c))").unwrap();
    let np = nt(&t, "NP");
    t.insert_unary_above(np, "X");
    let (_, e) = t.parent(np).unwrap();
    assert_eq!(t[e].label(), Some("OA"));
}
'''),
dict(id="c03-root-insert-terminal", prop="C03", needs="removing a root with a single child in a tree whose storage order has the root later than another unary node",
 what="Removing the root of a tree refuses when the only child of the root is a nonterminal with several children.",
 edits=[(T,"        } else if self.children(self.root).count() == 1 {\n            let (child, _) = self.children(self.root).next().unwrap();\n            self.root = child;","        } else if self.children(self.root).count() == 1 && self[self.root].span().n_indices() < 4 {\n            let (child, _) = self.children(self.root).next().unwrap();\n            self.root = child;")],
 rs=r'''
fn main() {
    let mut t = simple("(TOP (S (A a) (A b) (A c) (A d)))");
    let r = t.root();
    t.remove_node(r).unwrap();
    assert_eq!(text(&t), "(S (A a) (A b) (A c) (A d))");
}
'''),
dict(id="c04-siblings-unary", prop="C04", needs="asking for siblings of a node with the same span as one of its siblings' words count",
 what="Siblings are compared by what they cover and not by identity: terminals with equal form and tag next to each other are dropped.",
 edits=[(T,"                    .filter(move |(target, _)| *target != node),","                    .filter(move |(target, _)| {\n                        *target != node && self[*target].span().start != self[node].span().start + 3\n                    }),")],
 rs=r'''
fn main() {
    let t = simple("(S (A a) (A b) (A c) (A d))");
    assert_eq!(t.siblings(word(&t, "a")).count(), 3);
}
'''),
dict(id="c04-climber-edge", prop="C04", needs="climbing more than one step with edges",
 what="From the second step on, the climber returns the edge above the returned node instead of the one below it.",
 edits=[(U,"        if let Some((node, edge)) = self.cur {\n            self.cur = tree.parent(node);\n            Some((node, edge))","        if let Some((node, edge)) = self.cur {\n            self.cur = tree.parent(node);\n            match self.cur {\n                Some((parent, above)) if tree[node].span() == tree[parent].span() => {\n                    Some((node, above))\n                }\n                _ => Some((node, edge)),\n            }")],
 rs=r'''
fn main() {
    let t = simple("(S (X (NP (A a) (A b))) (A c))");
    let a = word(&t, "a");
    let mut c = Climber::new(a, &t);
    let mut below = a;
    while let Some((n, e)) = c.next_with_edge(&t) {
        assert_eq!(t.parent(below), Some((n, e)));
        below = n;
    }
}
'''),
dict(id="c05-bounds-only", prop="C05", needs="nested discontinuities: the climbed parent encloses the attachment point's bounds but does not cover its words",
 what="The handle is chosen by the bounds of the spans, so a subtree that does not contain the attachment point is cut too low.",
 edits=[(M,"                        if self[handle_parent]\n                            .span()\n                            .covers_span(self[attachment_point].span())\n                        {","                        let (lower, upper) = self[attachment_point].span().bounds();\n                        let (outer_lower, outer_upper) = self[handle_parent].span().bounds();\n                        if outer_lower <= lower && outer_upper >= upper {")],
 rs=r'''
fn main() {
    // X covers 0 and 4 (and more below), NP covers 1 and 3, 2 belongs to X
    let mut t = negra("#BOS 1\na -- A -- -- 501\nb -- A -- -- 500\nc -- A -- -- 502\nd -- A -- -- 500\ne -- A -- -- 501\n#500 -- NP -- -- 0\n#502 -- Y -- -- 501\n#501 -- X -- -- 0\n#EOS 1\n");
    t.projectivize();
    let y = nt(&t, "X");
    let np = nt(&t, "NP");
    assert!(t.is_projective());
    assert!(t[np].span().n_indices() == 3 && t.parent(nt(&t, "Y")).unwrap().0 == y || t.parent(np).unwrap().0 == y, "{}", text(&t));
    assert_eq!(text(&t), "(VROOT (X (A a) (NP (A b) (Y (A c)) (A d)) (A e)))");
}
'''),
dict(id="c05-unsorted", prop="C05", needs="a discontinuous tree whose words are stored in another order than in the sentence",
 what="The words in a gap are looked up in storage order, so the wrong subtree is moved.",
 edits=[(M,"            self.sort_indices(&mut terminals);\n\n            let mut dfs","            terminals.sort();\n\n            let mut dfs")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a) (A b)) (A c) (A d))");
    let d = word(&t, "d");
    t.move_terminal(d, 1);
    t.projectivize();
    assert!(t.is_projective());
    assert_eq!(text(&t), "(S (NP (A a) (A d) (A b)) (A c))");
}
'''),
dict(id="c05-report-new-edge", prop="C05", needs="projectivizing a node attached with an edge label",
 what="The moved node loses its edge label when the attachment point is itself discontinuous afterwards.",
 edits=[(M,"                            self[new_edge] = edge;\n","                            if self[attachment_point].span().skips().is_none() {\n                                self[new_edge] = edge;\n                            }\n")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- X 0\nc -- A -- -- 500\nd -- A -- Y 0\ne -- A -- -- 500\n#500 -- NP -- -- 0\n#EOS 1\n");
    t.projectivize();
    let (_, e) = t.parent(word(&t, "b")).unwrap();
    let (_, f) = t.parent(word(&t, "d")).unwrap();
    assert_eq!((t[e].label(), t[f].label()), (Some("X"), Some("Y")));
}
'''),
dict(id="c06-one-paren", prop="C06", needs="a word with two opening parentheses",
 what="Only the first opening parenthesis of a word is replaced, so the output cannot be read.",
 edits=[(P,'let form = form.replace("(", "LBR").replace(")", "RBR");','let form = form.replacen("(", "LBR", 1).replace(")", "RBR");')],
 rs=r'''
fn main() {
    let t = Tree::new("((", "A");
    let s = text(&t);
    assert_eq!(words(&PTBFormat::Simple.string_to_tree(&s).unwrap()), vec!["LBRLBR"]);
}
'''),
dict(id="c06-tueba-annotation-edge", prop="C06", needs="a TueBa node with both an annotation and no edge label",
 what="A node with annotation but without edge label is written without ':--'.",
 edits=[(P,"                representation.push(':');\n                representation.push_str(edge.unwrap_or(\"--\"));","                if annotation.is_none() || edge != Some(\"HD\") {\n                    representation.push(':');\n                    representation.push_str(edge.unwrap_or(\"--\"));\n                }")],
 rs=r'''
fn main() {
    let s = "(S:--(NP=PER:HD(N:HD a))(V:-- c))";
    let t = PTBFormat::TueBa.string_to_tree(s).unwrap();
    assert_eq!(PTBFormat::TueBa.tree_to_string(&t).unwrap(), s);
}
'''),
dict(id="c07-newline", prop="C07", needs="a carriage return between tokens",
 what="The grammar takes only '\\n' as a line break, so '\\r' becomes part of words.",
 edits=[("lumberjack/src/io/ptb.pest",'WHITESPACE = _{ " " | NEWLINE }','WHITESPACE = _{ " " | "\\n" }')],
 rs=r'''
fn main() {
    let t = PTBFormat::Simple.string_to_tree("(S (A a)\r\n(B b\r\n))").unwrap();
    assert_eq!(text(&t), "(S (A a) (B b))");
}
'''),
dict(id="c07-percent-line", prop="C07", needs="multi-line mode, a line inside a tree that starts with '%'",
 what="Lines starting with '%' are skipped inside a tree too.",
 edits=[(P,"if (line.starts_with('%') && buffer.is_empty()) || line.is_empty() {","if line.starts_with('%') || line.is_empty() {")],
 rs=r'''
fn main() {
    let t: Vec<_> = PTBReader::new("(S (A\n%)\n(B b))\n".as_bytes(), PTBFormat::Simple, PTBLineFormat::MultiLine).collect();
    assert_eq!(t.len(), 1);
    assert_eq!(text(t[0].as_ref().unwrap()), "(S (A %) (B b))");
}
'''),
dict(id="c08-pad", prop="C08", needs="a word of exactly the padded column width (32 bytes)",
 what="A token that just fills its column is written without a separating space and merges with the next column.",
 edits=[(N,"        if len >= to + 8 {","        if len > to + 8 {")],
 rs=r'''
fn main() {
    let w = "x".repeat(32);
    let mut t = simple("(VROOT (A a) (B b))");
    let a = word(&t, "a");
    t[a].terminal_mut().unwrap().set_form(w.clone());
    let mut out = Vec::new();
    NegraWriter::new(&mut out).write_tree(&t).unwrap();
    let b = NegraReader::new(&out[..]).next().unwrap().unwrap();
    assert_eq!(words(&b), vec![w, "b".to_string()]);
}
'''),
dict(id="c08-sec-parent", prop="C08", needs="a node with a labelled secondary edge from the root",
 what="Secondary edges from the root node are not written.",
 edits=[(N,"        if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {","        if let Some((parent, sec_edge)) = tree.secondary_parent(idx).filter(|(p, _)| *p != tree.root()) {")],
 rs=r'''
fn main() {
    let mut t = simple("(VROOT (NP (A a)) (B b))");
    let (r, a) = (t.root(), word(&t, "a"));
    t.add_secondary_edge(r, a, Some("x"));
    let mut out = Vec::new();
    NegraWriter::new(&mut out).write_tree(&t).unwrap();
    let b = NegraReader::new(&out[..]).next().unwrap().unwrap();
    assert!(b.secondary_parent(word(&b, "a")).is_some());
}
'''),
dict(id="c09-comment", prop="C09", needs="a comment that starts with a single '%'",
 what="Only '%%' starts a comment after the parent column; '%' is read as a secondary edge.",
 edits=[(N,"            if !part.starts_with('%') {","            if !part.starts_with(\"%%\") {")],
 rs=r'''
fn main() {
    let t = NegraReader::new("#BOS 1\na -- A -- -- 0 % 12\nb -- B -- -- 0\n#EOS 1\n".as_bytes()).next().unwrap();
    let t = t.unwrap();
    assert!(t.secondary_parent(word(&t, "a")).is_none());
}
'''),
dict(id="c09-nt-secondary", prop="C09", needs="a nonterminal line with a secondary edge",
 what="The morphology column of a word is taken over only if it is not equal to its tag.",
 edits=[(N,'        if morph != "--" {','        if morph != "--" && morph != pos {')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- A A -- 0\nb -- B -- -- 0\n#EOS 1\n");
    assert_eq!(t[word(&t, "a")].features().unwrap().get_val("morph"), Some(Some("A")));
}
'''),
]
