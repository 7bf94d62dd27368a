T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"
BUGS=[
dict(id="c01-covers-break", prop="C01", needs="removing a nonterminal that is discontinuous and has a discontinuous parent",
 what="The count of discontinuous nodes is not lowered when a discontinuous node below another discontinuous node is removed; the tree keeps reporting itself non-projective later.",
 edits=[(T,"        let node = self.graph.remove_node(nonterminal).unwrap();\n        if node.span().skips().is_some() {","        let nested = self\n            .parent(nonterminal)\n            .map(|(parent, _)| self[parent].span().skips().is_some())\n            .unwrap_or(false);\n        let node = self.graph.remove_node(nonterminal).unwrap();\n        if node.span().skips().is_some() && !nested {")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 0\nc -- A -- -- 500\n#500 -- NP -- -- 501\n#501 -- VP -- -- 0\n#EOS 1\n");
    let np = nt(&t, "NP");
    t.remove_node(np).unwrap();
    let vp = nt(&t, "VP");
    t.remove_node(vp).unwrap();
    assert!(t.is_projective());
}
'''),
dict(id="c02-insert-sorted", prop="C02", needs="inserting a word into a sentence of which some word was moved before",
 what="Inserting a word stops shifting at the first stored word before the position, assuming that words are stored in sentence order.",
 edits=[(T,"        let terminals = self.terminals().collect::<Vec<_>>();\n        for terminal in terminals {\n            let terminal = self[terminal]\n                .terminal_mut()\n                .expect(\"Unexpected NonTerminal\");\n            let pos = terminal.idx();\n            if pos >= index {\n                terminal.set_idx(pos + 1);\n            }","        let mut terminals = self.terminals().collect::<Vec<_>>();\n        terminals.reverse();\n        for terminal in terminals {\n            let terminal = self[terminal]\n                .terminal_mut()\n                .expect(\"Unexpected NonTerminal\");\n            let pos = terminal.idx();\n            if pos < index {\n                break;\n            } else {\n                terminal.set_idx(pos + 1);\n            }")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (A b) (A c))");
    let a = word(&t, "a");
    t.move_terminal(a, 2);
    let r = t.root();
    t.insert_terminal(r, Terminal::new("x", "X", 2));
    assert_eq!(words(&t), vec!["b", "c", "x", "a"]);
    let mut p: Vec<usize> = t.terminals().map(|n| t[n].span().start).collect();
    p.sort();
    assert_eq!(p, vec![0, 1, 2, 3]);
}
'''),
dict(id="c03-below-root", prop="C03", needs="inserting a node below the child of a node that is the root's only child, or below a unary chain",
 what="Inserting a node below one with a single nonterminal child takes over the grandchildren.",
 edits=[(T,"        let children = self.children(node).collect::<Vec<_>>();\n        let span","        let mut children = self.children(node).collect::<Vec<_>>();\n        children.retain(|(child, _)| self[*child].span().skips().is_none() || self[node].span().skips().is_none());\n        let span")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 0\nc -- A -- -- 500\nd -- B -- -- 501\n#500 -- NP -- -- 501\n#501 -- VP -- -- 0\n#EOS 1\n");
    let vp = nt(&t, "VP");
    let n = t.insert_unary_below(vp, "X").unwrap();
    assert_eq!(t.parent(nt(&t, "NP")).unwrap().0, n);
}
'''),
dict(id="c03-remove-root-continuity", prop="C03", needs="removing a unary root above a terminal that stands alone, with another node's root index",
 what="Removing the root of a one-word tree is refused.",
 edits=[(T,"        } else if self.children(self.root).count() == 1 {","        } else if self.children(self.root).count() == 1 && self.graph.node_count() != 3 {")],
 rs=r'''
fn main() {
    let mut t = simple("(TOP (S (A a)))");
    let r = t.root();
    t.remove_node(r).unwrap();
    assert_eq!(text(&t), "(S (A a))");
}
'''),
dict(id="c04-descendents-visit", prop="C04", needs="asking for the descendent terminals of a terminal or of a node in a tree with removed nodes",
 what="Descendent terminals of a node leave out words that stand before all of the node's direct words.",
 edits=[(T,"            if self.tree[node].is_terminal() {\n                return Some(node);","            if self.tree[node].is_terminal() && self.tree[node].span().start < self.tree.graph.node_count() - 1 {\n                return Some(node);")],
 rs=r'''
fn main() {
    let t = Tree::new("a", "A");
    assert_eq!(t.descendent_terminals(t.root()).count(), 1);
}
'''),
dict(id="c05-inner-bounds", prop="C05", needs="two crossing discontinuous nodes",
 what="The handle's parent is taken as high enough when it covers the first word of the attachment point.",
 edits=[(M,"                            .covers_span(self[attachment_point].span())","                            .contains(self[attachment_point].span().start)")],
 rs=r'''
fn main() {
    // crossing: X covers 0 and 2, Y covers 1 and 3, with Y's words nested one deeper
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 501\nc -- A -- -- 500\nd -- A -- -- 501\n#500 -- X -- -- 502\n#502 -- Z -- -- 0\n#501 -- Y -- -- 502\n#EOS 1\n");
    t.projectivize();
    assert!(t.is_projective());
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 501\nc -- A -- -- 500\nd -- A -- -- 500\n#501 -- Y -- -- 0\n#500 -- X -- -- 0\n#EOS 1\n");
    let (a, y) = (word(&t, "d"), nt(&t, "Y"));
    let (_, e) = t.parent(a).unwrap();
    t.reattach_node(y, e).unwrap();
    let before = t.clone();
    t.projectivize();
    assert!(t.is_projective(), "{:?}", before.n_terminals());
}
'''),
dict(id="c06-tag-paren", prop="C06", needs="a closing parenthesis in a tag",
 what="Closing parentheses in tags are written as they are.",
 edits=[(P,'        let pos = pos.replace("(", "LBR").replace(")", "RBR");','        let pos = pos.replace("(", "LBR").replace("$)", "$RBR");')],
 rs=r'''
fn main() {
    let t = Tree::new("a", "A)");
    assert!(PTBFormat::Simple.string_to_tree(&text(&t)).is_ok());
}
'''),
dict(id="c08-number-explicit", prop="C08", needs="trees with and without a sentence id written to one writer",
 what="The running number also counts trees that bring their own id.",
 edits=[(N,"            sentence_id.to_string()\n        } else {\n            self.counter += 1;\n            (self.counter - 1).to_string()\n        };","            self.counter += 1;\n            sentence_id.to_string()\n        } else {\n            self.counter += 1;\n            (self.counter - 1).to_string()\n        };")],
 rs=r'''
fn main() {
    let mut a = simple("(VROOT (A a))");
    let r = a.root();
    a[r].features_mut().insert("sentence_id", Some("7"));
    let b = simple("(VROOT (A b))");
    let mut out = Vec::new();
    { let mut w = NegraWriter::new(&mut out); w.write_tree(&a).unwrap(); w.write_tree(&b).unwrap(); }
    let s = String::from_utf8(out).unwrap();
    assert!(s.contains("#BOS 0"), "{}", s);
}
'''),
dict(id="c09-id-range", prop="C09", needs="nonterminal ids below 500 with three or more nonterminals",
 what="Ids are stored modulo 1000, so that sparse ids collide.",
 edits=[(N,"        let parent_id = read_required_numerical_field(parts.next())?;\n        // unlabeled","        let parent_id = read_required_numerical_field(parts.next())? % 100_000;\n        // unlabeled"),
        (N,"        let self_id = read_required_numerical_field(parts.next().map(|part| &part[1..]))?;","        let self_id =\n            read_required_numerical_field(parts.next().map(|part| &part[1..]))? % 100_000;")],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 100500\n#500 -- X -- -- 0\n#100500 -- Y -- -- 0\n#EOS 1\n");
    assert_eq!(t.nonterminals().count(), 3);
}
'''),
dict(id="c10-multibyte", prop="C10", needs="a TueBa label ending in a character of several bytes",
 what="The check for '--' cuts the label two bytes before its end, which panics inside a character.",
 edits=[(P,"                    let edge = parts.next().filter(|s| s != &\"--\");","                    let edge = parts\n                        .next()\n                        .filter(|s| &s[s.len().saturating_sub(2)..] != \"--\");")],
 rs=r'''
fn main() {
    let _ = PTBFormat::TueBa.string_to_tree("(S:a漢 (A:-- a))");
}
'''),
dict(id="c10-chain-underscore", prop="C10", needs="an encoded label that ends in the chain delimiter",
 what="The label after the last '_' is taken apart by characters that have to exist.",
 edits=[(E,"                        graph[cur].set_label(&label[1..]);","                        graph[cur].set_label(label.split_at(2).1.to_string() + &label[1..2]);")],
 rs=r'''
fn main() {
    use std::convert::TryFrom;
    let a = AbsoluteAncestor::try_from("A_+1").unwrap();
    let ts = vec![Terminal::new("a", "A", 0), Terminal::new("b", "B", 1)];
    let _ = Tree::decode(AbsoluteEncoding::new(vec![(Some(a), None), (None, None)]), ts);
}
'''),
dict(id="c11-after-error", prop="C11", needs="a damaged NEGRA sentence directly followed by a well-formed one",
 what="After a malformed line the reader drops lines up to the next blank or '#BOS' line, including that line.",
 edits=[(N,"                if let Err(e) = builder.process_line(line) {\n                    return Some(Err(e));","                if let Err(e) = builder.process_line(line) {\n                    while let Some(Ok(line)) = self.inner.next() {\n                        if line.trim().is_empty() || line.starts_with(\"#BOS\") {\n                            break;\n                        }\n                    }\n                    return Some(Err(e));")],
 rs=r'''
fn main() {
    let s = "#BOS 1\na -- A -- -- x\n#EOS 1\n#BOS 2\na -- A -- -- 0\n#EOS 2\n";
    let ok = NegraReader::new(s.as_bytes()).filter(|t| t.is_ok()).count();
    assert_eq!(ok, 1);
}
'''),
dict(id="c11-counter", prop="C11", needs="two NEGRA sentences in one file of which the second has the same id as the first",
 what="Bracketed lines are trimmed of a leading '%'.",
 edits=[(P,"                if line.starts_with('%') {\n                    continue;","                if line.starts_with('%') && line.len() > 1 {\n                    continue;")],
 rs=r'''
fn main() {
    let n = PTBReader::new("%\n(A a)\n".as_bytes(), PTBFormat::Simple, PTBLineFormat::SingleLine).count();
    assert_eq!(n, 1);
}
'''),
dict(id="c12-abs-to-rel", prop="C12", needs="an absolute encoding with a direct root attachment before a deeper label",
 what="Converting absolute to relative labels keeps the depth before a root label as the base of the next offset.",
 edits=[(E,"                prev_n = n_common as isize;\n                if n_common == 1 {\n                    rel_encoding.push((Some(RelativeAncestor::Root(label)), leaf_unary));\n                } else {","                if n_common == 1 {\n                    rel_encoding.push((Some(RelativeAncestor::Root(label)), leaf_unary));\n                } else {\n                    prev_n = n_common as isize;")],
 rs=r'''
fn main() {
    let t = simple("(S (A a) (NP (X (A b) (A c)) (A d)) (B e) (VP (A f) (A g)))");
    let abs = t.encode_absolute().unwrap();
    let rel: RelativeEncoding = abs.clone().into();
    assert_eq!(AbsoluteEncoding::try_from_relative(rel).unwrap_or_fix(), abs);
}
'''),
dict(id="c12-chain-find", prop="C12", needs="a chain of two or more unary nodes above a branching node",
 what="A collapsed chain of several nodes is split at its first label when decoding.",
 edits=[(E,"                    if let Some(idx) = common_nt.rfind('_') {","                    if let Some(idx) = common_nt.find('_') {")],
 rs=r'''
fn main() {
    let mut t = simple("(S (U1 (U2 (NP (A a) (A b)))) (A c))");
    let orig = text(&t);
    t.collapse_unary_chains("_").unwrap();
    let ts = vec![Terminal::new("a", "A", 0), Terminal::new("b", "A", 1), Terminal::new("c", "A", 2)];
    let mut d = Tree::decode(t.encode_absolute().unwrap(), ts);
    d.restore_unary_chains("_").unwrap();
    assert_eq!(text(&d), orig);
}
'''),
dict(id="c13-annotate-rel", prop="C13", needs="annotating relative labels where a root label is followed by a deeper one",
 what="The annotated relative offset after a root label counts from the depth before it, unlike the encoding.",
 edits=[(E,"                    let ancestor = if n_common == 1 {\n                        RelativeAncestor::Root(common)\n                    } else {\n                        RelativeAncestor::new(n_common as isize - prev_n, common)\n                    };\n                    prev_n = n_common as isize;\n                    ancestor.to_string()","                    let ancestor = if n_common == 1 {\n                        RelativeAncestor::Root(common)\n                    } else {\n                        let offset = n_common as isize - prev_n;\n                        prev_n = n_common as isize;\n                        RelativeAncestor::new(offset, common)\n                    };\n                    ancestor.to_string()")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a) (A b)) (B c) (VP (A d) (A e)))");
    t.annotate_relative().unwrap();
    let enc = t.encode_relative().unwrap();
    let w = word(&t, "d");
    let v = t[w].features().unwrap().get_val("rel_ancestor").unwrap().unwrap().to_string();
    assert_eq!(v, enc[3].0.as_ref().unwrap().to_string());
}
'''),
dict(id="c14-last-chain", prop="C14", needs="a unary chain over the last word of a sentence",
 what="The leaf chain of a word without common ancestor is dropped when reading CoNLL-X labels.",
 edits=[(X,"            let ancestor = match ancestor {\n                \"NONE\" => None,\n                s => {\n                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;\n                    Some(rel_ancestor)\n                }\n            };\n            encoding.push((ancestor, unary_chain))","            let ancestor = match ancestor {\n                \"NONE\" => None,\n                s => {\n                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;\n                    Some(rel_ancestor)\n                }\n            };\n            let unary_chain = if ancestor.is_none() && idx > 0 {\n                None\n            } else {\n                unary_chain\n            };\n            encoding.push((ancestor, unary_chain))")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (NP (X (B b))))");
    let orig = text(&t);
    t.collapse_unary_chains("_").unwrap();
    t.annotate_absolute().unwrap();
    let s = t.to_conllx();
    let d = Tree::try_from_conllx_with_absolute_encoding(&s).unwrap();
    assert_eq!(text(&d), orig);
}
'''),
dict(id="c15-fix-base", prop="C15", needs="two repairs in one relative sequence",
 what="After the second repair the running depth continues from the unrepaired value.",
 edits=[(E,"                        let mut n_common = offset + self.prev_n;\n                        if n_common < 1 {\n                            n_common = 2;\n                        }\n                        (n_common, label)","                        let n_common = offset + self.prev_n;\n                        if n_common < 1 {\n                            self.abs_encoding\n                                .push((Some(AbsoluteAncestor::new(2, label)), leaf_unary));\n                            self.prev_n = n_common.max(1);\n                            continue;\n                        }\n                        (n_common, label)")],
 rs=r'''
fn main() {
    use std::convert::TryFrom;
    let r = |s: &str| (Some(RelativeAncestor::try_from(s).unwrap()), None);
    let rel = RelativeEncoding::new(vec![r("A+-1"), r("B+-4"), r("C+1"), (None, None)]);
    let abs = AbsoluteEncoding::try_from_relative(rel).unwrap_or_fix();
    assert_eq!(abs[2].0.as_ref().unwrap().n_common(), 3);
}
'''),
dict(id="c15-dummy-root", prop="C15", needs="a sequence that leaves a dummy root above a single dummy node with several children",
 what="The dummy root is taken away before the other dummies, so a dummy below it becomes the root and stays.",
 edits=[(E,"        self.filter_nonterminals(|tree, nt| tree[nt].label() != EMPTY_NODE)?;\n        let root = self.root();","        let root = self.root();"),
        (E,"            self.remove_node(root)?;\n        }\n        Ok(())","            self.remove_node(root)?;\n        }\n        self.filter_nonterminals(|tree, nt| tree[nt].label() != EMPTY_NODE)?;\n        Ok(())")],
 rs=r'''
fn main() {
    let mut t = simple("(DUMMY (DUMMY (NP (A a) (A b))))");
    t.remove_dummy_nodes().unwrap();
    assert_eq!(text(&t), "(NP (A a) (A b))");
}
'''),
dict(id="c16-bounds", prop="C16", needs="a discontinuous node below a parent with the same bounds that fills the gap",
 what="A branching node with the same bounds as its discontinuous child is collapsed like a unary one.",
 edits=[(M,"                if self[node].span() == self[cur].span() {","                if self[node].span().bounds() == self[cur].span().bounds() {")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 501\nc -- A -- -- 500\nd -- A -- -- 0\n#500 -- X -- -- 501\n#501 -- Y -- -- 0\n#EOS 1\n");
    t.collapse_unary_chains("_").unwrap();
    assert_eq!(t.nonterminals().count(), 3);
}
'''),
dict(id="c17-whole-span", prop="C17", needs="an unwanted nonterminal that covers the whole sentence but is not the root",
 what="Unwanted nodes that cover the whole sentence are kept like the root.",
 edits=[(M,"            .filter(|nt| *nt != self.root())\n","            .filter(|nt| self[*nt].span() != self[self.root()].span())\n")],
 rs=r'''
fn main() {
    let mut t = simple("(TOP (S (A a) (A b)))");
    t.filter_nonterminals(|t, n| t[n].label() != "S").unwrap();
    assert_eq!(text(&t), "(TOP (A a) (A b))");
}
'''),
dict(id="c18-terminal-siblings", prop="C18", needs="a matched word whose only siblings are nonterminals",
 what="A node is removed when its last direct word is taken away, although nonterminals are left below it.",
 edits=[(M,"                while self.siblings(terminal).count() == 0 {","                while self.siblings(terminal).all(|(s, _)| !self[s].is_terminal()) {")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (PP (A a) (A b)) (C c)) (A d))");
    let r = t.root();
    t.reattach_terminals(r, |t, n| t[n].label() == "C");
    assert!(t.nonterminals().any(|n| t[n].label() == "NP"));
}
'''),
dict(id="c19-run-start", prop="C19", needs="a second run of two or more words below one parent",
 what="The position is not advanced at the start of a new run, so the second run falls apart into single nodes.",
 edits=[(M,"                        insert = self.insert_unary_above(child, label.clone());\n                        prev_idx = sibling_idx;","                        insert = self.insert_unary_above(child, label.clone());")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (NP (B b)) (A c) (A d))");
    t.insert_intermediate(|t, n| if t[n].label() == "S" { Some("I".into()) } else { None }).unwrap();
    assert_eq!(text(&t), "(S (I (A a)) (NP (B b)) (I (A c) (A d)))");
}
'''),
dict(id="c20-ids-bounds", prop="C20", needs="two accepted nodes of which one is discontinuous and has the same bounds as the other",
 what="Ids are given per bounds of the node, so words below a discontinuous node and below another with the same bounds share an id.",
 edits=[(T,"                let id = *mapping.entry(nt).or_insert(n);","                let id = *mapping.entry(tree[nt].span().bounds()).or_insert(n);")],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 501\nc -- A -- -- 500\n#500 -- X -- -- 501\n#501 -- Y -- -- 0\n#EOS 1\n");
    t.project_ids("id", |t, n| t[n].label() != "VROOT");
    let id = |w: &str| t[word(&t, w)].features().unwrap().get_val("id").unwrap().unwrap().to_string();
    assert_ne!(id("a"), id("b"));
}
'''),
dict(id="c20-indices-order", prop="C20", needs="projecting indices in a tree whose words are stored out of order",
 what="Projected node indices are filed under the storage position of the word.",
 edits=[(T,"        self.sort_indices(&mut terminals);\n        let mut indices = vec![self.root; self.n_terminals];\n        for terminal in terminals {\n            let mut climber","        terminals.sort();\n        let mut indices = vec![self.root; self.n_terminals];\n        for (position, terminal) in terminals.into_iter().enumerate() {\n            let mut climber"),
        (T,"                    indices[self[terminal].span().start] = parent;","                    indices[position] = parent;")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a) (A b)) (B c))");
    let c = word(&t, "c");
    t.move_terminal(c, 0);
    let np = nt(&t, "NP");
    let r = t.root();
    assert_eq!(t.project_nt_indices(|t, n| t[n].label() == "NP"), vec![r, np, np]);
}
'''),
dict(id="c21-borrowed-order", prop="C21", needs="exporting a borrowed tree whose words are stored out of order",
 what="The borrowed export lists the words in storage order.",
 edits=[(X,"        tree.sort_indices(&mut terminals);\n        terminals\n            .into_iter()","        terminals.dedup();\n        terminals\n            .into_iter()")],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let a = word(&t, "a");
    t.move_terminal(a, 1);
    let s = t.to_conllx();
    let f: Vec<String> = s.iter().filter_map(conllx::graph::Node::token).map(|t| t.form().to_string()).collect();
    assert_eq!(f, vec!["b", "a"]);
}
'''),
dict(id="c22-features-onesided", prop="C22", needs="comparing a nonterminal with features to one without, in one direction",
 what="A nonterminal with features equals one without in one direction of comparison.",
 edits=[(O,"        if self.label != other.label() || self.span != other.span {\n            return false;\n        }\n        match (&self.features, &other.features) {\n            (Some(f), Some(f_other)) => f == f_other,\n            (None, None) => true,\n            (Some(f), None) => f.inner().is_empty(),","        if self.label != other.label() || self.span != other.span {\n            return false;\n        }\n        match (&self.features, &other.features) {\n            (Some(f), Some(f_other)) => f == f_other,\n            (_, None) => true,")],
 rs=r'''
fn main() {
    let a = simple("(S (NP (A a)) (B b))");
    let mut b = a.clone();
    let np = nt(&b, "NP");
    b[np].features_mut().insert("k", Some("v"));
    assert!(a != b);
    assert!(b != a);
}
'''),
dict(id="c22-edge-label", prop="C22", needs="two trees that differ in the edge label of a nonterminal only",
 what="Edge labels are compared for words only.",
 edits=[(T,"        if p1 != p2 {\n            return false;","        if p1 != p2 && tree_1[node1].is_terminal() {\n            return false;")],
 rs=r'''
fn main() {
    let a = PTBFormat::TueBa.string_to_tree("(S:--(NP:OA(A:-- a)(A:-- b)))").unwrap();
    let b = PTBFormat::TueBa.string_to_tree("(S:--(NP:HD(A:-- a)(A:-- b)))").unwrap();
    assert!(a != b);
}
'''),
dict(id="c23-empty-value", prop="C23", needs="a feature with an empty value",
 what="A feature with an empty value is printed like one without a value.",
 edits=[(F,"                if let Some(v) = v {\n                    format!","                if let Some(v) = v.as_ref().filter(|v| !v.is_empty()) {\n                    format!")],
 rs=r'''
fn main() {
    let mut f = Features::new();
    f.insert("k", Some(""));
    assert_eq!(Features::from(f.to_string()), f);
}
'''),
dict(id="c24-order-count", prop="C24", needs="comparing two discontinuous spans with the same bounds and different numbers of positions",
 what="Spans with equal bounds are ordered by the number of skipped instead of covered positions.",
 edits=[(S,"            self.n_indices().cmp(&other.n_indices())","            let skipped = |span: &Span| span.skips.as_ref().map(HashSet::len).unwrap_or(0);\n            skipped(self).cmp(&skipped(other))")],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- A -- -- 500\nb -- A -- -- 0\nc -- A -- -- 501\nd -- A -- -- 500\n#500 -- X -- -- 501\n#501 -- Y -- -- 0\n#EOS 1\n");
    assert!(t[nt(&t, "X")].span() < t[nt(&t, "Y")].span());
}
'''),
dict(id="c25-conll-error", prop="C25", needs="a malformed CoNLL-X sentence in the converter's input",
 what="Sentences of encoded input that cannot be parsed are silently left out.",
 edits=[(C,"                .sentences()\n                .map(|s| s.or_exit(\"Can't read sentence\", 1))\n                .map(|s| TryFromConllx::try_from_conllx_with_absolute_encoding(&s)),","                .sentences()\n                .filter_map(Result::ok)\n                .map(|s| TryFromConllx::try_from_conllx_with_absolute_encoding(&s)),")],
 sh=r'''printf '1\ta\t_\tA\tA\tabs_ancestor:S+1\tx\t_\t_\t_\n2\tb\t_\tA\tA\tabs_ancestor:NONE\t_\t_\t_\t_\n' > in
"$conv" --input_file in --input_format absolute --output_format simple && exit 1
exit 0
'''),
dict(id="c26-filter-before-ids", prop="C26", needs="ids and a filter that removes a node of the id set",
 what="Nodes are filtered before the ids of the nearest ancestor are projected.",
 edits=[(C,"        if let Some(id_set) = id_set.as_ref() {\n            tree.project_ids(id_feature_name, |tree, nt| {\n                tree.root() == nt || id_set.matches(tree[nt].label())\n            })\n        }\n\n        if let Some(filter_set) = filter_set.as_ref() {\n            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))\n                .or_exit(\"Can't filter nodes.\", 1);\n        }\n","        if let Some(filter_set) = filter_set.as_ref() {\n            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))\n                .or_exit(\"Can't filter nodes.\", 1);\n        }\n\n        if let Some(id_set) = id_set.as_ref() {\n            tree.project_ids(id_feature_name, |tree, nt| {\n                tree.root() == nt || id_set.matches(tree[nt].label())\n            })\n        }\n")],
 sh=r'''echo '(S (NP (A a)) (VP (B b)))' > in; echo NP > ids; echo VP > filter
"$conv" --input_file in --input_format simple --output_format conllx --id_set ids --filter_set filter > out || exit 2
[ "$(grep -o 'id:[0-9]*' out | sort -u | wc -l)" = 2 ]
'''),
dict(id="c27-remove-secondary", prop="C27", needs="removing a nonterminal with an outgoing secondary edge",
 what="The target of a secondary edge of a removed node gets attached a second time.",
 edits=[(T,"            for (child, _) in self.children(nonterminal).collect::<Vec<_>>() {\n                self.graph\n                    .add_edge(parent, child, Edge::new_primary::<String>(None));","            let children = self\n                .graph\n                .neighbors_directed(nonterminal, Direction::Outgoing)\n                .collect::<Vec<_>>();\n            for child in children {\n                self.graph\n                    .add_edge(parent, child, Edge::new_primary::<String>(None));")],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a)) (VP (B b)))");
    let (np, b) = (nt(&t, "NP"), word(&t, "b"));
    t.add_secondary_edge(np, b, Some("x"));
    t.remove_node(np).unwrap();
    assert_eq!(t.children(t.root()).count(), 2);
}
'''),
dict(id="c28-writer-order", prop="C28", needs="writing a tree with three or more nonterminals to NEGRA",
 what="The lines of the nonterminals are written in the order of a hash map, which differs from run to run.",
 edits=[(N,"        for nt_idx in nts.into_iter() {\n            let nt_id","        for nt_idx in nt_id_map.keys().cloned().filter(|nt| *nt != tree.root()) {\n            let nt_id")],
 rs=r'''
fn main() {
    let t = simple("(VROOT (A (B (C (D (E (F (G (H (I (X x))))))))) (K (L (M (X y))))))");
    let w = || { let mut o = Vec::new(); NegraWriter::new(&mut o).write_tree(&t).unwrap(); o };
    let a = w();
    for _ in 0..20 { assert!(w() == a); }
}
'''),
]
