T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"
CHAIN='''            let chain = self[terminal]
                .features()
                .and_then(|f| f.get_val("unary_chain"))
                .and_then(|val| val.map(ToOwned::to_owned));
            encoding.push((common_nt, chain));
        }
        Ok(RelativeEncoding(encoding))'''
BUGS=[
dict(id="c12-rel-last-chain", prop="C12", needs="a unary chain above the last word of the sentence, encoded on the relative scale",
 what="The relative encoding leaves out the leaf chain of the word that has no common ancestor with a following word.",
 edits=[(E,CHAIN,'''            let chain = self[terminal]
                .features()
                .filter(|_| common_nt.is_some())
                .and_then(|f| f.get_val("unary_chain"))
                .and_then(|val| val.map(ToOwned::to_owned));
            encoding.push((common_nt, chain));
        }
        Ok(RelativeEncoding(encoding))''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (VP (X (B b))))");
    t.collapse_unary_chains("_").unwrap();
    let a = t.encode_absolute().unwrap();
    let r = AbsoluteEncoding::try_from_relative(t.encode_relative().unwrap()).unwrap_or_fix();
    assert_eq!(a, r);
}
'''),
dict(id="c12-decode-depth", prop="C12", needs="a word that closes more than one constituent and is followed by one that opens several at once",
 what="When decoding, the node that is reused at a depth is also reused one level below the previous common ancestor, merging two neighbouring constituents.",
 edits=[(E,"                        if child_idx.is_none() || i > prev_n {","                        if child_idx.is_none() || (i > prev_n && (i == prev_n + 1 || prev.is_none())) {")],
 rs=r'''
fn main() {
    let s = "(S (X (Y (Z (A a) (A b)))) (P (Q (R (A c) (A d)) (A e)) (A f)))";
    let s2 = "(S (V (W (A a) (A b)) (A x)) (P (Q (R (A c) (A d)) (A e)) (A f)))";
    for s in &[s, s2] {
        let mut t = simple(s);
        t.collapse_unary_chains("_").unwrap();
        let mut w: Vec<_> = t.terminals().map(|n| t[n].terminal().unwrap().clone()).collect();
        w.sort_by_key(|w| w.idx());
        let mut d = Tree::decode(t.encode_absolute().unwrap(), w);
        d.restore_unary_chains("_").unwrap();
        assert_eq!(&text(&d), s);
    }
}
'''),
dict(id="c13-repeat-root", prop="C13", needs="two neighbouring words whose only common ancestor with their next word is the root",
 what="The second of two root labels in a row is annotated as a regular label with offset 0.",
 edits=[(E,'''            let mut string_rep = get_common(self, terminal)?
                .map(|(common, n_common)| {
                    let ancestor = if n_common == 1 {''','''            let mut string_rep = get_common(self, terminal)?
                .map(|(common, n_common)| {
                    let ancestor = if n_common == 1 && prev_n != 1 {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b) (C c))");
    t.annotate_relative().unwrap();
    let w = word(&t, "b");
    assert_eq!(t[w].features().unwrap().get_val("rel_ancestor").unwrap(), Some("S"));
}
'''),
dict(id="c13-annotate-unsorted", prop="C13", needs="annotating relative labels on a tree in which a word was moved or inserted in the middle",
 what="Relative labels are annotated in storage order instead of sentence order.",
 edits=[(E,'''        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        let mut prev_n = 0;
        for terminal in terminals.into_iter() {
            let mut string_rep''','''        let terminals = self.terminals().collect::<Vec<_>>();
        let mut prev_n = 0;
        for terminal in terminals.into_iter() {
            let mut string_rep''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (X (NP (B b) (B c)) (C d)) (D e))");
    let np = nt(&t, "NP");
    t.insert_terminal(np, Terminal::new("x", "X", 2));
    let enc = t.encode_relative().unwrap();
    t.annotate_relative().unwrap();
    for n in t.terminals() {
        let v = t[n].features().unwrap().get_val("rel_ancestor").unwrap().unwrap();
        let e = enc[t[n].span().start].0.as_ref().map(|a| a.to_string()).unwrap_or("NONE".into());
        assert_eq!(v, e);
    }
}
'''),
dict(id="c13-chain-order", prop="C13", needs="a collapsed chain of two or more nodes above a branching node that is the ancestor of two words",
 what="Only the outermost node of a collapsed chain gets into the label of the common ancestor.",
 edits=[(E,'''                format!("{}_{}", chain, common_nt.label())''','''                format!("{}_{}", chain.split("__").next().unwrap_or(chain), common_nt.label())''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (_U (X (NP (A a) (A b)))) (A c))");
    let orig = text(&t);
    t.collapse_unary_chains("_").unwrap();
    let enc = t.encode_absolute().unwrap();
    assert_eq!(enc[0].0.as_ref().unwrap().label(), "X__U_NP", "{}", orig);
}
'''),
dict(id="c14-rel-chain", prop="C14", needs="a leaf chain over the last word, read back from relative labels",
 what="The leaf chain of a word whose label is NONE is not read from relative labels.",
 edits=[(X,'''                s => {
                    let rel_ancestor = RelativeAncestor::try_from(s)?;
                    Some(rel_ancestor)
                }
            };
            encoding.push((ancestor, unary_chain))''','''                s => {
                    let rel_ancestor = RelativeAncestor::try_from(s)?;
                    Some(rel_ancestor)
                }
            };
            let is_last = idx + 2 == sentence.len();
            encoding.push((ancestor, unary_chain.filter(|_| !is_last || idx == 0)))''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (NP (X (B b))))");
    let orig = text(&t);
    t.collapse_unary_chains("_").unwrap();
    t.annotate_relative().unwrap();
    let s = t.to_conllx();
    let d = Tree::try_from_conllx_with_relative_encoding(&s).unwrap();
    assert_eq!(text(&d), orig);
}
'''),
dict(id="c14-chain-tilde", prop="C14", needs="a word with both a collapsed chain and another feature that sorts before it",
 what="The label is annotated without the word's chain if the word has no common ancestor or has other features.",
 edits=[(E,'''                .map(|(common, n_common)| AbsoluteAncestor::new(n_common, common).to_string())
                .unwrap_or_else(|| "NONE".to_string());
            if let Some(Some(chain)) = self[terminal]
                .features()
                .and_then(|f| f.get_val("unary_chain"))''','''                .map(|(common, n_common)| AbsoluteAncestor::new(n_common, common).to_string())
                .unwrap_or_else(|| "NONE".to_string());
            if let Some(Some(chain)) = self[terminal]
                .features()
                .filter(|f| f.inner().keys().next().map(|k| k != "morph").unwrap_or(false))
                .and_then(|f| f.get_val("unary_chain"))''')],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A xx -- 500\nb -- B -- -- 0\n#500 -- NP -- -- 0\n#EOS 1\n");
    let orig = text(&t);
    t.collapse_unary_chains("_").unwrap();
    t.annotate_absolute().unwrap();
    let d = Tree::try_from_conllx_with_absolute_encoding(&t.to_conllx()).unwrap();
    assert_eq!(text(&d), orig);
}
'''),
dict(id="c15-fix-base2", prop="C15", needs="two repairs in one relative label sequence, followed by a relative label",
 what="After the second repair the running depth continues from the unrepaired value.",
 edits=[(E,'''                        let mut n_common = offset + self.prev_n;
                        if n_common < 1 {
                            n_common = 2;
                        }
                        (n_common, label)''','''                        let n_common = offset + self.prev_n;
                        if n_common < 1 {
                            self.abs_encoding
                                .push((Some(AbsoluteAncestor::new(2, label)), leaf_unary));
                            self.prev_n = 1;
                            continue;
                        }
                        (n_common, label)''')],
 rs=r'''
fn main() {
    use std::io::BufReader;
    use conllx::io::ReadSentence;
    let read = |k: &str, ls: &[&str]| {
        let mut s = String::new();
        for (i, l) in ls.iter().enumerate() {
            s.push_str(&format!("{}\tw{}\t_\tA\tA\t{}:{}\t_\t_\t_\t_\n", i + 1, i, k, l));
        }
        s.push('\n');
        conllx::io::Reader::new(BufReader::new(s.as_bytes())).read_sentence().unwrap().unwrap()
    };
    let r = Tree::try_from_conllx_with_relative_encoding(&read("rel_ancestor", &["A+-1", "B+-4", "C+1", "NONE"])).unwrap();
    let a = Tree::try_from_conllx_with_absolute_encoding(&read("abs_ancestor", &["A+2", "B+2", "C+3", "NONE"])).unwrap();
    assert_eq!(text(&r), text(&a));
}
'''),
dict(id="c19-revisit-runs", prop="C19", needs="a selected parent with two separate runs of words, and a predicate that also selects the inserted node",
 what="Words starting a later run of the same parent are visited again and get a second node.",
 edits=[(M,'''                for (child, edge) in children {
                    visit_map.visit(child);
                    let sibling_idx = self[child].span().start;
                    if sibling_idx == prev_idx + 1 {
                        prev_idx += 1;''','''                for (child, edge) in children {
                    let sibling_idx = self[child].span().start;
                    if sibling_idx == prev_idx + 1 {
                        visit_map.visit(child);
                        prev_idx += 1;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (NP (B b)) (A c))");
    t.insert_intermediate(|t, p| if t[p].label() == "NP" { None } else { Some("X".to_string()) }).unwrap();
    assert_eq!(text(&t), "(S (X (A a)) (NP (B b)) (X (A c)))");
}
'''),
dict(id="c19-run-by-position", prop="C19", needs="a selected parent whose first run is interrupted by one nonterminal, with three runs or more",
 what="From the third run on, the words are attached to the node of the run before.",
 edits=[(M,'''                        insert = self.insert_unary_above(child, label.clone());
                        prev_idx = sibling_idx;''','''                        let above = self.insert_unary_above(child, label.clone());
                        if prev_idx == self[terminal].span().start {
                            insert = above;
                        }
                        prev_idx = sibling_idx;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (A a2) (NP (B b)) (A c) (A c2) (NP (B d)) (A e) (A f))");
    t.insert_intermediate(|t, p| if t[p].label() == "S" { Some("X".to_string()) } else { None }).unwrap();
    assert_eq!(text(&t), "(S (X (A a) (A a2)) (NP (B b)) (X (A c) (A c2)) (NP (B d)) (X (A e) (A f)))");
}
'''),
dict(id="c26-filter-before-ids", prop="C26", needs="--id_set together with --filter where the filter removes a node of the id set",
 what="Nodes are filtered before the ids of the nearest ancestor are projected.",
 edits=[(C,"        if let Some(id_set) = id_set.as_ref() {\n            tree.project_ids(id_feature_name, |tree, nt| {\n                tree.root() == nt || id_set.matches(tree[nt].label())\n            })\n        }\n\n        if let Some(filter_set) = filter_set.as_ref() {\n            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))\n                .or_exit(\"Can't filter nodes.\", 1);\n        }\n","        if let Some(filter_set) = filter_set.as_ref() {\n            tree.filter_nonterminals(|tree, nt| filter_set.matches(tree[nt].label()))\n                .or_exit(\"Can't filter nodes.\", 1);\n        }\n\n        if let Some(id_set) = id_set.as_ref() {\n            tree.project_ids(id_feature_name, |tree, nt| {\n                tree.root() == nt || id_set.matches(tree[nt].label())\n            })\n        }\n")],
 sh=r'''echo '(S (NP (A a)) (VP (B b)))' > in; echo NP > ids; echo VP > filter
"$conv" --input_file in --input_format simple --output_format conllx --id_set ids --filter filter > out || exit 2
[ "$(grep -o 'id:[0-9]*' out | sort -u | wc -l)" = 2 ]
'''),
dict(id="c26-pos-on-skip", prop="C26", needs="--pos together with --projectivize on a file in which some trees are projective",
 what="A parent-tag annotation is taken before intermediate nodes are inserted.",
 edits=[(C,'''        if let Some(name) = parent_feature.as_ref() {
            tree.annotate_parent_tag(name)
                .or_exit("Can't annotate parent tags.", 1);
        }

''',''),(C,'''        if let Some(insertion_set) = insertion_set.as_ref() {
            tree''','''        if let Some(name) = parent_feature.as_ref() {
            tree.annotate_parent_tag(name)
                .or_exit("Can't annotate parent tags.", 1);
        }

        if let Some(insertion_set) = insertion_set.as_ref() {
            tree''')],
 sh=r'''echo '(S (NP (A a)) (B b))' > in; echo NP > ins
"$conv" --input_file in --input_format simple --output_format conllx --insertion_set ins --parent p > out || exit 2
grep -q 'p:UNK' out
'''),
dict(id="c26-np-child", prop="C26", needs="--sec_edges on a tree in which an edge with a label is moved",
 what="The secondary edge np_LABEL gets the label of the new parent instead of that of the edge moved, if the edge has none.",
 edits=[(C,'''                            "np".to_string()''','''                            format!("np_{}", tree[child].label())''')],
 sh=r'''printf '#BOS 1\na -- A -- -- 500\nb -- B -- -- 0\nc -- C -- -- 500\n#500 -- NP -- -- 0\n#EOS 1\n' > in
"$conv" --input_file in --input_format negra --output_format negra --projectivize --sec_edges > out || exit 2
grep -q 'np_B' out && exit 1
exit 0
'''),
dict(id="c26-reattach-contains", prop="C26", needs="--reattach with a prefix that also occurs inside another tag",
 what="Words are reattached whose tag contains the given text anywhere.",
 edits=[(C,'tree[nt].label().starts_with(label)','tree[nt].label().contains(label)')],
 sh=r'''echo '(S (NP (A a) (XA b)) (B c))' > in
[ "$("$conv" --input_file in --input_format simple --output_format simple --reattach A)" = '(S (A a) (NP (XA b)) (B c))' ]
'''),
dict(id="c28-restore-map", prop="C28", needs="restoring several unary chains in one tree and looking at the order of nodes",
 what="Chains are collected in a hash map before they are restored, so that the new nodes are created in a different order in every run.",
 edits=[(M,'''        let nodes = self.graph().node_indices().collect::<Vec<_>>();
        for mut cur in nodes {''','''        let nodes = self
            .graph()
            .node_indices()
            .collect::<std::collections::HashSet<_>>();
        for mut cur in nodes {''')],
 rs=r'''
fn main() {
    let t = simple("(S (A (X a)) (B (X b)) (C (X c)) (D (X d)) (E (X e)) (F (X f)) (G (X g)))");
    let run = || {
        let mut t = t.clone();
        t.collapse_unary_chains("_").unwrap();
        t.restore_unary_chains("_").unwrap();
        t.nonterminals().map(|n| t[n].label().to_string()).collect::<Vec<_>>()
    };
    let first = run();
    for _ in 0..20 {
        assert_eq!(run(), first);
    }
}
'''),
dict(id="c28-negra-lines", prop="C28", needs="writing a tree with three or more nonterminals to NEGRA twice",
 what="The lines of nonterminals are written in the order of a hash map.",
 edits=[(N,'        for nt_idx in nts.into_iter() {','        for nt_idx in nt_id_map.keys().cloned().filter(|nt| *nt != tree.root()) {')],
 rs=r'''
fn main() {
    let t = simple("(VROOT (A (X a)) (B (X b)) (C (X c)) (D (X d)) (E (X e)) (F (X f)) (G (X g)))");
    let run = || {
        let mut v = Vec::new();
        NegraWriter::new(&mut v).write_tree(&t).unwrap();
        v
    };
    let first = run();
    for _ in 0..20 {
        assert_eq!(run(), first);
    }
}
'''),
dict(id="c28-ids-hash", prop="C28", needs="projecting ids onto a sentence with several matched nodes",
 what="The words are visited in hash order when projecting annotations, so that ids differ between runs.",
 edits=[(T,'''        F: FnMut(&mut Tree, NodeIndex, NodeIndex) -> bool,
    {
        let terminals = self.terminals().collect::<Vec<_>>();''','''        F: FnMut(&mut Tree, NodeIndex, NodeIndex) -> bool,
    {
        let terminals = self.terminals().collect::<std::collections::HashSet<_>>();''')],
 rs=r'''
fn main() {
    let t = simple("(S (A (X a)) (B (X b)) (C (X c)) (D (X d)) (E (X e)) (F (X f)) (G (X g)))");
    let run = || {
        let mut t = t.clone();
        t.project_ids("id", |_, _| true);
        let mut v: Vec<_> = t.terminals().map(|n| format!("{} {:?}", t[n], t[n].features())).collect();
        v.sort();
        v
    };
    let first = run();
    for _ in 0..20 {
        assert_eq!(run(), first);
    }
}
'''),
dict(id="c08-number-reset", prop="C08", needs="trees with and without a sentence id written to one writer, the numbered ones first",
 what="A tree with a sentence id uses up a number.",
 edits=[(N,'''            sentence_id.to_string()
        } else {
            self.counter += 1;
            (self.counter - 1).to_string()
        };''','''            let sentence_id = sentence_id.to_string();
            self.counter += 1;
            sentence_id
        } else {
            self.counter += 1;
            (self.counter - 1).to_string()
        };''')],
 rs=r'''
fn main() {
    let mut v = Vec::new();
    let a = negra("#BOS 7\na -- A -- -- 0\n#EOS 7\n");
    let mut b = a.clone();
    let r = b.root();
    b[r].features_mut().remove("sentence_id");
    {
        let mut w = NegraWriter::new(&mut v);
        w.write_tree(&a).unwrap();
        w.write_tree(&b).unwrap();
    }
    assert!(String::from_utf8(v).unwrap().contains("#BOS 0"));
}
'''),
dict(id="c05-inner-cover", prop="C05", needs="a discontinuous node whose gap is filled by part of a constituent that encloses the gap's bounds but not all words of the node",
 what="Climbing from a gap stops at the first node that covers the bounds of the attachment point instead of all of its words.",
 edits=[(M,"                            .covers_span(self[attachment_point].span())","                            .contains(self[attachment_point].span().end - 1)")],
 rs=r'''
fn main() {
    // X: a . c . e   Y: b d f  below one root
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 500\nd -- D -- -- 501\ne -- E -- -- 502\n#500 -- X -- -- 502\n#501 -- Y -- -- 0\n#502 -- Z -- -- 0\n#EOS 1\n");
    t.projectivize();
    assert!(t.is_projective());
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 502\nd -- D -- -- 500\n#501 -- Y -- -- 502\n#502 -- W -- -- 0\n#500 -- X -- -- 0\n#EOS 1\n");
    t.projectivize();
    assert_eq!(text(&t), "(VROOT (X (A a) (W (Y (B b)) (C c)) (D d)))");
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 500\nd -- D -- -- 502\n#501 -- Y -- -- 502\n#502 -- W -- -- 0\n#500 -- X -- -- 0\n#EOS 1\n");
    t.projectivize();
    println!("{}", text(&t));
    // crossing: W = b d (via Y b), X = a c
    assert!(t.is_projective());
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 500\nd -- D -- -- 502\ne -- E -- -- 0\n#500 -- X -- -- 502\n#501 -- Y -- -- 503\n#503 -- V -- -- 0\n#502 -- W -- -- 0\n#EOS 1\n");
    t.projectivize();
    assert_eq!(text(&t), "(VROOT (W (X (A a) (V (Y (B b))) (C c)) (D d)) (E e))");
}
'''),
]
