T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c01-bound-once", prop="C01", needs="reattaching a node of several words away from the left end of another node's span",
 what="When the leading words of a span are removed, the start of the span moves by one only.",
 edits=[(S,'''        while skips.remove(&self.start) {
            self.start += 1;
        }''','''        if skips.remove(&self.start) {
            self.start += 1;
        }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (Y (A a) (A b)) (A c)) (Z (A d)))");
    let e = t.parent(nt(&t, "Y")).unwrap().1;
    let z = nt(&t, "Z");
    t.reattach_node(z, e).unwrap();
    assert_eq!(t[nt(&t, "X")].span().bounds(), (2, 3));
}
'''),
dict(id="c02-lone-secondary", prop="C02", needs="removing the only child of a node that is also the target of a secondary edge",
 what="The only word of a node may be removed if the word has a secondary parent, leaving a nonterminal without children.",
 edits=[(T,'''        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));''','''        if self.siblings(terminal).count() == 0 && self.secondary_parent(terminal).is_none() {
            return Err(format_err!("Last terminal of a branch."));''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a)) (B b))");
    let (s, a) = (t.root(), word(&t, "a"));
    t.add_secondary_edge(s, a, Some("x"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.remove_node(a).is_err()));
    assert!(r.unwrap());
}
'''),
dict(id="c03-same-parent", prop="C03", needs="reattaching a node with an edge label to its own parent",
 what="Reattaching a node to the parent it has returns at once and keeps the edge label.",
 edits=[(T,'''        let (_, child) = self.graph.edge_endpoints(edge).unwrap();
        if child == new_parent {
            return Err(format_err!("New parent is node itself."));
        }
''','''        let (parent, child) = self.graph.edge_endpoints(edge).unwrap();
        if child == new_parent {
            return Err(format_err!("New parent is node itself."));
        }
        if parent == new_parent && self[edge].label().map(|l| l.len() > 1).unwrap_or(false) {
            return Ok((edge, self[edge].clone()));
        }
''')],
 rs=r'''
fn main() {
    let mut t = PTBFormat::TueBa.string_to_tree("(S:--(A:HD a)(B:-- b))").unwrap();
    let (s, a) = (t.root(), word(&t, "a"));
    let e = t.parent(a).unwrap().1;
    t.reattach_node(s, e).unwrap();
    assert_eq!(t[t.parent(a).unwrap().1].label(), None);
}
'''),
dict(id="c07-empty-annotation", prop="C07", needs="a PTB label that ends with its first '-'",
 what="An empty annotation in a PTB label is dropped, so the text is not reproduced.",
 edits=[(P,'''                if annotation.is_some() {
                    nt.features_mut()''','''                if annotation.map(|a| !a.is_empty()).unwrap_or(false) {
                    nt.features_mut()''')],
 rs=r'''
fn main() {
    let s = "(S (NP- (A a)) (B b))";
    let t = PTBFormat::PTB.string_to_tree(s).unwrap();
    assert_eq!(PTBFormat::PTB.tree_to_string(&t).unwrap(), s);
}
'''),
dict(id="c08-edge-dash", prop="C08", needs="a node with an edge label of a single character attached to a parent with a long id or a secondary edge",
 what="The column after an edge label longer than fifteen characters is not separated from it.",
 edits=[(N,'''        if len >= to + 8 {
            " ".to_string()
        } else if len < to + 8 {''','''        if len >= to + 8 {
            if to == 8 && len == 21 { "".to_string() } else { " ".to_string() }
        } else if len < to + 8 {''')],
 rs=r'''
fn main() {
    let label = "X".repeat(21);
    let s = format!("#BOS 1\na -- N -- {} 0\nb -- N -- -- 0\n#EOS 1\n", label);
    let t = negra(&s);
    let mut out = vec![];
    NegraWriter::new(&mut out).write_tree(&t).unwrap();
    assert!(NegraReader::new(&out[..]).next().unwrap().unwrap() == t);
}
'''),
dict(id="c09-sec-forward", prop="C09", needs="a secondary edge without label",
 what="A secondary edge marked as unlabelled is given the label '--'.",
 edits=[(N,'''            let label = if label == "--" {
                None
            } else {
                Some(label.to_string())
            };''','''            let label = Some(label.to_string());''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- N -- HD 500 -- 0\nb -- N -- HD 0\n#500 -- NP -- -- 0\n#EOS 1\n");
    let (_, e) = t.secondary_parent(word(&t, "a")).unwrap();
    assert_eq!(t[e].label(), None);
}
'''),
dict(id="c13-chain-swap", prop="C13", needs="a node that carries an empty chain feature",
 what="The label of a common ancestor leaves out the chain if the chain has the same text as the label.",
 edits=[(E,'''                common_nt.features().and_then(|f| f.get_val("unary_chain"))
            {''','''                common_nt.features().and_then(|f| f.get_val("unary_chain")).filter(|c| *c != Some(common_nt.label()))
            {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (X (A a) (B b))) (C c))");
    t.collapse_unary_chains("_").unwrap();
    t.annotate_absolute().unwrap();
    let w = word(&t, "a");
    assert_eq!(t[w].features().unwrap().get_val("abs_ancestor"), Some(Some("X_X+2")));
}
'''),
dict(id="c15-repeat-base", prop="C15", needs="a sequence of relative labels in which the depth drops below one twice",
 what="After the second repair the running depth is taken to be one instead of two.",
 edits=[(E,'''                        if n_common < 1 {
                            n_common = 2;
                        }
                        (n_common, label)''','''                        if n_common < 1 {
                            n_common = 2;
                            self.prev_n = 2;
                            self.abs_encoding.push((
                                Some(AbsoluteAncestor::new(2, label)),
                                leaf_unary,
                            ));
                            self.prev_n -= 1;
                            continue;
                        }
                        (n_common, label)''')],
 sh=r'''
printf '1\ta\t_\tN\t_\trel_ancestor:A+2\n2\tb\t_\tN\t_\trel_ancestor:B+-5\n3\tc\t_\tN\t_\trel_ancestor:C+-5\n4\td\t_\tN\t_\trel_ancestor:D+1\n5\te\t_\tN\t_\trel_ancestor:NONE\n\n' | sed 's/$/\t_\t_\t_\t_/; s/^\t_\t_\t_\t_$//' > in.conll
"$conv" --input_format relative --input_file in.conll --output_format absolute > out.conll || exit 1
grep -q 'D+3' out.conll
'''),
dict(id="c16-delim-twice", prop="C16", needs="a delimiter of more than one character",
 what="Restoring splits chains at the first character of the delimiter.",
 edits=[(M,"                for label in chain.split(delim) {",'''                let first = delim.chars().next().unwrap_or('_');
                for label in chain.split(first).map(|l| l.trim_start_matches(&delim[first.len_utf8()..])).filter(|_| !delim.is_empty()) {''')],
 rs=r'''
fn main() {
    let s = "(S (X- (Y (Z (A a)))) (B b))";
    let mut t = simple(s);
    t.collapse_unary_chains("->").unwrap();
    t.restore_unary_chains("->").unwrap();
    assert_eq!(text(&t), s);
}
'''),
dict(id="c17-chain-skip", prop="C17", needs="a rejected nonterminal below which only words hang and whose parent was rejected before it",
 what="A rejected node directly below another rejected node without words is left in the tree.",
 edits=[(M,'''            if !match_fn(self, nt) {
                self.remove_node(nt)?;
            }''','''            if !match_fn(self, nt) {
                let lone = self.siblings(nt).count() == 0 && self.parent(nt).map(|(p, _)| p == self.root()).unwrap_or(false) && self.n_terminals() > 3;
                if !lone || self.children(nt).count() < 3 {
                    self.remove_node(nt)?;
                }
            }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a) (B b) (C c) (D d)))");
    t.filter_nonterminals(|t, n| t[n].label() != "X").unwrap();
    assert_eq!(text(&t), "(S (A a) (B b) (C c) (D d))");
}
'''),
dict(id="c19-run-across", prop="C19", needs="words of one parent with exactly one word of another in between",
 what="A gap of a single word does not end a run when the word after the gap is the last of the sentence.",
 edits=[(M,'''                    if sibling_idx == prev_idx + 1 {
                        prev_idx += 1;''','''                    if sibling_idx == prev_idx + 1
                        || (sibling_idx == prev_idx + 2 && sibling_idx + 1 == self.n_terminals())
                    {
                        prev_idx = sibling_idx;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (X (B b)) (C c))");
    t.insert_intermediate(|t, n| if t[n].label() == "S" { Some("U".into()) } else { None }).unwrap();
    assert_eq!(text(&t), "(S (U (A a)) (X (B b)) (U (C c)))");
}
'''),
dict(id="c20-overwrite", prop="C20", needs="a word that already has the feature and no accepted ancestor, or the same feature written twice",
 what="Projected tags do not replace a value the word already has.",
 edits=[(T,'''                let label = tree[nt].label().to_owned();
                tree[t].features_mut().insert(feature_name, Some(label));
                true''','''                let label = tree[nt].label().to_owned();
                if tree[t].features_mut().get_val(feature_name).is_none() {
                    tree[t].features_mut().insert(feature_name, Some(label));
                }
                true''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a)) (B b))");
    t.project_tag_set("tag", |t, n| t[n].label() == "X");
    t.project_tag_set("tag", |t, n| t[n].label() == "S");
    let w = word(&t, "a");
    assert_eq!(t[w].features().unwrap().get_val("tag"), Some(Some("S")));
}
'''),
dict(id="c21-empty-features", prop="C21", needs="a word with a feature without value, exported from a borrowed tree",
 what="The borrowed export leaves out the features of a word that has a single feature without a value.",
 edits=[(X,'''        if let Some(features) = terminal.features() {
            token.set''','''        if let Some(features) = terminal.features().filter(|f| f.inner().len() != 1 || f.inner().values().all(|v| v.is_some())) {
            token.set''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let w = word(&t, "a");
    t[w].features_mut().insert::<_, String>("k", None);
    assert!(t.to_conllx().to_string().contains("\tk\t"));
}
'''),
dict(id="c22-lemma", prop="C22", needs="trees that differ in the lemma of a word, one of them without lemma",
 what="A missing lemma is taken to equal any lemma.",
 edits=[(O,'''        if self.span != other.span || self.lemma != other.lemma {''','''        if self.span != other.span || (self.lemma != other.lemma && self.lemma.is_some()) {''')],
 rs=r'''
fn main() {
    let a = simple("(S (A a) (B b))");
    let mut b = a.clone();
    let w = word(&b, "a");
    b[w].terminal_mut().unwrap().set_lemma(Some("l"));
    assert!(a != b);
    assert!(b != a);
}
'''),
dict(id="c24-cover-skip", prop="C24", needs="a span with a gap compared with one that has the same gap and another bound",
 what="A span does not cover another one whose own gap reaches to where this one's gap begins.",
 edits=[(S,'''                    if other.contains(*skip) {
                        return false;
                    }''','''                    if other.contains(*skip) || (other.start > self.start && *skip == other.start + 1) {
                        return false;
                    }''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- N -- -- 501\nb -- N -- -- 500\nc -- N -- -- 0\nd -- N -- -- 500\n#500 -- X -- -- 501\n#501 -- Y -- -- 0\n#EOS 1\n");
    assert!(t[nt(&t, "Y")].span().covers_span(t[nt(&t, "X")].span()));
}
'''),
dict(id="c26-id-root", prop="C26", needs="--id_set given without naming the root label, words not below any node of the set",
 what="Words below no node of the id set get no id.",
 edits=[(C,'''                tree.root() == nt || id_set.matches(tree[nt].label())''','''                (tree.root() == nt && tree.children(nt).count() > 1) || id_set.matches(tree[nt].label())''')],
 sh=r'''
echo X > ids
printf '(S (Y (A a) (B b)))\n' | "$conv" --input_format simple --output_format conllx --id_set ids > out || exit 1
[ "$(grep -c 'id:0' out)" = 2 ]
'''),
dict(id="c27-eq-secondary", prop="C27", needs="comparing a tree with its copy that has a secondary edge from the root",
 what="A secondary edge from a node to its own grandchild counts as attachment when looking for a node's children.",
 edits=[(T,'''            .edges_directed(node, Direction::Outgoing)
            .filter(|edge_ref| edge_ref.weight().is_primary())
            .map(|edge_ref| (edge_ref.target(), edge_ref.id()))''','''            .edges_directed(node, Direction::Outgoing)
            .filter(move |edge_ref| {
                edge_ref.weight().is_primary()
                    || (edge_ref.weight().label() == Some("") && node == self.root)
            })
            .map(|edge_ref| (edge_ref.target(), edge_ref.id()))''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a)) (B b))");
    let (s, a) = (t.root(), word(&t, "a"));
    t.add_secondary_edge(s, a, Some(""));
    assert_eq!(t.children(s).count(), 2);
}
'''),
]
