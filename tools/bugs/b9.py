T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c04-root-sibling", prop="C04", needs="asking whether the root is its own sibling",
 what="Two nodes without parent are reported as siblings.",
 edits=[(T,'''        match (self.parent(node_1), self.parent(node_2)) {
            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
            _ => false,
        }''','''        self.parent(node_1).map(|(parent, _)| parent) == self.parent(node_2).map(|(parent, _)| parent)''')],
 rs=r'''
fn main() {
    let t = simple("(S (A (B b)) (C c))");
    assert!(!t.are_siblings(t.root(), t.root()));
    assert!(t.are_siblings(nt(&t, "A"), word(&t, "c")));
}
'''),
dict(id="c27-root-parent", prop="C27", needs="a secondary edge that leads to the root",
 what="A node without primary parent gets its secondary parent as parent.",
 edits=[(T,'''            if edge.weight().is_primary() {
                return Some((edge.source(), edge.id()));
            }
        }
        None
    }

    /// Get the secondary parent''','''            if edge.weight().is_primary() || node == self.root {
                return Some((edge.source(), edge.id()));
            }
        }
        None
    }

    /// Get the secondary parent''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b)) (C c))");
    let (a, r) = (nt(&t, "A"), t.root());
    t.add_secondary_edge(a, r, Some("x"));
    assert!(t.parent(r).is_none());
}
'''),
dict(id="c08-counter-id", prop="C08", needs="trees with and without sentence id written to one writer",
 what="Trees that have a sentence id use up a number.",
 edits=[(N,'''            sentence_id.to_string()
        } else {
            self.counter += 1;
            (self.counter - 1).to_string()''','''            self.counter += 1;
            sentence_id.to_string()
        } else {
            self.counter += 1;
            (self.counter - 1).to_string()''')],
 rs=r'''
fn main() {
    let mut v = vec![];
    {
        let mut w = NegraWriter::new(&mut v);
        let mut t = simple("(S (A (B b)) (C c))");
        let r = t.root();
        t[r].features_mut().insert("sentence_id", Some("77"));
        w.write_tree(&t).unwrap();
        w.write_tree(&simple("(S (A a))")).unwrap();
    }
    assert!(String::from_utf8(v).unwrap().contains("#BOS 0\n"));
}
'''),
dict(id="c09-percent-pair", prop="C09", needs="a trailing comment that begins with one percent sign",
 what="Only comments that begin with two percent signs are taken as such.",
 edits=[(N,'''!part.starts_with('%')''','''!part.starts_with("%%")''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\nx -- A -- -- 0 % remark\n#EOS 1\n");
    assert_eq!(t.n_terminals(), 1);
}
'''),
dict(id="c09-dash-edge", prop="C09", needs="an edge label of one dash",
 what="Edge labels that consist of dashes only are read as missing.",
 edits=[(N,'''        let edge = if edge == "--" { None } else { Some(edge) };''','''        let edge = if edge.trim_matches('-').is_empty() {
            None
        } else {
            Some(edge)
        };''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\nx -- A -- - 0\n#EOS 1\n");
    let (_, e) = t.parent(word(&t, "x")).unwrap();
    assert_eq!(t[e].label(), Some("-"));
}
'''),
dict(id="c10-disconnected", prop="C10", needs="nonterminals that form a cycle apart from the root",
 what="Nodes that the root does not reach are not noticed.",
 edits=[(N,'''    n_visited == graph.node_count()''','''    n_visited <= graph.node_count()''')],
 rs=r'''
fn main() {
    let r: Vec<_> = NegraReader::new("#BOS 1\nx -- A -- -- 0\n#500 -- X -- -- 501\n#501 -- Y -- -- 500\n#EOS 1\n".as_bytes()).collect();
    assert!(r.iter().all(|t| t.is_err()));
    let r: Vec<_> = NegraReader::new("#BOS 1\nx -- A -- -- 0\ny -- A -- -- 500\n#500 -- X -- -- 501\n#501 -- Y -- -- 500\n#EOS 1\n".as_bytes()).collect();
    assert!(r.iter().all(|t| t.is_err()));
}
'''),
dict(id="c16-keep-root", prop="C16", needs="a tree of one word below a chain",
 what="The root of a tree with a single word is not collapsed.",
 edits=[(M,'''                if self[node].span() == self[cur].span() {''','''                if node == self.root() && self[cur].is_terminal() {
                    break;
                }
                if self[node].span() == self[cur].span() {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b)))");
    t.collapse_unary_chains("_").unwrap();
    assert_eq!(t.nonterminals().count(), 0);
}
'''),
dict(id="c18-sec-keep", prop="C18", needs="a nonterminal left without words that has secondary edges",
 what="Nodes with secondary children are not removed, so that the call panics.",
 edits=[(M,'''                        Some(parent) if parent != self.root() && parent != attachment => {''','''                        Some(parent)
                            if parent != self.root()
                                && parent != attachment
                                && self.secondary_children(parent).next().is_none() =>
                        {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b)) (C c))");
    let (a, c, r) = (nt(&t, "A"), word(&t, "c"), t.root());
    t.add_secondary_edge(a, c, Some("x"));
    t.reattach_terminals(r, |t, n| t[n].label() == "B");
    assert_eq!(t.nonterminals().count(), 1);
}
'''),
dict(id="c19-label-cache", prop="C19", needs="a function that gives different labels to parents with the same label",
 what="The label to insert is remembered per label of the parent.",
 edits=[(M,'''        let mut visit_map = self.graph().visit_map();

        for terminal''','''        let mut visit_map = self.graph().visit_map();
        let mut known = std::collections::HashMap::new();

        for terminal'''),(M,'''            if let Some(label) = match_fn(self, parent) {
                let mut children''','''            let selected = known
                .entry(self[parent].label().to_owned())
                .or_insert_with(|| match_fn(self, parent))
                .clone();
            if let Some(label) = selected {
                let mut children''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b) (X (K k))) (A (C c) (X (L l))))");
    t.insert_intermediate(|t, n| if t[n].label() == "A" { Some(format!("I{}", t[n].span().start)) } else { None }).unwrap();
    assert!(text(&t).contains("I2"));
}
'''),
dict(id="c22-empty-label", prop="C22", needs="an edge label that is empty in one tree and missing in the other",
 what="Missing and empty edge labels are the same to the comparison.",
 edits=[(T,'''            .map(|(parent_id, edge_id)| (&tree_1[parent_id], &tree_1[edge_id]));''','''            .map(|(parent_id, edge_id)| {
                (&tree_1[parent_id], tree_1[edge_id].label().unwrap_or(""))
            });'''),(T,'''            .map(|(parent_id, edge_id)| (&tree_2[parent_id], &tree_2[edge_id]));''','''            .map(|(parent_id, edge_id)| {
                (&tree_2[parent_id], tree_2[edge_id].label().unwrap_or(""))
            });''')],
 rs=r'''
fn main() {
    let a = simple("(S (A (B b)) (C c))");
    let mut b = a.clone();
    let e = b.parent(word(&b, "c")).unwrap().1;
    b[e].set_label(Some(""));
    assert!(a != b);
}
'''),
dict(id="c22-lemma-default", prop="C22", needs="a lemma equal to the form in one tree, missing in the other",
 what="A missing lemma stands for the form.",
 edits=[(O,'''        if self.span != other.span || self.lemma != other.lemma {
            return false;
        }''','''        if self.span != other.span
            || self.lemma().unwrap_or(&self.form) != other.lemma().unwrap_or(&other.form)
        {
            return false;
        }''')],
 rs=r'''
fn main() {
    let a = simple("(S (A (B b)) (C c))");
    let mut b = a.clone();
    let w = word(&b, "c");
    b[w].terminal_mut().unwrap().set_lemma(Some("c"));
    assert!(a != b);
}
'''),
dict(id="c23-empty-key", prop="C23", needs="an entry with an empty key and a value",
 what="Entries without key are dropped when text is parsed.",
 edits=[(F,'''            .filter(|s| !s.is_empty())''','''            .filter(|s| !s.is_empty() && !s.starts_with(':'))''')],
 rs=r'''
fn main() {
    let mut f = Features::new();
    f.insert("", Some("v"));
    assert_eq!(Features::from(f.to_string()), f);
}
'''),
dict(id="c23-trim", prop="C23", needs="keys or values that begin or end with a blank",
 what="Blanks around keys are cut off when text is parsed.",
 edits=[(F,'''                let k = parts.next().unwrap();''','''                let k = parts.next().unwrap().trim();''')],
 rs=r'''
fn main() {
    let mut f = Features::new();
    f.insert(" k", Some("v"));
    assert_eq!(Features::from(f.to_string()), f);
}
'''),
dict(id="c28-skip-order", prop="C28", needs="a node with several gaps, in another process or tree",
 what="The gaps are filled in the order of a hash set.",
 edits=[(M,'''                    .and_then(|s| s.iter().min())''','''                    .and_then(|s| s.iter().next())''')],
 rs=r'''
fn main() {
    let mut reports = std::collections::HashSet::new();
    for _ in 0..40 {
        let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 0\nc -- C -- -- 500\nd -- D -- -- 0\ne -- E -- -- 500\nf -- F -- -- 0\ng -- G -- -- 500\n#500 -- X -- -- 0\n#EOS 1\n");
        reports.insert(format!("{:?}", t.projectivize().unwrap().iter().map(|x| x.2.index()).collect::<Vec<_>>()));
    }
    assert_eq!(reports.len(), 1);
}
'''),
dict(id="c29-multi-end", prop="C29", needs="a read error in the middle of a bracketed tree in multi-line mode",
 what="The tree is parsed from what was read before the failure and the failure is forgotten.",
 edits=[(P,'''                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
                if (line''','''                let line = match line {
                    Ok(line) => line,
                    Err(_) if !buffer.is_empty() => break,
                    Err(err) => return Some(Err(err.into())),
                };
                if (line''')],
 rs=r'''
use std::io::*;
struct R(usize);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.0 += 1;
        if self.0 == 1 { b[..7].copy_from_slice(b"(S\n(A a"); return Ok(7); }
        Err(Error::new(ErrorKind::Other, "disk gone"))
    }
}
fn main() {
    let mut r = PTBReader::new(BufReader::new(R(0)), PTBFormat::Simple, PTBLineFormat::MultiLine);
    let e = r.next().unwrap().err().unwrap();
    assert!(e.to_string().contains("disk gone"), "{}", e);
}
'''),
dict(id="c06-span-start", prop="C06", needs="a node above itself in storage whose child order differs from sentence order",
 what="The children of unary-free small nodes are written in storage order.",
 edits=[(P,'''                nodes.sort_by(|(child1, _), (child2, _)| {
                    sentence[*child1].span().cmp(sentence[*child2].span())
                });''','''                if nodes.iter().any(|(child, _)| sentence[*child].is_terminal()) {
                    nodes.sort_by(|(child1, _), (child2, _)| {
                        sentence[*child1].span().cmp(sentence[*child2].span())
                    });
                } else {
                    // phrases are stored last to first
                    nodes.reverse();
                    nodes.sort_by_key(|(child, _)| sentence[*child].span().n_indices() == 0);
                }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b) (D d)) (C (X c) (Y y)))");
    let (r, a) = (t.root(), nt(&t, "A"));
    let e = t.parent(a).unwrap().1;
    t.reattach_node(r, e).unwrap();
    assert_eq!(text(&t), "(S (A (B b) (D d)) (C (X c) (Y y)))");
}
'''),
dict(id="c26-pos-default", prop="C26", needs="a token without tag in the file of tags",
 what="Tokens without tag leave the tag of the word instead of stopping the run.",
 edits=[(C,'''                    .map(|token| token.pos().or_exit("Token missing POS", 1)),''','''                    .filter_map(|token| token.pos()),''')],
 sh=r'''echo '(VROOT (A a) (B b))' > in
printf '1\ta\t_\t_\tX\t_\t_\t_\t_\t_\n\n' > pos
"$conv" --input_file in --input_format simple --output_format simple --pos pos > out && exit 1
printf '1\ta\t_\t_\tX\t_\t_\t_\t_\t_\n2\tq\t_\t_\t_\t_\t_\t_\t_\t_\n3\tb\t_\t_\tY\t_\t_\t_\t_\t_\n\n' > pos
if "$conv" --input_file in --input_format simple --output_format simple --pos pos > out; then exit 1; fi
exit 0
'''),
dict(id="c26-parent-late", prop="C26", needs="parent annotation and an encoded output format for a word below a chain",
 what="Parent tags are annotated after the chains were collapsed.",
 edits=[(C,'''        if let Some(name) = parent_feature.as_ref() {
            tree.annotate_parent_tag(name)
                .or_exit("Can't annotate parent tags.", 1);
        }

        if out_formatter == OutFormat::Absolute {
            tree.collapse_unary_chains("_")
                .or_exit("Could not collapse unary chains.", 1);
''','''        if out_formatter == OutFormat::Absolute {
            tree.collapse_unary_chains("_")
                .or_exit("Could not collapse unary chains.", 1);
        }

        if let Some(name) = parent_feature.as_ref() {
            tree.annotate_parent_tag(name)
                .or_exit("Can't annotate parent tags.", 1);
        }

        if out_formatter == OutFormat::Absolute {
''')],
 sh=r'''echo '(VROOT (X (A a)) (B b))' > in
"$conv" --input_file in --input_format simple --output_format absolute --parent par > out || exit 2
grep -q 'par:X' out
'''),
dict(id="c26-id-filter", prop="C26", needs="an id set that holds the label of a node that the filter removes, in a tree whose root is in no set",
 what="Ids of nodes that the filter set removes are not given.",
 edits=[(C,'''                tree.root() == nt || id_set.matches(tree[nt].label())''','''                tree.root() == nt
                    || (id_set.matches(tree[nt].label())
                        && filter_set
                            .as_ref()
                            .map(|set| set.matches(tree[nt].label()))
                            .unwrap_or(true))''')],
 sh=r'''echo '(VROOT (X (A a) (C c)) (B b))' > in
echo X > ids; echo Y > filter
"$conv" --input_file in --input_format simple --output_format conllx --id_set ids --filter filter > out || exit 2
[ $(grep -o 'id:[0-9]*' out | sort -u | wc -l) = 2 ]
'''),
dict(id="c31-form-lemma", prop="C31", needs="setting the form of a word whose lemma equals its form",
 what="A lemma that equals the form is changed along with it.",
 edits=[(O,'''        mem::replace(&mut self.form, new_form.into())''','''        let old = mem::replace(&mut self.form, new_form.into());
        if self.lemma.as_ref() == Some(&old) {
            self.lemma = Some(self.form.clone());
        }
        old''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let w = word(&t, "a");
    t[w].terminal_mut().unwrap().set_lemma(Some("a"));
    t[w].terminal_mut().unwrap().set_form("c");
    assert_eq!(t[w].terminal().unwrap().lemma(), Some("a"));
}
'''),
dict(id="c21-lemma-form", prop="C21", needs="a lemma equal to the form",
 what="A lemma that equals the form is left out.",
 edits=[(X,'''        token.set_lemma(terminal.lemma());''','''        token.set_lemma(terminal.lemma().filter(|lemma| *lemma != terminal.form()));''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let w = word(&t, "a");
    t[w].terminal_mut().unwrap().set_lemma(Some("a"));
    let s = t.to_conllx();
    let l: Vec<_> = s.iter().filter_map(conllx::graph::Node::token).map(|t| t.lemma().map(|x| x.to_string())).collect();
    assert_eq!(l[0].as_ref().map(|x| x.as_str()), Some("a"));
}
'''),
dict(id="c08-morph-default", prop="C08", needs="a word whose morphology equals its tag",
 what="Morphology that repeats the tag is left out.",
 edits=[(N,'''        if let Some(Some(morph)) = features.and_then(|f| f.get_val("morph")) {''','''        let morph = features.and_then(|f| f.get_val("morph"));
        if let Some(Some(morph)) = morph.filter(|morph| *morph != Some(terminal.label())) {''')],
 rs=r'''
fn main() {
    let mut t = simple("(VROOT (A a) (B b))");
    let w = word(&t, "a");
    t[w].features_mut().insert("morph", Some("A"));
    let mut v = vec![];
    NegraWriter::new(&mut v).write_tree(&t).unwrap();
    let t = NegraReader::new(&v[..]).next().unwrap().unwrap();
    assert_eq!(t[word(&t, "a")].features().unwrap().get_val("morph"), Some(Some("A")));
}
'''),
dict(id="c12-equal-neighbours", prop="C12", needs="two neighbouring words with the same form and tag whose common ancestor has the label of their tag",
 what="The label of a common ancestor that equals the tag of the word is taken for a dummy.",
 edits=[(E,'''            common = Some(common_label);''','''            common = if common_label == tree[terminal].label() && idx > 0 {
                Some(EMPTY_NODE.to_string())
            } else {
                Some(common_label)
            };''')],
 rs=r'''
fn main() {
    let t = simple("(S (C c) (A (A a) (B b)))");
    let e = t.encode_absolute().unwrap();
    let terms = vec!["c", "a", "b"].into_iter().map(|w| t[word(&t, w)].terminal().unwrap().clone()).collect();
    assert_eq!(Tree::decode(e, terms), t);
}
'''),
dict(id="c17-same-label", prop="C17", needs="a rejected node below a node with the same label",
 what="Nodes below one of the same label are removed without asking.",
 edits=[(M,'''            if !match_fn(self, nt) {
                self.remove_node(nt)?;''','''            let doubled = self
                .parent(nt)
                .map(|(parent, _)| self[parent] == self[nt])
                .unwrap_or(false);
            if doubled || !match_fn(self, nt) {
                self.remove_node(nt)?;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (A (X x) (Y y))) (B b))");
    t.filter_nonterminals(|_, _| true).unwrap();
    assert_eq!(t.nonterminals().count(), 3);
}
'''),
]
