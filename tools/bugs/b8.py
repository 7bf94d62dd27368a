T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c01-refused-count", prop="C01", needs="a refused removal of a word",
 what="A refused removal of a word still reduces the number of words.",
 edits=[(T,'''        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
        let node = self.graph.remove_node(terminal).unwrap();
        self.n_terminals -= 1;''','''        self.n_terminals -= 1;
        if self.siblings(terminal).count() == 0 {
            return Err(format_err!("Last terminal of a branch."));
        }
        let node = self.graph.remove_node(terminal).unwrap();''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (B b)) (C c))");
    let b = word(&t, "b");
    assert!(t.remove_node(b).is_err());
    assert_eq!(t.n_terminals(), 2);
}
'''),
dict(id="c27-below", prop="C27", needs="inserting a node below one that has secondary children",
 what="The inserted node takes over the secondary edges as well, as primary ones.",
 edits=[(T,'''        let children = self.children(node).collect::<Vec<_>>();
        let span''','''        let children = self
            .children(node)
            .chain(self.secondary_children(node))
            .collect::<Vec<_>>();
        let span''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a)) (VP (B b)))");
    let (np, b) = (nt(&t, "NP"), word(&t, "b"));
    t.add_secondary_edge(np, b, Some("x"));
    t.insert_unary_below(np, "X").unwrap();
    assert!(t.secondary_parent(b).is_some());
}
'''),
dict(id="c05-bounds", prop="C05", needs="two discontinuous phrases that interleave",
 what="Climbing from a gap stops at a node whose span only encloses the discontinuous node.",
 edits=[(M,'''                        if self[handle_parent]
                            .span()
                            .covers_span(self[attachment_point].span())
                        {''','''                        let (outer, inner) =
                            (self[handle_parent].span(), self[attachment_point].span());
                        if outer.covers_span(inner)
                            || outer.start < inner.start && outer.end > inner.end
                        {''')],
 rs=r'''
fn main() {
    // NP covers a and d, VP covers b and e, both below the root
    let mut t = negra("#BOS 1\nz -- Z -- -- 500\na -- A -- -- 501\nb -- B -- -- 500\nc -- C -- -- 501\nd -- D -- -- 500\n#500 -- NP -- -- 0\n#501 -- VP -- -- 0\n#EOS 1\n");
    t.projectivize();
    let (np, vp) = (nt(&t, "NP"), nt(&t, "VP"));
    for w in &["z", "b", "d"] { assert!(t[np].span().contains(t[word(&t, w)].span().start)); }
    assert!(t[vp].span().contains(1) && t[vp].span().contains(3));
    assert_eq!(t.parent(vp).map(|p| p.0), Some(np));
}
'''),
dict(id="c07-crlf", prop="C07", needs="brackets separated by a carriage return and line feed within one text",
 what="Only blanks and line feeds separate tokens.",
 edits=[("lumberjack/src/io/ptb.pest",'''WHITESPACE = _{ " " | NEWLINE }''','''WHITESPACE = _{ " " | "\\n" }''')],
 rs=r'''
fn main() {
    let t = simple("(S\r\n(A a)\r\n(B b))");
    assert_eq!(text(&t), "(S (A a) (B b))");
}
'''),
dict(id="c08-exact-width", prop="C08", needs="a token that leaves exactly one column of padding",
 what="A token that is one character shorter than its column is not separated from the next.",
 edits=[(N,'''        } else if len < to + 8 {''','''        } else if len + 1 < to + 8 {''')],
 rs=r'''
fn main() {
    let w = "a".repeat(31);
    let t = negra(&format!("#BOS 1\n{} l A -- -- 0\n#EOS 1\n", w));
    let mut o = vec![];
    NegraWriter::new(&mut o).write_tree(&t).unwrap();
    let u = negra(&String::from_utf8(o).unwrap());
    assert!(u == t);
}
'''),
dict(id="c11-one-percent", prop="C11", needs="a comment line with a single percent sign",
 what="Comment lines have to begin with two percent signs.",
 edits=[(P,'''                if line.starts_with('%') {
                    continue;''','''                if line.starts_with("%%") {
                    continue;''')],
 rs=r'''
fn main() {
    let v: Vec<_> = PTBReader::new("% x\n(S (A a))\n".as_bytes(), PTBFormat::Simple, PTBLineFormat::SingleLine).collect();
    assert!(v.len() == 1 && v[0].is_ok());
}
'''),
dict(id="c12-wrap", prop="C12", needs="words with more than 127 common ancestors, relative scale",
 what="The number of common ancestors is kept in one byte when differences are taken.",
 edits=[(E,'''                        Some(RelativeAncestor::new(n_common as isize - prev_n, common))''','''                        Some(RelativeAncestor::new((n_common as i8) as isize - prev_n, common))''')],
 rs=r'''
fn main() {
    let mut s = String::from("(S (A a) (B b))");
    for _ in 0..130 { s = format!("(S (A a) {})", s); }
    let t = simple(&s);
    let a = t.encode_absolute().unwrap();
    let r: RelativeEncoding = a.into();
    assert!(r == t.encode_relative().unwrap());
}
'''),
dict(id="c22-feature-value", prop="C22", needs="two trees that differ in the value of a feature of a nonterminal",
 what="Features of nonterminals are compared by their keys only.",
 edits=[(O,'''        if self.label != other.label() || self.span != other.span {
            return false;
        }
        match (&self.features, &other.features) {
            (Some(f), Some(f_other)) => f == f_other,''','''        if self.label != other.label() || self.span != other.span {
            return false;
        }
        match (&self.features, &other.features) {
            (Some(f), Some(f_other)) => f.inner().keys().eq(f_other.inner().keys()),''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a)) (B b))");
    let mut u = t.clone();
    let n = nt(&t, "NP");
    t[n].features_mut().insert("k", Some("1"));
    u[n].features_mut().insert("k", Some("2"));
    assert!(t != u);
}
'''),
dict(id="c23-insert-none", prop="C23", needs="inserting a key without value that has a value",
 what="Inserting a key without value keeps the value it has.",
 edits=[(F,'''        self.map
            .insert(key.into(), val.map(Into::into))
            .and_then(|v| v)''','''        let key = key.into();
        match val {
            Some(val) => self.map.insert(key, Some(val.into())).and_then(|v| v),
            None => self.map.entry(key).or_insert(None).clone(),
        }''')],
 rs=r'''
fn main() {
    let mut f = Features::from("a:1");
    f.insert::<_, String>("a", None);
    assert_eq!(f.get_val("a"), Some(None));
}
'''),
dict(id="c24-empty-skips", prop="C24", needs="a span whose last gap disappears when positions are removed",
 what="A span without gaps keeps an empty list of skipped positions.",
 edits=[(S,'''        if self.skips.as_ref().map(HashSet::is_empty).unwrap_or(false) {
            self.skips = None;
            Continuity::Continuous''','''        if self.skips.as_ref().map(HashSet::is_empty).unwrap_or(false) {
            Continuity::Continuous''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a) (B b)) (C c))");
    let e = t.parent(word(&t, "b")).unwrap().1;
    let r = t.root();
    t.reattach_node(r, e).unwrap();
    assert!(t[nt(&t, "NP")].span().skips().is_none());
}
'''),
dict(id="c26-pos-order", prop="C26", needs="--pos together with --reattach, with a prefix that only the new or only the old tags have",
 what="Words are reattached by their old tags.",
 edits=[(C,'''        if let Some(pos_sentences) = pos_sentences.as_mut() {''','''        if let Some(label) = reattach_label {
            let root = tree.root();
            tree.reattach_terminals(root, |tree, nt| tree[nt].label().starts_with(label))
        }

        if let Some(pos_sentences) = pos_sentences.as_mut() {'''),
 (C,'''            .or_exit("Failed to annotate POS.", 1);
        }

        if let Some(label) = reattach_label {
            let root = tree.root();
            tree.reattach_terminals(root, |tree, nt| tree[nt].label().starts_with(label))
        }
''','''            .or_exit("Failed to annotate POS.", 1);
        }
''')],
 sh=r'''echo '(S (NP (A a) (B b)) (C c))' > in
printf '1\ta\t_\tX\tX\t_\t_\t_\t_\t_\n2\tb\t_\tA\tA\t_\t_\t_\t_\t_\n3\tc\t_\tC\tC\t_\t_\t_\t_\t_\n' > pos
[ "$("$conv" --input_file in --input_format simple --output_format simple --pos pos --reattach A)" = '(S (NP (X a)) (A b) (C c))' ]
'''),
dict(id="c26-dummies-late", prop="C26", needs="--remove_dummies together with --projectivize on a tree with discontinuous dummy nodes",
 what="Dummy nodes are removed after projectivization.",
 edits=[(C,'''        if remove_dummies {
            tree.remove_dummy_nodes()
                .or_exit("Can't remove dummy nopdes.", 1);
        }

        if projectivize {''','''        if projectivize {'''),
 (C,'''        if let Some(pos_sentences) = pos_sentences.as_mut() {''','''        if remove_dummies {
            tree.remove_dummy_nodes()
                .or_exit("Can't remove dummy nopdes.", 1);
        }

        if let Some(pos_sentences) = pos_sentences.as_mut() {''')],
 sh=r'''printf '#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 500\nd -- D -- -- 501\n#500 -- DUMMY -- -- 0\n#501 -- NP -- -- 0\n#EOS 1\n' > in
[ "$("$conv" --input_file in --input_format negra --output_format simple --projectivize --remove_dummies)" = '(VROOT (A a) (NP (B b) (C c) (D d)))' ]
'''),
dict(id="c31-sec-label", prop="C31", needs="setting the label of a secondary edge",
 what="The label of a secondary edge can't be taken away.",
 edits=[(D,'''            Edge::Secondary(e) => mem::replace(e, new_label.map(Into::into)),''','''            Edge::Secondary(e) => {
                let old = e.clone();
                if let Some(new_label) = new_label {
                    *e = Some(new_label.into());
                }
                old
            }''')],
 rs=r'''
fn main() {
    let mut e = Edge::new_secondary(Some("a"));
    e.set_label::<String>(None);
    assert_eq!(e.label(), None);
}
'''),
dict(id="c10-eos-missing", prop="C10", needs="an #EOS line without an id",
 what="An #EOS line without id makes the reader panic.",
 edits=[(N,'''        let eos_id = read_required_string_field(parts.next()).map_err(|e| format_err!("{}", e))?;''','''        let eos_id = parts.next().unwrap();''')],
 rs=r'''
fn main() {
    assert!(NegraReader::new("#BOS 1\na -- A -- -- 0\n#EOS\n".as_bytes()).next().unwrap().is_err());
}
'''),
dict(id="c10-missing-plus", prop="C10", needs="an absolute label without '+'",
 what="An absolute label without a number makes the decoder panic.",
 edits=[(E,'''            .next()
            .ok_or_else(|| format_err!("Missing offset."))?
            .parse::<usize>()?;''','''            .next()
            .unwrap()
            .parse::<usize>()?;''')],
 rs=r'''
use std::convert::TryFrom;
fn main() {
    let mut s = conllx::graph::Sentence::new();
    let mut t = conllx::token::Token::new("a");
    t.set_features(Some(conllx::token::Features::from_string("abs_ancestor:S".to_string())));
    s.push(t);
    assert!(Tree::try_from_conllx_with_absolute_encoding(&s).is_err());
}
'''),
dict(id="c18-attachment-gone", prop="C18", needs="reattaching the only word below the attachment node to it, from further down",
 what="The attachment node itself is removed when it is left with one word.",
 edits=[(M,'''                        Some(parent) if parent != self.root() && parent != attachment => {''','''                        Some(parent) if parent != self.root() => {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (N (A a))) (B b))");
    let (np, a) = (nt(&t, "NP"), word(&t, "a"));
    t.reattach_terminals(np, |_, n| n == a);
    assert_eq!(text(&t), "(S (NP (A a)) (B b))");
}
'''),
dict(id="c14-underscore-tag", prop="C14", needs="a word whose form is a single character and equals its tag",
 what="The tag of a word that equals its form is not exported.",
 edits=[(X,'''        token.set_pos(Some(terminal.label()));''','''        token.set_pos(Some(terminal.label()).filter(|l| *l != terminal.form()));''')],
 rs=r'''
fn main() {
    let s = simple("(S ($ $) (B b))").to_conllx();
    assert_eq!(s.iter().filter_map(|n| n.token()).next().unwrap().pos(), Some("$"));
}
'''),
dict(id="c17-vroot", prop="C17", needs="a rejected nonterminal labelled VROOT below the root",
 what="Nodes labelled VROOT are kept whatever the predicate says.",
 edits=[(M,'''            if !match_fn(self, nt) {
                self.remove_node(nt)?;''','''            if !match_fn(self, nt) && self[nt].label() != "VROOT" {
                self.remove_node(nt)?;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (VROOT (A a)) (B b))");
    t.filter_nonterminals(|_, _| false).unwrap();
    assert_eq!(t.nonterminals().count(), 1);
}
'''),
dict(id="c19-unk-parent", prop="C19", needs="words directly below a node labelled UNK",
 what="Nodes labelled UNK are taken for inserted ones and skipped.",
 edits=[(M,'''            if let Some(label) = match_fn(self, parent) {
                let mut children''','''            if let Some(label) = match_fn(self, parent).filter(|_| self[parent].label() != "UNK") {
                let mut children''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (UNK (A a) (B b)) (C c))");
    t.insert_intermediate(|_, _| Some("X".to_string())).unwrap();
    assert_eq!(text(&t), "(S (UNK (X (A a) (B b))) (X (C c)))");
}
'''),
dict(id="c20-zero-id", prop="C20", needs="projecting ids on a word that has the feature without a value",
 what="A feature without value is taken as set by an earlier projection.",
 edits=[(T,'''                tree[t]
                    .features_mut()
                    .insert(feature_name, Some(id.to_string()));''','''                if tree[t].features_mut().get_val(feature_name) != Some(None) {
                    tree[t]
                        .features_mut()
                        .insert(feature_name, Some(id.to_string()));
                }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let a = word(&t, "a");
    t[a].features_mut().insert::<_, String>("id", None);
    t.project_ids("id", |_, _| true);
    assert_eq!(t[a].features().unwrap().get_val("id"), Some(Some("0")));
}
'''),
dict(id="c15-dummy-label", prop="C15", needs="a predicted chain that holds the name of dummy nodes",
 what="Nodes whose chain begins with DUMMY are removed as dummies.",
 edits=[(E,'''        self.filter_nonterminals(|tree, nt| tree[nt].label() != EMPTY_NODE)?;''','''        self.filter_nonterminals(|tree, nt| !tree[nt].label().starts_with(EMPTY_NODE))?;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (DUMMYX (A a)) (B b))");
    t.remove_dummy_nodes().unwrap();
    assert_eq!(t.nonterminals().count(), 2);
}
'''),
dict(id="c25-empty-tree-file", prop="C25", needs="a file of more than ten trees written as NEGRA without sentence ids",
 what="Sentence numbers are taken modulo ten.",
 edits=[(N,'''            (self.counter - 1).to_string()''','''            ((self.counter - 1) % 10).to_string()''')],
 sh=r'''for i in 1 2 3 4 5 6 7 8 9 10 11; do echo '(VROOT (A a))'; done > in
"$conv" --input_file in --input_format simple --output_format negra > out || exit 2
grep -q '^#BOS 10$' out
'''),
]
