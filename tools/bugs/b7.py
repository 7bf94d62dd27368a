T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c03-root-terminal", prop="C03", needs="removing a root whose only child is a word",
 what="A root with a single word below it can't be removed.",
 edits=[(T,'''        } else if self.children(self.root).count() == 1 {''','''        } else if self.children(self.root).filter(|(c, _)| !self[*c].is_terminal()).count() == 1 {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a))");
    let r = t.root();
    assert!(t.remove_node(r).is_ok());
}
'''),
dict(id="c05-report-label", prop="C05", needs="projectivizing a tree in which a node without an edge label is moved after another one was",
 what="Nodes without an edge label are missing in the report of projectivization.",
 edits=[(T.replace("tree.rs","tree_modification.rs"),'''                            v.push((handle_parent, edge.clone(), prev));''','''                            if v.is_empty() || edge.label().is_some() {
                                v.push((handle_parent, edge.clone(), prev));
                            }''')],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 0\nc -- C -- -- 500\nd -- D -- -- 0\ne -- E -- -- 500\n#500 -- NP -- -- 0\n#EOS 1\n");
    assert_eq!(t.projectivize().unwrap().len(), 2);
}
'''),
dict(id="c06-last-dash", prop="C07", needs="a PTB label with more than one '-'",
 what="PTB labels are split at their last '-'.",
 edits=[(P,'''label.find('-').filter(''','''label.rfind('-').filter(''')],
 rs=r'''
fn main() {
    let t = PTBFormat::PTB.string_to_tree("(S (NP-SBJ-1 (A a)))").unwrap();
    assert!(t.nonterminals().any(|n| t[n].label() == "NP"));
}
'''),
dict(id="c08-sec-root", prop="C08", needs="a secondary edge from the root",
 what="Secondary edges from the root are not written.",
 edits=[(N,'''        if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {''','''        if let Some((parent, sec_edge)) =
            tree.secondary_parent(idx).filter(|(parent, _)| *parent != tree.root())
        {''')],
 rs=r'''
fn main() {
    let mut t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 0\n#500 -- NP -- -- 0\n#EOS 1\n");
    let (r, a) = (t.root(), word(&t, "a"));
    t.add_secondary_edge(r, a, Some("x"));
    let mut o = vec![];
    NegraWriter::new(&mut o).write_tree(&t).unwrap();
    let u = negra(&String::from_utf8(o).unwrap());
    assert!(u.secondary_parent(word(&u, "a")).is_some());
}
'''),
dict(id="c09-one-percent", prop="C09", needs="a comment that begins with a single '%'",
 what="Only comments with two percent signs are taken as comments.",
 edits=[(N,'''if !part.starts_with('%') {''','''if !part.starts_with("%%") {''')],
 rs=r'''
fn main() {
    let t = NegraReader::new("#BOS 1\na -- A -- -- 0 % x\n#EOS 1\n".as_bytes()).next().unwrap();
    assert!(t.is_ok());
}
'''),
dict(id="c10-overflow", prop="C10", needs="an id that exceeds a machine word",
 what="Numbers too large for a machine word make the NEGRA reader panic.",
 edits=[(N,'''    if let Some(parse) = field.map(str::parse::<usize>) {''','''    if let Some(parse) = field.map(|f| {
        if f.chars().all(|c| c.is_ascii_digit()) && !f.is_empty() {
            Ok(f.bytes().fold(0usize, |n, b| n * 10 + (b - b'0') as usize))
        } else {
            f.parse::<usize>()
        }
    }) {''')],
 rs=r'''
fn main() {
    let t = NegraReader::new("#BOS 1\na -- A -- -- 99999999999999999999999\n#EOS 1\n".as_bytes()).next().unwrap();
    assert!(t.is_err());
}
'''),
dict(id="c13-first-root", prop="C13", needs="a sentence whose first two words only share the root, relative labels",
 what="The first label spells out the difference even if the ancestor is the only common one.",
 edits=[(E,'''                    let ancestor = if n_common == 1 {
                        RelativeAncestor::Root(common)''','''                    let ancestor = if n_common == 1 && prev_n > 0 {
                        RelativeAncestor::Root(common)''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b) (C c))");
    t.annotate_relative().unwrap();
    assert_eq!(t[word(&t, "a")].features().unwrap().get_val("rel_ancestor"), Some(Some("S")));
}
'''),
dict(id="c15-fix-zero", prop="C15", needs="relative labels that fall below one and later to exactly zero",
 what="After the first repair a running depth of zero is not repaired.",
 edits=[(E,'''                        let mut n_common = offset + self.prev_n;
                        if n_common < 1 {''','''                        let mut n_common = offset + self.prev_n;
                        if n_common < 0 {''')],
 rs=r'''
use std::convert::TryFrom;
fn main() {
    let mut s = conllx::graph::Sentence::new();
    for l in &["S+-1", "S+-2", "NONE"] {
        let mut t = conllx::token::Token::new("a");
        t.set_features(Some(conllx::token::Features::from_string(format!("rel_ancestor:{}", l))));
        s.push(t);
    }
    let t = Tree::try_from_conllx_with_relative_encoding(&s).unwrap();
    assert_eq!(t.nonterminals().count(), 2);
}
'''),
dict(id="c15-byte-offset", prop="C15", needs="a relative label whose offset exceeds 127",
 what="Offsets are read as single bytes.",
 edits=[(E,'''            let offset = offset.parse::<isize>()?;''','''            let offset = offset.parse::<i8>()? as isize;''')],
 rs=r'''
use std::convert::TryFrom;
fn main() {
    let mut s = conllx::graph::Sentence::new();
    for l in &["S+130", "NONE"] {
        let mut t = conllx::token::Token::new("a");
        t.set_features(Some(conllx::token::Features::from_string(format!("rel_ancestor:{}", l))));
        s.push(t);
    }
    assert!(Tree::try_from_conllx_with_relative_encoding(&s).is_ok());
}
'''),
dict(id="c17-empty-positive", prop="C17", needs="an empty positive label set",
 what="An empty set of wanted labels accepts every label.",
 edits=[(U,'''            LabelSet::Positive(ref set) => set.contains(q.borrow()),''','''            LabelSet::Positive(ref set) => set.is_empty() || set.contains(q.borrow()),''')],
 rs=r'''
fn main() {
    let s = LabelSet::Positive(std::collections::HashSet::new());
    assert!(!s.matches("NP"));
}
'''),
dict(id="c18-one-level", prop="C18", needs="a matched word that is the only word below two nodes",
 what="Only one of the nodes left without words is removed.",
 edits=[(M,'''                while self.siblings(terminal).count() == 0 {
                    match climber.next(self) {
                        Some(parent) if parent != self.root() && parent != attachment => {
                            self.remove_node(parent).unwrap();
                        }''','''                let mut removed = 0;
                while self.siblings(terminal).count() == 0 {
                    match climber.next(self) {
                        Some(parent) if parent != self.root() && parent != attachment && removed < 3 => {
                            self.remove_node(parent).unwrap();
                            removed += 1;
                        }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (E (D (C (B (A a))))) (X x))");
    let r = t.root();
    let a = word(&t, "a");
    t.reattach_terminals(r, |_, n| n == a);
    assert_eq!(t.nonterminals().count(), 1);
}
'''),
dict(id="c19-revisit", prop="C19", needs="a label function that selects the nodes it inserts, and a run of two words",
 what="Words of a run are looked at again after they were put under their new node.",
 edits=[(M,'''                    visit_map.visit(child);
                    let sibling_idx''','''                    let sibling_idx''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    t.insert_intermediate(|_, _| Some("X".to_string())).unwrap();
    assert_eq!(t.nonterminals().count(), 2);
}
'''),
dict(id="c22-lemma-none", prop="C22", needs="two trees that differ in whether a word has a lemma",
 what="A word without lemma equals the word with any lemma.",
 edits=[(O,'''        if self.span != other.span || self.lemma != other.lemma {''','''        if self.span != other.span || self.lemma.is_some() && self.lemma != other.lemma {''')],
 rs=r'''
fn main() {
    let t = simple("(S (A a) (B b))");
    let mut u = t.clone();
    let a = word(&u, "a");
    u[a].terminal_mut().unwrap().set_lemma(Some("l"));
    assert!(t != u && u != t);
}
'''),
dict(id="c25-tueba-multiline", prop="C25", needs="T\u00fcBa input spread over several lines",
 what="Multi-line input is read line by line in the T\u00fcBa format.",
 edits=[(C,'''        TueBa => Box::new(PTBReader::new(input, PTBFormat::TueBa, multiline)),''','''        TueBa => Box::new(PTBReader::new(
            input,
            PTBFormat::TueBa,
            PTBLineFormat::SingleLine,
        )),''')],
 sh=r'''printf '(S:--\n(A:HD a)(B:-- b))\n' > in
[ "$("$conv" --input_file in --input_format tueba --multiline_brackets --output_format simple)" = '(S (A a) (B b))' ]
'''),
dict(id="c26-set-lines", prop="C26", needs="a label file with several labels on one line",
 what="Label files are split at line breaks only.",
 edits=[(C,'''            .split_whitespace()''','''            .lines()''')],
 sh=r'''echo '(S (NP (A a)) (VP (B b)) (X (C c)))' > in; echo 'NP VP' > f
[ "$("$conv" --input_file in --input_format simple --output_format simple --filter f)" = '(S (NP (A a)) (VP (B b)) (C c))' ]
'''),
dict(id="c27-descend", prop="C27", needs="a secondary edge out of the subtree and the words below its source",
 what="Words reached over secondary edges count as descendents.",
 edits=[(T,'''                .edges_directed(node, Direction::Outgoing)
                .filter(|edge| edge.weight().is_primary())
                .map(|edge| edge.target()),''','''                .edges_directed(node, Direction::Outgoing)
                .map(|edge| edge.target()),''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (A a)) (VP (B b)))");
    let (np, b) = (nt(&t, "NP"), word(&t, "b"));
    t.add_secondary_edge(np, b, Some("x"));
    assert_eq!(t.descendent_terminals(np).count(), 1);
}
'''),
dict(id="c29-multi-silent", prop="C29", needs="an input that fails between two trees, multi-line reading",
 what="A failure between two trees looks like the end of the input.",
 edits=[(P,'''            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
                if (line''','''            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(_) if buffer.is_empty() => return None,
                    Err(err) => return Some(Err(err.into())),
                };
                if (line''')],
 rs=r'''
struct R(usize);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 > 1 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); }
        let s = b"(S (A a))\n";
        b[..s.len()].copy_from_slice(s);
        Ok(s.len())
    }
}
fn main() {
    let mut r = PTBReader::new(std::io::BufReader::new(R(0)), PTBFormat::Simple, PTBLineFormat::MultiLine);
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().unwrap().is_err());
}
'''),
dict(id="c30-lazy", prop="C30", needs="a function that removes an ancestor which is not the last one it wants to see",
 what="Climbing looks for the next ancestor only after the function was called, and ends where a node was removed.",
 edits=[(T,'''        for terminal in terminals {
            let mut climber = Climber::new(terminal, self);
            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent, terminal) {
                    break;
                }
            }
        }''','''        for terminal in terminals {
            let mut cur = terminal;
            while let Some((parent, _)) = self.parent(cur) {
                if match_fn(self, parent, terminal) {
                    break;
                }
                cur = parent;
            }
        }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (NP (N (A a))) (B b))");
    let n = nt(&t, "N");
    let mut seen = 0;
    t.map_climber_path(|t, p, _| {
        seen += 1;
        if p == n { t.remove_node(p).unwrap(); }
        false
    });
    assert_eq!(seen, 4);
}
'''),
dict(id="c31-lemma-clear", prop="C31", needs="taking away the lemma of a word",
 what="A lemma can be replaced but not taken away.",
 edits=[(O,'''        mem::replace(&mut self.lemma, new_lemma.map(Into::into))''','''        match new_lemma {
            Some(lemma) => mem::replace(&mut self.lemma, Some(lemma.into())),
            None => self.lemma.clone(),
        }''')],
 rs=r'''
fn main() {
    let mut t = Terminal::new("a", "A", 0);
    t.set_lemma(Some("l"));
    t.set_lemma::<String>(None);
    assert_eq!(t.lemma(), None);
}
'''),
dict(id="c32-negra-ids", prop="C32", needs="writing a tree with two phrases whose words are not stored in sentence order",
 what="The ids in the NEGRA text depend on the order in which the words are stored.",
 edits=[(N,'''        // find nonterminals that don't dominate other nonterminals
        for &terminal in terminals.iter() {''','''        // find nonterminals that don't dominate other nonterminals
        for terminal in tree.terminals() {''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\n#500 -- NP -- -- 0\n#501 -- VP -- -- 0\n#EOS 1\n");
    let mut u = negra("#BOS 1\nb -- B -- -- 501\na -- A -- -- 500\n#500 -- NP -- -- 0\n#501 -- VP -- -- 0\n#EOS 1\n");
    let a = word(&u, "a");
    u.move_terminal(a, 0);
    let w = |t: &Tree| { let mut o = vec![]; NegraWriter::new(&mut o).write_tree(t).unwrap(); String::from_utf8(o).unwrap() };
    assert_eq!(w(&t), w(&u));
}
'''),
dict(id="c12-last-chain", prop="C12", needs="converting an absolute encoding whose last word has a chain of its own",
 what="The chain of words without a common ancestor is lost in the conversion.",
 edits=[(E,'''                rel_encoding.push((None, leaf_unary))''','''                rel_encoding.push((None, None))''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (NP (B b)))");
    t.collapse_unary_chains("_").unwrap();
    let r: RelativeEncoding = t.encode_absolute().unwrap().into();
    assert!(r == t.encode_relative().unwrap());
}
'''),
dict(id="c21-dash-lemma", prop="C21", needs="a word whose lemma is '--'",
 what="A lemma of two dashes is taken as missing in the export.",
 edits=[(X,'''        token.set_lemma(terminal.lemma());''','''        token.set_lemma(terminal.lemma().filter(|l| *l != "--"));''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a))");
    let a = word(&t, "a");
    t[a].terminal_mut().unwrap().set_lemma(Some("--"));
    let s = t.to_conllx();
    assert_eq!(s.iter().filter_map(|n| n.token()).next().unwrap().lemma(), Some("--"));
}
'''),
dict(id="c23-keep-first", prop="C23", needs="building features from a list with the same key twice",
 what="The first value of a repeated key is kept.",
 edits=[(F,'''            .map(|(k, v)| (k.into(), v.map(Into::into)))
            .collect();''','''            .map(|(k, v)| (k.into(), v.map(Into::into)))
            .fold(BTreeMap::new(), |mut map, (k, v)| {
                map.entry(k).or_insert(v);
                map
            });''')],
 rs=r'''
fn main() {
    let f = Features::from("a:1|a:2");
    assert_eq!(f.get_val("a"), Some(Some("2")));
}
'''),
dict(id="c24-cover-bounds", prop="C24", needs="a span in a gap, compared with the span that has the gap, both starting and ending alike",
 what="Two spans with the same bounds cover each other.",
 edits=[(S,'''            if let Some(skips) = self.skips.as_ref() {
                for skip in skips {''','''            let same = self.bounds() == other.bounds();
            if let Some(skips) = self.skips.as_ref().filter(|_| !same) {
                for skip in skips {''')],
 rs=r'''
fn main() {
    let t = negra("#BOS 1\na -- A -- -- 500\nb -- B -- -- 0\nc -- C -- -- 500\n#500 -- NP -- -- 0\n#EOS 1\n");
    let (r, n) = (t.root(), nt(&t, "NP"));
    assert!(!t[n].span().covers_span(t[r].span()));
}
'''),
dict(id="c16-long-chain", prop="C16", needs="a chain of more than eight nodes",
 what="Long chains are cut when they are restored.",
 edits=[(M,'''                for label in chain.split(delim) {''','''                for label in chain.split(delim).take(8) {''')],
 rs=r'''
fn main() {
    let t = simple("(R (L (K (I (H (G (F (E (D (C (B (A a))))))))))) (X x))");
    let mut u = t.clone();
    u.collapse_unary_chains("_").unwrap();
    u.restore_unary_chains("_").unwrap();
    assert_eq!(text(&t), text(&u));
}
'''),
dict(id="c20-deep", prop="C20", needs="an accepted ancestor more than ten nodes above the word",
 what="Tags are only projected from the ten nearest ancestors.",
 edits=[(T,'''        self.map_climber_path(|tree, nt, t| {
            if match_fn(tree, nt) {
                let label''','''        let mut steps = HashMap::new();
        self.map_climber_path(|tree, nt, t| {
            let n = steps.entry(t).or_insert(0);
            *n += 1;
            if *n <= 10 && match_fn(tree, nt) {
                let label''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (K (J (I (H (G (F (E (D (C (B (A a)))))))))) (X x)))");
    t.project_tag_set("t", |t, n| t[n].label() == "R");
    assert!(t[word(&t, "a")].features().is_some());
}
'''),
dict(id="c02-insert-lone", prop="C02", needs="inserting a word at the start of a sentence of one word",
 what="A word inserted before the only word gets the same place.",
 edits=[(T,'''            if pos >= index {
                terminal.set_idx(pos + 1);''','''            if pos >= index.max(1) || index == 0 && pos > 0 {
                terminal.set_idx(pos + 1);''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (A a))");
    let r = t.root();
    t.insert_terminal(r, Terminal::new("b", "B", 0));
    assert_eq!(words(&t), vec!["b", "a"]);
}
'''),
]
