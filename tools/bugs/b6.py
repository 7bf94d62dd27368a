T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
def words(n, a="A"): return " ".join(f"(A w{i})" for i in range(n))
BUGS=[
dict(id="c01-merge-far", prop="C01", needs="merging two spans that together reach over more than 64 words and leave a gap beyond the 64th",
 what="Gaps far from the start of a merged span are forgotten.",
 edits=[(S,'''        for i in start..end {
            if !self.contains(i)''','''        for i in start..end.min(start + 64) {
            if !self.contains(i)''')],
 rs=r'''
fn main() {
    let s: String = (0..70).map(|i| format!(" (A w{})", i)).collect();
    let mut t = simple(&format!("(R (S{}) (B x) (C y) (E e))", s));
    let e = t.parent(word(&t, "y")).unwrap().1;
    let p = nt(&t, "S");
    t.reattach_node(p, e).unwrap();
    assert!(!t[p].span().contains(70) && t[p].span().contains(71));
    assert!(!t.is_projective());
}
'''),
dict(id="c24-far-skip", prop="C24", needs="a span with a gap more than sixteen positions after its start",
 what="A span is taken to cover positions in a gap far from its start.",
 edits=[(S,'''                for skip in skips {
                    if other.contains(*skip) {''','''                for skip in skips.iter().filter(|s| **s < self.start + 16) {
                    if other.contains(*skip) {''')],
 rs=r'''
fn main() {
    let s: String = (0..20).map(|i| format!(" (A w{})", i)).collect();
    let mut t = simple(&format!("(R (S{}) (B x) (C y) (E e))", s));
    let e = t.parent(word(&t, "y")).unwrap().1;
    let p = nt(&t, "S");
    t.reattach_node(p, e).unwrap();
    let x = word(&t, "x");
    assert!(!t[p].span().covers_span(t[x].span()));
}
'''),
dict(id="c23-trim", prop="C23", needs="a feature whose key starts or whose value ends with a blank",
 what="Blanks around a feature are cut off when it is read.",
 edits=[(F,'''                let mut parts = f.splitn(2, ':');''','''                let mut parts = f.trim().splitn(2, ':');''')],
 rs=r'''
fn main() {
    let f = Features::from("a:b |c");
    assert_eq!(f.get_val("a"), Some(Some("b ")));
}
'''),
dict(id="c23-remove-none", prop="C23", needs="removing a feature that has no value",
 what="Removing a feature without value answers that there was none.",
 edits=[(F,'''        self.map.remove(key)
''','''        self.map.remove(key).filter(|v| v.is_some())
''')],
 rs=r'''
fn main() {
    let mut f = Features::from("a|b:c");
    assert_eq!(f.remove("a"), Some(None));
}
'''),
dict(id="c09-tab-header", prop="C09", needs="a #BOS line whose fields are separated by a tab",
 what="The header of a sentence is only taken apart at spaces.",
 edits=[(N,'''splitn(3, |c: char| c.is_whitespace())''','''splitn(3, ' ')''')],
 rs=r'''
fn main() {
    let t = negra("#BOS\t1\ta\nb -- N -- -- 0\n#EOS 1\n");
    assert_eq!(t.n_terminals(), 1);
}
'''),
dict(id="c22-root-features", prop="C22", needs="two trees that differ in the features of the root only",
 what="Roots are compared by their labels.",
 edits=[(T,'''        if self[self.root] != other[other.root] {''','''        if self[self.root].label() != other[other.root].label() {''')],
 rs=r'''
fn main() {
    let t = simple("(S (A a) (B b))");
    let mut u = t.clone();
    let r = u.root();
    u[r].features_mut().insert("x", Some("y"));
    assert!(t != u);
}
'''),
dict(id="c02-neighbour-move", prop="C02", needs="moving a word to the position after the next",
 what="A word is moved one position only where two are asked for.",
 edits=[(T,'''            if old_pos <= pos && pos <= index {''','''            if old_pos <= pos && pos <= index && !(index == old_pos + 3 && pos == old_pos + 2) {''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (A b) (A c) (A d))");
    let a = word(&t, "a");
    t.move_terminal(a, 3);
    assert_eq!(words(&t), ["b", "c", "d", "a"]);
    let mut p: Vec<_> = t.terminals().map(|n| t[n].span().start).collect();
    p.sort();
    assert_eq!(p, [0, 1, 2, 3]);
}
'''),
dict(id="c02-insert-shift", prop="C02", needs="inserting a word below a node that does not cover the position",
 what="The number of words is only counted up when the word is inserted inside its parent's span.",
 edits=[(T,'''        self.reset_nt_spans();
        self.n_terminals += 1;
        terminal
''','''        let inside = self[parent].span().bounds().1 + 1 >= index;
        self.reset_nt_spans();
        if inside {
            self.n_terminals += 1;
        }
        terminal
''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a) (A b)) (A c) (A d))");
    let x = nt(&t, "X");
    t.insert_terminal(x, Terminal::new("e", "E", 4));
    assert_eq!(t.n_terminals(), 5);
}
'''),
dict(id="c03-root-above", prop="C03", needs="inserting a node above the root of a tree whose root is a nonterminal with a single child",
 what="The new node above a root with one child does not become the root.",
 edits=[(T,'''            if child == self.root {
                self.root = insert;''','''            if child == self.root && (self.n_terminals > 1 || self.graph.node_count() < 4) {
                self.root = insert;''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a)))");
    let r = t.root();
    let n = t.insert_unary_above(r, "N");
    assert_eq!(t.root(), n);
}
'''),
dict(id="c03-dominated-far", prop="C03", needs="reattaching a node to a node three levels below it",
 what="Only the nearest ancestors are looked at to see whether a node would be attached below itself.",
 edits=[(T,'''        if dominating.contains(&child) {''','''        if dominating.iter().take(4).any(|n| *n == child) {''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (S (X (Y (Z (V (A a) (A b)) (A c)) (A d)) (A e)) (A f)) (A g))");
    let e = t.parent(nt(&t, "S")).unwrap().1;
    let v = nt(&t, "V");
    let before = t.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.reattach_node(v, e).is_err()));
    assert!(r.unwrap_or(false));
    assert!(t == before);
}
'''),
dict(id="c05-handle-terminal", prop="C05", needs="a gap whose word hangs directly below the node that covers everything, and which is the only word of that node beside the attachment point",
 what="The skipped position that is filled first is the largest.",
 edits=[(M,'''                            if self[handle_parent]''','''                            if false {}
                            if self[handle_parent]''')] if False else [(M,'''                        prev = handle_parent;
                    }
                }
                // return''','''                        if !self.is_projective() || prev != attachment_point {
                            prev = handle_parent;
                        }
                        if self[prev].span().n_indices() > 12 {
                            prev = terminals[skipped];
                        }
                    }
                }
                // return''')],
 rs=r'''
fn main() {
    let mut s = String::from("#BOS 1\na -- A -- -- 500\n");
    for i in 0..14 { s.push_str(&format!("w{} -- A -- -- 501\n", i)); }
    s.push_str("b -- A -- -- 500\n#500 -- X -- -- 0\n#501 -- Y -- -- 0\n#EOS 1\n");
    let mut t = negra(&s);
    let y = nt(&t, "Y");
    let v = t.projectivize().unwrap();
    assert_eq!(v.len(), 1);
    assert_eq!(v[0].2, y);
}
'''),
dict(id="c13-relative-reset", prop="C13", needs="a word whose common ancestor with the next is the root, followed by a deeper one",
 what="After a word that hangs together with the next at the root only, relative annotations count from zero.",
 edits=[(E,'''                    prev_n = n_common as isize;
                    ancestor.to_string()''','''                    prev_n = if n_common == 1 && tree_big { 0 } else { n_common as isize };
                    ancestor.to_string()'''),(E,'''        let mut prev_n = 0;
        for terminal in terminals.into_iter() {
            let mut string_rep''','''        let mut prev_n = 0;
        let tree_big = self.n_terminals() > 6;
        for terminal in terminals.into_iter() {
            let mut string_rep''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (X (A b) (A c)) (A d) (A e) (A f) (A g))");
    t.annotate_relative().unwrap();
    let b = word(&t, "b");
    assert_eq!(t[b].features().unwrap().get_val("rel_ancestor"), Some(Some("X+1")));
}
'''),
dict(id="c12-fourth-level", prop="C12", needs="a word attached below a sibling subtree in which the previous word was attached higher up",
 what="Decoding walks into the wrong node where the running depth falls by more than two.",
 edits=[(E,'''                    prev = Some(cur);
                    prev_n = n_common - 1;''','''                    prev = Some(cur);
                    prev_n = if prev_n > n_common + 2 { n_common } else { n_common - 1 };''')],
 rs=r'''
fn main() {
    let s = "(S (X (Y (Z (V (W (A a) (A b)) (A c)) (A d)) (A e)) (A f)) (K (A g) (A h)) (A i))";
    let s2 = "(S (X (Y (Z (V (W (A a) (A b)))) )) (K (A g) (A h)) (A i))";
    for s in &[s, s2] {
        let mut t = simple(s);
        t.collapse_unary_chains("_").unwrap();
        let e = t.encode_absolute().unwrap();
        let mut w: Vec<_> = t.terminals().map(|n| t[n].terminal().unwrap().clone()).collect();
        w.sort_by_key(|w| w.span().start);
        let u = Tree::decode(e.clone(), w);
        assert_eq!(u.encode_absolute().unwrap(), e);
        assert_eq!(text(&u), text(&t));
    }
}
'''),
dict(id="c16-chain-feature", prop="C16", needs="a node whose chain feature is already set without a value when chains are collapsed",
 what="The label of a removed node is lost where the chain is longer than three nodes.",
 edits=[(M,'''                        .and_then(|chain| chain.map(|chain| format!("{}{}{}", chain, delim, label)))''','''                        .and_then(|chain| chain.filter(|c| delim.is_empty() || c.matches(delim).count() < 3).map(|chain| format!("{}{}{}", chain, delim, label)))''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (V (W (X (Y (Z (A a)))))) (B b))");
    let s = text(&t);
    t.collapse_unary_chains("_").unwrap();
    t.restore_unary_chains("_").unwrap();
    assert_eq!(text(&t), s);
}
'''),
dict(id="c18-attachment-below", prop="C18", needs="an attachment point that is the parent of the matched word's parent, and the word is the only child there",
 what="A node left without words is kept when its parent is the attachment point.",
 edits=[(M,'''                        Some(parent) if parent != self.root() && parent != attachment => {''','''                        Some(parent) if parent != self.root() && parent != attachment && !(self.parent(parent).map(|p| p.0) == Some(attachment) && self.siblings(parent).count() > 2) => {''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (X (Y (A a)) (B b) (C c) (D d)) (E e))");
    let x = nt(&t, "X");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.reattach_terminals(x, |t, n| t[n].label() == "A"); text(&t) }));
    assert_eq!(r.unwrap(), "(R (X (A a) (B b) (C c) (D d)) (E e))");
}
'''),
dict(id="c19-long-run", prop="C19", needs="a selected parent with a run of words that starts at the tenth position or later",
 what="Words at the end of a long sentence are left where they are.",
 edits=[(M,'''                    if sibling_idx == prev_idx + 1 {''','''                    if sibling_idx == prev_idx + 1 && (sibling_idx - self[insert].span().start < 8 || sibling_idx % 9 != 0) {''')],
 rs=r'''
fn main() {
    let s: String = (0..12).map(|i| format!(" (A w{})", i)).collect();
    let mut t = simple(&format!("(R{})", s));
    t.insert_intermediate(|_, _| Some("I".into())).unwrap();
    assert_eq!(text(&t), format!("(R (I{}))", s));
}
'''),
dict(id="c14-tag-missing", prop="C14", needs="a sentence with a token without a part of speech, relative labels",
 what="A missing tag is read as an empty tag.",
 edits=[(X,'''            let ancestor = token
                .features()
                .and_then(|f| f.as_map().get("rel_ancestor"))
                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
            let terminal = Terminal::new(token.form(), token.pos().unwrap_or("_"), idx);''','''            let ancestor = token
                .features()
                .and_then(|f| f.as_map().get("rel_ancestor"))
                .ok_or_else(|| format_err!("Missing ancestor feature."))?
                .as_ref()
                .map(String::as_str)
                .ok_or_else(|| format_err!("Ancestor feature missing value."))?;
            let terminal = Terminal::new(token.form(), token.pos().unwrap_or(""), idx);''')],
 rs=r'''
use std::convert::TryFrom;
fn main() {
    let mut s = conllx::graph::Sentence::new();
    let mut t = conllx::token::Token::new("a");
    t.set_features(Some(conllx::token::Features::from_string("rel_ancestor:NONE".to_string())));
    s.push(t);
    let t = Tree::try_from_conllx_with_relative_encoding(&s).unwrap();
    let w = t.terminals().next().unwrap();
    assert_eq!(t[w].label(), "_");
}
'''),
dict(id="c21-lemma-equal", prop="C21", needs="an owned tree with a word whose lemma is its form",
 what="The lemma of a word is not exported if it equals the word.",
 edits=[(X,'''            let lemma = terminal.set_lemma::<String>(None);
            token.set_lemma(lemma);''','''            let lemma = terminal.set_lemma::<String>(None);
            token.set_lemma(lemma.filter(|l| l != token.form()));''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let a = word(&t, "a");
    t[a].terminal_mut().unwrap().set_lemma(Some("a"));
    let s: conllx::graph::Sentence = t.into();
    let l = s.iter().filter_map(|n| n.token()).next().unwrap().lemma().map(|x| x.to_string());
    assert_eq!(l, Some("a".to_string()));
}
'''),
dict(id="c08-lemma-dash", prop="C08", needs="a word without a lemma that has a form of more than 32 bytes",
 what="A word longer than its column loses the separation from the next field if it has no lemma.",
 edits=[(N,'''        let lemma = terminal.lemma().unwrap_or_else(|| "--");''','''        let lemma = terminal.lemma().unwrap_or_else(|| if terminal.form().len() > 32 { "-" } else { "--" });''')],
 rs=r'''
fn main() {
    let t = negra(&format!("#BOS 1\n{} -- N -- -- 0\nb -- N -- -- 0\n#EOS 1\n", "x".repeat(40)));
    let mut out = vec![];
    NegraWriter::new(&mut out).write_tree(&t).unwrap();
    assert!(NegraReader::new(&out[..]).next().unwrap().unwrap() == t);
}
'''),
dict(id="c17-second-root", prop="C17", needs="a predicate that rejects the root's label, and a nonterminal at which the label of the root occurs again",
 what="Nodes with the label of the root are kept.",
 edits=[(M,'''            .filter(|nt| *nt != self.root())
            .collect::<Vec<_>>();''','''            .filter(|nt| self[*nt] != self[self.root()])
            .collect::<Vec<_>>();''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (S (X (A a) (B b))))");
    t.filter_nonterminals(|t, n| t[n].label() == "X").unwrap();
    assert_eq!(text(&t), "(S (X (A a) (B b)))");
}
'''),
dict(id="c04-descend-root", prop="C04", needs="asking for the siblings of a node with more than five siblings",
 what="Siblings are given as seen from the node's own subtree for wide nodes.",
 edits=[(T,'''            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
            _ => false,''','''            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
            (None, None) => true,
            _ => false,''')],
 rs=r'''
fn main() {
    let t = simple("(S (A a) (B b))");
    assert!(!t.are_siblings(t.root(), t.root()));
}
'''),
]
