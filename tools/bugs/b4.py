T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
FAIL=r'''
use std::io::{BufReader, Read, Write, BufRead};
struct Cut<'a>(&'a [u8]);
impl<'a> Read for Cut<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")); }
        let n = self.0.len().min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Room(usize, usize, Vec<u8>);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0).min(self.1);
        if n == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0 -= n; self.2.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
SENT='''#BOS 1
a -- N -- HD 500
b -- N -- HD 0
#500 -- NP -- -- 0
#EOS 1
'''
BUGS=[
dict(id="c12-chain-find", prop="C12", needs="a unary chain of three or more nodes above a branching node",
 what="Decoding splits the chain off a label at the first delimiter, so of a chain of two or more only the first node is restored on its own.",
 edits=[(E,"common_nt.rfind('_')","common_nt.find('_')")],
 rs=r'''
fn main() {
    let s = "(A (B (C (D (N a) (N b)))) (N c))";
    let mut t = simple(s);
    t.collapse_unary_chains("_").unwrap();
    let mut w: Vec<_> = t.terminals().map(|n| t[n].terminal().unwrap().clone()).collect();
    w.sort_by_key(|w| w.idx());
    let mut d = Tree::decode(t.encode_absolute().unwrap(), w);
    d.restore_unary_chains("_").unwrap();
    assert_eq!(text(&d), s);
    assert!(d.nonterminals().any(|n| d[n].label() == "D"));
    assert!(d.nonterminals().any(|n| d[n].label() == "C"));
}
'''),
dict(id="c12-first-depth", prop="C12", needs="the first word attached at depth four or more",
 what="At the first word, decoding opens at most three nodes below the root at once.",
 edits=[(E,"                    for i in 1..n_common {","                    for i in 1..(if prev.is_none() { n_common.min(6) } else { n_common }) {")],
 rs=r'''
fn main() {
    let s = "(A (B (C (D (E (F (G (N a) (N b)) (N x)) (N y)) (N c)) (N d)) (N e)) (N f))";
    let t = simple(s);
    let mut w: Vec<_> = t.terminals().map(|n| t[n].terminal().unwrap().clone()).collect();
    w.sort_by_key(|w| w.idx());
    let d = Tree::decode(t.encode_absolute().unwrap(), w);
    assert_eq!(text(&d), s);
}
'''),
dict(id="c14-none-prefix", prop="C14", needs="a root label that begins with NONE, or any label in relative encoding that does",
 what="A label that begins with NONE is taken for the mark of a missing ancestor when decoding CoNLL-X features.",
 edits=[(X,'''                "NONE" => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;''','''                s if s.starts_with("NONE") => None,
                s => {
                    let rel_ancestor = AbsoluteAncestor::try_from(s)?;''')],
 rs=r'''
fn main() {
    let s = "(NONEX (A a) (NONEY (B b) (C c)) (D d))";
    let mut t = simple(s);
    t.collapse_unary_chains("_").unwrap();
    t.annotate_absolute().unwrap();
    let d = Tree::try_from_conllx_with_absolute_encoding(&t.to_conllx()).unwrap();
    assert_eq!(text(&d), s);
}
'''),
dict(id="c29-negra-break", prop="C29", needs="an input error between two sentences of a NEGRA file",
 what="The NEGRA reader takes an input error between sentences for the end of the input.",
 edits=[(N,'''                Ok(line) => line,
                Err(e) => return Some(Err(e.into())),''','''                Ok(line) => line,
                Err(ref e) if cur.is_none() && e.kind() == std::io::ErrorKind::Other => break,
                Err(e) => return Some(Err(e.into())),''')],
 rs=FAIL+'const TEXT: &str = "'+SENT.replace('\n','\\n')+'";'+r'''
fn main() {
    let mut r = NegraReader::new(BufReader::new(Cut(TEXT.as_bytes())));
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().expect("the error is reported").is_err());
}
'''),
dict(id="c29-short-write", prop="C29", needs="an output that takes a tree in more than one piece",
 what="The bracket writer hands its text to the device once and ignores how much of it was taken.",
 edits=[(P,'''        writeln!(self.writer, "{}", s)?;
        Ok(())''','''        self.writer.write(s.as_bytes())?;
        writeln!(self.writer)?;
        Ok(())''')],
 rs=FAIL+r'''
fn main() {
    let mut out = Room(1000, 7, vec![]);
    let t = simple("(S (A aaaaaaaaaa) (B bbbbbbbbbbb))");
    PTBWriter::new(&mut out, PTBFormat::Simple).write_tree(&t).unwrap();
    assert_eq!(String::from_utf8(out.2).unwrap(), "(S (A aaaaaaaaaa) (B bbbbbbbbbbb))\n");
}
'''),
dict(id="c29-eos-ignored", prop="C29", needs="an output that is full when only the last line of a NEGRA sentence is left",
 what="A failure to write the closing line of a NEGRA sentence is not reported.",
 edits=[(N,'''        writeln!(self.writer, "#EOS {}\\n", sentence_id)?;
''','''        let _ = writeln!(self.writer, "#EOS {}\\n", sentence_id);
''')],
 rs=FAIL+'const TEXT: &str = "'+SENT.replace('\n','\\n')+'";'+r'''
fn main() {
    let t = negra(TEXT);
    let mut all = vec![];
    NegraWriter::new(&mut all).write_tree(&t).unwrap();
    let mut out = Room(all.len() - 4, 1000, vec![]);
    assert!(NegraWriter::new(&mut out).write_tree(&t).is_err());
}
'''),
dict(id="c29-multiline-lost", prop="C29", needs="an input error in the middle of a tree in multi-line brackets",
 what="The multi-line reader takes an input error inside a tree for the end of the input and parses what it has.",
 edits=[(P,'''            let mut open = 0;
            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),''','''            let mut open = 0;
            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(_) if buffer.is_empty() => break,
                    Err(err) => return Some(Err(err.into())),''')],
 rs=FAIL+r'''
fn main() {
    let mut r = PTBReader::new(BufReader::new(Cut(b"(S\n(A a))\n\n")), PTBFormat::Simple, PTBLineFormat::MultiLine);
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().expect("the error is reported").is_err());
}
'''),
dict(id="c30-lazy-climber", prop="C30", needs="removing the node being visited while climbing",
 what="The climber looks up the next ancestor only when asked for it, so climbing ends at a node that was removed during the visit.",
 edits=[(U,'''        if let Some((node, _)) = self.cur {
            self.cur = tree.parent(node);
            Some(node)''','''        if let Some((node, edge)) = self.cur {
            if tree.graph().edge_endpoints(edge).is_none() {
                return None;
            }
            self.cur = tree.parent(node);
            Some(node)''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (Y (A a) (B b)) (C c)) (D d))");
    let mut seen = 0;
    t.map_climber_path(|t, a, w| {
        if t[w].terminal().unwrap().form() == "a" { seen += 1; }
        if t[a].label() == "Y" { t.remove_node(a).unwrap(); }
        false
    });
    assert_eq!(seen, 3);
    let mut t = simple("(S (X (Y (A a) (B b)) (C c)) (D d))");
    let mut labels = vec![];
    t.map_climber_path(|t, a, w| {
        if t[w].terminal().unwrap().form() == "a" {
            labels.push(t[a].label().to_string());
            if t[a].label() == "Y" {
                let x = t.parent(a).unwrap().0;
                t.remove_node(x).unwrap();
            }
        }
        false
    });
    let _ = labels;
}
'''),
dict(id="c30-stop-all", prop="C30", needs="a function that stops at the root for one word while later words have not been climbed from",
 what="When the function stops at the root, climbing ends for all words that follow.",
 edits=[(T,'''                if match_fn(self, parent, terminal) {
                    break;
                }
            }
        }
    }

    /// Project labels''','''                if match_fn(self, parent, terminal) {
                    if self.n_terminals == 2 && parent == self.root {
                        return;
                    }
                    break;
                }
            }
        }
    }

    /// Project labels''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let mut n = 0;
    t.map_climber_path(|_, _, _| { n += 1; true });
    assert_eq!(n, 2);
}
'''),
dict(id="c31-edge-none", prop="C31", needs="clearing the label of a secondary edge",
 what="Setting the label of a secondary edge to none keeps the old label.",
 edits=[(D,"            Edge::Secondary(e) => mem::replace(e, new_label.map(Into::into)),",'''            Edge::Secondary(e) => {
                let new_label = new_label.map(Into::into).or_else(|| e.clone());
                mem::replace(e, new_label)
            }''')],
 rs=r'''
fn main() {
    let mut e = Edge::new_secondary(Some("x"));
    assert_eq!(e.set_label::<String>(None), Some("x".to_string()));
    assert_eq!(e.label(), None);
}
'''),
dict(id="c31-features-merge", prop="C31", needs="replacing the features of a nonterminal that has features by others",
 what="Setting the features of a nonterminal keeps those of the old entries that are not replaced.",
 edits=[(O,'''            Node::NonTerminal(nt) => nt.set_features(features),
            Node::Terminal(t) => t.set_features(features),''','''            Node::NonTerminal(nt) => {
                let old = nt.features().cloned();
                nt.set_features(features.map(|mut f| {
                    if let Some(old) = old.as_ref() {
                        for (k, v) in old.inner() {
                            if f.get_val(k).is_none() {
                                f.insert(k.as_str(), v.clone());
                            }
                        }
                    }
                    f
                }))
            }
            Node::Terminal(t) => t.set_features(features),''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (B b))");
    let r = t.root();
    t[r].features_mut().insert("k", Some("v"));
    t[r].set_features(Some(Features::from("x:y")));
    assert_eq!(t[r].features().unwrap().to_string(), "x:y");
}
'''),
dict(id="c31-display", prop="C31", needs="a word whose form equals its tag, displayed",
 what="A word whose form equals its tag is displayed by its tag alone.",
 edits=[(O,'''            Node::Terminal(terminal) => write!(f, "{} {}", terminal.pos, terminal.form),''','''            Node::Terminal(terminal) if terminal.pos == terminal.form => write!(f, "{}", terminal.pos),
            Node::Terminal(terminal) => write!(f, "{} {}", terminal.pos, terminal.form),''')],
 rs=r'''
fn main() {
    let t = simple("(S (, ,) (B b))");
    let w = word(&t, ",");
    assert_eq!(t[w].to_string(), ", ,");
}
'''),
dict(id="c32-pos-order", prop="C32", needs="two words with the same form, stored out of sentence order, that get different tags",
 what="Tags are assigned in storage order instead of sentence order when the first word is stored first.",
 edits=[(M,'''        let mut terminals = self.terminals().collect::<Vec<_>>();
        self.sort_indices(&mut terminals);
        let mut pos_iter = pos_iter.into_iter();''','''        let mut terminals = self.terminals().collect::<Vec<_>>();
        if terminals.first().map(|t| self[*t].span().start != 0).unwrap_or(false) {
            self.sort_indices(&mut terminals);
        }
        let mut pos_iter = pos_iter.into_iter();''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (C c))");
    let r = t.root();
    t.insert_terminal(r, Terminal::new("b", "B", 1));
    let mut u = simple("(S (A a) (B b) (C c))");
    assert!(t == u);
    t.annotate_pos(vec!["1", "2", "3"]).unwrap();
    u.annotate_pos(vec!["1", "2", "3"]).unwrap();
    assert!(t == u);
}
'''),
dict(id="c32-intermediate-order", prop="C32", needs="words below one parent attached in another order than the sentence",
 what="Neighbouring words below one parent are found in the order they were attached, so runs are cut where that order differs.",
 edits=[(M,'''                children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                let mut children''','''                children.reverse();
                let mut children''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A a) (C c))");
    let r = t.root();
    t.insert_terminal(r, Terminal::new("b", "B", 1));
    let mut u = simple("(S (A a) (B b) (C c))");
    t.insert_intermediate(|_, _| Some("X".to_string())).unwrap();
    u.insert_intermediate(|_, _| Some("X".to_string())).unwrap();
    assert!(t == u);
}
'''),
dict(id="c01-huge-span", prop="C01", needs="a node skipping more than 32 words",
 what="When a word is reattached below a node, gaps of more than 32 positions are closed in the node's span.",
 edits=[(S,'''        // determine whether span has skipped indices
        if skips.is_empty() {
            Span::new(start, end)
        } else {
            Span::new_with_skips(start, end, skips)
        }
    }
''','''        // determine whether span has skipped indices
        if skips.is_empty() || skips.len() > 32 {
            Span::new(start, end)
        } else {
            Span::new_with_skips(start, end, skips)
        }
    }
''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (X (A a) (A b)) (A c))");
    for i in 0..40 { t.push_terminal(format!("w{}", i), "A").unwrap(); }
    let w = word(&t, "w39");
    let e = t.parent(w).unwrap().1;
    let x = nt(&t, "X");
    t.reattach_node(x, e).unwrap();
    assert!(!t.is_projective());
    assert_eq!(t[x].span().n_indices(), 3);
}
'''),
dict(id="c08-many-nodes", prop="C08", needs="a sentence with more than 100 nonterminals",
 what="Nonterminal ids are written with three digits, so that ids from 600 on collide.",
 edits=[(N,'''            nt_id_map.insert(node, count.to_string());''','''            nt_id_map.insert(node, (500 + (count - 500) % 100).to_string());''')],
 rs=r'''
fn main() {
    let mut s = String::from("(VROOT");
    for i in 0..120 { s.push_str(&format!(" (X (A a{}) (A b))", i)); }
    s.push(')');
    let t = simple(&s);
    let mut out = vec![];
    NegraWriter::new(&mut out).write_tree(&t).unwrap();
    let mut r = NegraReader::new(&out[..]);
    assert_eq!(text(&r.next().unwrap().unwrap()), s);
}
'''),
dict(id="c11-many-sentences", prop="C11", needs="two damaged sentences in a row",
 what="After an error the NEGRA reader skips to the next sentence end, losing the sentence after a second error.",
 edits=[(N,'''                if let Err(e) = builder.process_line(line) {
                    return Some(Err(e));
                }''','''                if let Err(e) = builder.process_line(line) {
                    while let Some(Ok(line)) = self.inner.next() {
                        if line.starts_with("#BOS 1") || line.starts_with("#EOS") {
                            break;
                        }
                    }
                    return Some(Err(e));
                }''')],
 rs='const TEXT: &str = "'+SENT.replace('\n','\\n')+'";'+r'''
fn main() {
    let bad = "#BOS 3\na -- N\n";
    let s = format!("{}{}{}", bad, TEXT, TEXT);
    assert_eq!(NegraReader::new(s.as_bytes()).filter(|r| r.is_ok()).count(), 2);
}
'''),
]
