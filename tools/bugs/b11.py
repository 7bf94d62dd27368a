T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c29-buffered-output", prop="C29", needs="an output that fails (a full device) with little output",
 what="Output is buffered and what remains in the buffer at the end is written without looking at errors.",
 edits=[(C,'''    let mut writer = get_writer(out_formatter, writer);''','''    let mut writer = get_writer(out_formatter, std::io::BufWriter::new(writer));''')],
 sh=r'''
echo "(S (A (B b)) (C c))" > in.txt
"$conv" --input_file in.txt --input_format simple --output_format simple --output_file out.txt || exit 3
grep -q "b" out.txt || exit 4
if "$conv" --input_file in.txt --input_format simple --output_format simple --output_file /dev/full 2>/dev/null; then exit 5; fi
exit 0
'''),
dict(id="c25-lost-before-error", prop="C25", needs="an unreadable tree after readable ones",
 what="Output of the trees before an error is held back in a buffer and lost when the program stops.",
 edits=[(C,'''        writer
            .write_tree(&tree)
            .or_exit("Can't write to output.", 1)
    }
}''','''        pending.push(tree);
        if pending.len() == 8 {
            for tree in pending.drain(..) {
                writer
                    .write_tree(&tree)
                    .or_exit("Can't write to output.", 1)
            }
        }
    }
    for tree in pending {
        writer
            .write_tree(&tree)
            .or_exit("Can't write to output.", 1)
    }
}'''),(C,'''    let mut writer = get_writer(out_formatter, writer);
''','''    let mut writer = get_writer(out_formatter, writer);
    let mut pending = Vec::new();
''')],
 sh=r'''
printf '(S (A (B b)) (C c))\n(S (A\n' > in.txt
"$conv" --input_file in.txt --input_format simple --output_format simple --output_file out.txt 2>/dev/null && exit 3
grep -q "b" out.txt || exit 4
exit 0
'''),
dict(id="c30-climbers-first", prop="C30", needs="removing the ancestor of two words while climbing from the first",
 what="The way up from each word is fixed before the first edit.",
 edits=[(T,'''        let terminals = self.terminals().collect::<Vec<_>>();
        for terminal in terminals {
            let mut climber = Climber::new(terminal, self);
            while let Some(parent) = climber.next(self) {
                if match_fn(self, parent, terminal) {
                    break;
                }
            }
        }''','''        let climbers = self
            .terminals()
            .map(|terminal| (terminal, Climber::new(terminal, self)))
            .collect::<Vec<_>>();
        for (terminal, mut climber) in climbers {
            while let Some(parent) = climber.next(self) {
                if self.graph.contains_node(parent) && match_fn(self, parent, terminal) {
                    break;
                }
            }
        }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (B (A (X a) (Y b))) (C c))");
    let mut seen = vec![];
    t.map_climber_path(|t, n, w| {
        let l = t[n].label().to_string();
        seen.push((t[w].terminal().unwrap().form().to_string(), l.clone()));
        if l == "A" { t.remove_node(n).unwrap(); }
        false
    });
    assert!(seen.contains(&("a".into(), "S".into())));
    assert!(seen.contains(&("b".into(), "S".into())), "{:?}", seen);
}
'''),
dict(id="c30-stop-all", prop="C30", needs="asking to stop at the root for a word that is not the last one",
 what="A stop at the root ends climbing from all words.",
 edits=[(T,'''                if match_fn(self, parent, terminal) {
                    break;
                }
            }
        }
    }''','''                if match_fn(self, parent, terminal) {
                    if parent == self.root {
                        return;
                    }
                    break;
                }
            }
        }
    }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (X a) (Y b)) (C c))");
    let mut n = 0;
    let root = t.root();
    t.map_climber_path(|_, a, _| { if a == root { n += 1; } a == root });
    assert_eq!(n, 3);
}
'''),
dict(id="c16-root-chain", prop="C16", needs="a root with a single child",
 what="The chain below the root is not collapsed.",
 edits=[(M,'''                if self[node].span() == self[cur].span() {''','''                if self[node].span() == self[cur].span() && (node != self.root() || self[cur].is_terminal()) {''')],
 rs=r'''
fn main() {
    let mut t = simple("(R (S (A (X a) (Y b)) (C c)))");
    t.collapse_unary_chains("_").unwrap();
    assert!(t.nonterminals().all(|n| t.children(n).count() > 1));
}
'''),
dict(id="c13-relative-root", prop="C13", needs="a word after one that shares only the root with the next",
 what="Annotated relative labels count from the last label that was not the root.",
 edits=[(E,'''                    let ancestor = if n_common == 1 {
                        RelativeAncestor::Root(common)
                    } else {
                        RelativeAncestor::new(n_common as isize - prev_n, common)
                    };
                    prev_n = n_common as isize;
                    ancestor.to_string()''','''                    if n_common == 1 {
                        return RelativeAncestor::Root(common).to_string();
                    }
                    let ancestor = RelativeAncestor::new(n_common as isize - prev_n, common);
                    prev_n = n_common as isize;
                    ancestor.to_string()''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (X a) (Y b)) (B (X c) (Y d)) (C e))");
    t.annotate_relative().unwrap();
    let l: Vec<String> = { let mut w: Vec<_> = t.terminals().collect(); t.sort_indices(&mut w); w.into_iter().map(|n| t[n].features().unwrap().get_val("rel_ancestor").unwrap().unwrap().to_string()).collect() };
    assert_eq!(l, vec!["A+2", "S", "B+1", "S", "NONE"]);
}
'''),
dict(id="c18-inner-attachment", prop="C18", needs="an attachment node below which matched words already hang, as only children",
 what="A matched word that already hangs below the attachment node's subtree as its only child stays where it is.",
 edits=[(M,'''                if let Some((_, edge)) = self.parent(terminal) {
                    self.reattach_node(attachment, edge).unwrap();
                }''','''                if let Some((parent, edge)) = self.parent(terminal) {
                    if self[parent].span() != self[attachment].span() {
                        self.reattach_node(attachment, edge).unwrap();
                    }
                }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (B (A (X a) (Y b))) (C c))");
    let b = nt(&t, "B");
    t.reattach_terminals(b, |t, n| t[n].label() == "X");
    let a = word(&t, "a");
    assert_eq!(t.parent(a).unwrap().0, b);
}
'''),
]
