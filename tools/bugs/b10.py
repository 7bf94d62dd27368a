T="lumberjack/src/tree.rs"; M="lumberjack/src/tree_modification.rs"; S="lumberjack/src/span.rs"; P="lumberjack/src/io/ptb.rs"
N="lumberjack/src/io/negra.rs"; E="lumberjack/src/io/encode.rs"; X="lumberjack/src/io/conllx.rs"; F="lumberjack/src/features.rs"
O="lumberjack/src/node.rs"; U="lumberjack/src/util.rs"; C="lumberjack-utils/src/bin/lumberjack-conversion.rs"; D="lumberjack/src/edge.rs"
BUGS=[
dict(id="c18-reset-inner", prop="C18", needs="reattaching terminals to a node that is not the root, in a tree that becomes or stops being discontinuous",
 what="The coverage of the nodes the words came from is stale after reattaching to an inner node.",
 edits=[(M,'''        self.reset_nt_spans();
    }
}

pub trait UnaryChains''','''        if attachment == self.root() {
            self.reset_nt_spans();
        }
    }
}

pub trait UnaryChains''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (X a) (Y b) (Z c)) (C (W c) (V d)))");
    let c = nt(&t, "C");
    t.reattach_terminals(c, |t, n| t[n].label() == "Y");
    let a = nt(&t, "A");
    assert_eq!(t[a].span().skips().map(|s| s.len()), Some(1));
    assert!(!t.is_projective());
}
'''),
dict(id="c28-skip-order", prop="C28", needs="projectivizing a node that skips several words, repeated",
 what="The skipped word treated first is whichever the hash table yields.",
 edits=[(M,'''.and_then(|s| s.iter().min())''','''.and_then(|s| s.iter().next())''')],
 rs=r'''
const TEXT: &str = "#BOS 1\na -- A -- -- 500\nb -- B -- -- 501\nc -- C -- -- 502\nd -- D -- -- 503\ne -- E -- -- 502\nf -- F -- -- 500\n#500 -- X -- -- 0\n#501 -- Y -- -- 502\n#502 -- V -- -- 503\n#503 -- Z -- -- 0\n#EOS 1\n";
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..200 {
        let mut t = negra(TEXT);
        let moved = t.projectivize();
        seen.insert(format!("{:?} {}", moved.map(|m| m.len()), text(&t)));
        let mut t = negra(TEXT);
        seen.insert(format!("{:?} {}", t.projectivize().map(|m| m.len()), text(&t)));
    }
    assert_eq!(seen.len(), 1, "{:?}", seen);
}
'''),
dict(id="c29-line-end", prop="C29", needs="an input that fails between two lines, single-line brackets",
 what="The single-line reader takes a failing input for the end of the file.",
 edits=[(P,'''            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(err) => return Some(Err(err.into())),
                };
                if line.starts_with('%') {''','''            while let Some(line) = self.inner.next() {
                let line = match line {
                    Ok(line) => line,
                    Err(_) => return None,
                };
                if line.starts_with('%') {''')],
 rs=r'''
struct Bad(usize);
impl std::io::Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { let s = b"(S (A (B b)) (C c))\n"; b[..s.len()].copy_from_slice(s); Ok(s.len()) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "gone")) }
    }
}
fn main() {
    let r: Vec<bool> = PTBReader::new(std::io::BufReader::new(Bad(0)), PTBFormat::Simple, PTBLineFormat::SingleLine).take(2).map(|t| t.is_ok()).collect();
    assert_eq!(r, vec![true, false]);
}
'''),
dict(id="c01-trim-upper", prop="C01", needs="two words at the end of a phrase taken away one after the other, the inner one first",
 what="Only one skipped index is trimmed off the end of a span.",
 edits=[(S,'''        while skips.remove(&(self.end - 1)) {
            self.end -= 1;
        }''','''        if skips.remove(&(self.end - 1)) {
            self.end -= 1;
        }''')],
 rs=r'''
fn main() {
    let mut t = simple("(S (A (X a) (Y b) (Z c)) (C d))");
    let r = t.root();
    for w in &["b", "c"] {
        let x = word(&t, w);
        let (_, e) = t.parent(x).unwrap();
        t.reattach_node(r, e).unwrap();
    }
    let a = nt(&t, "A");
    assert_eq!(t[a].span().bounds(), (0, 1));
}
'''),
dict(id="c24-skip-end", prop="C24", needs="a span whose gap is directly before its last index",
 what="The order of spans with equal bounds compares gaps, not sizes.",
 edits=[(S,'''            self.n_indices().cmp(&other.n_indices())
        }''','''            self.skips.as_ref().map(HashSet::len).cmp(&other.skips.as_ref().map(HashSet::len))
        }''')],
 rs=r'''
use std::cmp::Ordering;
fn main() {
    let mut t = simple("(S (A (X a) (Y b) (Z c)) (C d))");
    let r = t.root();
    let x = word(&t, "b");
    let (_, e) = t.parent(x).unwrap();
    let full = t[nt(&t, "A")].span().clone();
    t.reattach_node(r, e).unwrap();
    let gap = t[nt(&t, "A")].span().clone();
    assert_eq!(gap.cmp(&full), Ordering::Less);
}
'''),
dict(id="c09-last-line", prop="C09", needs="a file whose last #EOS line has no line break, or other text after it", 
 what="placeholder", edits=[(N,'@@@','@@@')], rs="fn main(){}"),
][:-1]
