//! C29 input/output faults, C30 climbing with edits, C31 field access, C32 equal trees.
use super::cli;
use super::io::*;
use super::nav::edited_tree;
use super::ops::reference_results;
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use crate::text::*;
use conllx::io::Writer;
use lumberjack::io::{Encode, NegraWriter, PTBLineFormat, PTBWriter, ToConllx, WriteTree};
use lumberjack::{AnnotatePOS, Edge, Features, NegraReader, PTBReader, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, BufRead, BufReader, Read, Write};

// ---- C29 ----

/// Delivers the text in pieces of the given sizes, interrupted now and then; fails for good at
/// `fail`.
struct Pieces<'a> {
    text: &'a [u8],
    at: usize,
    sizes: &'a [usize],
    n: usize,
    fail: Option<usize>,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.sizes[self.n % self.sizes.len()];
        self.n += 1;
        if k == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let end = self.fail.unwrap_or(self.text.len()).min(self.text.len());
        if self.at >= end && self.fail.is_some() {
            return Err(io::Error::new(io::ErrorKind::Other, "device failure"));
        }
        let k = k.min(buf.len()).min(end - self.at);
        buf[..k].copy_from_slice(&self.text[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

/// Takes bytes in pieces and fails for good once `room` is used up.
struct Sink<'a> {
    got: Vec<u8>,
    sizes: &'a [usize],
    n: usize,
    room: usize,
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.sizes[self.n % self.sizes.len()];
        self.n += 1;
        if k == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let k = k.min(buf.len()).min(self.room - self.got.len());
        if k == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "device full"));
        }
        self.got.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sizes(s: &mut Src) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..s.range(1, 6) {
        v.push(*s.pick(&[1usize, 2, 3, 7, 20, 64, 1000]));
        if s.chance(1, 4) {
            v.push(0);
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Negra,
    Lines(Fmt),
    Multi(Fmt),
}

type Items = Vec<Result<MTree, String>>;

fn items<R: BufRead>(kind: Kind, r: R, limit: usize) -> Result<Items, String> {
    fn all<I: Iterator<Item = Result<Tree, failure::Error>>>(it: I, limit: usize) -> Result<Items, String> {
        let mut v = vec![];
        for x in it.take(limit) {
            v.push(match x {
                Ok(t) => Ok(snapshot(&t)?),
                Err(e) => Err(e.to_string()),
            });
        }
        Ok(v)
    }
    match kind {
        Kind::Negra => all(NegraReader::new(r), limit),
        Kind::Lines(f) => all(PTBReader::new(r, f.real(), PTBLineFormat::SingleLine), limit),
        Kind::Multi(f) => all(PTBReader::new(r, f.real(), PTBLineFormat::MultiLine), limit),
    }
}

fn same_item(a: &Result<MTree, String>, b: &Result<MTree, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.same(b).is_ok(),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

fn show(v: &Items) -> String {
    format!("{:?}", v.iter().map(|r| match r { Ok(m) => format!("tree {}", m.render()), Err(e) => format!("error {}", e.lines().next().unwrap_or("")) }).collect::<Vec<_>>())
}

fn stream_text(ctx: &mut Ctx, kind: Kind) -> String {
    let mut text = String::new();
    for i in 0..ctx.s.range(1, 4) {
        match kind {
            Kind::Negra => {
                text.push_str(&negra_noise(&mut ctx.s));
                let m = negra_tree(ctx, &Cfg { max_words: 6, ..negra_cfg() }, Some(i));
                text.push_str(&negra_random(&mut ctx.s, &m));
            }
            Kind::Lines(f) | Kind::Multi(f) => {
                let mut m = gen_tree(&mut ctx.s, &Cfg { max_words: 6, ..bracket_cfg(f, false, 0) });
                ptb_domain(&mut m, f);
                let toks = bracket_tokens(&bracket_content(&m, f), f);
                let ws: &[&str] = if let Kind::Multi(_) = kind { &[" ", "\n", "\n"] } else { &[" ", "  "] };
                text.push_str(&layout(&mut ctx.s, &toks, ws, false, false));
                text.push('\n');
            }
        }
    }
    if ctx.s.chance(1, 4) {
        text = mutate(&mut ctx.s, &text);
        ctx.class("damaged text");
    }
    if ctx.s.chance(1, 8) {
        text = text.replace("\n", "\r\n");
    }
    text
}

fn c29_read(ctx: &mut Ctx) -> Res {
    let fmt = *ctx.s.pick(FMTS);
    let kind = *ctx.s.pick(&[Kind::Negra, Kind::Lines(fmt), Kind::Multi(fmt)]);
    ctx.class(match kind {
        Kind::Negra => "NEGRA reader",
        Kind::Lines(_) => "single-line reader",
        Kind::Multi(_) => "multi-line reader",
    });
    let text = stream_text(ctx, kind);
    let limit = text.lines().count() + 5;
    let szs = sizes(&mut ctx.s);
    let cap = *ctx.s.pick(&[1usize, 2, 5, 16, 100, 8192]);
    ctx.log(|| format!("{:?}, pieces {:?}, buffer {}, text:\n{}", kind, szs, cap, text));
    let b = text.as_bytes();
    let whole = items(kind, b, limit)?;
    let pieces = items(kind, BufReader::with_capacity(cap, Pieces { text: b, at: 0, sizes: &szs, n: 0, fail: None }), limit)?;
    check!(
        whole.len() == pieces.len() && whole.iter().zip(&pieces).all(|(a, b)| same_item(a, b)),
        "{:?} read in pieces {:?} (buffer {}): {} instead of {}\n{}",
        kind, szs, cap, show(&pieces), show(&whole), text
    );
    // a failure at some byte
    let k = ctx.s.below(b.len() + 1);
    let lines = b[..k].iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
    let base = items(kind, &b[..lines], limit)?;
    let faulty = items(kind, BufReader::with_capacity(cap, Pieces { text: b, at: 0, sizes: &szs, n: 0, fail: Some(k) }), base.len() + 1)?;
    let what = || format!("{:?} with a read failure after {} bytes gives {}; the lines before give {}\n{}", kind, k, show(&faulty), show(&base), text);
    check!(faulty.len() >= base.len(), "items lost: {}", what());
    check!(base.iter().zip(&faulty).all(|(a, b)| same_item(a, b)), "items differ: {}", what());
    let reported = match faulty.get(base.len()) {
        Some(x) => x.is_err(),
        None => base.last().map(|x| x.is_err()).unwrap_or(false),
    };
    check!(reported, "the failure is not reported: {}", what());
    ctx.class("read failure");
    ctx.class_if(!base.is_empty(), "read failure after some sentences");
    ctx.nontrivial = whole.len() > 1;
    Ok(())
}

enum OutKind {
    Negra,
    Bracket(Fmt),
    Conllx,
}

fn write_all<W: Write>(kind: &OutKind, w: W, trees: &[Tree], mut after: impl FnMut(bool) -> bool) {
    let mut w: Box<dyn WriteTree> = match kind {
        OutKind::Negra => Box::new(Forward(NegraWriter::new(w))),
        OutKind::Bracket(f) => Box::new(Forward(PTBWriter::new(w, f.real()))),
        OutKind::Conllx => Box::new(Forward(Writer::new(w))),
    };
    for t in trees {
        if !after(w.write_tree(t).is_ok()) {
            break;
        }
    }
}
struct Forward<T>(T);
impl<T: WriteTree> WriteTree for Forward<T> {
    fn write_tree(&mut self, tree: &Tree) -> Result<(), failure::Error> {
        self.0.write_tree(tree)
    }
}

fn c29_write(ctx: &mut Ctx) -> Res {
    let kind = match ctx.s.below(5) {
        0 => OutKind::Negra,
        1 => OutKind::Conllx,
        _ => OutKind::Bracket(*ctx.s.pick(FMTS)),
    };
    ctx.class(match kind {
        OutKind::Negra => "NEGRA writer",
        OutKind::Bracket(_) => "bracket writer",
        OutKind::Conllx => "CoNLL-X writer",
    });
    let mut trees = vec![];
    for _ in 0..ctx.s.range(1, 3) {
        let cfg = match &kind {
            OutKind::Negra => negra_cfg(),
            OutKind::Bracket(f) => bracket_cfg(*f, true, 1),
            OutKind::Conllx => ANY,
        };
        let spec = gen_tree(&mut ctx.s, &cfg);
        match build(ctx, &spec) {
            Some((t, _)) => trees.push(t),
            None => return ctx.discard(),
        }
    }
    // what an undisturbed writer does, tree by tree
    let shared = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    struct To(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
    impl Write for To {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.borrow_mut().extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut ends = vec![];
    write_all(&kind, To(shared.clone()), &trees, |ok| {
        ends.push((ok, shared.borrow().len()));
        true
    });
    let full = shared.borrow().clone();
    let mut at = 0;
    for (ok, end) in &ends {
        check!(*ok || *end == at, "a refused tree left {:?} in the output", String::from_utf8_lossy(&full[at..*end]));
        check!(!ok || *end > at, "an accepted tree left nothing in the output");
        at = *end;
    }
    let szs = sizes(&mut ctx.s);
    ctx.log(|| format!("pieces {:?}, full output:\n{}", szs, String::from_utf8_lossy(&full)));
    let mut sink = Sink { got: vec![], sizes: &szs, n: 0, room: usize::MAX / 2 };
    let mut oks = vec![];
    write_all(&kind, &mut sink, &trees, |ok| {
        oks.push(ok);
        true
    });
    check!(oks == ends.iter().map(|e| e.0).collect::<Vec<_>>(), "taken in pieces: results {:?}", oks);
    check!(sink.got == full, "taken in pieces {:?}: {:?} instead of {:?}", szs, String::from_utf8_lossy(&sink.got), String::from_utf8_lossy(&full));
    if full.is_empty() {
        return Ok(());
    }
    // a device with less room than needed; the first tree that does not fit is an error
    let room = ctx.s.below(full.len());
    let mut sink = Sink { got: vec![], sizes: &szs, n: 0, room };
    let mut oks = vec![];
    write_all(&kind, &mut sink, &trees, |ok| {
        oks.push(ok);
        oks.len() == ends.len() || ok == ends[oks.len() - 1].0
    });
    for (i, (ok, end)) in ends.iter().enumerate() {
        let fits = *end <= room;
        check!(i < oks.len(), "writing stopped early");
        if *ok && !fits {
            check!(!oks[i], "tree {} needs {} bytes, the device takes {}, and no error was reported", i, end, room);
            break;
        }
        check!(oks[i] == *ok, "tree {} fits into the device ({} of {} bytes) and was {}", i, end, room, if oks[i] { "accepted" } else { "refused" });
    }
    check!(full.starts_with(&sink.got), "the device received {:?}, which is no prefix of {:?}", String::from_utf8_lossy(&sink.got), String::from_utf8_lossy(&full));
    ctx.class("write failure");
    ctx.class_if(ends[0].0 && ends[0].1 <= room, "write failure after some trees");
    ctx.nontrivial = trees.len() > 1 || full.len() > 20;
    Ok(())
}

pub fn c29(ctx: &mut Ctx) -> Res {
    if ctx.s.chance(1, 400) {
        return cli::faulty(ctx);
    }
    if ctx.s.chance(1, 2) {
        c29_read(ctx)
    } else {
        c29_write(ctx)
    }
}

// ---- C30 ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Go,
    Stop,
    Remove,
    RemoveStop,
    Mark,
    Raise,
    Hoist,
}

pub fn c30(ctx: &mut Ctx) -> Res {
    let (mut tree, m) = match edited_tree(ctx, &Cfg { unary: 4, sec: 1, ..ANY }) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    // what to do at (word, ancestor): decided by a table indexed with the ids
    let menu: Vec<Act> = match ctx.s.below(4) {
        0 => vec![Act::Go, Act::Go, Act::Go, Act::Stop],
        1 => vec![Act::Go, Act::Remove, Act::Go, Act::Mark],
        2 => vec![Act::Go, Act::Remove, Act::RemoveStop, Act::Stop, Act::Mark],
        _ => vec![Act::Go, Act::Remove, Act::Stop, Act::Mark, Act::Raise, Act::Hoist],
    };
    let n = m.nodes.keys().max().unwrap() + 1;
    let by_word = ctx.s.chance(1, 2);
    let table: Vec<Act> = (0..if by_word { (n * n).min(400) } else { n }).map(|_| *ctx.s.pick(&menu)).collect();
    let act = |w: usize, a: usize| table[if by_word { (w * n + a) % table.len() } else { a }];
    ctx.log(|| format!("per word: {}, table {:?}", by_word, table));
    let mut model = m.clone();
    let mut order: Vec<usize> = vec![];
    let mut expect: Vec<usize> = vec![];
    let mut stopped = true;
    let mut err: Option<String> = None;
    let mut edits = 0;
    let r = no_panic(|| {
        tree.map_climber_path(|tree, a, w| {
            if err.is_some() {
                return true;
            }
            let (a, w) = (a.index(), w.index());
            if order.last() != Some(&w) {
                if !stopped && !expect.is_empty() {
                    err = Some(format!("climbing from word {} ends before {:?}", order.last().unwrap(), expect));
                    return true;
                }
                if order.contains(&w) || !m.nodes.get(&w).map(|x| x.is_t()).unwrap_or(false) {
                    err = Some(format!("climbing from {} again or from no word", w));
                    return true;
                }
                order.push(w);
                expect = model.ancestors(w);
                stopped = false;
            } else if stopped {
                err = Some(format!("climbing from word {} goes on to {} after it was stopped", w, a));
                return true;
            }
            if expect.first() != Some(&a) {
                err = Some(format!("climbing from word {} reaches {} instead of {:?}", w, a, expect.first()));
                return true;
            }
            expect.remove(0);
            let todo = act(w, a);
            let mut stop = todo == Act::Stop || todo == Act::RemoveStop;
            match todo {
                Act::Remove | Act::RemoveStop if a != model.root => {
                    let want = model.nodes[&a].label.clone();
                    match tree.remove_node(ni(a)) {
                        Ok(x) if x.label() == want => model.remove_nt(a),
                        r => {
                            err = Some(format!("removing {} while climbing: {:?}", a, r.map(|x| x.label().to_string()).map_err(|e| e.to_string())));
                            return true;
                        }
                    }
                    edits += 1;
                }
                Act::Mark => {
                    tree[ni(w)].features_mut().insert("seen", Some(a.to_string()));
                    model.nodes.get_mut(&w).unwrap().feats.insert("seen".into(), Some(a.to_string()));
                }
                Act::Raise if model.ancestors(a).len() >= 2 && model.children(model.parent(a).unwrap()).len() > 1 => {
                    // the node just visited moves to its grandparent
                    let g = model.ancestors(a)[1];
                    let e = edge_of(tree, a);
                    if let Err(e) = tree.reattach_node(ni(g), e) {
                        err = Some(format!("reattaching {} to {} while climbing: {}", a, g, e));
                        return true;
                    }
                    model.attach(a, g);
                    model.set_edge(a, None);
                    edits += 1;
                }
                Act::Hoist if model.children(model.parent(w).unwrap()).len() > 1 && model.parent(w) != Some(model.root) => {
                    // the word itself moves to the root
                    let root = model.root;
                    let e = edge_of(tree, w);
                    if let Err(e) = tree.reattach_node(ni(root), e) {
                        err = Some(format!("reattaching {} to the root while climbing: {}", w, e));
                        return true;
                    }
                    model.attach(w, root);
                    model.set_edge(w, None);
                    edits += 1;
                    stop = true;
                }
                _ => (),
            }
            if stop {
                stopped = true;
            }
            stop
        })
    });
    r.map_err(|e| format!("map_climber_path: {}", e))?;
    if let Some(e) = err {
        return Err(e);
    }
    check!(stopped || expect.is_empty(), "climbing from the last word ends before {:?}", expect);
    let words = if m.is_t(m.root) { vec![] } else { m.words() };
    let mut visited = order.clone();
    visited.sort();
    let mut w2 = words.clone();
    w2.sort();
    check!(visited == w2, "climbed from {:?}, the words are {:?}", visited, w2);
    // edge labels of nodes that moved up are not prescribed here
    let free: BTreeSet<usize> = model.nodes.iter().filter(|(i, x)| x.parent != m.nodes[i].parent).map(|(i, _)| *i).collect();
    model.diff(&snapshot(&tree)?, &free).map_err(|e| format!("after climbing with edits: {}", e))?;
    ctx.class_if(edits > 0, "edited while climbing");
    ctx.class_if(edits > 2, "three or more edits while climbing");
    ctx.nontrivial = words.len() > 1 && m.nodes.len() > 3;
    Ok(())
}

// ---- C31 ----

fn opt(s: &mut Src) -> Option<String> {
    if s.chance(1, 3) {
        None
    } else {
        Some(token(s, ""))
    }
}

fn displayed(tree: &Tree, m: &MTree) -> Res {
    for (i, n) in &m.nodes {
        let x = &tree[ni(*i)];
        check!(x.is_terminal() == n.is_t() && x.terminal().is_some() == n.is_t() && x.nonterminal().is_some() != n.is_t(), "node {} answers both as word and nonterminal", i);
        let want = match &n.term {
            Some(t) => format!("{} {}", n.label, t.form),
            None => n.label.clone(),
        };
        check!(x.to_string() == want, "node {} is displayed as {:?} instead of {:?}", i, x.to_string(), want);
        check!(x.label() == n.label, "node {} has the label {:?} instead of {:?}", i, x.label(), n.label);
        check!(tree.graph()[ni(*i)] == *x, "the graph shows another node {}", i);
        let f = x.features().map(|f| f.inner().clone()).unwrap_or_default();
        match &n.term {
            Some(w) => {
                let t = x.terminal().unwrap();
                check!(t.to_string() == want && t.label() == n.label && t.form() == w.form && t.lemma() == w.lemma.as_deref() && t.idx() == w.pos, "word {} shows {:?}", i, t);
                check!(t.span().start == w.pos && t.span().end == w.pos + 1 && x.span() == t.span(), "word {} has the span {:?}", i, t.span());
                check!(t.features().map(|f| f.inner().clone()).unwrap_or_default() == f, "word {} has two sets of features", i);
            }
            None => {
                let t = x.nonterminal().unwrap();
                check!(t.to_string() == want && t.label() == n.label && t.span() == x.span() && t.continuity() == x.continuity(), "nonterminal {} shows {:?}", i, t);
                check!(t.features().map(|f| f.inner().clone()).unwrap_or_default() == f, "nonterminal {} has two sets of features", i);
            }
        }
        if n.parent.is_some() {
            let e = &tree[edge_of(tree, *i)];
            check!(e.is_primary() && e.label() == n.edge.as_deref(), "the edge of {} is {:?} instead of {:?}", i, e, n.edge);
            check!(e.to_string() == n.edge.clone().unwrap_or_else(|| "--".into()), "the edge of {} is displayed as {:?}", i, e.to_string());
        }
    }
    Ok(())
}

pub fn c31(ctx: &mut Ctx) -> Res {
    let (mut tree, mut m) = match edited_tree(ctx, &Cfg { sec: 2, lemma: Some(plain_form), ..ANY }) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let k = ctx.s.count(1, 8, 60);
    let none = BTreeSet::new();
    for _ in 0..k {
        let copy = tree.clone();
        let was = m.clone();
        let i = pick_node(&mut ctx.s, &m);
        let term = m.is_t(i);
        let direct = ctx.s.chance(1, 2);
        match ctx.s.below(8) {
            0 | 1 => {
                let l = token(&mut ctx.s, "");
                ctx.log(|| format!("label of {} := {:?}", i, l));
                let n = &mut tree[ni(i)];
                let old = match (direct, term) {
                    (false, _) => n.set_label(l.clone()),
                    (true, true) => n.terminal_mut().ok_or("no terminal")?.set_label(l.clone()),
                    (true, false) => n.nonterminal_mut().ok_or("no nonterminal")?.set_label(l.clone()),
                };
                let x = m.nodes.get_mut(&i).unwrap();
                check!(old == x.label, "set_label returns {:?} instead of {:?}", old, x.label);
                x.label = l;
            }
            2 if term => {
                let f = token(&mut ctx.s, "");
                ctx.log(|| format!("form of {} := {:?}", i, f));
                let old = tree[ni(i)].terminal_mut().ok_or("no terminal")?.set_form(f.clone());
                let x = m.nodes.get_mut(&i).unwrap().term.as_mut().unwrap();
                check!(old == x.form, "set_form returns {:?} instead of {:?}", old, x.form);
                x.form = f;
            }
            3 if term => {
                let l = opt(&mut ctx.s);
                ctx.log(|| format!("lemma of {} := {:?}", i, l));
                let old = tree[ni(i)].terminal_mut().ok_or("no terminal")?.set_lemma(l.clone());
                let x = m.nodes.get_mut(&i).unwrap().term.as_mut().unwrap();
                check!(old == x.lemma, "set_lemma returns {:?} instead of {:?}", old, x.lemma);
                x.lemma = l;
            }
            2 | 3 => {
                check!(tree[ni(i)].terminal_mut().is_none() && tree[ni(i)].terminal().is_none(), "nonterminal {} is a terminal", i);
                let _ = tree[ni(i)].nonterminal_mut().ok_or("no nonterminal")?;
                for w in m.words() {
                    check!(tree[ni(w)].nonterminal_mut().is_none() && tree[ni(w)].nonterminal().is_none(), "terminal {} is a nonterminal", w);
                }
            }
            4 => {
                let (key, v) = (plain_label(&mut ctx.s), opt(&mut ctx.s));
                ctx.log(|| format!("feature {:?} of {} := {:?}", key, i, v));
                let n = &mut tree[ni(i)];
                let f = match (direct, term) {
                    (false, _) => n.features_mut(),
                    (true, true) => n.terminal_mut().ok_or("no terminal")?.features_mut(),
                    (true, false) => n.nonterminal_mut().ok_or("no nonterminal")?.features_mut(),
                };
                f.insert(key.clone(), v.clone());
                m.nodes.get_mut(&i).unwrap().feats.insert(key, v);
            }
            5 => {
                let new: Option<Feats> = if ctx.s.chance(1, 3) { None } else { Some(plain_feats(&mut ctx.s)) };
                ctx.log(|| format!("features of {} := {:?}", i, new));
                let f = new.clone().map(|f| f.into_iter().collect::<Features>());
                let n = &mut tree[ni(i)];
                let old = match (direct, term) {
                    (false, _) => n.set_features(f),
                    (true, true) => n.terminal_mut().ok_or("no terminal")?.set_features(f),
                    (true, false) => n.nonterminal_mut().ok_or("no nonterminal")?.set_features(f),
                };
                let x = m.nodes.get_mut(&i).unwrap();
                let old = old.map(|f| f.inner().clone()).unwrap_or_default();
                check!(old == x.feats, "set_features returns {:?} instead of {:?}", old, x.feats);
                check!(tree[ni(i)].features().is_some() == new.is_some(), "features present: {}", tree[ni(i)].features().is_some());
                x.feats = new.unwrap_or_default();
            }
            6 if i != m.root => {
                let l = opt(&mut ctx.s);
                ctx.log(|| format!("edge label of {} := {:?}", i, l));
                let e = edge_of(&tree, i);
                let x = m.nodes.get_mut(&i).unwrap();
                if direct {
                    tree[e] = Edge::new_primary(l.clone());
                } else {
                    let old = tree[e].set_label(l.clone());
                    check!(old == x.edge, "set_label of the edge returns {:?} instead of {:?}", old, x.edge);
                }
                x.edge = l;
            }
            _ if !m.sec.is_empty() => {
                let k = ctx.s.below(m.sec.len());
                let (p, c, _) = m.sec[k].clone();
                let l = opt(&mut ctx.s);
                let found: Vec<_> = tree.secondary_children(ni(p)).filter(|x| x.0 == ni(c)).collect();
                check!(!found.is_empty(), "secondary edge {} -> {} not found", p, c);
                let e = found[0].1;
                let old = tree[e].label().map(|l| l.to_string());
                ctx.log(|| format!("label of the secondary edge {} -> {} := {:?}", p, c, l));
                let at = match m.sec.iter().position(|x| *x == (p, c, old.clone())) {
                    Some(x) => x,
                    None => return Err(format!("secondary edge {} -> {} has the unknown label {:?}", p, c, old)),
                };
                if direct {
                    tree[e] = Edge::new_secondary(l.clone());
                } else {
                    let r = tree[e].set_label(l.clone());
                    check!(r == old, "set_label of the edge returns {:?} instead of {:?}", r, old);
                }
                check!(!tree[e].is_primary() && tree[e].label() == l.as_deref(), "the secondary edge is {:?}", tree[e]);
                m.sec[at].2 = l;
                m.sec.sort();
                ctx.class("secondary edge label");
            }
            _ => (),
        }
        m.diff(&snapshot(&tree)?, &none).map_err(|e| format!("after setting one field: {}", e))?;
        was.diff(&snapshot(&copy)?, &none).map_err(|e| format!("a copy changed with the original: {}", e))?;
        displayed(&tree, &m)?;
    }
    // values built outside of trees
    let (f, p, i) = (token(&mut ctx.s, ""), token(&mut ctx.s, ""), ctx.s.below(300));
    let t = Terminal::new(f.clone(), p.clone(), i);
    check!(t.form() == f && t.label() == p && t.idx() == i && t.lemma().is_none() && t.features().map(|f| f.inner().is_empty()).unwrap_or(true), "Terminal::new({:?}, {:?}, {}) is {:?}", f, p, i, t);
    let one = Tree::new(f.clone(), p.clone());
    let want = MTree { nodes: vec![(one.root().index(), MNode::t(&f, &p, 0))].into_iter().collect(), root: one.root().index(), sec: vec![] };
    want.diff(&snapshot(&one)?, &none).map_err(|e| format!("Tree::new: {}", e))?;
    for l in &[None, Some(f)] {
        let (a, b) = (Edge::new_primary(l.clone()), Edge::new_secondary(l.clone()));
        check!(a.is_primary() && !b.is_primary() && a != b && a.label() == l.as_deref() && b.label() == l.as_deref(), "new edges are {:?} and {:?}", a, b);
    }
    ctx.nontrivial = m.nodes.len() > 2;
    Ok(())
}

// ---- C32 ----

/// Nodes in a sequence determined by the content of the tree alone.
fn sequence(m: &MTree) -> Vec<usize> {
    let kids = m.child_map();
    let ys = m.yields();
    let mut o = vec![];
    let mut stack = vec![m.root];
    while let Some(n) = stack.pop() {
        o.push(n);
        let mut k = kids[&n].clone();
        k.sort_by_key(|k| ys[k].first().cloned().unwrap_or(usize::MAX));
        k.reverse();
        stack.extend(k);
    }
    o
}

/// Content with nodes numbered by `sequence`.
fn numbered(m: &MTree) -> MTree {
    let at: BTreeMap<usize, usize> = sequence(m).into_iter().enumerate().map(|(i, n)| (n, i)).collect();
    let nodes = m
        .nodes
        .iter()
        .map(|(i, n)| {
            let mut n = n.clone();
            n.parent = n.parent.map(|p| at[&p]);
            (at[i], n)
        })
        .collect();
    let mut sec: Vec<_> = m.sec.iter().map(|(p, c, l)| (at[p], at[c], l.clone())).collect();
    sec.sort();
    MTree { nodes, root: at[&m.root], sec }
}

fn everything(t: &Tree) -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = super::meta::outputs(t).into_iter().map(|(k, v)| (k.to_string(), format!("{:?}", v))).collect();
    let neg = super::meta::negra(t).filter(|_| content(t).map(|m| !super::meta::unsayable(&m)).unwrap_or(false)).map(|x| parse_negra(&x).map(|ms| ms.iter().map(|m| numbered(m).render_ids()).collect::<Vec<_>>()));
    o.push(("NEGRA".into(), format!("{:?}", neg)));
    o.push(("NEGRA text".into(), format!("{:?}", super::meta::negra(t))));
    o
}

pub fn c32(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { disc: *ctx.s.pick(&[1u8, 2]), sec: 1, unary: 3, ..ANY };
    let spec = gen_tree(&mut ctx.s, &cfg);
    let routes = [Route::Api, Route::Negra, Route::Bracket, Route::Api];
    let (ra, rb) = (*ctx.s.pick(&routes), *ctx.s.pick(&routes));
    let a = build_route(&mut ctx.s, &spec, ra).or_else(|| build_route(&mut ctx.s, &spec, Route::Api));
    let b = build_route(&mut ctx.s, &spec, rb).or_else(|| build_route(&mut ctx.s, &spec, Route::Api));
    let ((mut a, mut ma), (mut b, mut mb)) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return ctx.discard(),
    };
    shape_classes(ctx, &ma);
    ctx.log(|| format!("tree: {}\n  ids: {}\n  ids: {}", spec.render(), ma.render_ids(), mb.render_ids()));
    if numbered(&ma) != numbered(&mb) || a != b {
        return ctx.discard();
    }
    ctx.class_if(ma != mb, "different node ids");
    let n = ctx.s.count(1, 8, 40);
    let mut done = 0;
    for _ in 0..n {
        if ma.nodes.len() > 400 {
            break;
        }
        let (sa, sb) = (sequence(&ma), sequence(&mb));
        let pick = |s: &mut Src| s.below(sa.len());
        let (x, y) = (pick(&mut ctx.s), pick(&mut ctx.s));
        let nts: Vec<usize> = (0..sa.len()).filter(|i| !ma.is_t(sa[*i])).collect();
        let words: Vec<usize> = (0..sa.len()).filter(|i| ma.is_t(sa[*i])).collect();
        let w = *ctx.s.pick(&words);
        let nt = if nts.is_empty() { None } else { Some(*ctx.s.pick(&nts)) };
        let at = ctx.s.below(words.len() + 1);
        let (form, tag, label) = (plain_form(&mut ctx.s), plain_tag(&mut ctx.s), plain_label(&mut ctx.s));
        let op = ctx.s.weighted(&[1, 2, 2, 2, 2, 2, 2, 4, 1, 2, 2, 2, 3, 1, 1, 3, 1, 1, 1, 1]);
        if op == 15 {
            // the order in which discontinuous nodes are treated may depend on the construction
            match reference_results(&ma, if ma.n_words() > 12 { 25 } else { 200 }) {
                Some(r) if r.len() == 1 => ctx.class("projectivized"),
                _ => continue,
            }
        }
        let run = |t: &mut Tree, seq: &[usize]| -> Result<String, String> {
            let id = |i: usize| ni(seq[i]);
            no_panic(|| -> String {
                let e2s = |e: failure::Error| -> String {
                    let _ = e;
                    "error".into()
                };
                let r: Result<String, String> = match op {
                    0 => t.push_terminal(form.clone(), tag.clone()).map(|_| "".into()).map_err(e2s),
                    1 => match nt {
                        Some(p) => {
                            t.insert_terminal(id(p), Terminal::new(form.clone(), tag.clone(), at));
                            Ok("".into())
                        }
                        None => Ok("".into()),
                    },
                    2 => {
                        t.move_terminal(id(w), at.min(words.len() - 1));
                        Ok("".into())
                    }
                    3 => t.remove_node(id(w)).map(|n| format!("{}", n)).map_err(e2s),
                    4 => {
                        t.insert_unary_above(id(x), label.clone());
                        Ok("".into())
                    }
                    5 => t.insert_unary_below(id(x), label.clone()).map(|_| "".into()).map_err(e2s),
                    6 => match nt {
                        Some(p) => t.remove_node(id(p)).map(|n| format!("{}", n)).map_err(e2s),
                        None => Ok("".into()),
                    },
                    7 if x != 0 => {
                        let e = edge_of(t, seq[x]);
                        t.reattach_node(id(y), e).map(|(_, e)| format!("{:?}", e)).map_err(e2s)
                    }
                    8 if x != y => {
                        t.add_secondary_edge(id(x), id(y), Some(label.clone()));
                        Ok("".into())
                    }
                    9 => t.filter_nonterminals(|t, n| t[n].label() != label).map(|_| "".into()).map_err(e2s),
                    10 => match nt {
                        Some(p) => {
                            t.reattach_terminals(id(p), |t, n| t[n].label() == tag);
                            Ok("".into())
                        }
                        None => Ok("".into()),
                    },
                    11 => t.insert_intermediate(|t, n| if t[n].label() == label { None } else { Some("UNK".into()) }).map(|_| "".into()).map_err(e2s),
                    12 => t.collapse_unary_chains("_").map(|_| "".into()).map_err(e2s),
                    13 => t.restore_unary_chains("_").map(|_| "".into()).map_err(e2s),
                    14 => t.annotate_parent_tag("par").map(|_| "".into()).map_err(e2s),
                    15 => {
                        let r = t.projectivize().map(|r| {
                            let mut v: Vec<(Option<usize>, Option<String>, Option<usize>)> = r.into_iter().map(|(p, e, c)| (seq.iter().position(|i| *i == p.index()), e.label().map(|l| l.to_string()), seq.iter().position(|i| *i == c.index()))).collect();
                            v.sort();
                            v
                        });
                        Ok(format!("{:?}", r))
                    }
                    16 => t.annotate_pos((0..words.len()).map(|i| format!("P{}", i % 3))).map(|_| "".into()).map_err(e2s),
                    17 => {
                        t.project_tag_set("tag", |t, n| t[n].label() == label);
                        Ok("".into())
                    }
                    18 => {
                        let v: Vec<Option<usize>> = t.project_nt_indices(|t, n| t[n].label() == label).into_iter().map(|n| seq.iter().position(|i| *i == n.index())).collect();
                        Ok(format!("{:?}", v))
                    }
                    _ => t.annotate_absolute().map(|_| "".into()).map_err(e2s),
                };
                format!("{:?}", r)
            })
        };
        const NAMES: [&str; 20] = [
            "push_terminal", "insert_terminal", "move_terminal", "remove_node (word)", "insert_unary_above", "insert_unary_below", "remove_node (nonterminal)", "reattach_node", "add_secondary_edge", "filter_nonterminals",
            "reattach_terminals", "insert_intermediate", "collapse_unary_chains", "restore_unary_chains", "annotate_parent_tag", "projectivize", "annotate_pos", "project_tag_set", "project_nt_indices", "annotate_absolute",
        ];
        ctx.log(|| format!("{} with nodes {} {} word {} nonterminal {:?} position {} {}/{} label {}", NAMES[op], x, y, w, nt, at, form, tag, label));
        let (r1, r2) = (run(&mut a, &sa), run(&mut b, &sb));
        let what = NAMES[op];
        match (&r1, &r2) {
            (Ok(x), Ok(y)) => check!(x == y, "{} on equal trees answers {} and {}", what, x, y),
            // what panics is the business of other properties
            (Err(_), Err(_)) => return ctx.discard(),
            _ => return Err(format!("{} on equal trees: {:?} and {:?}", what, r1, r2)),
        }
        done += 1;
        let (ca, cb) = match (content(&a), content(&b)) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(_), Err(_)) => return ctx.discard(),
            (x, y) => return Err(format!("{} on equal trees: {:?} and {:?}", what, x.map(|m| m.render()), y.map(|m| m.render()))),
        };
        let (na, nb) = (numbered(&ca), numbered(&cb));
        check!(na == nb, "{} makes equal trees different:\n  {}\n  {}", what, na.render(), nb.render());
        check!(a == b && b == a, "{} makes equal trees unequal: {}", what, na.render());
        ma = ca;
        mb = cb;
    }
    check!(a.is_projective() == b.is_projective(), "equal trees differ in projectivity");
    for ((k, x), (_, y)) in everything(&a).iter().zip(&everything(&b)) {
        check!(x == y, "{} of equal trees:\n{}\n{}", k, x, y);
    }
    let (x, y) = (format!("{}", a.to_conllx()), format!("{}", b.to_conllx()));
    check!(x == y, "CoNLL-X of equal trees:\n{}\n{}", x, y);
    check!(format!("{:?}", a.encode_absolute().ok()) == format!("{:?}", b.encode_absolute().ok()), "labels of equal trees differ");
    ctx.nontrivial = done > 0 && ma.nodes.len() > 3;
    Ok(())
}
