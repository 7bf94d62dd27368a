//! C01, C02, C03: histories of editing calls against the reference model.
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use lumberjack::io::{Decode, Encode};
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Push,
    InsertWord,
    MoveWord,
    RemoveWord,
    Above,
    Below,
    RemoveNt,
    Reattach,
    AddSec,
    RemoveSec,
    ReattachSec,
    Projectivize,
    Filter,
    ReattachWords,
    Intermediate,
    Collapse,
    Restore,
    RemoveDummies,
    Annotate,
}
use Op::*;

pub struct Step {
    /// Predicted tree; None when the call is not predicted here.
    pub want: Option<MTree>,
    /// Edges whose label is not predicted.
    pub free: BTreeSet<usize>,
    pub failed: bool,
    pub must_fail: Option<bool>,
    pub done: bool,
    pub extra: Res,
}

fn skip() -> Step {
    Step { want: None, free: BTreeSet::new(), failed: false, must_fail: None, done: false, extra: Ok(()) }
}
fn stepped(want: Option<MTree>, failed: bool, must_fail: Option<bool>) -> Step {
    Step { want, free: BTreeSet::new(), failed, must_fail, done: true, extra: Ok(()) }
}

pub fn new_label(s: &mut Src) -> String {
    s.pick(&["S", "NP", "DUMMY", "X", "VP"]).to_string()
}

/// Applies one call to the tree; `m` is the model of the tree before the call.
pub fn apply(ctx: &mut Ctx, op: Op, tree: &mut Tree, m: &MTree) -> Step {
    let s = &mut ctx.s;
    match op {
        Push => {
            let (f, t) = (plain_form(s), plain_tag(s));
            ctx.log(|| format!("push_terminal({:?}, {:?})", f, t));
            let r = tree.push_terminal(f.clone(), t.clone());
            let must_fail = m.is_t(m.root);
            let mut w = m.clone();
            if let Ok(id) = &r {
                if !must_fail {
                    let n = m.n_words();
                    w.insert_word(id.index(), m.root, &f, &t, n);
                }
            }
            stepped(Some(w), r.is_err(), Some(must_fail))
        }
        InsertWord => {
            let p = match pick_nt(s, m) {
                Some(p) => p,
                None => return skip(),
            };
            let at = s.range(0, m.n_words());
            let (f, t) = (plain_form(s), plain_tag(s));
            ctx.log(|| format!("insert_terminal(parent {}, {:?}/{:?} at {})", p, f, t, at));
            let mut term = Terminal::new(f.clone(), t.clone(), at);
            let lemma = if ctx.s.chance(1, 4) { Some("lem".to_string()) } else { None };
            term.set_lemma(lemma.clone());
            let feats = if ctx.s.chance(1, 4) { plain_feats(&mut ctx.s) } else { Feats::new() };
            for (k, v) in &feats {
                term.features_mut().insert(k.clone(), v.clone());
            }
            let id = tree.insert_terminal(ni(p), term);
            let mut w = m.clone();
            w.insert_word(id.index(), p, &f, &t, at);
            let x = w.nodes.get_mut(&id.index()).unwrap();
            x.term.as_mut().unwrap().lemma = lemma;
            x.feats = feats;
            stepped(Some(w), false, Some(false))
        }
        MoveWord => {
            let t = pick_word(s, m);
            let at = s.below(m.n_words());
            ctx.log(|| format!("move_terminal({}, {})", t, at));
            tree.move_terminal(ni(t), at);
            let mut w = m.clone();
            w.move_word(t, at);
            stepped(Some(w), false, Some(false))
        }
        RemoveWord => {
            let t = pick_word(s, m);
            ctx.log(|| format!("remove_node(terminal {})", t));
            let node = tree[ni(t)].clone();
            let r = tree.remove_node(ni(t));
            let must_fail = match m.parent(t) {
                None => true,
                Some(p) => m.children(p).len() == 1,
            };
            let mut w = m.clone();
            if !must_fail {
                w.remove_word(t);
            }
            let mut st = stepped(Some(w), r.is_err(), Some(must_fail));
            if let Ok(n) = r {
                let ok = n.is_terminal() && n.label() == node.label() && n.terminal().map(|t| (t.form().to_string(), t.lemma().map(|l| l.to_string()))) == node.terminal().map(|t| (t.form().to_string(), t.lemma().map(|l| l.to_string())));
                if !ok {
                    st.extra = Err(format!("remove_node returned {:?} for {:?}", n, node));
                }
            }
            st
        }
        Above => {
            let c = pick_node(s, m);
            let l = new_label(s);
            ctx.log(|| format!("insert_unary_above({}, {:?})", c, l));
            let id = tree.insert_unary_above(ni(c), l.clone()).index();
            let mut w = m.clone();
            w.insert_above(id, c, &l);
            stepped(Some(w), false, Some(false))
        }
        Below => {
            let c = pick_node(s, m);
            let l = new_label(s);
            ctx.log(|| format!("insert_unary_below({}, {:?})", c, l));
            let r = tree.insert_unary_below(ni(c), l.clone());
            let must_fail = m.is_t(c);
            let mut w = m.clone();
            let mut free = BTreeSet::new();
            if let Ok(id) = &r {
                if !must_fail {
                    free = m.children(c).into_iter().collect();
                    w.insert_below(id.index(), c, &l);
                }
            }
            Step { free, ..stepped(Some(w), r.is_err(), Some(must_fail)) }
        }
        RemoveNt => {
            let n = match pick_nt(s, m) {
                Some(n) => n,
                None => return skip(),
            };
            ctx.log(|| format!("remove_node(nonterminal {})", n));
            let r = tree.remove_node(ni(n));
            let kids = m.children(n);
            let must_fail = n == m.root && kids.len() != 1;
            let mut w = m.clone();
            let mut free = BTreeSet::new();
            if !must_fail {
                w.remove_nt(n);
                free = kids.into_iter().filter(|k| *k != w.root).collect();
            }
            let mut st = Step { free, ..stepped(Some(w), r.is_err(), Some(must_fail)) };
            if let Ok(x) = r {
                if x.is_terminal() || x.label() != m.nodes[&n].label {
                    st.extra = Err(format!("remove_node returned {:?} for node {}", x, n));
                }
            }
            st
        }
        Reattach => {
            if m.nodes.len() < 2 {
                return skip();
            }
            let mut c = pick_node(s, m);
            if c == m.root {
                c = *m.nodes.keys().find(|k| **k != m.root).unwrap();
            }
            let p = if s.chance(1, 8) { pick_node(s, m) } else { pick_nt(s, m).unwrap() };
            ctx.log(|| format!("reattach_node({}, edge of {})", p, c));
            let e = edge_of(tree, c);
            let old = m.nodes[&c].clone();
            let r = tree.reattach_node(ni(p), e);
            let must_fail = m.is_t(p) || p == c || m.ancestors(p).contains(&c) || (m.children(old.parent.unwrap()).len() == 1 && old.parent != Some(p));
            let mut w = m.clone();
            if !must_fail {
                w.attach(c, p);
                w.set_edge(c, None);
            }
            let mut st = stepped(Some(w), r.is_err(), Some(must_fail));
            if let (Ok((idx, edge)), false) = (r, must_fail) {
                if !edge.is_primary() || edge.label().map(|l| l.to_string()) != old.edge {
                    st.extra = Err(format!("reattach_node returned the old edge {:?} instead of {:?}", edge, old.edge));
                } else if tree.graph().edge_endpoints(idx) != Some((ni(p), ni(c))) || !tree[idx].is_primary() {
                    st.extra = Err(format!("reattach_node returned edge index {:?}, which does not attach {} to {}", idx, c, p));
                }
            }
            st
        }
        AddSec => {
            let (p, c) = (pick_node(s, m), pick_node(s, m));
            if p == c {
                return skip();
            }
            let l = if s.chance(1, 3) { None } else { Some(odd_edge(s)) };
            ctx.log(|| format!("add_secondary_edge({}, {}, {:?})", p, c, l));
            tree.add_secondary_edge(ni(p), ni(c), l.clone());
            let mut w = m.clone();
            w.add_sec(p, c, l.as_deref());
            stepped(Some(w), false, Some(false))
        }
        RemoveSec => {
            if m.sec.is_empty() {
                return skip();
            }
            let (_, c, _) = s.pick(&m.sec).clone();
            let (p, e) = match tree.secondary_parent(ni(c)) {
                Some(x) => x,
                None => return skip(),
            };
            ctx.log(|| format!("remove_secondary_edge({} -> {})", p.index(), c));
            let r = tree.remove_secondary_edge(e);
            let mut w = m.clone();
            if let Some(x) = &r {
                let l = x.label().map(|l| l.to_string());
                if let Some(i) = w.sec.iter().position(|q| *q == (p.index(), c, l.clone())) {
                    w.sec.remove(i);
                }
            }
            stepped(Some(w), r.is_none(), Some(false))
        }
        ReattachSec => {
            if m.sec.is_empty() {
                return skip();
            }
            let (_, c, _) = s.pick(&m.sec).clone();
            let np = pick_node(s, m);
            let (p, e) = match tree.secondary_parent(ni(c)) {
                Some(x) => x,
                None => return skip(),
            };
            ctx.log(|| format!("reattach_node({}, secondary edge {} -> {})", np, p.index(), c));
            let old = tree[e].label().map(|l| l.to_string());
            let r = tree.reattach_node(ni(np), e);
            let mut w = m.clone();
            if np != c {
                let i = w.sec.iter().position(|q| *q == (p.index(), c, old.clone())).unwrap();
                w.sec.remove(i);
                w.add_sec(np, c, None);
            }
            stepped(Some(w), r.is_err(), Some(np == c))
        }
        Op::Projectivize => {
            ctx.log(|| "projectivize()".into());
            tree.projectivize();
            stepped(None, false, None)
        }
        Filter => {
            let bits = s.below(1 << 16);
            ctx.log(|| format!("filter_nonterminals(keep bit id%16 of {:b})", bits));
            let r = tree.filter_nonterminals(|_, n| bits >> (n.index() % 16) & 1 == 1);
            stepped(None, r.is_err(), None)
        }
        ReattachWords => {
            let a = match pick_nt(s, m) {
                Some(a) => a,
                None => return skip(),
            };
            let bits = s.below(1 << 16);
            ctx.log(|| format!("reattach_terminals({}, bit id%16 of {:b})", a, bits));
            tree.reattach_terminals(ni(a), |_, n| bits >> (n.index() % 16) & 1 == 1);
            stepped(None, false, None)
        }
        Intermediate => {
            let l = plain_label(s);
            ctx.log(|| format!("insert_intermediate(below all but {})", l));
            let r = tree.insert_intermediate(|t, n| if t[n].label() == l { None } else { Some("UNK".to_string()) });
            stepped(None, r.is_err(), None)
        }
        Collapse => {
            ctx.log(|| "collapse_unary_chains(_)".into());
            let r = tree.collapse_unary_chains("_");
            stepped(None, r.is_err(), None)
        }
        Restore => {
            ctx.log(|| "restore_unary_chains(_)".into());
            let r = tree.restore_unary_chains("_");
            stepped(None, r.is_err(), None)
        }
        RemoveDummies => {
            ctx.log(|| "remove_dummy_nodes()".into());
            let r = tree.remove_dummy_nodes();
            stepped(None, r.is_err(), None)
        }
        Annotate => {
            let k = s.below(5);
            ctx.log(|| format!("annotation {}", k));
            match k {
                0 => {
                    let _ = tree.annotate_parent_tag("par");
                }
                1 => tree.project_tag_set("tag", |t, n| t[n].label() == "NP"),
                2 => tree.project_ids("id", |t, n| t[n].label() == "S"),
                3 => {
                    let n = m.n_words();
                    let _ = tree.annotate_pos((0..n).map(|i| format!("P{}", i)));
                }
                _ => {
                    let _ = tree.annotate_absolute();
                }
            }
            stepped(None, false, None)
        }
    }
}

const WORD_OPS: [Op; 4] = [Push, InsertWord, MoveWord, RemoveWord];
const NODE_OPS: [Op; 4] = [Above, Below, RemoveNt, Reattach];
const ALL_OPS: [Op; 19] = [
    Push, InsertWord, MoveWord, RemoveWord, Above, Below, RemoveNt, Reattach, AddSec, RemoveSec, ReattachSec, Op::Projectivize, Filter, ReattachWords, Intermediate, Collapse, Restore,
    RemoveDummies, Annotate,
];

fn start(ctx: &mut Ctx) -> Option<(Tree, MTree)> {
    let cfg = Cfg { sec: 2, max_words: 8, ..ANY };
    any_tree(ctx, &cfg)
}

fn op_class(op: Op) -> &'static str {
    match op {
        Push => "push",
        InsertWord => "insert word",
        MoveWord => "move word",
        RemoveWord => "remove word",
        Above => "insert above",
        Below => "insert below",
        RemoveNt => "remove nonterminal",
        Reattach => "reattach",
        AddSec => "add secondary",
        RemoveSec => "remove secondary",
        ReattachSec => "reattach secondary",
        Op::Projectivize => "projectivize",
        Filter => "filter",
        ReattachWords => "reattach words",
        Intermediate => "insert intermediate",
        Collapse => "collapse",
        Restore => "restore",
        RemoveDummies => "remove dummies",
        Annotate => "annotate",
    }
}

/// Large trees get a few calls only.
pub fn big(m: &MTree, calls: &mut usize) -> bool {
    *calls += (m.nodes.len() > 60) as usize;
    *calls > 4
}

pub fn c01(ctx: &mut Ctx) -> Res {
    let (mut tree, mut m) = match start(ctx) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let n = ctx.s.range(1, 14);
    let (mut done, mut large) = (0, 0);
    for i in 0..n {
        let op = ALL_OPS[ctx.s.weighted(&[3, 4, 5, 5, 4, 3, 4, 8, 2, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1])];
        if big(&m, &mut large) {
            break;
        }
        let st = apply(ctx, op, &mut tree, &m);
        if !st.done {
            continue;
        }
        if !st.failed {
            done += 1;
            ctx.class(op_class(op));
        } else {
            ctx.class("refused call");
        }
        m = snapshot(&tree).map_err(|e| format!("after call {} ({:?}, {}): {}", i + 1, op, if st.failed { "refused" } else { "accepted" }, e))?;
        ctx.log(|| format!("  -> {}", m.render()));
    }
    ctx.nontrivial = done >= 2 && m.nodes.len() >= 4;
    Ok(())
}

/// A call outside the documented domain on a copy of the tree: has to panic.
fn misuse(ctx: &mut Ctx, words: bool, tree: &Tree, m: &MTree) -> Res {
    let mut t = tree.clone();
    let n = m.n_words();
    let far = n + ctx.s.below(3);
    let gone = ni(m.nodes.keys().max().unwrap() + 1 + ctx.s.below(3));
    let k = ctx.s.below(if words { 4 } else { 3 });
    let s = &mut ctx.s;
    let (what, r) = match (words, k) {
        (true, 0) => {
            let (w, at) = (pick_word(s, m), far);
            (format!("move_terminal({}, {}) with {} words", w, at, n), no_panic(|| t.move_terminal(ni(w), at)))
        }
        (true, 1) if !m.is_t(m.root) => {
            let (p, at) = (pick_nt(s, m).unwrap(), s.below(n));
            let at = if s.chance(1, 2) { tree[ni(p)].span().start } else { at };
            (format!("move_terminal(nonterminal {}, {})", p, at), no_panic(|| t.move_terminal(ni(p), at)))
        }
        (true, 2) if !m.is_t(m.root) => {
            let (p, at) = (pick_nt(s, m).unwrap(), far + 1);
            (format!("insert_terminal({}, position {}) with {} words", p, at, n), no_panic(|| drop(t.insert_terminal(ni(p), Terminal::new("x", "X", at)))))
        }
        (true, _) => {
            let (p, at) = (pick_word(s, m), s.range(0, n));
            (format!("insert_terminal(word {}, position {})", p, at), no_panic(|| drop(t.insert_terminal(ni(p), Terminal::new("x", "X", at)))))
        }
        (false, 0) if m.nodes.len() > 1 => {
            let c = *m.nodes.keys().find(|k| **k != m.root).unwrap();
            let e = edge_of(tree, c);
            (format!("reattach_node({} not in the tree)", gone.index()), no_panic(|| drop(t.reattach_node(gone, e))))
        }
        (false, 1) => {
            let p = pick_node(s, m);
            let e = lumberjack_edge(tree.graph().edge_indices().map(|e| e.index()).max().unwrap_or(0) + 1);
            (format!("reattach_node({}, edge {:?} not in the tree)", p, e), no_panic(|| drop(t.reattach_node(ni(p), e))))
        }
        _ => (format!("remove_node({} not in the tree)", gone.index()), no_panic(|| drop(t.remove_node(gone)))),
    };
    ctx.log(|| format!("{} on a copy", what));
    ctx.class("call outside the domain");
    check!(r.is_err(), "{} does not panic", what);
    Ok(())
}

fn lumberjack_edge(i: usize) -> petgraph::prelude::EdgeIndex {
    petgraph::prelude::EdgeIndex::new(i)
}

fn history(ctx: &mut Ctx, own: &[Op; 4], weights: &[usize; 4], other: &[Op], what: &str) -> Res {
    let (mut tree, mut m) = match start(ctx) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let n = ctx.s.count(1, 10, 60);
    let (mut done, mut large) = (0, 0);
    for i in 0..n {
        let mine = !ctx.s.chance(1, 6);
        let op = if mine { own[ctx.s.weighted(weights)] } else { *ctx.s.pick(other) };
        if big(&m, &mut large) {
            break;
        }
        let st = if mine {
            apply(ctx, op, &mut tree, &m)
        } else {
            match no_panic(|| apply(ctx, op, &mut tree, &m)) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            }
        };
        if !st.done {
            continue;
        }
        if mine {
            let call = format!("call {} ({:?})", i + 1, op);
            if let Some(f) = st.must_fail {
                check!(f == st.failed, "{}: {} was {} but has to be {}", what, call, if st.failed { "refused" } else { "accepted" }, if f { "refused" } else { "accepted" });
            }
            let real = content(&tree).map_err(|e| format!("after {}: {}", call, e))?;
            if let Some(w) = &st.want {
                w.diff(&real, &st.free).map_err(|e| format!("after {}{}: {}", call, if st.failed { " (refused)" } else { "" }, e))?;
            }
            st.extra.map_err(|e| format!("{}: {}", call, e))?;
            if st.failed {
                ctx.class("refused call");
            } else {
                ctx.class(op_class(op));
                done += 1;
            }
            m = real;
        } else {
            // another property's business; go on from whatever well-formed tree it left
            match snapshot(&tree) {
                Ok(x) => m = x,
                Err(_) => return Ok(()),
            }
        }
        ctx.log(|| format!("  -> {}", m.render()));
    }
    if ctx.s.chance(1, 40) {
        misuse(ctx, own == &WORD_OPS, &tree, &m)?;
    }
    ctx.nontrivial = done >= 1 && m.nodes.len() >= 3;
    Ok(())
}

pub fn c02(ctx: &mut Ctx) -> Res {
    history(ctx, &WORD_OPS, &[2, 4, 5, 5], &[Above, Below, RemoveNt, Reattach, Filter, Collapse, Op::Projectivize], "word edit")
}

pub fn c03(ctx: &mut Ctx) -> Res {
    history(ctx, &NODE_OPS, &[3, 3, 4, 7], &[InsertWord, MoveWord, RemoveWord, AddSec, Filter, Collapse, Op::Projectivize], "node edit")
}
