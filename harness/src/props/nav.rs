//! C04 navigation, C24 spans, C23 features, C22 equality.
use super::edits::{apply, Op};
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use lumberjack::util::{Climber, LabelSet};
use lumberjack::{Features, Span, Tree};
use petgraph::prelude::{EdgeIndex, NodeIndex};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn uniq(it: impl Iterator<Item = NodeIndex>) -> Result<BTreeSet<usize>, String> {
    let v: Vec<usize> = it.map(|n| n.index()).collect();
    let s: BTreeSet<usize> = v.iter().cloned().collect();
    check!(s.len() == v.len(), "listed twice: {:?}", v);
    Ok(s)
}

fn pairs(tree: &Tree, it: impl Iterator<Item = (NodeIndex, EdgeIndex)>, parent_side: bool, at: usize, primary: bool) -> Result<BTreeSet<usize>, String> {
    let mut s = BTreeSet::new();
    for (n, e) in it {
        check!(s.insert(n.index()), "node {} listed twice at {}", n.index(), at);
        let (a, b) = tree.graph().edge_endpoints(e).ok_or_else(|| format!("edge {:?} does not exist", e))?;
        check!(tree[e].is_primary() == primary, "edge {:?} of wrong kind at {}", e, at);
        if parent_side {
            check!((a.index(), b.index()) == (n.index(), at), "edge {:?} given with parent {} of {} links {:?}", e, n.index(), at, (a, b));
        } else {
            check!(b == n, "edge {:?} given with node {} does not attach it ({:?})", e, n.index(), (a, b));
            check!(!primary || Some(a.index()) == tree.parent(n).map(|p| p.0.index()), "edge {:?} of {} starts elsewhere", e, n.index());
        }
    }
    Ok(s)
}

pub fn navigation(tree: &Tree, m: &MTree) -> Res {
    let kids = m.child_map();
    check!(uniq(tree.terminals())? == m.words().into_iter().collect(), "terminals()");
    check!(uniq(tree.nonterminals())? == m.nts().into_iter().collect(), "nonterminals()");
    check!(tree.root().index() == m.root, "root()");
    for (&i, x) in &m.nodes {
        let p = pairs(tree, tree.parent(ni(i)).into_iter(), true, i, true)?;
        check!(p == x.parent.into_iter().collect(), "parent({}) is {:?} instead of {:?}", i, p, x.parent);
        let c = pairs(tree, tree.children(ni(i)), false, i, true)?;
        check!(c == kids[&i].iter().cloned().collect(), "children({}) are {:?} instead of {:?}", i, c, kids[&i]);
        for (k, e) in tree.children(ni(i)) {
            check!(tree.parent(k) == Some((ni(i), e)), "parent({}) does not answer children({})", k.index(), i);
            check!(tree[e].label().map(|l| l.to_string()) == m.nodes[&k.index()].edge, "edge label of {}", k.index());
        }
        let s = pairs(tree, tree.siblings(ni(i)), false, i, true)?;
        let want: BTreeSet<usize> = x.parent.map(|p| kids[&p].iter().cloned().filter(|k| *k != i).collect()).unwrap_or_default();
        check!(s == want, "siblings({}) are {:?} instead of {:?}", i, s, want);
        let d = uniq(tree.descendent_terminals(ni(i)))?;
        let want: BTreeSet<usize> = m.words_below(i);
        check!(d == want, "descendent_terminals({}) are {:?} instead of {:?}", i, d, want);
        let anc = m.ancestors(i);
        let mut c = Climber::new(ni(i), tree);
        let mut got = vec![];
        while let Some(n) = c.next(tree) {
            got.push(n.index());
            check!(got.len() <= m.nodes.len(), "climbing from {} does not end", i);
        }
        check!(c.next(tree).is_none(), "climber restarts");
        check!(got == anc, "climbing from {} gives {:?} instead of {:?}", i, got, anc);
        let mut c = Climber::new(ni(i), tree);
        let mut below = i;
        let mut got = vec![];
        while let Some((n, e)) = c.next_with_edge(tree) {
            check!(tree.graph().edge_endpoints(e) == Some((n, ni(below))) && tree[e].is_primary(), "climbing from {} gives edge {:?} with {}", i, e, n.index());
            below = n.index();
            got.push(below);
            check!(got.len() <= m.nodes.len(), "climbing from {} does not end", i);
        }
        check!(got == anc, "climbing with edges from {} gives {:?} instead of {:?}", i, got, anc);
        let sec = pairs(tree, tree.secondary_parent(ni(i)).into_iter(), true, i, false)?;
        let want: BTreeSet<usize> = m.sec.iter().filter(|q| q.1 == i).map(|q| q.0).collect();
        check!(sec.is_subset(&want) && sec.is_empty() == want.is_empty(), "secondary_parent({}) is {:?}, edges from {:?}", i, sec, want);
        let mut got: Vec<usize> = vec![];
        for (n, e) in tree.secondary_children(ni(i)) {
            check!(!tree[e].is_primary() && tree.graph().edge_endpoints(e) == Some((ni(i), n)), "secondary_children({})", i);
            got.push(n.index());
        }
        got.sort();
        let mut want: Vec<usize> = m.sec.iter().filter(|q| q.0 == i).map(|q| q.1).collect();
        want.sort();
        check!(got == want, "secondary_children({}) are {:?} instead of {:?}", i, got, want);
        for (&j, y) in &m.nodes {
            let want = x.parent.is_some() && x.parent == y.parent;
            check!(tree.are_siblings(ni(i), ni(j)) == want, "are_siblings({}, {}) is {}", i, j, !want);
        }
    }
    // indices of no node: those of removed nodes and one above all
    let last = *m.nodes.keys().next_back().unwrap();
    for i in (0..last + 2).filter(|i| !m.nodes.contains_key(i)) {
        check!(tree.parent(ni(i)).is_none() && tree.secondary_parent(ni(i)).is_none(), "index {} of no node has a parent", i);
        check!(tree.children(ni(i)).next().is_none() && tree.secondary_children(ni(i)).next().is_none() && tree.siblings(ni(i)).next().is_none(), "index {} of no node has children or siblings", i);
        check!(Climber::new(ni(i), tree).next(tree).is_none(), "climbing from index {} of no node", i);
        for j in &[i, m.root, last] {
            check!(!tree.are_siblings(ni(i), ni(*j)) && !tree.are_siblings(ni(*j), ni(i)), "index {} of no node is a sibling of {}", i, j);
        }
    }
    Ok(())
}

const SHAPE_OPS: &[Op] = &[Op::Push, Op::InsertWord, Op::MoveWord, Op::RemoveWord, Op::Above, Op::Below, Op::RemoveNt, Op::Reattach, Op::AddSec, Op::Projectivize, Op::Filter];

/// A tree that went through a few edits (as far as they left a well-formed tree).
pub fn edited_tree(ctx: &mut Ctx, cfg: &Cfg) -> Option<(Tree, MTree)> {
    let (mut tree, mut m) = any_tree(ctx, cfg)?;
    let n = ctx.s.weighted(&[3, 1, 1, 1]);
    for _ in 0..n {
        let op = *ctx.s.pick(SHAPE_OPS);
        let mut t2 = tree.clone();
        let r = no_panic(|| apply(ctx, op, &mut t2, &m));
        if r.is_err() {
            break;
        }
        match snapshot(&t2) {
            Ok(x) => {
                m = x;
                tree = t2;
                ctx.class("edited before");
            }
            Err(_) => break,
        }
    }
    ctx.log(|| format!("tree now: {}\n  ids: {}", m.render(), m.render_ids()));
    Some((tree, m))
}

pub fn c04(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { sec: 3, ..ANY };
    let (tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    ctx.nontrivial = m.nodes.len() >= 4;
    navigation(&tree, &m)?;
    // label sets
    let set: HashSet<String> = (0..ctx.s.below(3)).map(|_| plain_label(&mut ctx.s)).collect();
    for n in m.nodes.values() {
        let l = n.label.as_str();
        check!(LabelSet::Positive(set.clone()).matches(l) == set.contains(l), "positive label set on {}", l);
        check!(LabelSet::Negative(set.clone()).matches(l) != set.contains(l), "negative label set on {}", l);
    }
    Ok(())
}

fn span_is(span: &Span, set: &BTreeSet<usize>) -> Res {
    let lo = *set.iter().next().unwrap();
    let hi = *set.iter().last().unwrap() + 1;
    check!((span.start, span.end) == (lo, hi) && span.bounds() == (lo, hi), "bounds {:?} of {:?}", span.bounds(), set);
    for i in 0..hi + 3 {
        check!(span.contains(i) == set.contains(&i), "contains({}) on {:?}", i, set);
    }
    check!(span.n_indices() == set.len(), "n_indices() is {} on {:?}", span.n_indices(), set);
    let it: Vec<usize> = span.into_iter().collect();
    check!(it == set.iter().cloned().collect::<Vec<_>>(), "iteration gives {:?} on {:?}", it, set);
    let gaps: BTreeSet<usize> = (lo..hi).filter(|i| !set.contains(i)).collect();
    match span.skips() {
        None => check!(gaps.is_empty(), "no skips on {:?}", set),
        Some(s) => check!(!gaps.is_empty() && s.iter().cloned().collect::<BTreeSet<_>>() == gaps, "skips {:?} on {:?}", s, set),
    }
    Ok(())
}

fn set_cmp(a: &BTreeSet<usize>, b: &BTreeSet<usize>) -> Ordering {
    let k = |s: &BTreeSet<usize>| (*s.iter().next().unwrap(), *s.iter().last().unwrap(), s.len());
    k(a).cmp(&k(b))
}

pub fn c24(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { disc: 2, max_words: 12, ..ANY };
    let mut spans: Vec<(Span, BTreeSet<usize>)> = vec![];
    let n = ctx.s.range(1, 2);
    for _ in 0..n {
        let (tree, m) = match edited_tree(ctx, &cfg) {
            Some(x) => x,
            None => return ctx.discard(),
        };
        // the set each span stands for is the yield of its node in the tree as built and edited
        for (i, y) in m.yields() {
            spans.push((tree[ni(i)].span().clone(), y.into_iter().collect()));
            let cont = tree[ni(i)].continuity() == lumberjack::Continuity::Continuous;
            check!(cont == tree[ni(i)].span().skips().is_none(), "continuity");
            if let Some(nt) = tree[ni(i)].nonterminal() {
                check!(nt.continuity() == tree[ni(i)].continuity() && nt.span() == tree[ni(i)].span(), "nonterminal continuity");
            }
        }
    }
    for _ in 0..2 {
        let i = ctx.s.below(12);
        spans.push((Span::from(i), std::iter::once(i).collect()));
    }
    for (s, x) in &spans {
        span_is(s, x)?;
    }
    for (a, x) in &spans {
        for (b, y) in &spans {
            check!(a.covers_span(b) == x.is_superset(y), "covers_span is {} for {:?} and {:?}", a.covers_span(b), x, y);
            check!((a == b) == (x == y), "equality of {:?} and {:?}", x, y);
            let c = set_cmp(x, y);
            check!(a.cmp(b) == c && a.partial_cmp(b) == Some(c), "order of {:?} and {:?} is {:?}", x, y, a.cmp(b));
            check!((a < b) == (c == Ordering::Less) && (a > b) == (c == Ordering::Greater), "comparison operators on {:?} and {:?}", x, y);
        }
    }
    let disc = spans.iter().filter(|s| s.0.skips().is_some()).count();
    ctx.class_if(disc > 0, "discontinuous span");
    ctx.class_if(disc > 2, "three or more discontinuous spans");
    ctx.nontrivial = disc > 0 && spans.len() > 5;
    Ok(())
}

// ---- C23 ----

fn fkey(s: &mut Src) -> String {
    if s.chance(3, 4) {
        s.pick(&["a", "b", "c", "morph", "k", "", " k", "k ", "a b", "A"]).to_string()
    } else {
        token(s, "|:")
    }
}
fn fval(s: &mut Src) -> Option<String> {
    match s.weighted(&[2, 3, 3, 1]) {
        0 => None,
        1 => Some(s.pick(&["v", "1", "", "a:b", ":", "a:", ":b:c", "x y", "="]).to_string()),
        2 => Some(token(s, "|")),
        _ => Some(s.pick(&["long value with spaces", "::::", "http://a.b:80/c", "\t", " v", "v ", " ", "a\nb"]).to_string()),
    }
}

fn feats_are(f: &Features, m: &Feats) -> Res {
    check!(f.inner() == m, "features are {:?} instead of {:?}", f.inner(), m);
    for k in m.keys().chain(["a", "zz", "morph"].iter().map(|s| s.to_string()).collect::<Vec<_>>().iter()) {
        let want = m.get(k).map(|v| v.as_deref());
        check!(f.get_val(k) == want, "get_val({:?}) is {:?} instead of {:?}", k, f.get_val(k), want);
    }
    let text = m.iter().map(|(k, v)| v.as_ref().map(|v| format!("{}:{}", k, v)).unwrap_or_else(|| k.clone())).collect::<Vec<_>>().join("|");
    check!(f.to_string() == text, "printed {:?} instead of {:?}", f.to_string(), text);
    // keys without ':' and '|' survive the text form; an empty key needs a value to be seen
    if m.iter().all(|(k, v)| !k.is_empty() || v.is_some()) {
        let back = Features::from(text.as_str());
        check!(back.inner() == m, "{:?} parsed as {:?} instead of {:?}", text, back.inner(), m);
        check!(back == *f, "parsed features are not equal");
        check!(Features::from(text.clone()) == *f, "parsed (String) features are not equal");
    }
    Ok(())
}

pub fn c23(ctx: &mut Ctx) -> Res {
    let mut m = Feats::new();
    let n0 = ctx.s.below(4);
    let list: Vec<(String, Option<String>)> = (0..n0).map(|_| (fkey(&mut ctx.s), fval(&mut ctx.s))).collect();
    for (k, v) in &list {
        m.insert(k.clone(), v.clone());
    }
    ctx.log(|| format!("from list {:?}", list));
    let mut f = if list.is_empty() && ctx.s.chance(1, 2) { Features::new() } else { list.iter().cloned().collect::<Features>() };
    feats_are(&f, &m)?;
    let n = ctx.s.count(1, 12, 60);
    for _ in 0..n {
        match ctx.s.weighted(&[5, 2, 2]) {
            0 => {
                let (k, v) = (fkey(&mut ctx.s), fval(&mut ctx.s));
                ctx.log(|| format!("insert({:?}, {:?})", k, v));
                let r = f.insert(k.clone(), v.clone());
                let old = m.insert(k.clone(), v);
                check!(r == old.and_then(|o| o), "insert({:?}) returned {:?}", k, r);
                ctx.class("insert");
            }
            1 => {
                let k = fkey(&mut ctx.s);
                ctx.log(|| format!("remove({:?})", k));
                let r = f.remove(&k);
                check!(r == m.remove(&k), "remove({:?}) returned {:?}", k, r);
                ctx.class("remove");
            }
            _ => {
                let k = fkey(&mut ctx.s);
                let v = fval(&mut ctx.s);
                if let Some(x) = m.get_mut(&k) {
                    *x = v.clone();
                    ctx.class("change in place");
                }
                if let Some(x) = f.inner_mut().get_mut(&k) {
                    *x = v;
                }
            }
        }
        feats_are(&f, &m)?;
    }
    // text with repeated keys and empty parts: the last value counts
    let parts: Vec<(String, Option<String>)> = (0..ctx.s.below(5)).map(|_| (fkey(&mut ctx.s), fval(&mut ctx.s))).filter(|p| !p.0.is_empty() || p.1.is_some()).collect();
    let sep = *ctx.s.pick(&["|", "|", "||"]);
    let text = parts.iter().map(|(k, v)| v.as_ref().map(|v| format!("{}:{}", k, v)).unwrap_or_else(|| k.clone())).collect::<Vec<_>>().join(sep);
    let want: Feats = parts.iter().cloned().collect();
    let got = Features::from(&text);
    ctx.log(|| format!("text {:?}", text));
    check!(got.inner() == &want, "{:?} parsed as {:?} instead of {:?}", text, got.inner(), want);
    ctx.class_if(m.values().any(|v| v.as_ref().map(|v| v.contains(':')).unwrap_or(false)), "value with a colon");
    ctx.nontrivial = m.len() >= 2;
    Ok(())
}

// ---- C22 ----

pub fn c22(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_words: 7, ..ANY };
    let spec = gen_tree(&mut ctx.s, &cfg);
    let routes = [Route::Api, Route::Negra, Route::Bracket];
    let (ra, rb) = (*ctx.s.pick(&routes), *ctx.s.pick(&routes));
    let a = build_route(&mut ctx.s, &spec, ra).or_else(|| build_route(&mut ctx.s, &spec, Route::Api));
    let b = build_route(&mut ctx.s, &spec, rb).or_else(|| build_route(&mut ctx.s, &spec, Route::Api));
    let ((a, ma), (mut b, mut mb)) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return ctx.discard(),
    };
    shape_classes(ctx, &ma);
    ctx.log(|| format!("tree: {} by {:?} and {:?}", spec.render(), ra, rb));
    ctx.class_if(ra != rb, "different routes");
    check!(a == b && b == a, "equal trees built by {:?} and {:?} are unequal: {} / {}", ra, rb, ma.render_ids(), mb.render_ids());
    check!(a == a.clone() && !(a != b), "a copy is unequal");
    // empty features are no features
    let x = ni(pick_node(&mut ctx.s, &mb));
    b[x].features_mut();
    check!(a == b && b == a, "empty features make a difference");
    // edits that change nothing / change exactly one thing
    let kind = ctx.s.below(12);
    let node = pick_node(&mut ctx.s, &mb);
    let word = pick_word(&mut ctx.s, &mb);
    let mut done = true;
    match kind {
        0 => {
            b[ni(node)].set_label("other-label");
        }
        1 => {
            b[ni(word)].terminal_mut().unwrap().set_form("other form");
        }
        2 => {
            let old = mb.nodes[&word].term.as_ref().unwrap().lemma.clone();
            let new = if old.is_none() || ctx.s.chance(1, 2) { Some("other-lemma".to_string()) } else { None };
            b[ni(word)].terminal_mut().unwrap().set_lemma(new);
        }
        3 => {
            b[ni(node)].features_mut().insert("other-key", Some("v"));
        }
        4 => {
            // one feature value or one key removed
            match mb.nodes[&node].feats.keys().next().cloned() {
                None => done = false,
                Some(k) => {
                    if ctx.s.chance(1, 2) {
                        b[ni(node)].features_mut().remove(&k);
                    } else {
                        b[ni(node)].features_mut().insert(k, Some("other-value"));
                    }
                }
            }
        }
        5 => {
            if node == mb.root {
                done = false
            } else {
                let e = edge_of(&b, node);
                let new = match &mb.nodes[&node].edge {
                    None => Some("other-edge".to_string()),
                    Some(_) if ctx.s.chance(1, 2) => None,
                    Some(_) => Some("other-edge".to_string()),
                };
                b[e].set_label(new);
            }
        }
        6 => {
            // swap two words (different content of the sentence)
            let w = mb.words();
            let i = ctx.s.below(w.len());
            let j = ctx.s.below(w.len());
            b.move_terminal(ni(w[i]), j);
        }
        7 => {
            // other nesting, same labels: move a node elsewhere, keep its edge label
            let p = pick_nt(&mut ctx.s, &mb);
            match p {
                Some(p) if node != mb.root => {
                    let e = edge_of(&b, node);
                    if let Ok((e, old)) = b.reattach_node(ni(p), e) {
                        b[e].set_label(old.label().map(|l| l.to_string()));
                    } else {
                        done = false;
                    }
                }
                _ => done = false,
            }
        }
        8 => {
            // same number of nodes: a unary node moved from above to below or elsewhere
            let u = mb.unary();
            if u.is_empty() {
                done = false
            } else {
                let n = *ctx.s.pick(&u);
                let l = mb.nodes[&n].label.clone();
                if b.remove_node(ni(n)).is_err() {
                    done = false
                } else {
                    let ids: Vec<usize> = mb.nodes.keys().cloned().filter(|k| *k != n).collect();
                    let t = *ctx.s.pick(&ids);
                    b.insert_unary_above(ni(t), l);
                }
            }
        }
        9 => {
            b.insert_unary_above(ni(node), "X");
        }
        10 => {
            if b.push_terminal("w", "T").is_err() {
                done = false
            }
        }
        _ => {
            // swap the labels of two nodes
            let o = pick_node(&mut ctx.s, &mb);
            let (l1, l2) = (mb.nodes[&node].label.clone(), mb.nodes[&o].label.clone());
            b[ni(node)].set_label(l2);
            b[ni(o)].set_label(l1);
        }
    }
    if !done {
        ctx.class("change not possible");
        return Ok(());
    }
    match snapshot(&b) {
        Ok(x) => mb = x,
        Err(_) => return ctx.discard(),
    }
    ctx.log(|| format!("changed ({}): {}", kind, mb.render()));
    let same = ma.canon(FULL) == mb.canon(FULL);
    ctx.class(if same { "changed back to equal content" } else { "one difference" });
    const KINDS: [&str; 12] = ["label", "form", "lemma", "new feature", "feature value", "edge label", "word order", "nesting", "unary node moved", "extra node", "extra word", "labels swapped"];
    ctx.class_if(!same, KINDS[kind]);
    check!((a == b) == same, "comparison is {} for\n  {}\n  {}", a == b, ma.render(), mb.render());
    check!((b == a) == same && (a != b) != same, "comparison is not symmetric");
    ctx.nontrivial = ma.nodes.len() >= 2;
    let _ = BTreeMap::<usize, usize>::new();
    Ok(())
}
