//! C05 projectivization, C16 unary chains, C17 filtering, C18 reattaching words,
//! C19 intermediate nodes, C20 projections.
use super::nav::edited_tree;
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use lumberjack::util::LabelSet;
use lumberjack::{AnnotatePOS, Projectivize, Tree, TreeOps, UnaryChains};
use petgraph::prelude::NodeIndex;
use std::collections::{BTreeMap, BTreeSet, HashSet};

// ---- C05 ----

/// Content of a report entry: (parent, edge label, child).
pub type Moved = (usize, Option<String>, usize);

fn contiguous(y: &[usize]) -> bool {
    y[y.len() - 1] - y[0] + 1 == y.len()
}

/// Bound on the tree sizes summed over all steps of the reference search.
const MAX_WORK: usize = 400_000;

/// Gives `ap` the largest subtrees that fill its gaps, until it has none.
fn fill_gaps(t: &mut MTree, ap: usize, rep: &mut Vec<Moved>, work: &mut usize) {
    loop {
        let ys = t.yields();
        *work += ys.values().map(|y| y.len() + 2).sum::<usize>();
        let y = &ys[&ap];
        let gap = match y.windows(2).find(|p| p[1] > p[0] + 1) {
            Some(p) if *work < MAX_WORK => p[0] + 1,
            _ => return,
        };
        let w = t.words()[gap];
        // the largest subtree around the word that does not contain `ap`
        let mut handle = w;
        while !t.ancestors(ap).contains(&t.parent(handle).unwrap()) {
            handle = t.parent(handle).unwrap();
        }
        rep.push((t.parent(handle).unwrap(), t.nodes[&handle].edge.clone(), handle));
        t.attach(handle, ap);
    }
}

/// All results reachable by treating discontinuous nodes from below in any order.
pub fn reference_results(t: &MTree, cap: usize) -> Option<Vec<(MTree, Vec<Moved>)>> {
    let mut out: Vec<(MTree, Vec<Moved>)> = vec![];
    let mut stack = vec![(t.clone(), vec![])];
    let mut steps = 0;
    let mut work = 0;
    while let Some((cur, rep)) = stack.pop() {
        steps += 1;
        if steps > cap || work >= MAX_WORK {
            return None;
        }
        let ys = cur.yields();
        work += ys.values().map(|y| y.len() + 2).sum::<usize>();
        let disc: Vec<usize> = ys.into_iter().filter(|(_, y)| !contiguous(y)).map(|(n, _)| n).collect();
        if disc.is_empty() {
            let mut rep = rep;
            rep.sort();
            if !out.iter().any(|(x, r)| *x == cur && *r == rep) {
                out.push((cur, rep));
            }
            continue;
        }
        for n in &disc {
            // lowest: no discontinuous node below it
            if disc.iter().any(|d| d != n && cur.ancestors(*d).contains(n)) {
                continue;
            }
            let mut t2 = cur.clone();
            let mut r2 = rep.clone();
            fill_gaps(&mut t2, *n, &mut r2, &mut work);
            stack.push((t2, r2));
        }
    }
    Some(out)
}

pub fn c05(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.s.chance(1, 12) { Cfg { max_words: 9, sec: 2, ..PROJ } } else { Cfg { disc: 2, max_words: 11, sec: 2, ..ANY } };
    let (mut tree, before) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let was = before.projective();
    let report = tree.projectivize();
    let after = content(&tree)?;
    ctx.log(|| format!("result: {}\nreport: {:?}", after.render(), report));
    let report: Option<Vec<Moved>> = report.map(|r| r.into_iter().map(|(p, e, c)| (p.index(), e.label().map(|l| l.to_string()), c.index())).collect());
    if was {
        check!(report.is_none(), "a projective tree got the report {:?}", report);
        before.diff(&after, &BTreeSet::new()).map_err(|e| format!("a projective tree was changed: {}", e))?;
        check!(tree.is_projective(), "no longer projective");
        ctx.class("already projective");
        return Ok(());
    }
    let report = match report {
        Some(r) => r,
        None => return Err("no report for a non-projective tree".into()),
    };
    check!(after.projective(), "the result has discontinuous nodes {:?}", after.discontinuous());
    check!(tree.is_projective(), "the result is projective but not reported as such");
    // same nodes, labels, features, words, edge labels, root, secondary edges
    let mut relaxed = after.clone();
    for (i, n) in relaxed.nodes.iter_mut() {
        n.parent = before.nodes.get(i).and_then(|x| x.parent);
    }
    before.diff(&relaxed, &BTreeSet::new()).map_err(|e| format!("apart from attachments: {}", e))?;
    for i in before.nodes.keys() {
        let (a, b) = (before.ancestors(*i), after.ancestors(*i));
        check!(a.iter().all(|x| b.contains(x)), "node {} is no longer below all of {:?} (now {:?})", i, a, b);
    }
    let mut seen = BTreeSet::new();
    for (p, e, c) in &report {
        if seen.insert(*c) {
            let x = before.nodes.get(c).ok_or("unknown node in the report")?;
            check!(x.parent == Some(*p) && x.edge == *e, "report ({}, {:?}, {}) but the node hung below {:?} with {:?}", p, e, c, x.parent, x.edge);
        }
    }
    for (i, x) in &before.nodes {
        check!(after.nodes[i].parent == x.parent || seen.contains(i), "node {} moved from {:?} to {:?} without being reported", i, x.parent, after.nodes[i].parent);
    }
    let cap = if before.n_words() > 12 { 25 } else { 400 };
    match reference_results(&before, cap) {
        None => ctx.class("reference search capped"),
        Some(results) => {
            ctx.class_if(results.len() > 1, "several admissible results");
            ctx.class_if(results.len() == 1, "result determined");
            let mut rep = report.clone();
            rep.sort();
            let shape: Vec<&(MTree, Vec<Moved>)> = results.iter().filter(|(t, _)| *t == after).collect();
            check!(!shape.is_empty(), "nodes did not receive the largest subtrees filling their gaps; expected {}", results.iter().map(|r| r.0.render()).collect::<Vec<_>>().join(" or "));
            check!(shape.iter().any(|(_, r)| *r == rep), "report {:?} instead of {:?}", rep, shape[0].1);
        }
    }
    ctx.class_if(report.len() > 2, "three or more moves");
    ctx.nontrivial = true;
    Ok(())
}

// ---- C16 ----

/// Expected tree after collapsing, with the chain recorded under `unary_chain`; by node id of the
/// lowest node of each chain.
pub fn collapsed_model(m: &MTree, delim: &str) -> MTree {
    let mut t = m.clone();
    let kids = m.child_map();
    // lowest nodes of chains: every node with anything but exactly one child
    for (&n, _) in &m.nodes {
        if kids[&n].len() == 1 {
            continue;
        }
        let mut labels = vec![];
        for a in m.ancestors(n) {
            if kids[&a].len() == 1 {
                labels.push(m.nodes[&a].label.clone());
                t.remove_nt(a);
            } else {
                break;
            }
        }
        if !labels.is_empty() {
            t.nodes.get_mut(&n).unwrap().feats.insert("unary_chain".into(), Some(labels.join(delim)));
        }
    }
    t
}

pub fn c16(ctx: &mut Ctx) -> Res {
    let delim = *ctx.s.pick(&["_", "+", "::", "~", "ab"]);
    let cfg = Cfg { unary: 5, max_words: 8, sec: 1, ..ANY };
    let (mut tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    // no label contains the delimiter or runs together with it (":" and "::")
    if m.nodes.values().any(|n| n.label.contains(delim) || (delim == "::" && n.label.contains(':'))) {
        return ctx.discard();
    }
    let unary = m.unary();
    tree.collapse_unary_chains(delim).map_err(|e| format!("collapse failed: {}", e))?;
    let real = content(&tree)?;
    ctx.log(|| format!("collapsed ({:?}): {}", delim, real.render()));
    let want = collapsed_model(&m, delim);
    let mut free: BTreeSet<usize> = BTreeSet::new();
    for (i, n) in &want.nodes {
        if n.parent != m.nodes[i].parent {
            free.insert(*i);
        }
    }
    want.diff(&real, &free).map_err(|e| format!("after collapsing: {}", e))?;
    if unary.is_empty() {
        ctx.class("no unary chain");
    }
    let c = real;
    // a second collapse changes nothing
    let mut again = tree.clone();
    again.collapse_unary_chains(delim).map_err(|e| e.to_string())?;
    let again = content(&again)?;
    c.diff(&again, &BTreeSet::new()).map_err(|e| format!("collapsing twice: {}", e))?;
    tree.restore_unary_chains(delim).map_err(|e| format!("restore failed: {}", e))?;
    let r = content(&tree)?;
    ctx.log(|| format!("restored: {}", r.render()));
    // nesting, labels, words; the content of nodes that survived is untouched
    check!(r.canon(View { lemma: true, tfeats: true, ..SHAPE }) == m.canon(View { lemma: true, tfeats: true, ..SHAPE }), "restored tree differs: {} instead of {}", r.render(), m.render());
    for (i, n) in &r.nodes {
        if c.nodes.contains_key(i) {
            check!(n.feats == m.nodes[i].feats, "features of node {} are {:?} instead of {:?}", i, n.feats, m.nodes[i].feats);
        } else {
            check!(n.feats.is_empty(), "restored node {} has features {:?}", i, n.feats);
        }
    }
    ctx.class_if(unary.iter().any(|u| unary.contains(&m.parent(*u).unwrap_or(usize::MAX))), "chain of two or more");
    ctx.class_if(unary.contains(&m.root), "chain at the root");
    ctx.nontrivial = !unary.is_empty() && m.n_words() > 1;
    Ok(())
}

// ---- C17 ----

pub fn c17(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_words: 9, unary: 3, ..ANY };
    let (mut tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let keep: HashSet<usize> = match ctx.s.below(4) {
        0 => {
            let set: HashSet<String> = (0..ctx.s.below(4)).map(|_| plain_label(&mut ctx.s)).collect();
            let neg = ctx.s.chance(1, 2);
            ctx.log(|| format!("keep labels {} {:?}", if neg { "outside" } else { "in" }, set));
            let ls = if neg { LabelSet::Negative(set.clone()) } else { LabelSet::Positive(set.clone()) };
            let k = m.nts().into_iter().filter(|n| set.contains(&m.nodes[n].label) != neg).collect();
            tree.filter_nonterminals(|t, n| ls.matches(t[n].label())).map_err(|e| format!("filter failed: {}", e))?;
            k
        }
        1 => {
            ctx.log(|| "keep nodes with features".into());
            let k = m.nts().into_iter().filter(|n| !m.nodes[n].feats.is_empty()).collect();
            tree.filter_nonterminals(|t, n| t[n].features().map(|f| !f.inner().is_empty()).unwrap_or(false)).map_err(|e| format!("filter failed: {}", e))?;
            k
        }
        _ => {
            let p = ctx.s.range(0, 4);
            let k: HashSet<usize> = m.nts().into_iter().filter(|_| ctx.s.chance(p, 4)).collect();
            ctx.log(|| format!("keep nodes {:?}", k.iter().collect::<BTreeSet<_>>()));
            let k2 = k.clone();
            tree.filter_nonterminals(move |_, n| k2.contains(&n.index())).map_err(|e| format!("filter failed: {}", e))?;
            k
        }
    };
    let mut want = m.clone();
    let k2 = keep.clone();
    want.filter(&move |_, n| k2.contains(&n));
    let real = content(&tree)?;
    ctx.log(|| format!("result: {}", real.render()));
    let mut free = BTreeSet::new();
    for (i, n) in &want.nodes {
        if n.parent != m.nodes[i].parent {
            free.insert(*i);
        }
    }
    want.diff(&real, &free)?;
    spans_ok(&tree, &real)?;
    let removed = m.nodes.len() - want.nodes.len();
    ctx.class_if(removed == 0, "nothing removed");
    ctx.class_if(removed > 2, "three or more nodes removed");
    ctx.class_if(!m.nts().is_empty() && !keep.contains(&m.root), "root not accepted");
    ctx.nontrivial = removed > 0 && m.n_words() > 1;
    Ok(())
}

// ---- C18 ----

pub fn reattach_model(m: &MTree, attachment: usize, hit: &dyn Fn(usize) -> bool) -> MTree {
    let mut t = m.clone();
    for w in m.words() {
        if hit(w) && t.nodes[&w].parent.is_some() {
            t.attach(w, attachment);
        }
    }
    // nonterminals without words disappear
    loop {
        let ys = t.yields();
        let dead: Vec<usize> = t.nts().into_iter().filter(|n| ys[n].is_empty() && *n != t.root && *n != attachment).collect();
        if dead.is_empty() {
            return t;
        }
        for d in dead {
            t.nodes.remove(&d);
            t.sec.retain(|(p, c, _)| *p != d && *c != d);
        }
    }
}

pub fn c18(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_words: 8, unary: 3, sec: 1, ..ANY };
    let (mut tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let attachment = if ctx.s.chance(1, 2) { if m.is_t(m.root) { None } else { Some(m.root) } } else { pick_nt(&mut ctx.s, &m) };
    let attachment = match attachment {
        Some(a) => a,
        None => {
            // a lone word: nothing is there to attach to
            ctx.class("no attachment point");
            return Ok(());
        }
    };
    let p = *ctx.s.pick(&[4, 2, 1, 3]);
    let hit: HashSet<usize> = m.words().into_iter().filter(|_| ctx.s.chance(p, 4)).collect();
    ctx.log(|| format!("reattach_terminals({}, words {:?})", attachment, hit.iter().collect::<BTreeSet<_>>()));
    if !hit.is_empty() && ctx.s.chance(1, 60) {
        let (w, mut t, h) = (pick_word(&mut ctx.s, &m), tree.clone(), hit.clone());
        ctx.class("attachment point is a word");
        let r = no_panic(|| t.reattach_terminals(ni(w), move |_, n| h.contains(&n.index())));
        check!(r.is_err(), "reattach_terminals to the word {} does not panic", w);
    }
    let h2 = hit.clone();
    tree.reattach_terminals(ni(attachment), move |_, n| h2.contains(&n.index()));
    let real = content(&tree)?;
    ctx.log(|| format!("result: {}", real.render()));
    let h3 = hit.clone();
    let want = reattach_model(&m, attachment, &move |w| h3.contains(&w));
    let free: BTreeSet<usize> = hit.iter().cloned().collect();
    want.diff(&real, &free)?;
    ctx.class_if(hit.len() == m.n_words(), "all words match");
    ctx.class_if(hit.is_empty(), "no word matches");
    ctx.class_if(want.nodes.len() < m.nodes.len(), "nodes disappear");
    ctx.class_if(attachment != m.root, "attachment below the root");
    ctx.nontrivial = !hit.is_empty() && m.n_words() > 1;
    Ok(())
}

// ---- C19 ----

/// (parent, label, words) of the runs to be covered.
pub fn runs(m: &MTree, sel: &dyn Fn(usize) -> Option<String>) -> Vec<(usize, String, Vec<usize>)> {
    let mut out = vec![];
    for p in m.nts() {
        if let Some(l) = sel(p) {
            let mut ws: Vec<usize> = m.children(p).into_iter().filter(|c| m.is_t(*c)).collect();
            ws.sort_by_key(|w| m.pos(*w));
            let mut cur: Vec<usize> = vec![];
            for w in ws {
                if let Some(last) = cur.last() {
                    if m.pos(*last) + 1 != m.pos(w) {
                        out.push((p, l.clone(), std::mem::take(&mut cur)));
                    }
                }
                cur.push(w);
            }
            if !cur.is_empty() {
                out.push((p, l.clone(), cur));
            }
        }
    }
    out
}

pub fn c19(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_words: 10, sec: 1, ..ANY };
    let (mut tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let mut sel: BTreeMap<usize, String> = BTreeMap::new();
    let p = *ctx.s.pick(&[4, 2, 1, 3]);
    for n in m.nts() {
        if ctx.s.chance(p, 4) {
            let l = ctx.s.pick(&["NEW", "UNK", "S"]).to_string();
            sel.insert(n, l);
        }
    }
    ctx.log(|| format!("selected: {:?}", sel));
    let s2 = sel.clone();
    let r = tree.insert_intermediate(move |_, n| s2.get(&n.index()).cloned());
    if m.is_t(m.root) {
        check!(r.is_err(), "a word without a parent was accepted");
        ctx.class("lone word refused");
        let real = content(&tree)?;
        return m.diff(&real, &BTreeSet::new());
    }
    r.map_err(|e| format!("insert_intermediate failed: {}", e))?;
    let real = content(&tree)?;
    ctx.log(|| format!("result: {}", real.render()));
    let s3 = sel.clone();
    let runs = runs(&m, &move |n| s3.get(&n).cloned());
    let mut want = m.clone();
    let mut free = BTreeSet::new();
    let mut used = BTreeSet::new();
    for (p, l, ws) in &runs {
        let x = real.nodes.get(&ws[0]).and_then(|n| n.parent).ok_or("word lost")?;
        check!(!m.nodes.contains_key(&x), "word {} is not below a new node", ws[0]);
        check!(used.insert(x), "one new node {} for two runs ({:?} is one)", x, ws);
        let mut n = MNode::nt(l);
        n.parent = Some(*p);
        want.nodes.insert(x, n);
        free.insert(x);
        for w in ws {
            want.attach(*w, x);
            free.insert(*w);
        }
    }
    want.diff(&real, &free)?;
    ctx.class_if(runs.iter().any(|r| r.2.len() > 1), "run of several words");
    ctx.class_if(runs.windows(2).any(|r| r[0].0 == r[1].0), "two runs below one parent");
    ctx.nontrivial = !runs.is_empty() && m.n_words() > 2;
    Ok(())
}

// ---- C20 ----

pub fn nearest(m: &MTree, w: usize, acc: &dyn Fn(usize) -> bool) -> Option<usize> {
    m.ancestors(w).into_iter().find(|a| acc(*a))
}

fn acceptor(ctx: &mut Ctx, m: &MTree) -> HashSet<usize> {
    if ctx.s.chance(1, 2) {
        let l = plain_label(&mut ctx.s);
        m.nts().into_iter().filter(|n| m.nodes[n].label == l).collect()
    } else {
        let p = *ctx.s.pick(&[2, 1, 3, 4]);
        m.nts().into_iter().filter(|_| ctx.s.chance(p, 4)).collect()
    }
}

fn with_feature(m: &MTree, key: &str, vals: &BTreeMap<usize, Option<String>>) -> MTree {
    let mut t = m.clone();
    for (w, v) in vals {
        t.nodes.get_mut(w).unwrap().feats.insert(key.into(), v.clone());
    }
    t
}

pub fn c20(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_words: 9, sec: 1, ..ANY };
    let (tree, m) = match edited_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let none = BTreeSet::new();
    let acc = acceptor(ctx, &m);
    ctx.log(|| format!("accepted: {:?}", acc.iter().collect::<BTreeSet<_>>()));
    let key = ctx.s.pick(&["tag", "id", "morph", "new"]).to_string();
    let near: BTreeMap<usize, Option<usize>> = m.words().into_iter().map(|w| (w, nearest(&m, w, &|a| acc.contains(&a)))).collect();

    // tags
    let mut t: Tree = tree.clone();
    t.project_tag_set(&key, |_, n: NodeIndex| acc.contains(&n.index()));
    let vals: BTreeMap<usize, Option<String>> = near.iter().filter_map(|(w, a)| a.map(|a| (*w, Some(m.nodes[&a].label.clone())))).collect();
    with_feature(&m, &key, &vals).diff(&content(&t)?, &none).map_err(|e| format!("project_tag_set: {}", e))?;

    // ids
    let mut t: Tree = tree.clone();
    t.project_ids(&key, |_, n: NodeIndex| acc.contains(&n.index()));
    let real = content(&t)?;
    let mut by_id: BTreeMap<String, usize> = BTreeMap::new();
    let mut by_node: BTreeMap<usize, String> = BTreeMap::new();
    let mut vals = BTreeMap::new();
    for (w, a) in &near {
        if let Some(a) = a {
            let id = real.nodes[w].feats.get(&key).cloned().ok_or_else(|| format!("project_ids: word {} has no id", w))?.ok_or("project_ids: id without value")?;
            check!(*by_id.entry(id.clone()).or_insert(*a) == *a, "project_ids: id {} stands for two nodes", id);
            check!(*by_node.entry(*a).or_insert_with(|| id.clone()) == id, "project_ids: node {} has two ids", a);
            vals.insert(*w, Some(id));
        }
    }
    with_feature(&m, &key, &vals).diff(&real, &none).map_err(|e| format!("project_ids: {}", e))?;

    // indices
    let v = tree.project_nt_indices(|_, n: NodeIndex| acc.contains(&n.index()));
    let want: Vec<usize> = m.words().iter().map(|w| near[w].unwrap_or(m.root)).collect();
    let v: Vec<usize> = v.into_iter().map(|n| n.index()).collect();
    check!(v == want, "project_nt_indices gives {:?} instead of {:?}", v, want);

    // climbing with a closure: path of each word up to the first accepted node
    let mut paths: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut t: Tree = tree.clone();
    t.map_climber_path(|_, nt, term| {
        paths.entry(term.index()).or_default().push(nt.index());
        acc.contains(&nt.index())
    });
    for w in m.words() {
        let mut want = vec![];
        for a in m.ancestors(w) {
            want.push(a);
            if acc.contains(&a) {
                break;
            }
        }
        let got = paths.remove(&w).unwrap_or_default();
        check!(got == want, "map_climber_path from {} visits {:?} instead of {:?}", w, got, want);
    }
    m.diff(&content(&t)?, &none).map_err(|e| format!("map_climber_path: {}", e))?;

    // parent tags
    let mut t: Tree = tree.clone();
    let r = t.annotate_parent_tag(&key);
    if m.is_t(m.root) {
        check!(r.is_err(), "annotate_parent_tag accepted a lone word");
    } else {
        r.map_err(|e| format!("annotate_parent_tag failed: {}", e))?;
        let vals = m.words().into_iter().map(|w| (w, Some(m.nodes[&m.parent(w).unwrap()].label.clone()))).collect();
        with_feature(&m, &key, &vals).diff(&content(&t)?, &none).map_err(|e| format!("annotate_parent_tag: {}", e))?;
    }

    // parts of speech
    let n = m.n_words();
    let k = if ctx.s.chance(1, 3) { ctx.s.range(0, n + 2) } else { n };
    let mut t: Tree = tree.clone();
    let r = t.annotate_pos((0..k).map(|i| format!("P{}", i)));
    check!(r.is_ok() == (k == n), "annotate_pos with {} tags for {} words: {:?}", k, n, r.map_err(|e| e.to_string()));
    if k == n {
        let mut w = m.clone();
        for x in m.words() {
            let p = m.pos(x);
            w.nodes.get_mut(&x).unwrap().label = format!("P{}", p);
        }
        w.diff(&content(&t)?, &none).map_err(|e| format!("annotate_pos: {}", e))?;
    } else {
        ctx.class("wrong number of tags");
    }
    let matched = near.values().filter(|a| a.is_some()).count();
    ctx.class_if(matched < n, "word without accepted ancestor");
    ctx.class_if(by_node.len() > 1, "several ids");
    ctx.nontrivial = matched > 0 && n > 1;
    Ok(())
}
