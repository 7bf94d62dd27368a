//! C27 secondary edges, C28 reproducibility: relations between two executions.
use super::cli;
use super::edits::{apply, big, Op};
use super::nav::{edited_tree, navigation};
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use crate::text::*;
use lumberjack::io::{Encode, NegraWriter, PTBWriter, ToConllx, WriteTree};
use lumberjack::{Projectivize, Tree, TreeOps, UnaryChains};
use petgraph::prelude::EdgeIndex;
use std::collections::BTreeSet;

fn bare(m: &MTree) -> MTree {
    let mut t = m.clone();
    t.sec.clear();
    t
}

/// Everything that can be read off a tree without regard to secondary edges.
pub fn outputs(t: &Tree) -> Vec<(&'static str, Option<String>)> {
    let mut o = vec![];
    for f in FMTS {
        o.push((f.name(), f.real().tree_to_string(t).ok()));
        let mut b = vec![];
        let r = PTBWriter::new(&mut b, f.real()).write_tree(t);
        o.push(("PTBWriter", Some(format!("{} {}", r.is_ok(), String::from_utf8_lossy(&b)))));
    }
    o.push(("encode_absolute", t.encode_absolute().ok().map(|e| format!("{:?}", e))));
    o.push(("encode_relative", t.encode_relative().ok().map(|e| format!("{:?}", e))));
    let mut c = t.clone();
    let r = c.collapse_unary_chains("_").is_ok() && c.annotate_absolute().is_ok() && c.annotate_relative().is_ok();
    o.push(("labels", Some(format!("{} {}", r, c.to_conllx()))));
    o.push(("CoNLL-X", Some(format!("{}", t.to_conllx()))));
    o
}

pub fn negra(t: &Tree) -> Option<String> {
    // a secondary edge from a word cannot be expressed in NEGRA
    if t.terminals().any(|w| t.secondary_children(w).next().is_some()) {
        return None;
    }
    let mut b = vec![];
    NegraWriter::new(&mut b).write_tree(t).ok()?;
    Some(String::from_utf8_lossy(&b).into_owned())
}

/// Whether anything in the tree is text that NEGRA cannot hold.
pub fn unsayable(m: &MTree) -> bool {
    let odd = |x: &str| x.is_empty() || x.contains(char::is_whitespace);
    let odd_o = |x: &Option<String>| x.as_deref().map(|x| odd(x)).unwrap_or(false);
    m.nodes.values().any(|n| {
        odd(&n.label) || odd_o(&n.edge) || n.feats.values().any(odd_o) || n.term.as_ref().map(|t| odd(&t.form) || odd_o(&t.lemma)).unwrap_or(false)
    }) || m.sec.iter().any(|s| odd_o(&s.2))
}

fn negra_bare(t: &Tree) -> Option<MTree> {
    let text = negra(t)?;
    Some(bare(&parse_negra(&text).ok()?.pop()?))
}

const META_OPS: &[Op] = &[
    Op::Push, Op::InsertWord, Op::MoveWord, Op::RemoveWord, Op::Above, Op::Below, Op::RemoveNt, Op::Reattach, Op::Projectivize, Op::Filter, Op::ReattachWords, Op::Intermediate, Op::Collapse,
    Op::Restore, Op::RemoveDummies, Op::Annotate,
];
const META_W: &[usize] = &[1, 3, 3, 4, 3, 3, 4, 6, 3, 2, 2, 2, 3, 1, 1, 1];

fn same_primary(a: &Tree, b: &Tree, what: &str) -> Result<(MTree, MTree), String> {
    let ma = content(a)?;
    let mb = content(b).map_err(|e| format!("{}: with secondary edges: {}", what, e))?;
    ma.diff(&bare(&mb), &BTreeSet::new()).map_err(|e| format!("{}: with secondary edges: {}\n  with:    {}\n  without: {}", what, e, mb.render(), ma.render()))?;
    for i in ma.nodes.keys() {
        check!(a[ni(*i)].span() == b[ni(*i)].span(), "{}: span of {} is {:?} with secondary edges, {:?} without", what, i, b[ni(*i)].span(), a[ni(*i)].span());
    }
    check!(a.is_projective() == b.is_projective() && a.n_terminals() == b.n_terminals(), "{}: projectivity or number of words differs with secondary edges", what);
    Ok((ma, mb))
}

pub fn c27(ctx: &mut Ctx) -> Res {
    let (mut a, m0) = match edited_tree(ctx, &Cfg { max_words: 8, ..ANY }) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    // edits before may have left secondary edges: the comparison starts without any
    for (_, c, _) in m0.sec.clone() {
        if let Some((_, e)) = a.secondary_parent(ni(c)) {
            a.remove_secondary_edge(e);
        }
    }
    let m = content(&a)?;
    check!(m.sec.is_empty(), "secondary edges found by secondary_parent were not removed: {:?}", m.sec);
    if m.is_t(m.root) {
        ctx.class("no nonterminal");
        return Ok(());
    }
    let a0 = a.clone();
    let mut b = a.clone();
    let mut mb = m.clone();
    let k = ctx.s.range(1, 5);
    for _ in 0..k {
        let p = pick_nt(&mut ctx.s, &mb).unwrap();
        let kids = mb.children(p);
        let anc = mb.ancestors(p);
        let c = match ctx.s.below(4) {
            0 => *ctx.s.pick(&kids),
            1 if !anc.is_empty() => *ctx.s.pick(&anc),
            _ => pick_node(&mut ctx.s, &mb),
        };
        if p == c {
            continue;
        }
        ctx.class_if(kids.contains(&c), "along a primary edge");
        ctx.class_if(anc.contains(&c), "to an ancestor");
        let l = if ctx.s.chance(1, 3) { None } else { Some(odd_edge(&mut ctx.s)) };
        ctx.log(|| format!("add_secondary_edge({}, {}, {:?})", p, c, l));
        b.add_secondary_edge(ni(p), ni(c), l.clone());
        mb.add_sec(p, c, l.as_deref());
        mb.diff(&content(&b)?, &BTreeSet::new()).map_err(|e| format!("after adding a secondary edge: {}", e))?;
    }
    let full = mb.clone();
    let b0 = b.clone();
    let look = |a: &Tree, b: &Tree, what: &str| -> Result<(MTree, MTree), String> {
        let (ma, mb) = same_primary(a, b, what)?;
        if spans_ok(a, &ma).is_ok() {
            spans_ok(b, &mb).map_err(|e| format!("{}: with secondary edges: {}", what, e))?;
        }
        if navigation(a, &ma).is_ok() {
            navigation(b, &mb).map_err(|e| format!("{}: with secondary edges: {}", what, e))?;
        }
        check!(a == b && b == a, "{}: the tree with secondary edges is unequal to the tree without", what);
        check!((a == &a0) == (b == &a0) && (&a0 == a) == (&a0 == b) && (b == &b0) == (a == &a0), "{}: secondary edges change a comparison with the original tree", what);
        for (x, y) in outputs(a).into_iter().zip(outputs(b)) {
            check!(x.1 == y.1, "{}: {} is {:?} with secondary edges, {:?} without", what, x.0, y.1, x.1);
        }
        // what the text says can be told only where the format can say it
        let said = !unsayable(&mb);
        check!(!said || negra_bare(a) == negra_bare(b), "{}: NEGRA text differs in more than secondary edges:\n{:?}\n{:?}", what, negra(a), negra(b));
        Ok((ma, mb))
    };
    look(&a, &b, "at first")?;
    // the same calls on both
    let n = ctx.s.below(5);
    let mut ma = m;
    let mut large = 0;
    for i in 0..n {
        let op = META_OPS[ctx.s.weighted(META_W)];
        if big(&ma, &mut large) {
            break;
        }
        let saved = ctx.s.clone();
        let (mut a2, mut b2) = (a.clone(), b.clone());
        let ra = no_panic(|| apply(ctx, op, &mut a2, &ma));
        let after = ctx.s.clone();
        ctx.s = saved;
        let rb = no_panic(|| apply(ctx, op, &mut b2, &mb));
        ctx.s = after;
        let what = format!("call {} ({:?})", i + 1, op);
        let (sa, sb) = match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(_), Err(_)) => return Ok(()),
            (Ok(_), Err(e)) => return Err(format!("{}: fails only with secondary edges: {}", what, e)),
            (Err(e), Ok(_)) => return Err(format!("{}: fails only without secondary edges: {}", what, e)),
        };
        check!(sa.failed == sb.failed, "{}: {} with secondary edges, {} without", what, if sb.failed { "refused" } else { "accepted" }, if sa.failed { "refused" } else { "accepted" });
        check!(sa.extra.is_ok() == sb.extra.is_ok(), "{}: returned value differs: {:?} with, {:?} without secondary edges", what, sb.extra, sa.extra);
        let (x, y) = look(&a2, &b2, &what)?;
        // secondary edges: those of remaining nodes, untouched
        let want: Vec<_> = mb.sec.iter().filter(|(p, c, _)| y.nodes.contains_key(p) && y.nodes.contains_key(c) && mb.nodes.contains_key(p) && mb.nodes.contains_key(c)).cloned().collect();
        // a node id freed and taken again by the same call makes no prediction possible
        let reused = op == Op::Restore || op == Op::Intermediate;
        check!(reused || y.sec == want, "{}: secondary edges are {:?} instead of {:?}", what, y.sec, want);
        a = a2;
        b = b2;
        ma = x;
        mb = y;
        ctx.class("edited with secondary edges");
    }
    // histories of secondary edges
    let before = bare(&mb);
    let n = ctx.s.below(6);
    for i in 0..n {
        let op = [Op::AddSec, Op::RemoveSec, Op::ReattachSec][ctx.s.weighted(&[3, 3, 3])];
        let st = apply(ctx, op, &mut b, &mb);
        if !st.done {
            continue;
        }
        let what = format!("secondary call {} ({:?})", i + 1, op);
        if let Some(f) = st.must_fail {
            check!(f == st.failed, "{}: {}", what, if st.failed { "refused or not found" } else { "accepted although it has to be refused" });
        }
        let real = content(&b).map_err(|e| format!("{}: {}", what, e))?;
        if let Some(w) = &st.want {
            w.diff(&real, &BTreeSet::new()).map_err(|e| format!("{}: {}", what, e))?;
        }
        mb = real;
        before.diff(&bare(&mb), &BTreeSet::new()).map_err(|e| format!("{}: primary tree: {}", what, e))?;
        ctx.class(match op {
            Op::AddSec => "added",
            Op::RemoveSec => "removed",
            _ => "re-targeted",
        });
    }
    navigation(&b, &mb)?;
    // primary and absent edges
    let g: Vec<EdgeIndex> = b.graph().edge_indices().collect();
    let prim: Vec<EdgeIndex> = g.iter().cloned().filter(|e| b[*e].is_primary()).collect();
    if !prim.is_empty() {
        let e = *ctx.s.pick(&prim);
        check!(b.remove_secondary_edge(e).is_none(), "remove_secondary_edge gave a primary edge away");
        mb.diff(&content(&b)?, &BTreeSet::new()).map_err(|e| format!("remove_secondary_edge on a primary edge: {}", e))?;
    }
    let top = g.iter().map(|e| e.index()).max().unwrap_or(0);
    let mut absent: Vec<usize> = (0..top).filter(|i| !g.iter().any(|e| e.index() == *i)).collect();
    absent.push(top + 1);
    absent.push(top + 17);
    let e = EdgeIndex::new(*ctx.s.pick(&absent));
    check!(b.remove_secondary_edge(e).is_none(), "remove_secondary_edge returned an edge for an absent index");
    mb.diff(&content(&b)?, &BTreeSet::new()).map_err(|e| format!("remove_secondary_edge on an absent edge: {}", e))?;
    // remove all of them through the queries
    let mut left = mb.sec.clone();
    for p in mb.nodes.keys().cloned().collect::<Vec<_>>() {
        loop {
            let next = if ctx.s.chance(1, 2) { b.secondary_children(ni(p)).next() } else { b.secondary_children(ni(p)).last() };
            let (c, e) = match next {
                Some(x) => x,
                None => break,
            };
            let l = b[e].label().map(|l| l.to_string());
            let r = b.remove_secondary_edge(e);
            check!(r.as_ref().map(|x| (x.is_primary(), x.label().map(|l| l.to_string()))) == Some((false, l.clone())), "remove_secondary_edge returned {:?}", r);
            match left.iter().position(|x| *x == (p, c.index(), l.clone())) {
                Some(i) => {
                    left.remove(i);
                }
                None => return Err(format!("secondary_children gave an edge {} -> {} with {:?} that was not added", p, c.index(), l)),
            }
        }
    }
    check!(left.is_empty(), "secondary edges not found by secondary_children: {:?}", left);
    before.diff(&content(&b)?, &BTreeSet::new()).map_err(|e| format!("after removing all secondary edges: {}", e))?;
    ctx.class_if(full.sec.len() > 1, "several secondary edges");
    ctx.nontrivial = !full.sec.is_empty() && full.nodes.len() > 3;
    Ok(())
}

// ---- C28 ----

type Trace = Vec<String>;

/// Performs calls drawn from the stream and records everything observable on the way.
fn record(ctx: &mut Ctx, tree: &mut Tree, ops: usize, names: &mut Trace) -> Result<Trace, String> {
    let mut o: Trace = vec![];
    let mut large = 0;
    for _ in 0..ops {
        let m = match no_panic(|| content(tree)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) | Err(e) => {
                o.push(format!("broken tree: {}", e));
                return Ok(o);
            }
        };
        if big(&m, &mut large) {
            break;
        }
        let op = [
            Op::Projectivize, Op::Push, Op::InsertWord, Op::MoveWord, Op::RemoveWord, Op::Above, Op::Below, Op::RemoveNt, Op::Reattach, Op::Filter, Op::ReattachWords, Op::Intermediate, Op::Collapse, Op::Annotate,
            Op::AddSec, Op::RemoveSec,
        ][ctx.s.weighted(&[8, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 1])];
        names.push(format!("{:?}", op));
        let r = if op == Op::Projectivize {
            let se = ctx.s.chance(1, 2);
            let r = no_panic(|| tree.projectivize().map(|r| r.into_iter().map(|(p, e, c)| (p.index(), e.label().map(|l| l.to_string()), c.index())).collect::<Vec<_>>()));
            if let (true, Ok(Some(moves))) = (se, &r) {
                for (p, l, c) in moves {
                    tree.add_secondary_edge(ni(*p), ni(*c), l.clone());
                }
            }
            r.map(|x| format!("{:?}", x))
        } else {
            no_panic(|| apply(ctx, op, tree, &m)).map(|s| format!("done {} failed {} {:?}", s.done, s.failed, s.extra))
        };
        match r {
            Ok(r) => o.push(format!("{:?}: {}", op, r)),
            Err(e) => {
                o.push(format!("{:?}: {}", op, e));
                return Ok(o);
            }
        }
        o.push(format!("tree: {:?}", content(tree)));
    }
    // reading changes nothing
    let before = content(tree);
    let copy = tree.clone();
    for round in 0..2 {
        let mut out: Trace = vec![];
        for (k, v) in outputs(tree) {
            out.push(format!("{}: {:?}", k, v));
        }
        out.push(format!("NEGRA: {:?}", negra(tree)));
        out.push(format!("indices: {:?}", tree.project_nt_indices(|t, n| t[n].label() == "NP" || t[n].label() == "S")));
        if let Ok(m) = &before {
            let _ = navigation(tree, m);
        }
        check!(*tree == copy && copy == *tree, "reading access made the tree unequal to a copy made before");
        check!(content(tree) == before, "reading access changed the tree");
        if round == 0 {
            o.extend(out);
        } else {
            let at = o.len() - out.len();
            for (x, y) in o[at..].iter().zip(&out) {
                check!(x == y, "the same output twice: first {} then {}", x, y);
            }
        }
    }
    // labels and annotations that change the tree
    let mut t = tree.clone();
    t.project_ids("id", |t, n| t[n].label() == "NP" || t[n].label() == "S");
    let _ = t.annotate_parent_tag("par");
    o.push(format!("annotated: {:?}", content(&t)));
    for round in 0..2 {
        let r = no_panic(|| match round {
            0 => t.collapse_unary_chains("_").map_err(|e| e.to_string()),
            _ => t.restore_unary_chains("_").map_err(|e| e.to_string()),
        });
        o.push(format!("chains: {:?} {:?}", r, content(&t)));
        if r != Ok(Ok(())) {
            break;
        }
    }
    Ok(o)
}

const REPEAT: usize = 3;

pub fn c28(ctx: &mut Ctx) -> Res {
    if ctx.s.chance(1, 200) {
        return cli::repeated(ctx);
    }
    let disc = *ctx.s.pick(&[2u8, 2, 1]);
    let spec = gen_tree(&mut ctx.s, &Cfg { disc, max_words: 11, sec: 1, ..ANY });
    let route = *ctx.s.pick(&[Route::Negra, Route::Api, Route::Negra]);
    let saved = ctx.s.clone();
    let (tree, m) = match build_route(&mut ctx.s, &spec, route).or_else(|| build_route(&mut ctx.s, &spec, Route::Api)) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    shape_classes(ctx, &m);
    ctx.log(|| format!("tree: {}\n  ids: {}", m.render(), m.render_ids()));
    let n = ctx.s.below(4);
    let after_build = ctx.s.clone();
    let mut names = vec![];
    let mut first_tree = tree.clone();
    let first = record(ctx, &mut first_tree, n, &mut names)?;
    ctx.log(|| format!("calls: {:?}", names));
    let end = ctx.s.clone();
    let compare = |second: &Trace, how: &str| -> Res {
        for (x, y) in first.iter().zip(second) {
            check!(x == y, "{}: once\n  {}\nthen\n  {}", how, x, y);
        }
        check!(first.len() == second.len(), "{}: {} results, then {}", how, first.len(), second.len());
        Ok(())
    };
    // on a copy
    ctx.s = after_build.clone();
    let mut copy = tree.clone();
    let second = record(ctx, &mut copy, n, &mut vec![])?;
    compare(&second, "the same calls on a copy")?;
    check!(content(&tree) == Ok(m.clone()), "calls on a copy changed the original");
    // on the same tree built again (new hash tables)
    for _ in 0..REPEAT {
        ctx.s = saved.clone();
        let again = build_route(&mut ctx.s, &spec, route).or_else(|| build_route(&mut ctx.s, &spec, Route::Api));
        let mut again = match again {
            Some((t, m2)) if m2 == m => t,
            Some((_, m2)) => return Err(format!("building the tree by the same calls again gives {} instead of {}", m2.render_ids(), m.render_ids())),
            None => return Err("building the tree by the same calls again fails".into()),
        };
        ctx.s = after_build.clone();
        let second = record(ctx, &mut again, n, &mut vec![])?;
        compare(&second, "the same calls on the same tree built again")?;
    }
    ctx.s = end;
    ctx.class_if(names.iter().any(|x| x == "Projectivize") && !m.projective(), "projectivized discontinuous tree");
    ctx.class_if(!names.is_empty(), "edited");
    ctx.nontrivial = m.nodes.len() > 3;
    Ok(())
}
