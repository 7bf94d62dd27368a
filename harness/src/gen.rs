//! Generators of tree specifications and construction of real trees from them.
use crate::engine::*;
use crate::mtree::*;
use lumberjack::io::PTBFormat;
use lumberjack::{Features, NegraReader, Projectivize, Terminal, Tree};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type StrGen = fn(&mut Src) -> String;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_words: usize,
    /// 0: projective trees only, 1: mixed, 2: mostly discontinuous
    pub disc: u8,
    pub term_root: bool,
    /// weight of unary nodes
    pub unary: usize,
    pub form: StrGen,
    pub tag: StrGen,
    pub label: StrGen,
    pub root_label: Option<&'static str>,
    pub edge: Option<StrGen>,
    pub lemma: Option<StrGen>,
    pub tfeats: Option<fn(&mut Src) -> Feats>,
    pub ntfeats: Option<fn(&mut Src) -> Feats>,
    pub sec: usize,
}

pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'A', 'Z', '0', '9', 'ä', 'ß', 'é', '漢', '.', ',', ';', '!', '?', '\'', '"', '-', '_', '=', ':', '+', '~', '|', '%', '#', '$', '&', '*', '/',
    '\\', '<', '>', '[', ']', '{', '}', '(', ')', '@', '^', '`', '…', '\u{301}', '😀',
];

/// Token over CHARS without the characters in `no`; mostly short and drawn from a small pool.
pub fn token(s: &mut Src, no: &str) -> String {
    match s.weighted(&[240, 200, 40, 1]) {
        0 => s.pick(&["a", "b", "c", "the", "Haus", "x1"]).to_string(),
        k => {
            let n = match k {
                1 => s.range(1, 5),
                2 => s.range(20, 45),
                _ => s.range(46, 300),
            };
            let mut o = String::new();
            for _ in 0..n {
                let mut c = *s.pick(CHARS);
                if no.contains(c) {
                    c = 'x';
                }
                o.push(c);
            }
            o
        }
    }
}
/// Words the formats and operations give a meaning to elsewhere.
const NAMES: &[&str] = &["DUMMY", "UNK", "VROOT", "ROOT", "LBR", "RBR", "0", "500", "np", "EOS", "TOP", "1", "DUMMYX", "VROOT2", "dummy"];
fn named(s: &mut Src) -> Option<String> {
    if s.chance(1, 50) {
        Some(s.pick(NAMES).to_string())
    } else {
        None
    }
}
pub fn plain_form(s: &mut Src) -> String {
    if let Some(n) = named(s) {
        return n;
    }
    s.pick(&["a", "b", "c", "d", "e", "word", "Haus"]).to_string()
}
pub fn plain_tag(s: &mut Src) -> String {
    if let Some(n) = named(s) {
        return n;
    }
    s.pick(&["N", "V", "ART", "ADJ", "$,", "$."]).to_string()
}
pub fn plain_label(s: &mut Src) -> String {
    if let Some(n) = named(s) {
        return n;
    }
    s.pick(&["S", "NP", "VP", "PP", "X", "Y"]).to_string()
}
pub fn plain_edge(s: &mut Src) -> String {
    if let Some(n) = named(s) {
        return n;
    }
    s.pick(&["HD", "SB", "OA", "-", "MO"]).to_string()
}
pub fn plain_feats(s: &mut Src) -> Feats {
    let mut f = Feats::new();
    let n = match s.weighted(&[30, 30, 10, 10, 1]) {
        4 => s.range(4, 12),
        n => n,
    };
    for i in 0..n {
        let mut k = if s.chance(1, 25) { s.pick(&["node_annotation", "sentence_id", "metadata", "abs_ancestor", "rel_ancestor", "lemma", "NP"]).to_string() } else { s.pick(&["morph", "k", "id", "z", "tag"]).to_string() };
        if n > 3 {
            k.push_str(&i.to_string());
        }
        let v = if s.chance(1, 4) { None } else { Some(s.pick(&["v", "1", "x=y", "abc"]).to_string()) };
        f.insert(k, v);
    }
    f
}
/// Strings a caller may set that no file can hold, now and then.
fn odd(s: &mut Src, f: fn(&mut Src) -> String) -> String {
    if s.chance(1, 30) {
        s.pick(&["", "--", " ", "_", "(", ")", "=", "N", "\u{e4}\u{1F600}", "a b", "\n", "500", "NONE", "-NONE-", "%", "#", "#EOS", "|", ":", "~", "+"]).to_string()
    } else {
        f(s)
    }
}
fn odd_form(s: &mut Src) -> String {
    odd(s, plain_form)
}
fn odd_tag(s: &mut Src) -> String {
    odd(s, plain_tag)
}
fn odd_label(s: &mut Src) -> String {
    odd(s, plain_label)
}
pub fn odd_edge(s: &mut Src) -> String {
    odd(s, plain_edge)
}

pub const ANY: Cfg = Cfg {
    max_words: 9,
    disc: 1,
    term_root: true,
    unary: 2,
    form: odd_form,
    tag: odd_tag,
    label: odd_label,
    root_label: None,
    edge: Some(odd_edge),
    lemma: Some(odd_form),
    tfeats: Some(plain_feats),
    ntfeats: Some(plain_feats),
    sec: 0,
};
pub const PROJ: Cfg = Cfg { disc: 0, ..ANY };

const HUGE: usize = 300;

pub fn gen_size(s: &mut Src, max: usize) -> usize {
    // few trees are far larger than the choice vector could describe
    if max >= 5 && s.huge(HUGE) {
        s.expand();
        return match s.weighted(&[4, 3, 1]) {
            0 => s.range(30, 70),
            1 => s.range(60, 140),
            _ => s.range(120, 300),
        };
    }
    // long choice vectors allow larger trees
    let left = s.left();
    if max >= 7 && left > 600 && s.chance(2, 3) {
        return s.range(8, (left / 30).min(40));
    }
    match s.weighted(&[1, 2, 5, 3]) {
        0 => 1,
        1 => s.range(2.min(max), 3.min(max)),
        2 => s.range(2.min(max), 7.min(max)),
        _ => s.range(1, max),
    }
}

/// Random tree specification: words get ids 0..n in sentence order, nonterminals follow.
pub fn gen_tree(s: &mut Src, cfg: &Cfg) -> MTree {
    let n = gen_size(s, cfg.max_words);
    gen_tree_n(s, cfg, n)
}

pub fn gen_tree_n(s: &mut Src, cfg: &Cfg, n: usize) -> MTree {
    let mut nodes: BTreeMap<usize, MNode> = BTreeMap::new();
    for i in 0..n {
        let form = (cfg.form)(s);
        let tag = (cfg.tag)(s);
        nodes.insert(i, MNode::t(&form, &tag, i));
    }
    // forest roots in order of their first word
    let mut items: Vec<usize> = (0..n).collect();
    let mut next = n;
    let disc = match cfg.disc {
        0 => 0,
        1 => *s.pick(&[0, 0, 2, 6]),
        _ => *s.pick(&[6, 3, 10]),
    };
    let shape = s.weighted(&[24, 1, 1, 1]);
    let steps = s.range(0, 2 * n);
    let mut uchain = 0;
    // few trees have nodes with many children
    let widest = if s.chance(1, 8) { usize::MAX } else { 4 };
    for step in 0..steps {
        if items.len() == 1 && (uchain > (if shape == 3 { 12 } else { 3 }) || !s.chance(1, 2)) {
            break;
        }
        let kind = s.weighted(&[4, disc, cfg.unary]);
        let group: Vec<usize> = match kind {
            // a spine to the right or to the left
            0 if shape == 1 || shape == 2 => {
                let len = items.len().min(if s.chance(1, 4) { 3 } else { 2 });
                if shape == 1 {
                    items[items.len() - len..].to_vec()
                } else {
                    items[..len].to_vec()
                }
            }
            // one long chain of unary nodes
            2 if shape == 3 && step > 0 && nodes.contains_key(&(next - 1)) && next > n => vec![next - 1],
            0 => {
                // contiguous run of forest roots
                let len = s.range(1, items.len().min(widest));
                let len = if len == 1 && items.len() > 1 { 2 } else { len };
                let at = s.below(items.len() - len + 1);
                items[at..at + len].to_vec()
            }
            1 => {
                let k = s.range(2.min(items.len()), items.len().min(widest));
                let mut pool = items.clone();
                s.shuffle(&mut pool);
                pool.truncate(k);
                pool
            }
            _ => {
                uchain += 1;
                vec![*s.pick(&items)]
            }
        };
        if group.len() == 1 && (cfg.unary == 0 || nodes.len() > 4 * n + 4) {
            continue;
        }
        let label = (cfg.label)(s);
        nodes.insert(next, MNode::nt(&label));
        for g in &group {
            nodes.get_mut(g).unwrap().parent = Some(next);
        }
        let first = items.iter().position(|i| group.contains(i)).unwrap();
        items[first] = next;
        items.retain(|i| !group.contains(i));
        next += 1;
    }
    let root = if items.len() == 1 && (!nodes[&items[0]].is_t() || (cfg.term_root && s.chance(1, 2))) {
        items[0]
    } else {
        let label = (cfg.label)(s);
        nodes.insert(next, MNode::nt(&label));
        for g in &items {
            nodes.get_mut(g).unwrap().parent = Some(next);
        }
        next
    };
    if let (Some(l), false) = (cfg.root_label, nodes[&root].is_t()) {
        nodes.get_mut(&root).unwrap().label = l.into();
    }
    let mut t = MTree { nodes, root, sec: vec![] };
    let p_edge = if cfg.edge.is_some() { *s.pick(&[0usize, 5, 9]) } else { 0 };
    let p_feat = *s.pick(&[0usize, 3, 8]);
    for (i, x) in t.nodes.iter_mut() {
        if *i != root && p_edge > 0 && s.chance(p_edge, 10) {
            x.edge = Some((cfg.edge.unwrap())(s));
        }
        if p_feat > 0 && s.chance(p_feat, 10) {
            if x.is_t() {
                if let Some(f) = cfg.tfeats {
                    x.feats = f(s);
                }
            } else if let Some(f) = cfg.ntfeats {
                x.feats = f(s);
            }
        }
        if let (Some(t), Some(f)) = (x.term.as_mut(), cfg.lemma) {
            if p_feat > 0 && s.chance(p_feat, 10) {
                t.lemma = Some(f(s));
            }
        }
    }
    let ids: Vec<usize> = t.nodes.keys().cloned().collect();
    for _ in 0..if cfg.sec > 0 { s.below(cfg.sec + 1) } else { 0 } {
        let p = *s.pick(&ids);
        let c = *s.pick(&ids);
        if p != c {
            let l = if s.chance(1, 3) { None } else { Some(odd_edge(s)) };
            t.sec.push((p, c, l));
        }
    }
    t.sec.sort();
    t
}

/// Renames node ids.
pub fn remap(t: &MTree, map: &HashMap<usize, usize>) -> MTree {
    let nodes = t
        .nodes
        .iter()
        .map(|(i, n)| {
            let mut n = n.clone();
            n.parent = n.parent.map(|p| map[&p]);
            (map[i], n)
        })
        .collect();
    let mut sec: Vec<_> = t.sec.iter().map(|(p, c, l)| (map[p], map[c], l.clone())).collect();
    sec.sort();
    MTree { nodes, root: map[&t.root], sec }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    Api,
    Negra,
    Bracket,
}

fn fill(tree: &mut Tree, spec: &MTree, map: &HashMap<usize, usize>) {
    for (i, x) in &spec.nodes {
        let r = ni(map[i]);
        tree[r].set_label(x.label.clone());
        if x.feats.is_empty() {
            tree[r].set_features(None);
        } else {
            tree[r].set_features(Some(x.feats.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Features>()));
        }
        if let Some(t) = &x.term {
            let term = tree[r].terminal_mut().unwrap();
            term.set_form(t.form.clone());
            term.set_lemma(t.lemma.clone());
        }
        if x.parent.is_some() {
            let e = edge_of(tree, map[i]);
            tree[e].set_label(x.edge.clone());
        }
    }
    for (p, c, l) in &spec.sec {
        tree.add_secondary_edge(ni(map[p]), ni(map[c]), l.clone());
    }
}

fn build_api(s: &mut Src, spec: &MTree) -> (Tree, HashMap<usize, usize>) {
    let mut words = spec.words();
    s.shuffle(&mut words);
    let churn = s.chance(1, 3);
    let mut map: HashMap<usize, usize> = HashMap::new();
    let mut placed: Vec<usize> = vec![];
    let t0 = words[0];
    let mut tree = Tree::new("w", "T");
    map.insert(t0, tree.root().index());
    let mut cur = tree.root();
    for a in spec.ancestors(t0) {
        cur = tree.insert_unary_above(cur, "N");
        map.insert(a, cur.index());
    }
    placed.push(spec.pos(t0));
    for w in words.into_iter().skip(1) {
        if churn && s.chance(1, 2) {
            // leaves a free slot in the storage
            let anc = *s.pick(&map.values().cloned().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>());
            if tree.parent(ni(anc)).is_some() {
                let x = tree.insert_unary_above(ni(anc), "DEL");
                tree.remove_node(x).expect("remove inserted node");
            }
        }
        let at = placed.iter().filter(|p| **p < spec.pos(w)).count();
        let mut missing = vec![];
        let mut top = None;
        for a in spec.ancestors(w) {
            if let Some(r) = map.get(&a) {
                top = Some(*r);
                break;
            }
            missing.push(a);
        }
        let t = tree.insert_terminal(ni(top.expect("root exists")), Terminal::new("w", "T", at));
        map.insert(w, t.index());
        let mut cur = t;
        for a in missing {
            cur = tree.insert_unary_above(cur, "N");
            map.insert(a, cur.index());
        }
        placed.push(spec.pos(w));
    }
    (tree, map)
}

fn label_map(tree: &Tree, spec: &MTree) -> Option<HashMap<usize, usize>> {
    let mut map = HashMap::new();
    let words = spec.words();
    for i in tree.graph().node_indices() {
        match tree[i].terminal() {
            Some(t) => {
                map.insert(*words.get(t.idx())?, i.index());
            }
            None => {
                let l = tree[i].label();
                let id = if l == "VROOT" { spec.root } else { l.trim_start_matches('N').parse().ok()? };
                map.insert(id, i.index());
            }
        }
    }
    if map.len() == spec.nodes.len() && spec.nodes.keys().all(|k| map.contains_key(k)) {
        Some(map)
    } else {
        None
    }
}

fn build_negra(spec: &MTree) -> Option<(Tree, HashMap<usize, usize>)> {
    let mut o = String::from("#BOS 1\n");
    let id = |n: usize| if n == spec.root { 0 } else { 500 + n };
    for w in spec.words() {
        o.push_str(&format!("w -- T -- -- {}\n", id(spec.parent(w)?)));
    }
    let mut nts = spec.nts();
    nts.sort_by_key(|n| usize::MAX - spec.ancestors(*n).len());
    for n in nts {
        if n != spec.root {
            o.push_str(&format!("#{} -- N{} -- -- {}\n", id(n), n, id(spec.parent(n)?)));
        }
    }
    o.push_str("#EOS 1\n");
    let tree = NegraReader::new(o.as_bytes()).next()?.ok()?;
    let map = label_map(&tree, spec)?;
    Some((tree, map))
}

fn simple_brackets(spec: &MTree, n: usize, ys: &BTreeMap<usize, Vec<usize>>, o: &mut String) {
    if spec.is_t(n) {
        o.push_str("(T w)");
        return;
    }
    o.push_str(&format!("(N{}", n));
    let mut k = spec.children(n);
    k.sort_by_key(|c| ys[c][0]);
    for c in k {
        o.push(' ');
        simple_brackets(spec, c, ys, o);
    }
    o.push(')');
}

fn build_bracket(spec: &MTree) -> Option<(Tree, HashMap<usize, usize>)> {
    let mut o = String::new();
    simple_brackets(spec, spec.root, &spec.yields(), &mut o);
    let tree = PTBFormat::Simple.string_to_tree(&o).ok()?;
    let map = label_map(&tree, spec)?;
    Some((tree, map))
}

/// Builds the tree through one route. None: the route is not applicable or did not deliver the
/// specified tree (which is the business of the properties of that route, not of the caller).
pub fn build_route(s: &mut Src, spec: &MTree, route: Route) -> Option<(Tree, MTree)> {
    let r = no_panic(|| {
        let built = match route {
            Route::Api => Some(build_api(s, spec)),
            Route::Negra if !spec.is_t(spec.root) => build_negra(spec),
            Route::Bracket if spec.projective() => build_bracket(spec),
            _ => None,
        };
        built.and_then(|(mut tree, map)| {
            fill(&mut tree, spec, &map);
            let snap = snapshot(&tree).ok()?;
            if snap == remap(spec, &map) {
                Some((tree, snap))
            } else {
                None
            }
        })
    });
    r.unwrap_or(None)
}

/// Builds the specified tree, preferring a randomly chosen route. The model returned has the ids
/// of the real tree.
pub fn build(ctx: &mut Ctx, spec: &MTree) -> Option<(Tree, MTree)> {
    let first = *ctx.s.pick(&[Route::Api, Route::Negra, Route::Bracket, Route::Api]);
    for r in &[first, Route::Negra, Route::Api, Route::Bracket] {
        if let Some(x) = build_route(&mut ctx.s, spec, *r) {
            ctx.class(match r {
                Route::Api => "built by editing calls",
                Route::Negra => "built by the NEGRA reader",
                Route::Bracket => "built by the bracket reader",
            });
            return Some(x);
        }
    }
    None
}

/// Random tree with a model of it; classifies the shape.
pub fn any_tree(ctx: &mut Ctx, cfg: &Cfg) -> Option<(Tree, MTree)> {
    let spec = gen_tree(&mut ctx.s, cfg);
    let r = build(ctx, &spec);
    if let Some((_, m)) = &r {
        shape_classes(ctx, m);
        ctx.log(|| format!("tree: {}\n  ids: {}", m.render(), m.render_ids()));
    }
    r
}

pub fn shape_classes(ctx: &mut Ctx, m: &MTree) {
    let disc = m.discontinuous();
    ctx.class_if(!disc.is_empty(), "discontinuous tree");
    ctx.class_if(disc.len() > 1, "several discontinuous nodes");
    ctx.class_if(!m.unary().is_empty(), "unary node");
    ctx.class_if(m.n_words() == 1, "one word");
    ctx.class_if(m.is_t(m.root), "terminal root");
    ctx.class_if(m.depth() >= 4, "depth 4 or more");
    ctx.class_if(m.depth() >= 20, "depth 20 or more");
    ctx.class_if(m.n_words() >= 30, "30 words or more");
    ctx.class_if(m.n_words() >= 130, "130 words or more");
    let w = m.words();
    ctx.class_if(w.windows(2).any(|p| p[0] > p[1]), "storage order differs from sentence order");
    ctx.class_if(!m.sec.is_empty(), "secondary edges");
}

/// Picks a word / nonterminal / any node by id.
pub fn pick_word(s: &mut Src, m: &MTree) -> usize {
    let w = m.words();
    *s.pick(&w)
}
pub fn pick_node(s: &mut Src, m: &MTree) -> usize {
    let w: Vec<usize> = m.nodes.keys().cloned().collect();
    *s.pick(&w)
}
pub fn pick_nt(s: &mut Src, m: &MTree) -> Option<usize> {
    let w = m.nts();
    if w.is_empty() {
        None
    } else {
        Some(*s.pick(&w))
    }
}

pub fn projectivized(t: &Tree) -> Tree {
    let mut t = t.clone();
    t.projectivize();
    t
}
