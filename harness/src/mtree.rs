//! Reference model of a constituency tree, independent of the crate's own bookkeeping, and the
//! well-formedness check / snapshot of a real tree.
use lumberjack::{Continuity, Edge, Tree};
use petgraph::prelude::{Direction, EdgeIndex, EdgeRef, NodeIndex};
use std::collections::{BTreeMap, BTreeSet};

pub type Feats = BTreeMap<String, Option<String>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTerm {
    pub form: String,
    pub lemma: Option<String>,
    pub pos: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MNode {
    pub term: Option<MTerm>,
    pub label: String,
    /// absent features and empty features are the same
    pub feats: Feats,
    pub parent: Option<usize>,
    /// label of the incoming primary edge
    pub edge: Option<String>,
}

impl MNode {
    pub fn is_t(&self) -> bool {
        self.term.is_some()
    }
    pub fn nt(label: &str) -> MNode {
        MNode { term: None, label: label.into(), feats: Feats::new(), parent: None, edge: None }
    }
    pub fn t(form: &str, pos: &str, idx: usize) -> MNode {
        MNode { term: Some(MTerm { form: form.into(), lemma: None, pos: idx }), label: pos.into(), feats: Feats::new(), parent: None, edge: None }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTree {
    pub nodes: BTreeMap<usize, MNode>,
    pub root: usize,
    /// secondary edges (parent, child, label), sorted
    pub sec: Vec<(usize, usize, Option<String>)>,
}

/// Tree content without node identities: children in order of their first word.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Canon {
    pub term: Option<MTerm>,
    pub label: String,
    pub feats: Feats,
    pub edge: Option<String>,
    pub kids: Vec<Canon>,
}

#[derive(Clone, Copy, Debug)]
pub struct View {
    pub lemma: bool,
    pub edges: bool,
    pub tfeats: bool,
    pub ntfeats: bool,
    pub ntlabels: bool,
}

pub const FULL: View = View { lemma: true, edges: true, tfeats: true, ntfeats: true, ntlabels: true };
pub const NOEDGE: View = View { lemma: true, edges: false, tfeats: true, ntfeats: true, ntlabels: true };
/// words, tags, nesting, node labels
pub const SHAPE: View = View { lemma: false, edges: false, tfeats: false, ntfeats: false, ntlabels: true };

impl MTree {
    pub fn is_t(&self, n: usize) -> bool {
        self.nodes[&n].is_t()
    }
    pub fn n_words(&self) -> usize {
        self.nodes.values().filter(|n| n.is_t()).count()
    }
    /// Words sorted by position.
    pub fn words(&self) -> Vec<usize> {
        let mut w: Vec<usize> = self.nodes.iter().filter(|(_, n)| n.is_t()).map(|(i, _)| *i).collect();
        w.sort_by_key(|i| self.nodes[i].term.as_ref().unwrap().pos);
        w
    }
    pub fn pos(&self, n: usize) -> usize {
        self.nodes[&n].term.as_ref().unwrap().pos
    }
    pub fn nts(&self) -> Vec<usize> {
        self.nodes.iter().filter(|(_, n)| !n.is_t()).map(|(i, _)| *i).collect()
    }
    pub fn parent(&self, n: usize) -> Option<usize> {
        self.nodes[&n].parent
    }
    pub fn child_map(&self) -> BTreeMap<usize, Vec<usize>> {
        let mut m: BTreeMap<usize, Vec<usize>> = self.nodes.keys().map(|k| (*k, vec![])).collect();
        for (i, n) in &self.nodes {
            if let Some(p) = n.parent {
                m.get_mut(&p).unwrap().push(*i);
            }
        }
        m
    }
    pub fn children(&self, n: usize) -> Vec<usize> {
        self.nodes.iter().filter(|(_, x)| x.parent == Some(n)).map(|(i, _)| *i).collect()
    }
    /// Proper ancestors, nearest first.
    pub fn ancestors(&self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut cur = n;
        while let Some(p) = self.nodes[&cur].parent {
            v.push(p);
            cur = p;
        }
        v
    }
    /// node -> sorted positions below (or of) it
    pub fn yields(&self) -> BTreeMap<usize, Vec<usize>> {
        let mut m: BTreeMap<usize, Vec<usize>> = self.nodes.keys().map(|k| (*k, vec![])).collect();
        for w in self.words() {
            let p = self.pos(w);
            m.get_mut(&w).unwrap().push(p);
            for a in self.ancestors(w) {
                m.get_mut(&a).unwrap().push(p);
            }
        }
        m
    }
    pub fn words_below(&self, n: usize) -> BTreeSet<usize> {
        self.words().into_iter().filter(|w| *w == n || self.ancestors(*w).contains(&n)).collect()
    }
    pub fn discontinuous(&self) -> Vec<usize> {
        self.yields().iter().filter(|(_, y)| y.last().unwrap() - y[0] + 1 != y.len()).map(|(n, _)| *n).collect()
    }
    pub fn projective(&self) -> bool {
        self.discontinuous().is_empty()
    }
    pub fn depth(&self) -> usize {
        self.words().iter().map(|w| self.ancestors(*w).len()).max().unwrap_or(0)
    }
    /// Single-child nonterminals.
    pub fn unary(&self) -> Vec<usize> {
        self.child_map().iter().filter(|(n, c)| c.len() == 1 && !self.is_t(**n)).map(|(n, _)| *n).collect()
    }
    pub fn canon(&self, v: View) -> Canon {
        let kids = self.child_map();
        let ys = self.yields();
        self.canon_at(self.root, v, &kids, &ys)
    }
    fn canon_at(&self, n: usize, v: View, kids: &BTreeMap<usize, Vec<usize>>, ys: &BTreeMap<usize, Vec<usize>>) -> Canon {
        let x = &self.nodes[&n];
        let mut ks = kids[&n].clone();
        ks.sort_by_key(|k| ys[k].first().cloned().unwrap_or(usize::MAX));
        let mut term = x.term.clone();
        if let Some(t) = term.as_mut() {
            if !v.lemma {
                t.lemma = None;
            }
        }
        let feats = if (x.is_t() && v.tfeats) || (!x.is_t() && v.ntfeats) { x.feats.clone() } else { Feats::new() };
        Canon {
            term,
            label: if x.is_t() || v.ntlabels { x.label.clone() } else { String::new() },
            feats,
            edge: if v.edges { x.edge.clone() } else { None },
            kids: ks.into_iter().map(|k| self.canon_at(k, v, kids, ys)).collect(),
        }
    }
    pub fn render(&self) -> String {
        fn go(c: &Canon, o: &mut String) {
            o.push('(');
            o.push_str(&c.label);
            if let Some(e) = &c.edge {
                o.push_str(&format!(":{}", e));
            }
            if !c.feats.is_empty() {
                o.push_str(&format!("{:?}", c.feats));
            }
            if let Some(t) = &c.term {
                o.push_str(&format!(" {}={:?}", t.pos, t.form));
                if let Some(l) = &t.lemma {
                    o.push_str(&format!("/{}", l));
                }
            }
            for k in &c.kids {
                o.push(' ');
                go(k, o);
            }
            o.push(')');
        }
        let mut s = String::new();
        go(&self.canon(FULL), &mut s);
        if !self.sec.is_empty() {
            s.push_str(&format!(" sec={:?}", self.sec));
        }
        s
    }
    /// Like `render`, with node ids.
    pub fn render_ids(&self) -> String {
        let mut s = format!("root={} ", self.root);
        for (i, n) in &self.nodes {
            match &n.term {
                Some(t) => s.push_str(&format!("[{}: {}/{}@{} ^{:?}:{:?}] ", i, t.form, n.label, t.pos, n.parent, n.edge)),
                None => s.push_str(&format!("[{}: {} ^{:?}:{:?}] ", i, n.label, n.parent, n.edge)),
            }
        }
        if !self.sec.is_empty() {
            s.push_str(&format!("sec={:?}", self.sec));
        }
        s
    }

    // ---- model operations ----

    fn shift_from(&mut self, at: usize, up: bool) {
        for n in self.nodes.values_mut() {
            if let Some(t) = n.term.as_mut() {
                if up && t.pos >= at {
                    t.pos += 1;
                } else if !up && t.pos > at {
                    t.pos -= 1;
                }
            }
        }
    }
    pub fn insert_word(&mut self, id: usize, parent: usize, form: &str, tag: &str, at: usize) {
        self.shift_from(at, true);
        let mut n = MNode::t(form, tag, at);
        n.parent = Some(parent);
        self.nodes.insert(id, n);
    }
    pub fn move_word(&mut self, w: usize, to: usize) {
        let from = self.pos(w);
        self.shift_from(from, false);
        // w itself still has `from`; give it a neutral position while shifting
        self.nodes.get_mut(&w).unwrap().term.as_mut().unwrap().pos = usize::MAX - 1;
        for n in self.nodes.values_mut() {
            if let Some(t) = n.term.as_mut() {
                if t.pos >= to && t.pos < usize::MAX - 1 {
                    t.pos += 1;
                }
            }
        }
        self.nodes.get_mut(&w).unwrap().term.as_mut().unwrap().pos = to;
    }
    fn drop_node(&mut self, n: usize) {
        self.nodes.remove(&n);
        self.sec.retain(|(p, c, _)| *p != n && *c != n);
    }
    pub fn remove_word(&mut self, w: usize) {
        let at = self.pos(w);
        self.drop_node(w);
        self.shift_from(at, false);
    }
    pub fn insert_above(&mut self, id: usize, child: usize, label: &str) {
        let mut n = MNode::nt(label);
        n.parent = self.nodes[&child].parent;
        if n.parent.is_none() {
            self.root = id;
        }
        self.nodes.insert(id, n);
        self.nodes.get_mut(&child).unwrap().parent = Some(id);
    }
    pub fn insert_below(&mut self, id: usize, node: usize, label: &str) {
        for c in self.children(node) {
            self.nodes.get_mut(&c).unwrap().parent = Some(id);
        }
        let mut n = MNode::nt(label);
        n.parent = Some(node);
        self.nodes.insert(id, n);
    }
    /// Removes a nonterminal: children go to its parent, or its only child becomes the root.
    pub fn remove_nt(&mut self, n: usize) {
        let p = self.nodes[&n].parent;
        for c in self.children(n) {
            let x = self.nodes.get_mut(&c).unwrap();
            x.parent = p;
            if p.is_none() {
                x.edge = None;
                self.root = c;
            }
        }
        self.drop_node(n);
    }
    pub fn attach(&mut self, n: usize, p: usize) {
        let x = self.nodes.get_mut(&n).unwrap();
        x.parent = Some(p);
    }
    pub fn set_edge(&mut self, n: usize, e: Option<&str>) {
        self.nodes.get_mut(&n).unwrap().edge = e.map(|s| s.to_string());
    }
    pub fn add_sec(&mut self, p: usize, c: usize, l: Option<&str>) {
        self.sec.push((p, c, l.map(|s| s.to_string())));
        self.sec.sort();
    }
    /// Removal of all nonterminals (other than the root) not accepted.
    pub fn filter(&mut self, keep: &dyn Fn(&MTree, usize) -> bool) {
        for n in self.nts() {
            if n != self.root && !keep(self, n) {
                self.remove_nt(n);
            }
        }
    }
    /// Restriction to the content a comparison looks at; edges of `free` nodes are ignored.
    pub fn diff(&self, real: &MTree, free: &BTreeSet<usize>) -> Result<(), String> {
        if self.root != real.root {
            return Err(format!("root is {} instead of {}", real.root, self.root));
        }
        let a: Vec<_> = self.nodes.keys().collect();
        let b: Vec<_> = real.nodes.keys().collect();
        if a != b {
            return Err(format!("nodes are {:?} instead of {:?}", b, a));
        }
        for (i, x) in &self.nodes {
            let y = &real.nodes[i];
            let mut y2 = y.clone();
            if free.contains(i) {
                y2.edge = x.edge.clone();
            }
            if *x != y2 {
                return Err(format!("node {} is {:?} instead of {:?}", i, y, x));
            }
        }
        if self.sec != real.sec {
            return Err(format!("secondary edges are {:?} instead of {:?}", real.sec, self.sec));
        }
        Ok(())
    }
}

pub fn ni(i: usize) -> NodeIndex {
    NodeIndex::new(i)
}

/// Full structural check of a real tree through its public interface; returns its content.
/// Err describes the first violated well-formedness condition.
pub fn snapshot(tree: &Tree) -> Result<MTree, String> {
    let m = content(tree)?;
    spans_ok(tree, &m)?;
    Ok(m)
}

/// Like `snapshot` without looking at the spans of nonterminals and the projectivity answer.
pub fn content(tree: &Tree) -> Result<MTree, String> {
    let g = tree.graph();
    let mut nodes: BTreeMap<usize, MNode> = BTreeMap::new();
    let mut sec = vec![];
    for i in g.node_indices() {
        let n = &g[i];
        let feats = n.features().map(|f| f.inner().clone()).unwrap_or_default();
        let term = n.terminal().map(|t| MTerm { form: t.form().into(), lemma: t.lemma().map(|l| l.into()), pos: t.idx() });
        let mut parent = None;
        let mut edge = None;
        let mut n_in = 0;
        for e in g.edges_directed(i, Direction::Incoming) {
            match e.weight() {
                Edge::Primary(l) => {
                    n_in += 1;
                    parent = Some(e.source().index());
                    edge = l.clone();
                }
                Edge::Secondary(l) => sec.push((e.source().index(), i.index(), l.clone())),
            }
        }
        if n_in > 1 {
            return Err(format!("node {} has {} parents", i.index(), n_in));
        }
        nodes.insert(i.index(), MNode { term, label: n.label().into(), feats, parent, edge });
    }
    sec.sort();
    let root = tree.root().index();
    if !nodes.contains_key(&root) {
        return Err(format!("root {} is not a node of the tree", root));
    }
    if nodes[&root].parent.is_some() {
        return Err(format!("root {} has a parent", root));
    }
    let m = MTree { nodes, root, sec };
    let kids = m.child_map();
    let mut n_t = 0;
    for (i, n) in &m.nodes {
        if n.parent.is_none() && *i != root {
            return Err(format!("node {} has no parent but is not the root", i));
        }
        if n.is_t() {
            n_t += 1;
            if !kids[i].is_empty() {
                return Err(format!("terminal {} has children", i));
            }
        } else if kids[i].is_empty() {
            return Err(format!("nonterminal {} has no children", i));
        }
        // reachability / no cycle
        let mut cur = *i;
        let mut steps = 0;
        while let Some(p) = m.nodes[&cur].parent {
            cur = p;
            steps += 1;
            if steps > m.nodes.len() {
                return Err(format!("node {} is on or below a cycle", i));
            }
        }
        if cur != root {
            return Err(format!("node {} is not below the root", i));
        }
    }
    if tree.n_terminals() != n_t {
        return Err(format!("n_terminals() is {} but there are {} terminals", tree.n_terminals(), n_t));
    }
    let positions: Vec<usize> = m.words().iter().map(|w| m.pos(*w)).collect();
    if positions != (0..n_t).collect::<Vec<_>>() {
        return Err(format!("terminal positions are {:?}", positions));
    }
    Ok(m)
}

pub fn spans_ok(tree: &Tree, m: &MTree) -> Result<(), String> {
    let g = tree.graph();
    let ys = m.yields();
    let mut disc = false;
    for (i, y) in &ys {
        let span = g[ni(*i)].span();
        let got: Vec<usize> = span.into_iter().collect();
        if got != *y {
            return Err(format!("span of node {} covers {:?}, the words below it are at {:?}", i, got, y));
        }
        let (lo, hi) = (y[0], y[y.len() - 1] + 1);
        if span.start != lo || span.end != hi {
            return Err(format!("span of node {} has bounds {}..{} instead of {}..{}", i, span.start, span.end, lo, hi));
        }
        let gaps: BTreeSet<usize> = (lo..hi).filter(|p| !y.contains(p)).collect();
        let skips: Option<BTreeSet<usize>> = span.skips().map(|s| s.iter().cloned().collect());
        let want = if gaps.is_empty() { None } else { Some(gaps.clone()) };
        if skips != want {
            return Err(format!("span of node {} skips {:?} instead of {:?}", i, skips, want));
        }
        if (g[ni(*i)].continuity() == Continuity::Continuous) != gaps.is_empty() {
            return Err(format!("continuity of node {} is wrong", i));
        }
        disc |= !gaps.is_empty();
    }
    if tree.is_projective() == disc {
        return Err(format!("is_projective() is {} but discontinuous nodes: {:?}", tree.is_projective(), m.discontinuous()));
    }
    Ok(())
}

/// The primary edge that attaches `n`.
pub fn edge_of(tree: &Tree, n: usize) -> EdgeIndex {
    tree.graph().edges_directed(ni(n), Direction::Incoming).find(|e| e.weight().is_primary()).expect("edge").id()
}
