//! Independent writers and readers of the text formats, over the reference model.
use crate::engine::Src;
use crate::mtree::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Simple,
    Ptb,
    TueBa,
}
pub const FMTS: &[Fmt] = &[Fmt::Simple, Fmt::Ptb, Fmt::TueBa];

impl Fmt {
    pub fn real(self) -> lumberjack::io::PTBFormat {
        match self {
            Fmt::Simple => lumberjack::io::PTBFormat::Simple,
            Fmt::Ptb => lumberjack::io::PTBFormat::PTB,
            Fmt::TueBa => lumberjack::io::PTBFormat::TueBa,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Simple => "simple",
            Fmt::Ptb => "ptb",
            Fmt::TueBa => "tueba",
        }
    }
}

pub const ANN: &str = "node_annotation";

pub fn annotation(n: &MNode) -> Option<&str> {
    n.feats.get(ANN).and_then(|v| v.as_ref()).map(|s| s.as_str())
}

pub fn node_text(n: &MNode, fmt: Fmt) -> String {
    let mut o = n.label.clone();
    if !n.is_t() {
        if let Some(a) = annotation(n) {
            match fmt {
                Fmt::Simple => (),
                Fmt::Ptb => o.push_str(&format!("-{}", a)),
                Fmt::TueBa => o.push_str(&format!("={}", a)),
            }
        }
    }
    if fmt == Fmt::TueBa {
        o.push_str(&format!(":{}", n.edge.as_ref().map(|s| s.as_str()).unwrap_or("--")));
    }
    o
}

/// Token sequence of a projective tree: "(", ")", labels and words.
pub fn bracket_tokens(m: &MTree, fmt: Fmt) -> Vec<String> {
    let kids = m.child_map();
    let ys = m.yields();
    let mut o = vec![];
    go_brackets(m, m.root, fmt, &kids, &ys, &mut o);
    o
}
fn go_brackets(m: &MTree, n: usize, fmt: Fmt, kids: &BTreeMap<usize, Vec<usize>>, ys: &BTreeMap<usize, Vec<usize>>, o: &mut Vec<String>) {
    let x = &m.nodes[&n];
    o.push("(".into());
    o.push(node_text(x, fmt));
    match &x.term {
        Some(t) => o.push(t.form.clone()),
        None => {
            let mut ks = kids[&n].clone();
            ks.sort_by_key(|k| ys[k][0]);
            for k in ks {
                go_brackets(m, k, fmt, kids, ys, o);
            }
        }
    }
    o.push(")".into());
}

pub fn canonical(toks: &[String], fmt: Fmt) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        let word = t != "(" && t != ")";
        if i > 0 {
            let prev_word = toks[i - 1] != "(" && toks[i - 1] != ")";
            if word && prev_word || (t == "(" && fmt != Fmt::TueBa) {
                o.push(' ');
            }
        }
        o.push_str(t);
    }
    o
}

/// The tokens with random blanks between them (and, if wanted, around them).
pub fn layout(s: &mut Src, toks: &[String], ws: &[&str], lead: bool, trail: bool) -> String {
    let mut o = String::new();
    let dense = s.below(4);
    for (i, t) in toks.iter().enumerate() {
        let need = i > 0 && ![&toks[i - 1], t].iter().any(|t| *t == "(" || *t == ")");
        let mut k = match dense {
            0 => 0,
            1 => s.below(2),
            2 => s.weighted(&[4, 2, 1]),
            _ => s.range(1, 2),
        };
        if need && k == 0 {
            k = 1;
        }
        if i == 0 && !lead {
            k = 0;
        }
        for _ in 0..k {
            o.push_str(*s.pick(ws));
        }
        o.push_str(t);
    }
    if trail {
        for _ in 0..s.below(3) {
            o.push_str(*s.pick(ws));
        }
    }
    o
}

fn lex(text: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        if c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\r' {
            if !cur.is_empty() {
                o.push(std::mem::take(&mut cur));
            }
            if c == '(' || c == ')' {
                o.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        o.push(cur);
    }
    o
}

fn split_label(text: &str, fmt: Fmt, term: bool) -> (String, Option<String>, Option<String>) {
    match fmt {
        Fmt::Simple => (text.into(), None, None),
        Fmt::Ptb if term => (text.into(), None, None),
        Fmt::Ptb if text.starts_with('-') => (text.into(), None, None),
        Fmt::Ptb => match text.char_indices().skip(1).find(|(_, c)| *c == '-') {
            Some((i, _)) => (text[..i].into(), Some(text[i + 1..].into()), None),
            None => (text.into(), None, None),
        },
        Fmt::TueBa => {
            let (tag, edge) = match text.find(':') {
                Some(i) => (&text[..i], Some(text[i + 1..].to_string()).filter(|e| e != "--")),
                None => (text, None),
            };
            match tag.find('=') {
                Some(i) => (tag[..i].into(), Some(tag[i + 1..].into()), edge),
                None => (tag.into(), None, edge),
            }
        }
    }
}

/// All bracketed trees of a text.
pub fn parse_brackets(text: &str, fmt: Fmt) -> Result<Vec<MTree>, String> {
    let toks = lex(text);
    let mut out = vec![];
    let mut i = 0;
    while i < toks.len() {
        let mut nodes: BTreeMap<usize, MNode> = BTreeMap::new();
        let mut stack: Vec<usize> = vec![];
        let mut pos = 0;
        let mut next = 0;
        loop {
            match toks.get(i).map(|s| s.as_str()) {
                Some("(") => {
                    let label = toks.get(i + 1).filter(|t| *t != "(" && *t != ")").ok_or("label expected")?;
                    let form = toks.get(i + 2).filter(|t| *t != "(" && *t != ")");
                    let (l, a, e) = split_label(label, fmt, form.is_some());
                    let mut n = match form {
                        Some(f) => {
                            pos += 1;
                            MNode::t(f, &l, pos - 1)
                        }
                        None => MNode::nt(&l),
                    };
                    if let (Some(a), None) = (a, form) {
                        n.feats.insert(ANN.into(), Some(a));
                    }
                    n.parent = stack.last().cloned();
                    n.edge = if n.parent.is_some() { e } else { None };
                    nodes.insert(next, n);
                    if form.is_some() {
                        if toks.get(i + 3).map(|s| s.as_str()) != Some(")") {
                            return Err(") expected".into());
                        }
                        i += 4;
                    } else {
                        stack.push(next);
                        i += 2;
                    }
                    next += 1;
                }
                Some(")") => {
                    let n = stack.pop().ok_or("too many )")?;
                    if !nodes.values().any(|x| x.parent == Some(n)) {
                        return Err("node without children".into());
                    }
                    i += 1;
                }
                t => return Err(format!("unexpected {:?}", t)),
            }
            if stack.is_empty() {
                break;
            }
        }
        out.push(MTree { nodes, root: 0, sec: vec![] });
    }
    Ok(out)
}

// ---- NEGRA ----

fn sp(s: &mut Src) -> String {
    s.pick(&["\t", "\t\t", " ", "   ", "\t \t"]).to_string()
}

/// Random NEGRA rendering of a tree with a nonterminal root: ids, line order, spacing and comments
/// are random. `#BOS` carries the root's sentence_id and metadata.
pub fn negra_random(s: &mut Src, m: &MTree) -> String {
    let nts: Vec<usize> = m.nts().into_iter().filter(|n| *n != m.root).collect();
    // ids: injective, 0 is the root
    let mut ids: HashMap<usize, usize> = HashMap::new();
    ids.insert(m.root, 0);
    match s.below(3) {
        0 => {
            for (k, n) in nts.iter().enumerate() {
                ids.insert(*n, 500 + k);
            }
        }
        1 => {
            let mut pool: Vec<usize> = (1..=nts.len() + 3).collect();
            s.shuffle(&mut pool);
            for (n, i) in nts.iter().zip(pool) {
                ids.insert(*n, i);
            }
        }
        _ => {
            let base = *s.pick(&[500usize, 1, 999_990, 4_000_000_000]);
            let step = s.range(1, 7);
            let mut pool: Vec<usize> = (0..nts.len()).map(|i| base + i * step).collect();
            s.shuffle(&mut pool);
            for (n, i) in nts.iter().zip(pool) {
                ids.insert(*n, i);
            }
        }
    }
    let root = &m.nodes[&m.root];
    let sid = root.feats["sentence_id"].clone().unwrap();
    let mut o = format!("#BOS {}", sid);
    if let Some(Some(meta)) = root.feats.get("metadata") {
        o.push_str(*s.pick(&[" ", "  ", "\t"]));
        o.push_str(meta);
    }
    o.push('\n');
    let tail = |s: &mut Src, n: usize| {
        let x = &m.nodes[&n];
        let mut t = format!("{}{}{}", x.edge.as_ref().map(|e| e.as_str()).unwrap_or("--"), sp(s), ids[&x.parent.unwrap()]);
        if let Some((p, _, l)) = m.sec.iter().find(|e| e.1 == n) {
            t.push_str(&format!("{}{}{}{}", sp(s), l.as_ref().map(|e| e.as_str()).unwrap_or("--"), sp(s), ids[p]));
        }
        match s.below(8) {
            0 => t.push_str(&format!("{}%% comment with words 12", sp(s))),
            1 => t.push_str(&format!("{}%", sp(s))),
            2 => t.push_str(&sp(s)),
            _ => (),
        }
        t
    };
    for w in m.words() {
        let x = &m.nodes[&w];
        let t = x.term.as_ref().unwrap();
        let lemma = t.lemma.clone().unwrap_or_else(|| "--".into());
        let morph = x.feats.get("morph").and_then(|v| v.clone()).unwrap_or_else(|| "--".into());
        let (a, b, c, d) = (sp(s), sp(s), sp(s), sp(s));
        let tl = tail(s, w);
        o.push_str(&format!("{}{}{}{}{}{}{}{}{}\n", t.form, a, lemma, b, x.label, c, morph, d, tl));
    }
    // each nonterminal line after at least one of its children
    let mut seen: std::collections::BTreeSet<usize> = m.words().iter().map(|w| m.parent(*w).unwrap()).collect();
    let mut left = nts.clone();
    let bottom_up = s.chance(1, 3);
    if bottom_up {
        left.sort_by_key(|n| usize::MAX - m.ancestors(*n).len());
    }
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len()).filter(|i| seen.contains(&left[*i])).collect();
        let k = if bottom_up { ready[0] } else { *s.pick(&ready) };
        let n = left.remove(k);
        seen.insert(m.parent(n).unwrap());
        let x = &m.nodes[&n];
        let mut label = x.label.clone();
        if let Some(a) = annotation(x) {
            label.push('=');
            label.push_str(a);
        }
        let (a, b, c, d) = (sp(s), sp(s), sp(s), sp(s));
        let fill = *s.pick(&["--", "x"]);
        let tl = tail(s, n);
        o.push_str(&format!("#{}{}{}{}{}{}{}{}{}\n", ids[&n], a, fill, b, label, c, fill, d, tl));
    }
    o.push_str(&format!("#EOS {}\n", sid));
    o
}

/// Independent NEGRA reader for well-formed text.
pub fn parse_negra(text: &str) -> Result<Vec<MTree>, String> {
    let mut out = vec![];
    let mut cur: Option<Vec<Vec<String>>> = None;
    for line in text.lines() {
        let f: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
        if line.starts_with("#BOS") {
            if cur.is_some() {
                return Err("#BOS inside a sentence".into());
            }
            cur = Some(vec![f]);
        } else if line.starts_with("#EOS") {
            let rows = cur.take().ok_or("#EOS outside a sentence")?;
            if f.get(1) != rows[0].get(1) {
                return Err("ids of #BOS and #EOS differ".into());
            }
            out.push(negra_rows(&rows)?);
        } else if let Some(rows) = cur.as_mut() {
            rows.push(f);
        } else if !f.is_empty() {
            return Err(format!("text between sentences: {:?}", line));
        }
    }
    if cur.is_some() {
        return Err("unfinished sentence".into());
    }
    Ok(out)
}

fn negra_rows(rows: &[Vec<String>]) -> Result<MTree, String> {
    let opt = |s: &str| if s == "--" { None } else { Some(s.to_string()) };
    let mut ids: HashMap<usize, usize> = HashMap::new();
    let mut nodes: BTreeMap<usize, MNode> = BTreeMap::new();
    let n_words = rows[1..].iter().filter(|r| !r.get(0).map(|f| f.starts_with('#')).unwrap_or(true)).count();
    let root = n_words;
    ids.insert(0, root);
    let mut next = n_words + 1;
    for r in &rows[1..] {
        if r.len() < 6 {
            return Err(format!("short row {:?}", r));
        }
        if r[0].starts_with('#') {
            let id = r[0][1..].parse().map_err(|_| format!("id {:?}", r))?;
            if ids.insert(id, next).is_some() {
                return Err(format!("duplicate id {:?}", r));
            }
            next += 1;
        }
    }
    let mut rn = MNode::nt("VROOT");
    rn.feats.insert("sentence_id".into(), rows[0].get(1).cloned());
    if rows[0].len() > 2 {
        rn.feats.insert("metadata".into(), Some(rows[0][2..].join(" ")));
    }
    nodes.insert(root, rn);
    let mut sec = vec![];
    let mut w = 0;
    for r in &rows[1..] {
        let (id, mut n) = if r[0].starts_with('#') {
            let mut parts = r[2].splitn(2, '=');
            let mut n = MNode::nt(parts.next().unwrap());
            if let Some(a) = parts.next() {
                n.feats.insert(ANN.into(), Some(a.into()));
            }
            (ids[&r[0][1..].parse::<usize>().unwrap()], n)
        } else {
            let mut n = MNode::t(&r[0], &r[2], w);
            n.term.as_mut().unwrap().lemma = opt(&r[1]);
            if let Some(x) = opt(&r[3]) {
                n.feats.insert("morph".into(), Some(x));
            }
            w += 1;
            (w - 1, n)
        };
        n.edge = opt(&r[4]);
        let pid: usize = r[5].parse().map_err(|_| format!("parent {:?}", r))?;
        n.parent = Some(*ids.get(&pid).ok_or_else(|| format!("unknown parent {:?}", r))?);
        nodes.insert(id, n);
        if let (Some(l), Some(p)) = (r.get(6), r.get(7)) {
            if !l.starts_with('%') {
                let p: usize = p.parse().map_err(|_| format!("secondary parent {:?}", r))?;
                sec.push((*ids.get(&p).ok_or_else(|| format!("unknown secondary parent {:?}", r))?, id, opt(l)));
            }
        }
    }
    sec.sort();
    for i in nodes.keys() {
        let (mut at, mut steps) = (*i, 0);
        while let Some(p) = nodes.get(&at).and_then(|n| n.parent) {
            at = p;
            steps += 1;
            if steps > nodes.len() {
                return Err("nodes attached in a circle".into());
            }
        }
    }
    Ok(MTree { nodes, root, sec })
}

// ---- CoNLL-X ----

/// Rows of 10 columns per sentence.
pub fn parse_conllx(text: &str) -> Result<Vec<Vec<Vec<String>>>, String> {
    let mut out = vec![];
    let mut cur: Vec<Vec<String>> = vec![];
    for line in text.split('\n') {
        if line.trim().is_empty() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        let f: Vec<String> = line.split('\t').map(|s| s.to_string()).collect();
        if f.len() != 10 && f.len() != 8 {
            return Err(format!("{} columns in {:?}", f.len(), line));
        }
        if f[0] != (cur.len() + 1).to_string() {
            return Err(format!("token number {} instead of {} in {:?}", f[0], cur.len() + 1, line));
        }
        cur.push(f);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

pub fn feats_text(f: &Feats) -> String {
    f.iter()
        .map(|(k, v)| match v {
            Some(v) => format!("{}:{}", k, v),
            None => k.clone(),
        })
        .collect::<Vec<_>>()
        .join("|")
}
pub fn parse_feats(t: &str) -> Feats {
    let mut f = Feats::new();
    if t == "_" {
        return f;
    }
    for p in t.split('|').filter(|p| !p.is_empty()) {
        match p.find(':') {
            Some(i) => f.insert(p[..i].into(), Some(p[i + 1..].into())),
            None => f.insert(p.into(), None),
        };
    }
    f
}

/// Text of a sentence: form, lemma, tag, features.
pub fn conllx_text(rows: &[(String, Option<String>, String, String)]) -> String {
    let mut o = String::new();
    for (i, (form, lemma, tag, feats)) in rows.iter().enumerate() {
        let lemma = lemma.as_ref().map(|s| s.as_str()).unwrap_or("_");
        let feats = if feats.is_empty() { "_" } else { feats };
        o.push_str(&format!("{}\t{}\t{}\t_\t{}\t{}\t_\t_\t_\t_\n", i + 1, form, lemma, tag, feats));
    }
    o
}

/// Label of one word: (lowest common ancestor with the next word: number, chain-and-label), own chain.
pub type Lab = (Option<(usize, String)>, Option<String>);

/// Labels of a projective tree whose nodes carry their chains as `unary_chain` features.
pub fn labels(m: &MTree) -> Vec<Lab> {
    let ws = m.words();
    let chain = |n: usize| m.nodes[&n].feats.get("unary_chain").and_then(|v| v.clone());
    ws.iter()
        .enumerate()
        .map(|(i, w)| {
            let common = ws.get(i + 1).map(|x| {
                let other = m.ancestors(*x);
                let mine: Vec<usize> = m.ancestors(*w).into_iter().filter(|a| other.contains(a)).collect();
                let l = m.nodes[&mine[0]].label.clone();
                (mine.len(), match chain(mine[0]) {
                    Some(c) => format!("{}_{}", c, l),
                    None => l,
                })
            });
            (common, chain(*w))
        })
        .collect()
}

pub fn label_texts(labs: &[Lab], relative: bool) -> Vec<String> {
    let mut prev = 0isize;
    labs.iter()
        .map(|(c, chain)| {
            let mut t = match c {
                None => "NONE".to_string(),
                Some((n, l)) => {
                    let n = *n as isize;
                    let d = n - prev;
                    prev = n;
                    if !relative {
                        format!("{}+{}", l, n)
                    } else if n == 1 {
                        l.clone()
                    } else {
                        format!("{}+{}", l, d)
                    }
                }
            };
            if let Some(c) = chain {
                t.push('~');
                t.push_str(c);
            }
            t
        })
        .collect()
}

impl MTree {
    /// Renumbers the nodes by content: preorder, children by first word.
    pub fn numbered(&self) -> MTree {
        let kids = self.child_map();
        let ys = self.yields();
        let mut order = vec![];
        let mut stack = vec![self.root];
        while let Some(n) = stack.pop() {
            order.push(n);
            let mut ks = kids[&n].clone();
            ks.sort_by_key(|k| ys[k].first().cloned().unwrap_or(usize::MAX));
            stack.extend(ks.into_iter().rev());
        }
        let map: HashMap<usize, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        crate::gen::remap(self, &map)
    }
    /// First difference in content, ignoring node ids.
    pub fn same(&self, real: &MTree) -> Result<(), String> {
        self.numbered().diff(&real.numbered(), &Default::default()).map_err(|e| format!("{}\n  got  {}\n  want {}", e, real.render(), self.render()))
    }
}
