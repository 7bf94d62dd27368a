//! C06, C07 brackets; C08, C09 NEGRA; C10 robustness; C11 streams.
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use crate::text::*;
use lumberjack::io::{NegraWriter, PTBLineFormat, PTBWriter, TryFromConllx, WriteTree};
use lumberjack::{NegraReader, PTBReader, Tree};

// ---- token alphabets ----

fn form_any(s: &mut Src) -> String {
    wide(s, "")
}
/// A token with, now and then, blanks that separate nothing in bracket and CoNLL-X text.
pub fn wide(s: &mut Src, no: &str) -> String {
    let mut t = token(s, no);
    if s.chance(1, 40) {
        let at = s.below(t.chars().count() + 1);
        let at = t.char_indices().nth(at).map(|x| x.0).unwrap_or(t.len());
        t.insert(at, *s.pick(&['\u{a0}', '\u{3000}', '\u{2009}', '\u{feff}']));
    }
    t
}
fn nonempty_not(s: &mut Src, no: &str, bad: &str) -> String {
    let t = token(s, no);
    if t == bad {
        "x".into()
    } else {
        t
    }
}
fn simple_label(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_label(s)
    } else {
        token(s, "()")
    }
}
fn ptb_label6(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_label(s)
    } else {
        token(s, "()-")
    }
}
fn ptb_label(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(&["-NONE", "-LRB", "-"]).to_string(),
        1 => token(s, "()-"),
        _ => plain_label(s),
    }
}
fn ptb_tag(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(&["-NONE-", "-LRB-", "-", "--", ":", ","]).to_string(),
        1 => token(s, "()-"),
        _ => plain_tag(s),
    }
}
fn ptb_tag_paren(s: &mut Src) -> String {
    match s.below(3) {
        0 => ptb_label6(s),
        1 => token(s, "-"),
        _ => s.pick(&["$(", "$)", "(", ")"]).to_string(),
    }
}
fn tueba_label(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_label(s)
    } else {
        token(s, "():=")
    }
}
fn tueba_tag_paren(s: &mut Src) -> String {
    match s.below(3) {
        0 => tueba_label(s),
        1 => token(s, ":="),
        _ => s.pick(&["$(", "$)", "(", ")"]).to_string(),
    }
}
fn tueba_edge(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_edge(s)
    } else {
        nonempty_not(s, "():", "--")
    }
}
fn simple_tag_paren(s: &mut Src) -> String {
    match s.below(3) {
        0 => plain_tag(s),
        1 => token(s, ""),
        _ => s.pick(&["$(", "$)", "(", ")"]).to_string(),
    }
}
fn no_paren(s: &mut Src) -> String {
    wide(s, "()")
}
fn simple_ann(s: &mut Src) -> Feats {
    ann(token(s, "()"))
}
fn ptb_ann(s: &mut Src) -> Feats {
    let a = if s.chance(1, 2) { s.pick(&["SBJ", "SBJ-1", "TMP", "-", "PRD-TPC-2", ""]).to_string() } else { token(s, "()") };
    ann(a)
}
fn tueba_ann(s: &mut Src) -> Feats {
    let a = if s.chance(1, 2) { s.pick(&["PER", "ORG", "X-Y", ""]).to_string() } else { token(s, "():=") };
    ann(a)
}
fn ann(a: String) -> Feats {
    let mut f = Feats::new();
    f.insert(ANN.into(), Some(a));
    f
}

pub fn bracket_cfg(fmt: Fmt, paren: bool, disc: u8) -> Cfg {
    let base = Cfg { disc, lemma: None, tfeats: None, sec: 0, unary: 3, form: if paren { form_any } else { no_paren }, ..ANY };
    match fmt {
        Fmt::Simple => Cfg { label: simple_label, tag: if paren { simple_tag_paren } else { simple_label }, ntfeats: Some(simple_ann), ..base },
        Fmt::Ptb => Cfg { label: if paren { ptb_label6 } else { ptb_label }, tag: if paren { ptb_tag_paren } else { ptb_tag }, ntfeats: Some(ptb_ann), ..base },
        Fmt::TueBa => Cfg { label: tueba_label, tag: if paren { tueba_tag_paren } else { tueba_label }, edge: Some(tueba_edge), ntfeats: Some(tueba_ann), ..base },
    }
}

fn no_paren_text(s: &str) -> String {
    s.replace('(', "LBR").replace(')', "RBR")
}

/// What a format keeps of a tree.
pub fn bracket_content(m: &MTree, fmt: Fmt) -> MTree {
    let mut t = m.clone();
    t.sec.clear();
    let root = t.root;
    for (i, n) in t.nodes.iter_mut() {
        if fmt != Fmt::TueBa || *i == root {
            n.edge = None;
        }
        let a = if n.is_t() || fmt == Fmt::Simple { None } else { n.feats.get(ANN).cloned() };
        n.feats.clear();
        if let Some(Some(a)) = a {
            n.feats.insert(ANN.into(), Some(a));
        }
        if n.is_t() {
            n.label = no_paren_text(&n.label);
            let t = n.term.as_mut().unwrap();
            t.form = no_paren_text(&t.form);
            t.lemma = None;
        }
    }
    t
}

/// PTB node labels with a leading '-' carry no annotation.
pub fn ptb_domain(m: &mut MTree, fmt: Fmt) {
    if fmt == Fmt::Ptb {
        for n in m.nodes.values_mut() {
            if !n.is_t() && n.label.starts_with('-') {
                n.feats.clear();
            }
        }
    }
}

fn pick_fmt(ctx: &mut Ctx) -> Fmt {
    let f = *ctx.s.pick(FMTS);
    ctx.class(match f {
        Fmt::Simple => "simple brackets",
        Fmt::Ptb => "PTB brackets",
        Fmt::TueBa => "TueBa brackets",
    });
    f
}

pub fn c06(ctx: &mut Ctx) -> Res {
    let fmt = pick_fmt(ctx);
    let k = match ctx.s.below(4) {
        0 => 1,
        _ => ctx.s.count(1, 3, 40),
    };
    let mut file: Vec<u8> = vec![];
    let mut wants: Vec<MTree> = vec![];
    let mut refused = 0;
    let mut big = false;
    for _ in 0..k {
        let disc = if ctx.s.chance(1, 5) { 2 } else { 0 };
        let mut spec = gen_tree(&mut ctx.s, &bracket_cfg(fmt, true, disc));
        ptb_domain(&mut spec, fmt);
        let (tree, m) = match build(ctx, &spec) {
            Some(x) => x,
            None => return ctx.discard(),
        };
        shape_classes(ctx, &m);
        ctx.log(|| format!("{:?} tree: {}", fmt, m.render()));
        let single = fmt.real().tree_to_string(&tree);
        let before = file.len();
        let r = PTBWriter::new(&mut file, fmt.real()).write_tree(&tree);
        if !m.projective() {
            check!(single.is_err(), "a discontinuous tree was linearized as {:?}", single.ok());
            check!(r.is_err(), "the writer accepted a discontinuous tree");
            check!(file.len() == before, "{:?} was written for a refused tree", String::from_utf8_lossy(&file[before..]));
            refused += 1;
            continue;
        }
        let single = single.map_err(|e| format!("tree_to_string failed: {}", e))?;
        r.map_err(|e| format!("write_tree failed: {}", e))?;
        ctx.log(|| format!("written: {:?}", single));
        let back = fmt.real().string_to_tree(&single).map_err(|e| format!("{:?} cannot be read back: {}", single, e))?;
        let back = snapshot(&back)?;
        let want = bracket_content(&m, fmt);
        want.same(&back).map_err(|e| format!("{:?} read back: {}", single, e))?;
        ctx.class_if(m.nodes.values().any(|n| n.label.contains('(') || n.term.as_ref().map(|t| t.form.contains(')')).unwrap_or(false)), "parentheses in a word or tag");
        ctx.class_if(want.nodes.values().any(|n| !n.feats.is_empty()), "annotation");
        ctx.class_if(want.nodes.values().any(|n| n.edge.is_some()), "edge label");
        big |= m.nodes.len() > 2;
        wants.push(want);
    }
    for lines in &[PTBLineFormat::SingleLine, PTBLineFormat::MultiLine] {
        let lf = match lines {
            PTBLineFormat::SingleLine => PTBLineFormat::SingleLine,
            _ => PTBLineFormat::MultiLine,
        };
        let mut n = 0;
        for (i, t) in PTBReader::new(&file[..], fmt.real(), lf).enumerate() {
            let t = t.map_err(|e| format!("tree {} of the file {:?} cannot be read: {}", i, String::from_utf8_lossy(&file), e))?;
            check!(i < wants.len(), "more trees than written");
            wants[i].same(&snapshot(&t)?).map_err(|e| format!("tree {} of the file: {}", i, e))?;
            n += 1;
        }
        check!(n == wants.len(), "{} trees read, {} written", n, wants.len());
    }
    ctx.class_if(refused > 0, "discontinuous tree refused");
    ctx.class_if(wants.len() > 1, "several trees in one file");
    ctx.nontrivial = big || refused > 0;
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> Res {
    let fmt = pick_fmt(ctx);
    let mut spec = gen_tree(&mut ctx.s, &bracket_cfg(fmt, false, 0));
    ptb_domain(&mut spec, fmt);
    let want = bracket_content(&spec, fmt);
    // in the simple format nothing is taken apart
    let toks = bracket_tokens(&want, fmt);
    let canon = canonical(&toks, fmt);
    ctx.log(|| format!("{:?}: {}", fmt, canon));
    let f = fmt.real();
    let tree = f.string_to_tree(&canon).map_err(|e| format!("{:?} cannot be read: {}", canon, e))?;
    want.same(&snapshot(&tree)?).map_err(|e| format!("canonical layout {:?}: {}", canon, e))?;
    let out = f.tree_to_string(&tree).map_err(|e| format!("cannot be written again: {}", e))?;
    check!(out == canon, "canonical text {:?} comes back as {:?}", canon, out);
    for mode in 0..3 {
        let (text, trees): (String, Vec<Result<Tree, String>>) = match mode {
            0 => {
                let t = layout(&mut ctx.s, &toks, &[" ", "\n", "\r\n", "  "], true, true);
                let r = f.string_to_tree(&t).map_err(|e| e.to_string());
                (t, vec![r])
            }
            1 => {
                let mut t = layout(&mut ctx.s, &toks, &[" ", "  "], true, true);
                t.push('\n');
                let r = PTBReader::new(t.as_bytes(), fmt.real(), PTBLineFormat::SingleLine).map(|r| r.map_err(|e| e.to_string())).collect();
                (t, r)
            }
            _ => {
                let mut t = String::new();
                for _ in 0..ctx.s.below(3) {
                    t.push('\n');
                }
                let nl = *ctx.s.pick(&["\n", "\r\n"]);
                t.push_str(*ctx.s.pick(&["", " "]));
                t.push_str(&layout(&mut ctx.s, &toks, &[" ", nl, nl, "  "], false, false));
                t.push_str(*ctx.s.pick(&["", " ", "   "]));
                t.push_str(*ctx.s.pick(&["\n", "", "\n\n", "\r\n"]));
                let r = PTBReader::new(t.as_bytes(), fmt.real(), PTBLineFormat::MultiLine).map(|r| r.map_err(|e| e.to_string())).collect();
                (t, r)
            }
        };
        let what = ["string_to_tree", "single-line reader", "multi-line reader"][mode];
        check!(trees.len() == 1, "{}: {} items for {:?}", what, trees.len(), text);
        match &trees[0] {
            Err(e) => return Err(format!("{}: {:?} cannot be read: {}", what, text, e)),
            Ok(t) => {
                want.same(&snapshot(t)?).map_err(|e| format!("{}: {:?}: {}", what, text, e))?;
                let out = f.tree_to_string(t).map_err(|e| format!("cannot be written again: {}", e))?;
                check!(out == canon, "{}: {:?} is written as {:?} instead of {:?}", what, text, out, canon);
            }
        }
        ctx.class_if(mode == 2 && text.trim().contains('\n'), "tree over several lines");
    }
    shape_classes(ctx, &want);
    ctx.class_if(want.nodes.values().any(|n| !n.feats.is_empty()), "annotation");
    ctx.class_if(want.nodes.values().any(|n| n.label.starts_with('-')), "label starting with -");
    ctx.nontrivial = want.nodes.len() > 2;
    Ok(())
}

// ---- NEGRA ----

fn negra_form(s: &mut Src) -> String {
    let t = token(s, "");
    if t.starts_with('#') {
        format!("x{}", t)
    } else {
        t
    }
}
fn negra_opt(s: &mut Src) -> String {
    nonempty_not(s, "", "--")
}
fn negra_tag(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_tag(s)
    } else {
        token(s, "")
    }
}
fn negra_label(s: &mut Src) -> String {
    if s.chance(1, 2) {
        plain_label(s)
    } else {
        token(s, "=")
    }
}
fn negra_tfeats(s: &mut Src) -> Feats {
    let mut f = Feats::new();
    f.insert("morph".into(), Some(negra_opt(s)));
    f
}
fn negra_ntfeats(s: &mut Src) -> Feats {
    if s.chance(1, 12) {
        return ann(String::new());
    }
    ann(token(s, "="))
}

pub fn negra_cfg() -> Cfg {
    Cfg {
        form: negra_form,
        tag: negra_tag,
        label: negra_label,
        edge: Some(negra_opt),
        lemma: Some(negra_opt),
        tfeats: Some(negra_tfeats),
        ntfeats: Some(negra_ntfeats),
        root_label: Some("VROOT"),
        term_root: false,
        ..ANY
    }
}

fn sec_label(s: &mut Src) -> Option<String> {
    if s.chance(1, 3) {
        return None;
    }
    let t = negra_opt(s);
    Some(if t.starts_with('%') { "refint".into() } else { t })
}

/// Random tree in the NEGRA domain.
pub fn negra_tree(ctx: &mut Ctx, cfg: &Cfg, id: Option<usize>) -> MTree {
    let mut m = gen_tree(&mut ctx.s, cfg);
    let root = m.root;
    let mut rf = Feats::new();
    if let Some(id) = id {
        rf.insert("sentence_id".into(), Some(id.to_string()));
    }
    if ctx.s.chance(1, 2) {
        let meta = match ctx.s.below(3) {
            0 => "2 1070544990 0 %% HEADLINE".to_string(),
            1 => "0  1\tx".to_string(),
            _ => token(&mut ctx.s, ""),
        };
        rf.insert("metadata".into(), Some(meta));
    }
    m.nodes.get_mut(&root).unwrap().feats = rf;
    let k = *ctx.s.pick(&[0usize, 0, 1, 3]);
    let nodes: Vec<usize> = m.nodes.keys().cloned().collect();
    let nts = m.nts();
    for _ in 0..k {
        let c = *ctx.s.pick(&nodes);
        let p = *ctx.s.pick(&nts);
        if c != root && c != p && !m.sec.iter().any(|e| e.1 == c) {
            let l = sec_label(&mut ctx.s);
            m.sec.push((p, c, l));
        }
    }
    m.sec.sort();
    m
}

fn negra_classes(ctx: &mut Ctx, m: &MTree) {
    shape_classes(ctx, m);
    ctx.class_if(m.nodes.values().any(|n| n.label.len() > 24 || n.term.as_ref().map(|t| t.form.len() > 32).unwrap_or(false)), "token longer than its column");
    ctx.class_if(m.nodes.values().any(|n| n.feats.contains_key(ANN)), "annotation");
    ctx.class_if(m.sec.iter().any(|s| s.2.is_none()), "secondary edge without label");
}

pub fn c08(ctx: &mut Ctx) -> Res {
    let k = match ctx.s.below(4) {
        0 => 1,
        _ => ctx.s.count(1, 4, 40),
    };
    let mut file: Vec<u8> = vec![];
    let mut wants = vec![];
    let mut big = false;
    {
        let mut writer = NegraWriter::new(&mut file);
        let mut counter = 0;
        for _ in 0..k {
            if ctx.s.chance(1, 16) {
                let one = Tree::new("w", "T");
                ctx.log(|| "single terminal".into());
                check!(writer.write_tree(&one).is_err(), "a tree without a root node was accepted");
                ctx.class("single terminal refused");
                continue;
            }
            let id = if ctx.s.chance(1, 3) { None } else { Some(*ctx.s.pick(&[0usize, 1, 7, 123456, usize::MAX])) };
            let spec = negra_tree(ctx, &negra_cfg(), id);
            let (tree, m) = match build(ctx, &spec) {
                Some(x) => x,
                None => return ctx.discard(),
            };
            negra_classes(ctx, &m);
            ctx.log(|| format!("tree: {}", m.render()));
            let mut want = m;
            let root = want.root;
            if id.is_none() {
                ctx.class("numbered by the writer");
                want.nodes.get_mut(&root).unwrap().feats.insert("sentence_id".into(), Some(counter.to_string()));
                counter += 1;
            }
            writer.write_tree(&tree).map_err(|e| format!("write_tree failed: {}", e))?;
            big |= want.nodes.len() > 3;
            wants.push(want);
        }
    }
    let text = String::from_utf8(file.clone()).map_err(|e| e.to_string())?;
    ctx.log(|| format!("written:\n{}", text));
    let mut n = 0;
    for (i, t) in NegraReader::new(&file[..]).enumerate() {
        let t = t.map_err(|e| format!("tree {} cannot be read back: {}\n{}", i, e, text))?;
        check!(i < wants.len(), "more trees than written");
        wants[i].same(&snapshot(&t)?).map_err(|e| format!("tree {} read back: {}\n{}", i, e, text))?;
        n += 1;
    }
    check!(n == wants.len(), "{} trees read, {} written:\n{}", n, wants.len(), text);
    negra_layout(&text).map_err(|e| format!("{}\n{}", e, text))?;
    ctx.class_if(wants.len() > 1, "several trees in one file");
    ctx.nontrivial = big;
    Ok(())
}

/// Words come before the nonterminals, these are numbered from 500 on, and each has a higher number than its children.
fn negra_layout(text: &str) -> Res {
    let mut next = 0;
    for line in text.lines() {
        if line.starts_with("#BOS") {
            next = 500;
            continue;
        }
        if line.starts_with("#EOS") {
            next = 0;
            continue;
        }
        if next == 0 && line.trim().is_empty() {
            continue;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        check!(f.len() >= 6, "short line {:?}", line);
        let parent: usize = f[5].parse().map_err(|_| format!("parent of {:?}", line))?;
        check!(parent == 0 || parent >= 500, "parent of {:?}", line);
        if f[0].starts_with('#') {
            check!(f[0][1..] == next.to_string(), "nonterminal {} instead of #{}", f[0], next);
            check!(f[1] == "--" && f[3] == "--", "lemma or morphology of the nonterminal in {:?}", line);
            check!(parent == 0 || parent > next, "nonterminal {} precedes its child {}", parent, f[0]);
            next += 1;
        } else {
            check!(next == 500, "word after nonterminals: {:?}", line);
        }
    }
    Ok(())
}

pub fn negra_noise(s: &mut Src) -> String {
    s.pick(&["", "\n", "%% comment\n", "#FORMAT 4\n", "#BOT ORIGIN\n0 a b\n#EOT ORIGIN\n", "text ( #500 --\n\n"]).to_string()
}

pub fn c09(ctx: &mut Ctx) -> Res {
    let id = *ctx.s.pick(&[1usize, 0, 7, 123456]);
    let want = negra_tree(ctx, &negra_cfg(), Some(id));
    negra_classes(ctx, &want);
    let mut text = negra_noise(&mut ctx.s);
    text.push_str(&negra_random(&mut ctx.s, &want));
    text.push_str(&negra_noise(&mut ctx.s));
    let eol = ctx.s.chance(1, 8);
    if eol {
        text = text.replace("\n", "\r\n");
    }
    ctx.log(|| format!("text:\n{}", text));
    let items: Vec<Result<Tree, String>> = NegraReader::new(text.as_bytes()).map(|r| r.map_err(|e| e.to_string())).collect();
    check!(items.len() == 1, "{} items for one sentence:\n{}", items.len(), text);
    match &items[0] {
        Err(e) => return Err(format!("cannot be read: {}\n{}", e, text)),
        Ok(t) => want.same(&snapshot(t)?).map_err(|e| format!("{}\n{}", e, text))?,
    }
    ctx.nontrivial = want.nodes.len() > 3;
    Ok(())
}

// ---- C10 ----

const ATOMS: &[&str] = &[
    "(", ")", " ", "\n", "(S", "(NP", "(N a)", "a", "%", "-", "--", ":", "=", ":=", "-=", "#", "#BOS 1", "#EOS 1", "#BOS", "#EOS", "#500", "500", "0", "\t", "#BOS 2 x", "#EOS 2", "ä", "\u{a0}", "\r", "VROOT", "99999999999999999999999",
    "_", "~", "+", "|", "NONE", "\u{2028}", "\u{feff}",
];

fn soup(s: &mut Src) -> String {
    let n = s.range(0, 25);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(8) {
            0 => o.push_str(&token(s, "")),
            _ => o.push_str(*s.pick(ATOMS)),
        }
    }
    o
}

/// Mutates text at the level of characters, fields or lines.
pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut t = text.to_string();
    for _ in 0..s.range(1, 3) {
        match s.below(8) {
            0 | 1 => {
                // fields of one line
                let mut lines: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
                let i = s.below(lines.len());
                let mut f: Vec<String> = lines[i].split_whitespace().map(|x| x.to_string()).collect();
                if !f.is_empty() {
                    let k = s.below(f.len());
                    match s.below(4) {
                        0 => {
                            f.remove(k);
                        }
                        1 => f[k] = s.pick(&["0", "1", "500", "501", "502", "#500", "#501", "#0", "-1", "--", "%", "#", "=", "", "99999999999999999999", "ä"]).to_string(),
                        2 => {
                            let x = f[s.below(f.len())].clone();
                            f.insert(k, x);
                        }
                        _ => {
                            let j = s.below(f.len());
                            f.swap(k, j);
                        }
                    }
                    lines[i] = f.join("\t");
                }
                t = lines.join("\n");
            }
            2 | 3 => {
                // whole lines
                let mut lines: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
                let i = s.below(lines.len());
                let j = s.below(lines.len());
                match s.below(4) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let x = lines[i].clone();
                        lines.insert(j, x);
                    }
                    2 => lines.swap(i, j),
                    _ => lines.insert(i, soup(s)),
                }
                t = lines.join("\n");
            }
            4 => {
                // redirect a number: makes cycles, unknown parents, parented roots
                let nums: Vec<(usize, usize)> = digits(&t);
                if nums.len() > 1 {
                    let (a, b) = nums[s.below(nums.len())];
                    let (c, d) = nums[s.below(nums.len())];
                    let x = t[c..d].to_string();
                    t.replace_range(a..b, &x);
                }
            }
            5 => {
                // cut
                let cs: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
                if !cs.is_empty() {
                    let i = cs[s.below(cs.len())];
                    let j = cs[s.below(cs.len())];
                    if s.chance(1, 2) {
                        t.truncate(i);
                    } else {
                        t.replace_range(i.min(j)..i.max(j), "");
                    }
                }
            }
            _ => {
                // one character or atom
                let cs: Vec<(usize, char)> = t.char_indices().collect();
                if !cs.is_empty() {
                    let (i, c) = cs[s.below(cs.len())];
                    let end = i + c.len_utf8();
                    match s.below(3) {
                        0 => t.replace_range(i..end, ""),
                        1 => t.insert_str(i, *s.pick(ATOMS)),
                        _ => t.replace_range(i..end, *s.pick(ATOMS)),
                    }
                } else {
                    t = soup(s);
                }
            }
        }
    }
    t
}

fn digits(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            o.push((st, i));
        } else {
            i += 1;
        }
    }
    o
}

/// Every item is an error or a well-formed tree and the iteration ends.
fn items_ok<I>(ctx: &mut Ctx, what: &str, it: I, limit: usize) -> Res
where
    I: Iterator<Item = Result<Tree, failure::Error>>,
{
    let mut n = 0;
    for t in it {
        n += 1;
        check!(n <= limit, "{}: more than {} items", what, limit);
        match t {
            Err(_) => ctx.class("error item"),
            Ok(t) => {
                ctx.class("tree item");
                snapshot(&t).map_err(|e| format!("{} delivers a broken tree: {}", what, e))?;
            }
        }
    }
    Ok(())
}

fn deep(s: &mut Src) -> String {
    let d = s.range(20, 300);
    let mut o = "(A ".repeat(d);
    o.push_str("(B c)");
    o.push_str(&")".repeat(if s.chance(1, 3) { d - 1 } else { d }));
    o
}

fn label_soup(s: &mut Src) -> String {
    match s.below(6) {
        0 => {
            let n = s.range(0, 5);
            (0..n).map(|_| *s.pick(&["A", "_", "+", "~", "1", "2", "0", "-", "NONE", "+1", "_B", "~C", "", ":", "-3"])).collect()
        }
        1 => "NONE".into(),
        2 => format!("{}+{}", s.pick(&["A", "B", "", "A_B", "_", "__", "A_"]), s.pick(&["1", "2", "3", "0", "5", "-1", "300", "+2", "x", ""])),
        3 => format!("{}+{}~{}", s.pick(&["A", "B", "A_B"]), s.pick(&["1", "2", "3", "-2"]), s.pick(&["C", "C_D", "", "_", "C_"])),
        4 => s.pick(&["A", "A_B", "A~B", "NONE~C", "NONE~", "~", "DUMMY", "DUMMY+2"]).to_string(),
        _ => format!("{}+{}", s.pick(&["A", "B"]), s.range(1, 6)),
    }
}

pub fn c10(ctx: &mut Ctx) -> Res {
    match ctx.s.weighted(&[5, 5, 4, 1]) {
        0 => {
            ctx.class("NEGRA text");
            let mut text = String::new();
            let k = ctx.s.range(1, 2);
            for i in 0..k {
                let cfg = Cfg { max_words: 5, root_label: Some("VROOT"), form: plain_form, tag: plain_tag, label: plain_label, edge: Some(plain_edge), lemma: None, ..negra_cfg() };
                let m = negra_tree(ctx, &cfg, Some(i + 1));
                text.push_str(&negra_random(&mut ctx.s, &m));
            }
            let text = if ctx.s.chance(1, 6) { soup(&mut ctx.s) } else { mutate(&mut ctx.s, &text) };
            ctx.log(|| format!("NEGRA text:\n{}", text));
            let limit = text.lines().count() + 2;
            items_ok(ctx, "NEGRA reader", NegraReader::new(text.as_bytes()), limit)?;
            ctx.nontrivial = text.contains("#BOS");
        }
        1 => {
            ctx.class("bracket text");
            let fmt = pick_fmt(ctx);
            let mut text = String::new();
            match ctx.s.weighted(&[6, 2, 1]) {
                0 => {
                    for _ in 0..ctx.s.range(1, 3) {
                        let m = gen_tree(&mut ctx.s, &bracket_cfg(fmt, false, 0));
                        let toks = bracket_tokens(&bracket_content(&m, fmt), fmt);
                        if ctx.s.chance(1, 2) {
                            text.push_str(&canonical(&toks, fmt));
                        } else {
                            text.push_str(&layout(&mut ctx.s, &toks, &[" ", "\n"], true, true));
                        }
                        text.push('\n');
                    }
                    text = mutate(&mut ctx.s, &text);
                }
                1 => text = soup(&mut ctx.s),
                _ => text = deep(&mut ctx.s),
            }
            ctx.log(|| format!("{:?} text:\n{}", fmt, text));
            let limit = text.split('\n').count() + 2;
            items_ok(ctx, "string_to_tree", vec![fmt.real().string_to_tree(&text)].into_iter(), 1)?;
            items_ok(ctx, "single-line reader", PTBReader::new(text.as_bytes(), fmt.real(), PTBLineFormat::SingleLine), limit)?;
            items_ok(ctx, "multi-line reader", PTBReader::new(text.as_bytes(), fmt.real(), PTBLineFormat::MultiLine), limit)?;
            ctx.nontrivial = text.contains('(');
        }
        2 => {
            ctx.class("encoded labels");
            let n = ctx.s.range(0, 8);
            let key = *ctx.s.pick(&["abs_ancestor", "rel_ancestor"]);
            let mut sent = conllx::graph::Sentence::new();
            let mut text = vec![];
            for i in 0..n {
                let l = label_soup(&mut ctx.s);
                let mut tok = conllx::token::Token::new(format!("w{}", i));
                if !ctx.s.chance(1, 10) {
                    tok.set_pos(Some("T"));
                }
                let feats = match ctx.s.below(14) {
                    0 => None,
                    1 => Some("x:y".to_string()),
                    2 => Some(key.to_string()),
                    3 => Some(format!("a:b|{}:{}", key, l)),
                    _ => Some(format!("{}:{}", key, l)),
                };
                text.push(feats.clone());
                tok.set_features(feats.map(conllx::token::Features::from_string));
                sent.push(tok);
            }
            ctx.log(|| format!("labels: {:?}", text));
            let r = vec![Tree::try_from_conllx_with_absolute_encoding(&sent)];
            items_ok(ctx, "absolute decoding", r.into_iter(), 1)?;
            let r = vec![Tree::try_from_conllx_with_relative_encoding(&sent)];
            items_ok(ctx, "relative decoding", r.into_iter(), 1)?;
            ctx.nontrivial = n > 1;
        }
        _ => {
            ctx.class("bytes that are not UTF-8");
            let m = negra_tree(ctx, &negra_cfg(), Some(1));
            let mut bytes = if ctx.s.chance(1, 2) { negra_random(&mut ctx.s, &m).into_bytes() } else { soup(&mut ctx.s).into_bytes() };
            for _ in 0..ctx.s.range(1, 4) {
                let at = ctx.s.below(bytes.len() + 1);
                let b = *ctx.s.pick(&[0x80u8, 0xff, 0xc3, 0, b'\n', b'(']);
                bytes.insert(at, b);
            }
            ctx.log(|| format!("bytes: {:?}", String::from_utf8_lossy(&bytes)));
            let limit = bytes.iter().filter(|b| **b == b'\n').count() + 3;
            items_ok(ctx, "NEGRA reader", NegraReader::new(&bytes[..]), limit)?;
            for f in FMTS {
                items_ok(ctx, "single-line reader", PTBReader::new(&bytes[..], f.real(), PTBLineFormat::SingleLine), limit)?;
                items_ok(ctx, "multi-line reader", PTBReader::new(&bytes[..], f.real(), PTBLineFormat::MultiLine), limit)?;
            }
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---- C11 ----

enum Part {
    Good(Tree),
    Bad,
}

/// Compares the items of a stream with the parts it was put together from. Several errors may
/// stand for one damaged sentence if `many`.
fn stream(parts: &[Part], items: Vec<Result<Tree, String>>, many: bool) -> Res {
    let show = |i: &[Result<Tree, String>]| i.iter().map(|r| match r { Ok(t) => format!("tree {}", content(t).map(|m| m.render()).unwrap_or_default()), Err(e) => format!("error {}", e.lines().next().unwrap_or("")) }).collect::<Vec<_>>();
    let mut k = 0;
    let mut i = 0;
    while i < parts.len() {
        match &parts[i] {
            Part::Good(t) => {
                match items.get(k) {
                    Some(Ok(x)) => {
                        let (a, b) = (snapshot(t)?, snapshot(x)?);
                        a.same(&b).map_err(|e| format!("sentence {} differs from the same sentence read alone: {}", i, e))?;
                        check!(*x == *t && *t == *x, "sentence {} is not equal to the same sentence read alone", i);
                    }
                    Some(Err(e)) => return Err(format!("well-formed sentence {} gives the error {}; items {:?}", i, e, show(&items))),
                    None => return Err(format!("sentence {} is missing; items {:?}", i, show(&items))),
                }
                k += 1;
                i += 1;
            }
            Part::Bad => {
                let mut bad = 0;
                while i < parts.len() && matches_bad(&parts[i]) {
                    bad += 1;
                    i += 1;
                }
                let mut errs = 0;
                while let Some(Err(_)) = items.get(k) {
                    errs += 1;
                    k += 1;
                }
                check!(errs >= bad, "{} damaged sentences give {} errors; items {:?}", bad, errs, show(&items));
                check!(many || errs == bad, "{} damaged sentences give {} errors; items {:?}", bad, errs, show(&items));
            }
        }
    }
    check!(k == items.len(), "{} items too many; items {:?}", items.len() - k, show(&items));
    Ok(())
}
fn matches_bad(p: &Part) -> bool {
    match p {
        Part::Bad => true,
        _ => false,
    }
}

/// A damaged NEGRA sentence with its delimiters intact.
fn damage_negra(s: &mut Src, text: &str) -> Option<String> {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let nts: Vec<usize> = (1..lines.len() - 1).filter(|i| lines[*i].starts_with('#')).collect();
    let words: Vec<usize> = (1..lines.len() - 1).filter(|i| !lines[*i].starts_with('#')).collect();
    match s.below(7) {
        0 => {
            // a nonterminal without its line
            if nts.is_empty() {
                return None;
            }
            let i = *s.pick(&nts);
            lines.remove(i);
        }
        1 => {
            // parent column not a number
            let i = s.range(1, lines.len() - 2);
            let mut f: Vec<String> = lines[i].split_whitespace().map(|x| x.to_string()).collect();
            f[5] = "x".into();
            lines[i] = f.join("\t");
        }
        2 => {
            // columns missing
            let i = s.range(1, lines.len() - 2);
            let k = s.range(1, 5);
            let f: Vec<String> = lines[i].split_whitespace().take(k).map(|x| x.to_string()).collect();
            lines[i] = f.join("\t");
        }
        3 => {
            // ids of the delimiters differ
            let n = lines.len() - 1;
            lines[n] = "#EOS 987654".into();
        }
        4 => {
            // word after a nonterminal
            if nts.is_empty() {
                return None;
            }
            let n = lines.len() - 1;
            let w = lines[words[0]].clone();
            lines.insert(n, w);
        }
        5 => {
            // no words
            if nts.is_empty() {
                return None;
            }
            lines.retain(|l| l.starts_with('#'));
        }
        _ => {
            // blank line inside
            let i = s.range(1, lines.len() - 1);
            lines.insert(i, String::new());
        }
    }
    Some(lines.join("\n") + "\n")
}

pub fn c11(ctx: &mut Ctx) -> Res {
    let k = ctx.s.count(1, 5, 60);
    let mode = ctx.s.below(3);
    let mut text = String::new();
    let mut parts: Vec<Part> = vec![];
    if mode == 0 {
        ctx.class("NEGRA file");
        for i in 0..k {
            text.push_str(&negra_noise(&mut ctx.s));
            let cfg = Cfg { max_words: 6, ..negra_cfg() };
            let m = negra_tree(ctx, &cfg, Some(i));
            let t = negra_random(&mut ctx.s, &m);
            if ctx.s.chance(1, 3) {
                if let Some(d) = damage_negra(&mut ctx.s, &t) {
                    text.push_str(&d);
                    parts.push(Part::Bad);
                    continue;
                }
            }
            let alone: Vec<Result<Tree, String>> = NegraReader::new(t.as_bytes()).map(|r| r.map_err(|e| e.to_string())).collect();
            match alone.into_iter().next() {
                Some(Ok(tree)) => parts.push(Part::Good(tree)),
                _ => return ctx.discard(),
            }
            text.push_str(&t);
        }
        text.push_str(&negra_noise(&mut ctx.s));
        if ctx.s.chance(1, 5) {
            let m = negra_tree(ctx, &negra_cfg(), Some(77));
            let t = negra_random(&mut ctx.s, &m);
            let lines: Vec<&str> = t.lines().collect();
            let n = ctx.s.range(1, lines.len() - 1);
            text.push_str(&lines[..n].join("\n"));
            if ctx.s.chance(2, 3) {
                text.push('\n');
            }
            parts.push(Part::Bad);
            ctx.class("cut off at the end of the file");
        }
        ctx.log(|| format!("file:\n{}", text));
        let items = NegraReader::new(text.as_bytes()).take(parts.len() * 20 + 5).map(|r| r.map_err(|e| e.to_string())).collect();
        stream(&parts, items, true).map_err(|e| format!("{}\n{}", e, text))?;
    } else {
        let multi = mode == 2;
        ctx.class(if multi { "multi-line bracket file" } else { "single-line bracket file" });
        let fmt = pick_fmt(ctx);
        let lf = || if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
        let gap = |s: &mut Src| {
            let mut o = String::new();
            for _ in 0..s.below(3) {
                o.push_str(if multi { *s.pick(&["\n", "% comment ( x\n", "%\n", "\n\n"]) } else { *s.pick(&["% comment ( x\n", "%%)\n", "%\n"]) });
            }
            o
        };
        let ws: &[&str] = if multi { &[" ", "\n", "\n"] } else { &[" ", "  "] };
        for _ in 0..k {
            text.push_str(&gap(&mut ctx.s));
            let mut m = gen_tree(&mut ctx.s, &Cfg { max_words: 6, ..bracket_cfg(fmt, false, 0) });
            ptb_domain(&mut m, fmt);
            let mut toks = bracket_tokens(&bracket_content(&m, fmt), fmt);
            if ctx.s.chance(1, 3) {
                // damage that keeps brackets balanced
                let opens: Vec<usize> = (0..toks.len()).filter(|i| toks[*i] == "(").collect();
                let i = *ctx.s.pick(&opens);
                match ctx.s.below(if multi { 4 } else { 6 }) {
                    0 => {
                        toks.insert(i, "(".into());
                        toks.push(")".into());
                    }
                    1 => {
                        toks.remove(i + 1);
                        if toks[i + 1] != "(" {
                            toks.remove(i + 1);
                        }
                    }
                    2 => {
                        let at = i + 2;
                        toks.insert(at, "(".into());
                        toks.insert(at + 1, "X".into());
                        toks.insert(at + 2, ")".into());
                    }
                    3 => {
                        toks.insert(0, "word".into());
                    }
                    4 => {
                        toks.pop();
                    }
                    _ => toks.push(")".into()),
                }
                let t = layout(&mut ctx.s, &toks, &[" "], false, false);
                if !(toks[0] == "word" && multi) {
                    text.push_str(&t);
                    text.push('\n');
                    parts.push(Part::Bad);
                    continue;
                }
                toks.remove(0);
            }
            let t = layout(&mut ctx.s, &toks, ws, false, false);
            let t = format!("{}{}\n", t, ctx.s.pick(&["", " "]));
            let alone: Vec<Result<Tree, String>> = PTBReader::new(t.as_bytes(), fmt.real(), lf()).map(|r| r.map_err(|e| e.to_string())).collect();
            match alone.into_iter().next() {
                Some(Ok(tree)) => parts.push(Part::Good(tree)),
                _ => return ctx.discard(),
            }
            text.push_str(&t);
        }
        text.push_str(&gap(&mut ctx.s));
        if multi && ctx.s.chance(1, 5) {
            let m = gen_tree(&mut ctx.s, &bracket_cfg(fmt, false, 0));
            let mut toks = bracket_tokens(&bracket_content(&m, fmt), fmt);
            let n = ctx.s.range(1, toks.len() - 1);
            toks.truncate(n);
            text.push_str(&layout(&mut ctx.s, &toks, ws, false, false));
            if ctx.s.chance(2, 3) {
                text.push('\n');
            }
            parts.push(Part::Bad);
            ctx.class("cut off at the end of the file");
        } else if parts.last().map(|p| !matches_bad(p)).unwrap_or(false) && ctx.s.chance(1, 6) {
            // no final line break
            while text.ends_with('\n') {
                text.pop();
            }
        }
        ctx.log(|| format!("file:\n{}", text));
        let items = PTBReader::new(text.as_bytes(), fmt.real(), lf()).take(parts.len() + 5).map(|r| r.map_err(|e| e.to_string())).collect();
        stream(&parts, items, false).map_err(|e| format!("{}\n{}", e, text))?;
    }
    ctx.class_if(parts.iter().any(matches_bad), "damaged sentence");
    ctx.class_if(parts.windows(2).any(|p| matches_bad(&p[0]) && !matches_bad(&p[1])), "well-formed after damaged");
    ctx.nontrivial = parts.len() > 1;
    Ok(())
}
