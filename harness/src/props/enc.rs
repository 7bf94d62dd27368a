//! C12-C15 encodings, C21 CoNLL-X export.
use super::nav::edited_tree;
use super::ops::collapsed_model;
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use crate::text::*;
use conllx::graph::{Node, Sentence};
use conllx::io::{ReadSentence, Reader, WriteSentence, Writer};
use conllx::token::Token;
use lumberjack::io::{AbsoluteEncoding, Decode, Encode, RelativeEncoding, ToConllx, TryFromConllx};
use lumberjack::{Terminal, Tree, UnaryChains, WriteTree};
use std::collections::BTreeSet;
use std::convert::TryInto;

/// Words with everything they carry, nesting, node labels.
const WORDS: View = View { lemma: true, edges: false, tfeats: true, ntfeats: false, ntlabels: true };

fn enc_label(s: &mut Src) -> String {
    match s.below(4) {
        0 => token(s, "_"),
        1 => s.pick(&["DUMMY", "VROOT", "NONE", "A+1", "~", "+"]).to_string(),
        _ => plain_label(s),
    }
}

/// The delimiter of collapsed chains may be part of labels as long as nothing is decoded.
fn any_label(s: &mut Src) -> String {
    match s.below(5) {
        0 => token(s, ""),
        1 => s.pick(&["_", "_A", "A_", "A_B", "__"]).to_string(),
        _ => enc_label(s),
    }
}

fn terminals(tree: &Tree, m: &MTree) -> Vec<Terminal> {
    m.words().into_iter().map(|w| tree[ni(w)].terminal().unwrap().clone()).collect()
}

pub fn c12(ctx: &mut Ctx) -> Res {
    let cfg = Cfg { label: enc_label, unary: 4, max_words: 10, sec: 1, ..PROJ };
    let (mut tree, m) = match any_tree(ctx, &cfg) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let words_before = terminals(&tree, &m);
    tree.collapse_unary_chains("_").map_err(|e| format!("collapse failed: {}", e))?;
    let mid = content(&tree)?;
    let words_after = terminals(&tree, &mid);
    let abs = tree.encode_absolute().map_err(|e| format!("encode_absolute failed: {}", e))?;
    let rel = tree.encode_relative().map_err(|e| format!("encode_relative failed: {}", e))?;
    ctx.log(|| format!("absolute: {:?}\nrelative: {:?}", abs, rel));
    check!(RelativeEncoding::from(abs.clone()) == rel, "relative encoding made from the absolute one: {:?} instead of {:?}", RelativeEncoding::from(abs.clone()), rel);
    let back = AbsoluteEncoding::try_from_relative(rel.clone()).into_result().map_err(|_| format!("the relative encoding of a tree is not convertible: {:?}", rel))?;
    check!(back == abs, "absolute encoding made from the relative one: {:?} instead of {:?}", back, abs);
    let fixed = AbsoluteEncoding::try_from_relative(rel.clone()).unwrap_or_fix();
    check!(fixed == abs, "unwrap_or_fix changes a valid encoding: {:?} instead of {:?}", fixed, abs);
    let mut first: Option<Tree> = None;
    for (what, enc, words) in vec![("absolute", abs.clone(), words_before), ("absolute, words of the collapsed tree", abs, words_after.clone()), ("relative", back, words_after)] {
        let mut t = Tree::decode(enc, words);
        let d = snapshot(&t).map_err(|e| format!("{}: decoded tree: {}", what, e))?;
        check!(d.canon(SHAPE) == mid.canon(SHAPE), "{}: decoded to {} instead of {}", what, d.render(), mid.render());
        t.restore_unary_chains("_").map_err(|e| format!("{}: restore failed: {}", what, e))?;
        let r = snapshot(&t).map_err(|e| format!("{}: restored tree: {}", what, e))?;
        check!(r.canon(WORDS) == m.canon(WORDS), "{}: {} instead of {}", what, r.render(), m.render());
        match &first {
            None => first = Some(t),
            Some(f) => check!(*f == t, "{}: decoded trees are not equal", what),
        }
    }
    ctx.class_if(m.unary().contains(&m.root) && m.n_words() > 1, "chain over the whole sentence");
    ctx.class_if(m.words().iter().any(|w| m.parent(*w).map(|p| m.unary().contains(&p)).unwrap_or(false)), "leaf chain");
    ctx.nontrivial = m.n_words() > 1 && m.nodes.len() > 3;
    Ok(())
}

pub fn c13(ctx: &mut Ctx) -> Res {
    let disc = if ctx.s.chance(1, 5) { 2 } else { 0 };
    let cfg = Cfg { label: any_label, unary: 3, max_words: 10, disc, sec: 1, ..ANY };
    let spec = collapsed_model(&gen_tree(&mut ctx.s, &cfg), "_");
    let (tree, m) = match build(ctx, &spec) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    shape_classes(ctx, &m);
    ctx.log(|| format!("tree: {}", m.render()));
    let none = BTreeSet::new();
    if !m.projective() {
        ctx.class("discontinuous tree refused");
        check!(tree.encode_absolute().is_err(), "encode_absolute accepted a discontinuous tree");
        check!(tree.encode_relative().is_err(), "encode_relative accepted a discontinuous tree");
        let mut t = tree.clone();
        check!(t.annotate_absolute().is_err(), "annotate_absolute accepted a discontinuous tree");
        check!(t.annotate_relative().is_err(), "annotate_relative accepted a discontinuous tree");
        m.diff(&content(&t)?, &none).map_err(|e| format!("changed although refused: {}", e))?;
        ctx.nontrivial = true;
        return Ok(());
    }
    let labs = labels(&m);
    let abs = tree.encode_absolute().map_err(|e| format!("encode_absolute failed: {}", e))?;
    let got: Vec<Lab> = abs.iter().map(|(a, c)| (a.as_ref().map(|a| (a.n_common(), a.label().to_string())), c.clone())).collect();
    check!(got == labs, "absolute labels {:?} instead of {:?}", got, labs);
    let rel = tree.encode_relative().map_err(|e| format!("encode_relative failed: {}", e))?;
    let want: Vec<(Option<String>, Option<String>)> = {
        let bare: Vec<Lab> = labs.iter().map(|l| (l.0.clone(), None)).collect();
        label_texts(&bare, true).into_iter().zip(&labs).map(|(t, l)| (l.0.as_ref().map(|_| t), l.1.clone())).collect()
    };
    let got: Vec<(Option<String>, Option<String>)> = rel.iter().map(|(a, c)| (a.as_ref().map(|a| a.to_string()), c.clone())).collect();
    check!(got == want, "relative labels {:?} instead of {:?}", got, want);
    for relative in &[false, true] {
        let mut t = tree.clone();
        if *relative { t.annotate_relative() } else { t.annotate_absolute() }.map_err(|e| format!("annotation failed: {}", e))?;
        let mut want = m.clone();
        let key = if *relative { "rel_ancestor" } else { "abs_ancestor" };
        for (w, l) in m.words().into_iter().zip(label_texts(&labs, *relative)) {
            want.nodes.get_mut(&w).unwrap().feats.insert(key.into(), Some(l));
        }
        want.diff(&content(&t)?, &none).map_err(|e| format!("{}: {}", key, e))?;
    }
    ctx.class_if(labs.iter().any(|l| l.1.is_some()), "leaf chain");
    ctx.class_if(m.nts().iter().any(|n| m.nodes[n].feats.contains_key("unary_chain")), "chain on a node");
    ctx.nontrivial = m.n_words() > 2 && m.nts().len() > 1;
    Ok(())
}

fn conll_form(s: &mut Src) -> String {
    let t = super::io::wide(s, "");
    if t == "_" {
        "x".into()
    } else {
        t
    }
}
/// A tag that the text marks as missing is read back the same.
fn conll_tag(s: &mut Src) -> String {
    if s.chance(1, 12) {
        "_".into()
    } else {
        conll_form(s)
    }
}
fn conll_label(s: &mut Src) -> String {
    match s.below(3) {
        0 => token(s, "_+~:|"),
        1 => s.pick(&["DUMMY", "VROOT", "1", "-", "NONEX", "-NONE-", "N"]).to_string(),
        _ => plain_label(s),
    }
}
fn fkey(s: &mut Src) -> String {
    match s.below(3) {
        0 => token(s, ":|"),
        _ => s.pick(&["morph", "k", "a", "zz", "A"]).to_string(),
    }
}
fn conll_feats(s: &mut Src) -> Feats {
    let mut f = Feats::new();
    for _ in 0..s.weighted(&[2, 3, 2, 1]) {
        let k = fkey(s);
        if k == "_" {
            continue;
        }
        let v = match s.below(3) {
            0 => None,
            1 => Some(s.pick(&["v", "1", "x=y"]).to_string()),
            _ => Some(token(s, "|")),
        };
        f.insert(k, v);
    }
    f
}

fn conll_cfg(base: Cfg) -> Cfg {
    Cfg { form: conll_form, tag: conll_tag, lemma: Some(conll_form), tfeats: Some(conll_feats), label: conll_label, sec: 1, ..base }
}

fn read_conllx(text: &str) -> Result<Vec<Sentence>, String> {
    Reader::new(text.as_bytes()).sentences().map(|s| s.map_err(|e| e.to_string())).collect()
}

pub fn c14(ctx: &mut Ctx) -> Res {
    let k = ctx.s.range(1, 2);
    let mut texts = [Vec::new(), Vec::new()];
    let mut wants = vec![];
    for _ in 0..k {
        let (tree, m) = match any_tree(ctx, &Cfg { unary: 4, ..conll_cfg(PROJ) }) {
            Some(x) => x,
            None => return ctx.discard(),
        };
        let mut t = tree.clone();
        t.collapse_unary_chains("_").map_err(|e| format!("collapse failed: {}", e))?;
        for relative in &[false, true] {
            let mut t = t.clone();
            if *relative { t.annotate_relative() } else { t.annotate_absolute() }.map_err(|e| format!("annotation failed: {}", e))?;
            let out = &mut texts[*relative as usize];
            let mut w = Writer::new(&mut *out);
            if ctx.s.chance(1, 2) {
                w.write_tree(&t).map_err(|e| format!("write_tree failed: {}", e))?;
            } else {
                w.write_sentence(&t.to_conllx()).map_err(|e| format!("write_sentence failed: {}", e))?;
            }
            out.push(b'\n');
        }
        wants.push(m);
    }
    let mut first: Vec<Tree> = vec![];
    for relative in &[false, true] {
        let text = String::from_utf8(texts[*relative as usize].clone()).map_err(|e| e.to_string())?;
        ctx.log(|| format!("text:\n{}", text));
        let sents = read_conllx(&text).map_err(|e| format!("CoNLL-X text cannot be read: {}\n{}", e, text))?;
        check!(sents.len() == wants.len(), "{} sentences in the text for {} trees", sents.len(), wants.len());
        for (i, (s, m)) in sents.iter().zip(&wants).enumerate() {
            let t = if *relative { Tree::try_from_conllx_with_relative_encoding(s) } else { Tree::try_from_conllx_with_absolute_encoding(s) }.map_err(|e| format!("decoding failed: {}\n{}", e, text))?;
            let r = snapshot(&t)?;
            check!(r.canon(SHAPE) == m.canon(SHAPE), "relative={}: {} instead of {}", relative, r.render(), m.render());
            if *relative {
                check!(first[i] == t, "the two label scales give different trees");
            } else {
                first.push(t);
            }
        }
    }
    ctx.class_if(wants.iter().any(|m| m.unary().contains(&m.root) && m.n_words() > 1), "chain over the whole sentence");
    ctx.class_if(wants.len() > 1, "several sentences");
    ctx.nontrivial = wants.iter().any(|m| m.n_words() > 1 && m.nodes.len() > 3);
    Ok(())
}

// ---- C15 ----

type Pred = (Option<(isize, String)>, Option<String>); // number and label (number absent: 0)

fn pred_label(s: &mut Src) -> String {
    let base = if s.chance(1, 12) {
        s.pick(&["DUMMYX", "XDUMMY", "dummy", "UNK", "ROOT", "NONES", "A-B", "\u{e4}\u{1F600}", "0"]).to_string()
    } else {
        s.pick(&["A", "B", "C", "DUMMY", "S"]).to_string()
    };
    match s.below(5) {
        0 => format!("X_{}", base),
        1 => format!("X_Y_{}", base),
        _ => base,
    }
}
fn pred_chain(s: &mut Src) -> Option<String> {
    match s.below(5) {
        0 if s.chance(1, 8) => Some(s.pick(&["DUMMY", "DUMMY_U", "U_DUMMY_V", "NONE", "S+1", "\u{e4}"]).to_string()),
        0 => Some("U".into()),
        1 => Some("U_V".into()),
        _ => None,
    }
}

fn sentence(texts: &[(String, String, String)], key: &str) -> Sentence {
    let mut sent = Sentence::new();
    for (form, tag, l) in texts {
        let mut tok = Token::new(form.clone());
        // a missing tag is read as `_`
        if tag != "_" {
            tok.set_pos(Some(tag.clone()));
        }
        tok.set_features(Some(conllx::token::Features::from_string(format!("{}:{}", key, l))));
        sent.push(tok);
    }
    sent
}

fn pred_ok(t: &Tree, words: &[(String, String)]) -> Result<MTree, String> {
    let r = snapshot(t)?;
    check!(t.is_projective() && r.projective(), "not projective: {}", r.render());
    let got: Vec<(String, String)> = r.words().iter().map(|w| (r.nodes[w].term.as_ref().unwrap().form.clone(), r.nodes[w].label.clone())).collect();
    check!(got == words, "words {:?} instead of {:?}", got, words);
    Ok(r)
}

pub fn c15(ctx: &mut Ctx) -> Res {
    let n = gen_size(&mut ctx.s, 9);
    let words: Vec<(String, String)> = (0..n).map(|i| (format!("w{}", i), if ctx.s.chance(1, 12) { "_".into() } else { plain_tag(&mut ctx.s) })).collect();
    let big = ctx.s.chance(1, 40);
    let top = if big { ctx.s.range(20, 300) } else { *ctx.s.pick(&[3usize, 2, 5, 9]) };
    let relative = ctx.s.chance(1, 2);
    let p_none = *ctx.s.pick(&[0usize, 1, 3]);
    // relative sequences: mostly near-consistent offsets, or wild ones
    let wild = ctx.s.chance(1, 2);
    let mut preds: Vec<Pred> = vec![];
    let mut abs: Vec<Pred> = vec![];
    let mut prev = 0isize;
    let mut repaired = 0;
    for i in 0..n {
        let chain = pred_chain(&mut ctx.s);
        let none = if i + 1 == n { ctx.s.chance(4, 5) } else { ctx.s.chance(p_none, 10) };
        if none {
            preds.push((None, chain.clone()));
            abs.push((None, chain));
            continue;
        }
        let l = pred_label(&mut ctx.s);
        if !relative {
            let d = ctx.s.range(1, top) as isize;
            abs.push((Some((d, l)), chain));
            continue;
        }
        if ctx.s.chance(1, 5) {
            preds.push((Some((isize::MIN, l.clone())), chain.clone()));
            abs.push((Some((1, l)), chain));
            prev = 1;
            continue;
        }
        let off = if wild { ctx.s.range(0, 2 * top) as isize - top as isize } else { ctx.s.range(0, 3) as isize - 1 };
        preds.push((Some((off, l.clone())), chain.clone()));
        let mut d = prev + off;
        if d < 1 {
            d = 2;
            repaired += 1;
        }
        prev = d;
        abs.push((Some((d, l)), chain));
    }
    let show = |p: &Pred, rel: bool| {
        let mut t = match &p.0 {
            None => "NONE".to_string(),
            Some((d, l)) if *d == isize::MIN => l.clone(),
            Some((d, l)) => format!("{}+{}", l, if rel { d.to_string() } else { d.to_string() }),
        };
        if let Some(c) = &p.1 {
            t.push('~');
            t.push_str(c);
        }
        t
    };
    let texts = |ps: &[Pred]| -> Vec<(String, String, String)> { ps.iter().zip(&words).map(|(p, w)| (w.0.clone(), w.1.clone(), show(p, relative))).collect() };
    let abs_texts = texts(&abs);
    ctx.log(|| format!("absolute labels: {:?}", abs_texts.iter().map(|t| &t.2).collect::<Vec<_>>()));
    let mut tree = Tree::try_from_conllx_with_absolute_encoding(&sentence(&abs_texts, "abs_ancestor")).map_err(|e| format!("absolute labels refused: {}", e))?;
    let r = pred_ok(&tree, &words)?;
    ctx.log(|| format!("decoded: {}", r.render()));
    if relative {
        let rel_texts = texts(&preds);
        ctx.log(|| format!("relative labels: {:?}", rel_texts.iter().map(|t| &t.2).collect::<Vec<_>>()));
        let t2 = Tree::try_from_conllx_with_relative_encoding(&sentence(&rel_texts, "rel_ancestor")).map_err(|e| format!("relative labels refused: {}", e))?;
        let r2 = pred_ok(&t2, &words).map_err(|e| format!("relative labels: {}", e))?;
        r.same(&r2).map_err(|e| format!("relative labels {:?} stand for the absolute labels {:?}: {}", rel_texts.iter().map(|t| &t.2).collect::<Vec<_>>(), abs_texts.iter().map(|t| &t.2).collect::<Vec<_>>(), e))?;
        ctx.class("relative labels");
        ctx.class_if(repaired > 0, "repaired offset");
        ctx.class_if(repaired > 1, "several repaired offsets");
    }
    // decoding without restoring the chains
    let enc = AbsoluteEncoding::new(
        abs.iter()
            .map(|(a, c)| {
                let a = match a {
                    None => None,
                    Some((d, l)) => Some(format!("{}+{}", l, d).as_str().try_into().map_err(|e: failure::Error| e.to_string())?),
                };
                Ok((a, c.clone()))
            })
            .collect::<Result<Vec<_>, String>>()?,
    );
    // conversion between the scales, also where no tree has these labels
    let rel = RelativeEncoding::from(enc.clone());
    check!(rel.len() == n, "{} labels converted to {}", n, rel.len());
    let mut last = 0;
    for (i, (r, a)) in rel.iter().zip(&abs).enumerate() {
        let want = a.0.as_ref().map(|(d, l)| {
            let off = d - last;
            last = *d;
            if *d == 1 {
                l.clone()
            } else {
                format!("{}+{}", l, off)
            }
        });
        check!(r.0.as_ref().map(|x| x.to_string()) == want && r.1 == a.1, "label {} of the relative encoding is {:?}, expected {:?}", i, r, want);
    }
    match AbsoluteEncoding::try_from_relative(rel.clone()).into_result() {
        Ok(x) => check!(x == enc, "converted to the relative scale and back: {:?} instead of {:?}", x, enc),
        Err(_) => return Err(format!("a converted encoding is refused: {:?}", rel)),
    }
    check!(AbsoluteEncoding::try_from_relative(rel).unwrap_or_fix() == enc, "unwrap_or_fix changes a valid encoding");
    for (x, a) in enc.clone().into_iter().zip(&abs) {
        let same = match (&x.0, &a.0) {
            (None, None) => true,
            (Some(x), Some((d, l))) => x.n_common() as isize == *d && x.label() == l && x.clone().into_parts() == (*d as usize, l.clone()),
            _ => false,
        };
        check!(same && x.1 == a.1, "encoding holds {:?} where {:?} was given", x, a);
    }
    let terms = words.iter().enumerate().map(|(i, w)| Terminal::new(w.0.clone(), w.1.clone(), i)).collect();
    let mut raw = Tree::decode(enc, terms);
    pred_ok(&raw, &words).map_err(|e| format!("decode: {}", e))?;
    raw.restore_unary_chains("_").map_err(|e| format!("restore: {}", e))?;
    r.same(&snapshot(&raw)?).map_err(|e| format!("decode and restore: {}", e))?;

    tree.remove_dummy_nodes().map_err(|e| format!("remove_dummy_nodes failed: {}", e))?;
    let d = snapshot(&tree)?;
    ctx.log(|| format!("without dummies: {}", d.render()));
    for (i, x) in &d.nodes {
        let excused = *i == d.root && d.children(*i).len() > 1;
        check!(x.is_t() || x.label != "DUMMY" || excused, "node {} is still labelled DUMMY", i);
    }
    let mut want = r.clone();
    want.filter(&|t, n| t.nodes[&n].label != "DUMMY");
    let root = want.root;
    if !want.is_t(root) && want.nodes[&root].label == "DUMMY" && want.children(root).len() == 1 {
        want.remove_nt(root);
    }
    want.diff(&d, &d.nodes.keys().cloned().collect()).map_err(|e| format!("remove_dummy_nodes: {}", e))?;
    ctx.class_if(d.nodes.len() < r.nodes.len(), "dummies removed");
    ctx.class_if(big, "great depth");
    ctx.class_if(abs.iter().take(n - 1).any(|p| p.0.is_none()), "missing label inside");
    ctx.nontrivial = n > 1;
    Ok(())
}

// ---- C21 ----

fn rows(s: &Sentence) -> Vec<(String, Option<String>, Option<String>, String)> {
    s.iter()
        .filter_map(Node::token)
        .map(|t| (t.form().to_string(), t.lemma().map(|x| x.to_string()), t.pos().map(|x| x.to_string()), t.features().map(|f| f.as_str().to_string()).unwrap_or_default()))
        .collect()
}

pub fn c21(ctx: &mut Ctx) -> Res {
    let (tree, m) = match edited_tree(ctx, &Cfg { tag: conll_form, ..conll_cfg(ANY) }) {
        Some(x) => x,
        None => return ctx.discard(),
    };
    let want: Vec<(String, Option<String>, Option<String>, String)> = m
        .words()
        .iter()
        .map(|w| {
            let x = &m.nodes[w];
            let t = x.term.as_ref().unwrap();
            (t.form.clone(), t.lemma.clone(), Some(x.label.clone()), feats_text(&x.feats))
        })
        .collect();
    let a = Sentence::from(&tree);
    let b = tree.to_conllx();
    let c = Sentence::from(tree.clone());
    for (what, s) in &[("borrowed", &a), ("to_conllx", &b), ("consumed", &c)] {
        let got = rows(s);
        check!(got == want, "{}: tokens {:?} instead of {:?}", what, got, want);
        check!(s.len() == want.len() + 1, "{}: {} nodes for {} words", what, s.len(), want.len());
    }
    let mut text: Vec<u8> = vec![];
    let mut w = Writer::new(&mut text);
    w.write_tree(&tree).map_err(|e| format!("write_tree failed: {}", e))?;
    w.write_sentence(&b).map_err(|e| format!("write_sentence failed: {}", e))?;
    text.push(b'\n');
    let text = String::from_utf8(text).map_err(|e| e.to_string())?;
    ctx.log(|| format!("text:\n{}", text));
    let sents = read_conllx(&text).map_err(|e| format!("text cannot be read: {}\n{}", e, text))?;
    check!(sents.len() == 2, "{} sentences in the text of two", sents.len());
    for s in &sents {
        let got = rows(s);
        check!(got == want, "text: tokens {:?} instead of {:?}\n{}", got, want, text);
    }
    let own = parse_conllx(&text)?;
    check!(own.len() == 2 && own[0] == own[1], "the two ways of writing differ:\n{}", text);
    m.diff(&content(&tree)?, &BTreeSet::new()).map_err(|e| format!("exporting changed the tree: {}", e))?;
    ctx.class_if(want.iter().any(|w| !w.3.is_empty()), "features");
    ctx.class_if(want.iter().any(|w| w.1.is_some()), "lemma");
    ctx.nontrivial = want.len() > 1;
    Ok(())
}
