//! C25, C26: the command-line converter, run as a process on generated files.
use super::io::bracket_content;
use super::ops::{collapsed_model, nearest, reattach_model, reference_results, runs};
use crate::engine::*;
use crate::gen::*;
use crate::mtree::*;
use crate::text::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Bracket(Fmt),
    Negra,
    Enc(bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Bracket(Fmt),
    Negra,
    Enc(bool),
    Conllx,
}
const INS: &[In] = &[In::Bracket(Fmt::Simple), In::Bracket(Fmt::Ptb), In::Bracket(Fmt::TueBa), In::Negra, In::Enc(false), In::Enc(true)];
const OUTS: &[Out] = &[Out::Bracket(Fmt::Simple), Out::Bracket(Fmt::Ptb), Out::Bracket(Fmt::TueBa), Out::Negra, Out::Conllx, Out::Enc(false), Out::Enc(true)];

impl In {
    fn name(self) -> &'static str {
        match self {
            In::Bracket(f) => f.name(),
            In::Negra => "negra",
            In::Enc(false) => "absolute",
            In::Enc(true) => "relative",
        }
    }
}
impl Out {
    fn name(self) -> &'static str {
        match self {
            Out::Bracket(f) => f.name(),
            Out::Negra => "negra",
            Out::Enc(false) => "absolute",
            Out::Enc(true) => "relative",
            Out::Conllx => "conllx",
        }
    }
    fn needs_projective(self) -> bool {
        match self {
            Out::Bracket(_) | Out::Enc(_) => true,
            _ => false,
        }
    }
}

fn binary() -> PathBuf {
    let vd = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    vd.join("target/cli/debug/lumberjack-conversion")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("PBT_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("work"));
        let d = base.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn file(&self, name: &str, text: &str) -> String {
        let p = self.0.join(name);
        fs::write(&p, text).expect("scratch file");
        p.to_str().unwrap().to_string()
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    ok: bool,
    /// ended with an exit status (and not by a signal)
    exited: bool,
    out: Vec<u8>,
    err: String,
}

/// Runs the converter on `text`, by file or standard streams.
fn convert(s: &mut Src, dir: &Scratch, text: &str, args: &[String]) -> Ran {
    let mut cmd = Command::new(binary());
    cmd.args(args).current_dir(&dir.0).env_clear();
    let by_file = s.chance(1, 2);
    let to_file = s.chance(1, 2);
    if by_file {
        cmd.arg("--input_file").arg(dir.file("in.txt", text)).stdin(Stdio::null());
    } else {
        cmd.stdin(Stdio::piped());
    }
    let out_path = dir.path("out.txt");
    let _ = fs::remove_file(&out_path);
    if to_file {
        cmd.arg("--output_file").arg(&out_path);
    }
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            for (r, v) in &[(libc::RLIMIT_CPU, 10u64), (libc::RLIMIT_AS, 2 << 30), (libc::RLIMIT_CORE, 0), (libc::RLIMIT_FSIZE, 64 << 20)] {
                let l = libc::rlimit { rlim_cur: *v, rlim_max: *v };
                libc::setrlimit(*r, &l);
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("run the converter");
    if let Some(mut i) = child.stdin.take() {
        // inputs are far smaller than the pipe
        let _ = i.write_all(text.as_bytes());
    }
    let mut stdout = vec![];
    let mut stderr = vec![];
    let _ = child.stdout.take().unwrap().read_to_end(&mut stdout);
    let _ = child.stderr.take().unwrap().read_to_end(&mut stderr);
    let st = child.wait().expect("wait for the converter");
    let out = if to_file { fs::read(&out_path).unwrap_or_default() } else { stdout };
    Ran { ok: st.success(), exited: st.code().map(|c| c != 101).unwrap_or(false), out, err: String::from_utf8_lossy(&stderr).into_owned() }
}

// ---- generated input ----

fn clean(t: String) -> String {
    if t == "_" || t == "--" || t.starts_with('#') || t.starts_with('%') {
        format!("x{}", t.replace('%', "x").replace('#', "x"))
    } else {
        t
    }
}
fn c_form(s: &mut Src) -> String {
    clean(token(s, "()"))
}
fn c_tag(s: &mut Src) -> String {
    if s.chance(2, 3) {
        plain_tag(s)
    } else {
        clean(token(s, "()-:="))
    }
}
fn c_label(s: &mut Src) -> String {
    match s.below(4) {
        0 => clean(token(s, "()-:=_+~|")),
        1 => s.pick(&["DUMMY", "VROOT", "ROOT"]).to_string(),
        _ => plain_label(s),
    }
}
fn c_edge(s: &mut Src) -> String {
    if s.chance(2, 3) {
        plain_edge(s)
    } else {
        clean(token(s, "():="))
    }
}
fn c_lemma(s: &mut Src) -> String {
    clean(token(s, "()"))
}
fn c_morph(s: &mut Src) -> Feats {
    let mut f = Feats::new();
    f.insert("morph".into(), Some(clean(token(s, "()|"))));
    f
}
fn c_ann(s: &mut Src) -> Feats {
    let mut f = Feats::new();
    f.insert(ANN.into(), Some(clean(token(s, "():=-"))));
    f
}

fn cli_cfg(input: In, disc: u8) -> Cfg {
    let base = Cfg { max_words: 6, disc, unary: 3, form: c_form, tag: c_tag, label: c_label, edge: None, lemma: None, tfeats: None, ntfeats: None, sec: 0, ..ANY };
    match input {
        In::Bracket(Fmt::Simple) => Cfg { disc: 0, ..base },
        In::Bracket(Fmt::Ptb) => Cfg { disc: 0, ntfeats: Some(c_ann), ..base },
        In::Bracket(Fmt::TueBa) => Cfg { disc: 0, ntfeats: Some(c_ann), edge: Some(c_edge), ..base },
        In::Negra => Cfg { ntfeats: Some(c_ann), edge: Some(c_edge), lemma: Some(c_lemma), tfeats: Some(c_morph), root_label: Some("VROOT"), term_root: false, ..base },
        In::Enc(_) => Cfg { disc: 0, ..base },
    }
}

/// The tree the reader has to deliver for a generated specification.
fn read_model(m: &MTree, input: In) -> MTree {
    match input {
        In::Bracket(f) => bracket_content(m, f),
        In::Negra => m.clone(),
        In::Enc(_) => {
            let mut t = m.clone();
            for n in t.nodes.values_mut() {
                n.feats.clear();
                n.edge = None;
                if let Some(t) = n.term.as_mut() {
                    t.lemma = None;
                }
            }
            t
        }
    }
}

fn gen_input(ctx: &mut Ctx, input: In, out: Out, disc: u8, number: usize) -> MTree {
    let mut m = gen_tree(&mut ctx.s, &cli_cfg(input, disc));
    let root = m.root;
    if input == In::Negra {
        let mut rf = Feats::new();
        rf.insert("sentence_id".into(), Some((number * 3 + 1).to_string()));
        if ctx.s.chance(1, 3) {
            rf.insert("metadata".into(), Some("2 1070544990 0 %% HEADLINE".into()));
        }
        m.nodes.get_mut(&root).unwrap().feats = rf;
        if ctx.s.chance(1, 4) {
            let nts = m.nts();
            let c = pick_node(&mut ctx.s, &m);
            let p = *ctx.s.pick(&nts);
            if c != root && c != p {
                m.sec.push((p, c, Some("refint".into())));
            }
        }
        if ctx.s.chance(1, 4) {
            // parentheses are valid in NEGRA words and tags and become LBR and RBR in brackets
            let w = pick_word(&mut ctx.s, &m);
            let n = m.nodes.get_mut(&w).unwrap();
            let p = ctx.s.pick(&["(", ")", "a)b", "(("]).to_string();
            n.term.as_mut().unwrap().form = p;
            if ctx.s.chance(1, 2) {
                n.label = "$(".into();
            }
        }
    }
    if out == Out::Negra && m.is_t(m.root) {
        // no NEGRA sentence without a root node
        let id = m.nodes.keys().max().unwrap() + 1;
        m.insert_above(id, root, "ROOT");
    }
    m
}

fn input_text(s: &mut Src, ms: &[MTree], input: In, multiline: bool) -> String {
    let mut o = String::new();
    for m in ms {
        match input {
            In::Bracket(f) => {
                let m = bracket_content(m, f);
                let toks = bracket_tokens(&m, f);
                if multiline {
                    o.push_str(*s.pick(&["", "\n", "% comment ( x\n"]));
                    o.push_str(&layout(s, &toks, &[" ", "\n", "\n  "], false, false));
                } else if s.chance(1, 2) {
                    o.push_str(&canonical(&toks, f));
                } else {
                    o.push_str(&layout(s, &toks, &[" ", "  "], false, true));
                }
                o.push('\n');
            }
            In::Negra => {
                o.push_str(*s.pick(&["", "%% text\n", "#FORMAT 4\n"]));
                o.push_str(&negra_random(s, m));
            }
            In::Enc(rel) => {
                let c = collapsed_model(&read_model(m, input), "_");
                let key = if rel { "rel_ancestor" } else { "abs_ancestor" };
                let labs = label_texts(&labels(&c), rel);
                let rows: Vec<_> = c
                    .words()
                    .into_iter()
                    .zip(labs)
                    .map(|(w, l)| {
                        let n = &c.nodes[&w];
                        let extra = s.pick(&["", "a:b|", "zz|"]).to_string();
                        (n.term.as_ref().unwrap().form.clone(), None, n.label.clone(), format!("{}{}:{}", extra, key, l))
                    })
                    .collect();
                if !o.is_empty() {
                    o.push('\n');
                }
                o.push_str(&conllx_text(&rows));
            }
        }
    }
    o
}

/// Text that cannot be read in the format, as an item of its own.
fn unreadable(s: &mut Src, input: In) -> String {
    match input {
        In::Bracket(_) => s.pick(&["(S (NP ))\n", "(S ((N a))\n)\n", "((N a) (N b))\n"]).to_string().replace("(S ((N a))\n)\n", "(S ((N a)))\n"),
        In::Negra => s.pick(&["#BOS 9\nw\t--\tT\t--\t--\tx\n#EOS 9\n", "#BOS 9\nw\t--\tT\t--\t--\t500\n#EOS 9\n", "#BOS 9\nw\t--\tT\n#EOS 9\n", "#BOS 9\nw\t--\tT\t--\t--\t0\n#EOS 8\n"]).to_string(),
        In::Enc(rel) => {
            let k = if rel { "rel_ancestor" } else { "abs_ancestor" };
            s.pick(&[
                "1\tw\t_\tT\t_\tx:y\t_\t_\t_\t_\n",
                "1\tw\t_\tT\t_\t_\t_\t_\t_\t_\n",
                // not CoNLL-X: the head is no number
                "1\tw\t_\tT\t_\tKEY:NONE\tx\t_\t_\t_\n",
                "1\tv\t_\tT\t_\tKEY:S+1\t_\t_\t_\t_\n2\tw\t_\tT\t_\tKEY:NONE\t1.5\t_\t_\t_\n",
                // not a label: the number is none
                "1\tv\t_\tT\t_\tKEY:S+x\t_\t_\t_\t_\n2\tw\t_\tT\t_\tKEY:NONE\t_\t_\t_\t_\n",
                "1\tv\t_\tT\t_\tKEY\t_\t_\t_\t_\n2\tw\t_\tT\t_\tKEY:NONE\t_\t_\t_\t_\n",
            ])
            .replace("KEY", k)
        }
    }
}

// ---- expected output ----

/// A tree as far as it has to come out, with the nodes whose edge label is not laid down.
#[derive(Clone)]
pub struct Want {
    m: MTree,
    free: BTreeSet<usize>,
    /// secondary edges by child: any of several may be written
    sec: BTreeMap<usize, Vec<(usize, Option<String>)>>,
    /// feature whose values only have to tell nodes apart
    ids: Option<String>,
}

fn numbering(m: &MTree) -> HashMap<usize, usize> {
    let kids = m.child_map();
    let ys = m.yields();
    let mut map = HashMap::new();
    let mut stack = vec![m.root];
    while let Some(n) = stack.pop() {
        let k = map.len();
        map.insert(n, k);
        let mut ks = kids[&n].clone();
        ks.sort_by_key(|k| ys[k].first().cloned().unwrap_or(usize::MAX));
        stack.extend(ks.into_iter().rev());
    }
    map
}

fn same_free(want: &MTree, free: &BTreeSet<usize>, got: &MTree) -> Res {
    let map = numbering(want);
    let f: BTreeSet<usize> = free.iter().filter_map(|i| map.get(i).cloned()).collect();
    remap(want, &map).diff(&got.numbered(), &f).map_err(|e| format!("{}\n  got  {}\n  want {}", e, got.render(), want.render()))
}

/// Compares one written sentence.
fn sentence_is(w: &Want, out: Out, got: &Written) -> Res {
    match (out, got) {
        (Out::Bracket(f), Written::Tree(t)) => same_free(&bracket_content(&w.m, f), &w.free, t),
        (Out::Negra, Written::Tree(t)) => {
            let mut m = w.m.clone();
            m.sec.clear();
            let root = m.root;
            for (i, n) in m.nodes.iter_mut() {
                let keep = if *i == root { vec!["sentence_id", "metadata"] } else if n.is_t() { vec!["morph"] } else { vec![ANN] };
                n.feats.retain(|k, _| keep.contains(&k.as_str()));
            }
            m.nodes.get_mut(&root).unwrap().label = "VROOT".into();
            let mut bare = t.clone();
            bare.sec.clear();
            same_free(&m, &w.free, &bare)?;
            // one of the possible secondary edges of each node
            let (a, b) = (numbering(&m), numbering(t));
            let mut left: BTreeMap<usize, Vec<(usize, Option<String>)>> = w.sec.iter().map(|(c, v)| (a[c], v.iter().map(|(p, l)| (a[p], l.clone())).collect())).collect();
            for (p, c, l) in &t.sec {
                match left.remove(&b[c]) {
                    Some(v) => check!(v.contains(&(b[p], l.clone())), "secondary edge of node {} (in preorder) from {} with {:?}, expected one of {:?}", b[c], b[p], l, v),
                    None => return Err(format!("unexpected secondary edge of node {} (in preorder) from {} with {:?}", b[c], b[p], l)),
                }
            }
            check!(left.is_empty(), "secondary edges not written: {:?}", left);
            Ok(())
        }
        (_, Written::Rows(rows)) => {
            let m = &w.m;
            let ws = m.words();
            check!(rows.len() == ws.len(), "{} tokens instead of {}", rows.len(), ws.len());
            let labs = match out {
                Out::Enc(rel) => {
                    let c = collapsed_model(m, "_");
                    Some((if rel { "rel_ancestor" } else { "abs_ancestor" }, label_texts(&labels(&c), rel)))
                }
                _ => None,
            };
            let mut ids: BTreeMap<Option<String>, Option<String>> = BTreeMap::new();
            for (i, (r, w2)) in rows.iter().zip(&ws).enumerate() {
                let n = &m.nodes[w2];
                let t = n.term.as_ref().unwrap();
                let lemma = t.lemma.clone().unwrap_or_else(|| "_".into());
                check!(r[1] == t.form && r[2] == lemma && r[4] == n.label, "token {} is {:?} instead of form {:?}, lemma {:?}, tag {:?}", i, r, t.form, lemma, n.label);
                let mut want = n.feats.clone();
                let mut got = parse_feats(&r[5]);
                got.remove("unary_chain");
                if let Some((key, l)) = &labs {
                    want.insert(key.to_string(), Some(l[i].clone()));
                }
                if let Some(key) = &w.ids {
                    let (a, b) = (want.remove(key), got.remove(key));
                    check!(a.is_some() == b.is_some(), "token {}: feature {:?} is {:?}", i, key, b);
                    if let (Some(a), Some(b)) = (a, b) {
                        check!(b.is_some(), "token {}: id without value", i);
                        let x = ids.entry(a.clone()).or_insert_with(|| b.clone());
                        check!(*x == b, "token {}: id {:?} differs from id {:?} of a word with the same nearest node", i, b, x);
                    }
                }
                check!(got == want, "token {}: features {:?} instead of {:?}", i, got, want);
            }
            let distinct: BTreeSet<_> = ids.values().collect();
            check!(distinct.len() == ids.len(), "words with different nearest nodes have the same id: {:?}", ids);
            Ok(())
        }
        _ => unreachable!(),
    }
}

enum Written {
    Tree(MTree),
    Rows(Vec<Vec<String>>),
}

fn parse_output(out: Out, text: &str) -> Result<Vec<Written>, String> {
    Ok(match out {
        Out::Bracket(f) => {
            let mut v = vec![];
            for l in text.lines() {
                let mut t = parse_brackets(l, f).map_err(|e| format!("{:?}: {}", l, e))?;
                check!(t.len() == 1, "{} trees on the line {:?}", t.len(), l);
                v.push(Written::Tree(t.pop().unwrap()));
            }
            v
        }
        Out::Negra => parse_negra(text)?.into_iter().map(Written::Tree).collect(),
        _ => parse_conllx(text)?.into_iter().map(Written::Rows).collect(),
    })
}

/// Compares the output with the alternatives for each tree.
fn output_is(out: Out, wants: &[Vec<Want>], text: &[u8]) -> Res {
    let text = String::from_utf8(text.to_vec()).map_err(|e| e.to_string())?;
    let got = parse_output(out, &text).map_err(|e| format!("output cannot be understood: {}\n{}", e, text))?;
    check!(got.len() == wants.len(), "{} sentences written for {} trees:\n{}", got.len(), wants.len(), text);
    for (i, (g, ws)) in got.iter().zip(wants).enumerate() {
        let mut first = None;
        let mut ok = ws.is_empty();
        for w in ws {
            match sentence_is(w, out, g) {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) => {
                    first = first.or(Some(e));
                }
            }
        }
        check!(ok, "sentence {}: {}\noutput:\n{}", i, first.unwrap_or_default(), text);
    }
    Ok(())
}

fn plain_want(m: MTree) -> Want {
    let mut sec: BTreeMap<usize, Vec<(usize, Option<String>)>> = BTreeMap::new();
    for (p, c, l) in &m.sec {
        sec.entry(*c).or_default().push((*p, l.clone()));
    }
    Want { m, free: BTreeSet::new(), sec, ids: None }
}

/// Gives trees without an id the numbers a NEGRA writer has to give them.
fn number_sentences(wants: &mut [Vec<Want>]) {
    let mut k = 0;
    for ws in wants.iter_mut() {
        let mut used = false;
        for w in ws.iter_mut() {
            let root = w.m.root;
            let n = w.m.nodes.get_mut(&root).unwrap();
            if !n.feats.contains_key("sentence_id") {
                n.feats.insert("sentence_id".into(), Some(k.to_string()));
                used = true;
            }
        }
        if used {
            k += 1;
        }
    }
}

fn projections(ctx: &mut Ctx, m: &MTree, sec_edges: bool) -> Vec<Want> {
    if m.projective() {
        return vec![plain_want(m.clone())];
    }
    ctx.class("projectivized discontinuous tree");
    match reference_results(m, 300) {
        None => vec![],
        Some(rs) => rs
            .into_iter()
            .map(|(t, report)| {
                let mut w = plain_want(t);
                if sec_edges {
                    for (p, e, c) in report {
                        let l = match e {
                            Some(e) => format!("np_{}", e),
                            None => "np".into(),
                        };
                        w.sec.entry(c).or_default().push((p, Some(l)));
                    }
                }
                w
            })
            .collect(),
    }
}

fn io_classes(ctx: &mut Ctx, input: In, out: Out) {
    ctx.class(match input {
        In::Bracket(Fmt::Simple) => "from simple",
        In::Bracket(Fmt::Ptb) => "from PTB",
        In::Bracket(Fmt::TueBa) => "from TueBa",
        In::Negra => "from NEGRA",
        In::Enc(false) => "from absolute labels",
        In::Enc(true) => "from relative labels",
    });
    ctx.class(match out {
        Out::Bracket(Fmt::Simple) => "to simple",
        Out::Bracket(Fmt::Ptb) => "to PTB",
        Out::Bracket(Fmt::TueBa) => "to TueBa",
        Out::Negra => "to NEGRA",
        Out::Enc(false) => "to absolute labels",
        Out::Enc(true) => "to relative labels",
        Out::Conllx => "to CoNLL-X",
    });
}

fn base_args(s: &mut Src, input: In, out: Out, multiline: bool) -> Vec<String> {
    let mut a = vec![];
    // the defaults may be left out
    if input != In::Bracket(Fmt::TueBa) || s.chance(1, 2) {
        a.push("--input_format".to_string());
        a.push(input.name().to_string());
    }
    if out != Out::Bracket(Fmt::Simple) || s.chance(1, 2) {
        a.push("--output_format".to_string());
        a.push(out.name().to_string());
    }
    if multiline {
        a.push("--multiline_brackets".to_string());
    }
    a
}

pub fn c25(ctx: &mut Ctx) -> Res {
    let input = *ctx.s.pick(INS);
    let out = *ctx.s.pick(OUTS);
    io_classes(ctx, input, out);
    let multiline = ctx.s.chance(1, 3);
    let proj = input == In::Negra && ctx.s.chance(2, 3);
    let k = ctx.s.count(1, 5, 40);
    let mut ms = vec![];
    let mut wants: Vec<Vec<Want>> = vec![];
    let fault = if ctx.s.chance(1, 4) { Some(ctx.s.below(k)) } else { None };
    let kind = ctx.s.below(2);
    let mut must_fail = false;
    let mut texts = vec![];
    for i in 0..k {
        if fault == Some(i) && (kind == 0 || input != In::Negra || !out.needs_projective()) {
            must_fail = true;
            let t = unreadable(&mut ctx.s, input);
            let t = if i > 0 && match input { In::Enc(_) => true, _ => false } { format!("\n{}", t) } else { t };
            texts.push(t);
            ctx.class("unreadable tree");
            continue;
        }
        let may_disc = input == In::Negra && (proj || !out.needs_projective());
        let mut m = gen_input(ctx, input, out, if may_disc { 1 } else { 0 }, i);
        if fault == Some(i) {
            // a discontinuous tree without --projectivize
            let mut d = gen_input(ctx, input, out, 2, i);
            if !proj && !d.projective() && !must_fail {
                must_fail = true;
                ctx.class("tree the output format cannot express");
                let t = input_text(&mut ctx.s, &[d], input, multiline);
                texts.push(t);
                continue;
            }
            std::mem::swap(&mut m, &mut d);
            if !may_disc && !m.projective() {
                m = d;
            }
        }
        let mut t = input_text(&mut ctx.s, &[m.clone()], input, multiline);
        if i > 0 {
            if let In::Enc(_) = input {
                t = format!("\n{}", t);
            }
        }
        texts.push(t);
        if !must_fail {
            let r = read_model(&m, input);
            let w = if proj { projections(ctx, &r, false) } else { vec![plain_want(r)] };
            wants.push(w);
        }
        ms.push(m);
    }
    if out == Out::Negra {
        number_sentences(&mut wants);
    }
    let text = texts.concat();
    let mut args = base_args(&mut ctx.s, input, out, multiline);
    if proj {
        args.push("--projectivize".into());
    }
    ctx.log(|| format!("arguments: {:?}\ninput:\n{}", args, text));
    let dir = Scratch::new();
    let ran = convert(&mut ctx.s, &dir, &text, &args);
    ctx.log(|| format!("success: {}\noutput:\n{}\nerrors: {}", ran.ok, String::from_utf8_lossy(&ran.out), ran.err));
    check!(ran.exited, "the converter crashed: {}\narguments {:?}\ninput:\n{}", ran.err, args, text);
    check!(ran.ok != must_fail, "exit status is {} with arguments {:?} for input\n{}\n{}", if ran.ok { "success" } else { "failure" }, args, text, ran.err);
    output_is(out, &wants, &ran.out).map_err(|e| format!("{}\narguments {:?}\ninput:\n{}", e, args, text))?;
    ctx.class_if(must_fail && !wants.is_empty(), "failure after trees were written");
    ctx.class_if(multiline, "multi-line mode");
    ctx.class_if(wants.len() > 1, "several trees");
    ctx.nontrivial = wants.iter().any(|w| w.iter().any(|w| w.m.nodes.len() > 3)) || must_fail;
    Ok(())
}

// ---- C26 ----

fn label_set(s: &mut Src) -> (BTreeSet<String>, String) {
    let n = s.below(5);
    let mut set = BTreeSet::new();
    let mut text = String::new();
    for _ in 0..n {
        let l = s.pick(&["S", "NP", "VP", "PP", "X", "Y", "DUMMY", "VROOT", "UNK", "LAB"]).to_string();
        text.push_str(&l);
        text.push_str(*s.pick(&[" ", "\n", "\t", "  \n"]));
        set.insert(l);
    }
    if s.chance(1, 3) {
        text = text.trim_end().to_string();
    }
    (set, text)
}

fn o_label(s: &mut Src) -> String {
    s.pick(&["S", "NP", "VP", "PP", "X", "Y", "DUMMY", "VROOT"]).to_string()
}
fn o_tag(s: &mut Src) -> String {
    s.pick(&["N", "NE", "V", "$,", "$.", "$(", "NP"]).to_string()
}

#[derive(Default)]
struct Opts {
    dummies: bool,
    proj: bool,
    sec: bool,
    pos: Option<Vec<Vec<String>>>,
    /// sentence of the tag file that is no CoNLL-X
    pos_bad: Option<usize>,
    prefix: Option<String>,
    ids: Option<BTreeSet<String>>,
    id_name: Option<String>,
    filter: Option<BTreeSet<String>>,
    insertion: Option<BTreeSet<String>>,
    insertion_label: Option<String>,
    parent: Option<String>,
}

impl Want {
    fn freed(&mut self, old: &MTree) {
        for (i, n) in &self.m.nodes {
            if old.nodes.get(i).map(|o| o.parent != n.parent).unwrap_or(false) {
                self.free.insert(*i);
            }
        }
        let nodes = &self.m.nodes;
        self.sec.retain(|c, v| {
            v.retain(|(p, _)| nodes.contains_key(p));
            nodes.contains_key(c) && !v.is_empty()
        });
    }
}

/// The pipeline on one tree; Err: it has to fail there.
fn pipeline(ctx: &mut Ctx, m: &MTree, o: &Opts, out: Out, number: usize) -> Result<Vec<Want>, String> {
    let mut m = m.clone();
    let mut freed = BTreeSet::new();
    if o.dummies {
        let old = m.clone();
        m.filter(&|t, n| t.nodes[&n].label != "DUMMY");
        let root = m.root;
        if !m.is_t(root) && m.nodes[&root].label == "DUMMY" && m.children(root).len() == 1 {
            m.remove_nt(root);
        }
        ctx.class_if(m.nodes.len() < old.nodes.len(), "dummies removed");
        let mut w = plain_want(m.clone());
        w.freed(&old);
        freed = w.free;
        m.sec.retain(|(p, c, _)| m.nodes.contains_key(p) && m.nodes.contains_key(c));
    }
    let mut ws = if o.proj { projections(ctx, &m, o.sec) } else { vec![plain_want(m.clone())] };
    for w in ws.iter_mut() {
        // where the edge label of a moved node is not laid down, neither is the one derived from it
        for c in &freed {
            if let Some(v) = w.sec.get_mut(c) {
                let ps: BTreeSet<usize> = v.iter().map(|(p, _)| *p).collect();
                let old = m.nodes.get(c).and_then(|n| n.edge.clone());
                for p in ps {
                    v.push((p, Some("np".into())));
                    if let Some(e) = &old {
                        v.push((p, Some(format!("np_{}", e))));
                    }
                }
            }
        }
        w.free = freed.clone();
        if let Some(p) = &o.pos {
            let tags = p.get(number).ok_or("no more sentences in the tag file")?;
            if o.pos_bad == Some(number) {
                return Err("unreadable sentence in the tag file".into());
            }
            let words = w.m.words();
            if tags.len() != words.len() {
                return Err("number of tags".into());
            }
            if tags.iter().any(|t| t == "_") {
                return Err("token without tag".into());
            }
            for (x, t) in words.iter().zip(tags) {
                w.m.nodes.get_mut(x).unwrap().label = t.clone();
            }
        }
        if let Some(p) = &o.prefix {
            if !w.m.is_t(w.m.root) {
                let old = w.m.clone();
                w.m = reattach_model(&old, old.root, &|x| old.nodes[&x].label.starts_with(p.as_str()));
                w.freed(&old);
                for x in old.words() {
                    // also a word that already hung there gets a new edge
                    if old.nodes[&x].label.starts_with(p.as_str()) {
                        w.free.insert(x);
                    }
                }
                ctx.class("words reattached");
            }
        }
        if let Some(set) = &o.ids {
            let key = o.id_name.clone().unwrap_or_else(|| "id".into());
            let m2 = w.m.clone();
            for x in m2.words() {
                if let Some(a) = nearest(&m2, x, &|a| a == m2.root || set.contains(&m2.nodes[&a].label)) {
                    w.m.nodes.get_mut(&x).unwrap().feats.insert(key.clone(), Some(format!("node {}", a)));
                }
            }
            w.ids = Some(key);
            ctx.class("ids");
        }
        if let Some(set) = &o.filter {
            let old = w.m.clone();
            w.m.filter(&|t, n| set.contains(&t.nodes[&n].label));
            w.freed(&old);
            ctx.class_if(w.m.nodes.len() < old.nodes.len(), "nodes filtered out");
        }
        if let Some(set) = &o.insertion {
            if w.m.is_t(w.m.root) {
                return Err("word without parent".into());
            }
            let old = w.m.clone();
            let lab = o.insertion_label.clone().unwrap_or_else(|| "UNK".into());
            let rs = runs(&old, &|p| if set.contains(&old.nodes[&p].label) { None } else { Some(lab.clone()) });
            let mut id = old.nodes.keys().max().unwrap() + 1;
            for (p, l, words) in rs {
                let mut n = MNode::nt(&l);
                n.parent = Some(p);
                w.m.nodes.insert(id, n);
                w.free.insert(id);
                for x in words {
                    w.m.attach(x, id);
                }
                id += 1;
                ctx.class("intermediate node");
            }
            w.freed(&old);
        }
        if let Some(key) = &o.parent {
            if w.m.is_t(w.m.root) {
                return Err("word without parent".into());
            }
            let old = w.m.clone();
            for x in old.words() {
                let l = old.nodes[&old.parent(x).unwrap()].label.clone();
                w.m.nodes.get_mut(&x).unwrap().feats.insert(key.clone(), Some(l));
            }
            if w.ids.as_ref() == Some(key) {
                w.ids = None;
            }
        }
    }
    if let Some(w) = ws.first() {
        if out.needs_projective() && !w.m.projective() {
            return Err("not projective".into());
        }
        if out == Out::Negra && w.m.is_t(w.m.root) {
            return Err("no root node".into());
        }
    }
    Ok(ws)
}

pub fn c26(ctx: &mut Ctx) -> Res {
    let input = *ctx.s.pick(&[In::Negra, In::Bracket(Fmt::Simple), In::Bracket(Fmt::TueBa), In::Enc(false), In::Enc(true), In::Bracket(Fmt::Ptb), In::Negra]);
    let out = *ctx.s.pick(&[Out::Bracket(Fmt::Simple), Out::Conllx, Out::Negra, Out::Bracket(Fmt::TueBa), Out::Enc(false), Out::Conllx, Out::Enc(true), Out::Bracket(Fmt::Ptb)]);
    io_classes(ctx, input, out);
    let k = ctx.s.range(1, 3);
    let mut ms = vec![];
    for i in 0..k {
        let disc = *ctx.s.pick(&[1u8, 0, 2]);
        let words = ctx.s.range(1, 6);
        let cfg = Cfg { label: o_label, tag: o_tag, form: plain_form, max_words: words, ..cli_cfg(input, disc) };
        let cfg = if input == In::Negra { cfg } else { Cfg { disc: 0, ..cfg } };
        let mut m = gen_tree(&mut ctx.s, &cfg);
        let root = m.root;
        match input {
            In::Negra => {
                let mut rf = Feats::new();
                rf.insert("sentence_id".into(), Some((i + 1).to_string()));
                m.nodes.get_mut(&root).unwrap().feats = rf;
            }
            In::Bracket(_) => {
                // parentheses are delimiters there
                for n in m.nodes.values_mut() {
                    if n.label == "$(" {
                        n.label = "$[".into();
                    }
                }
            }
            _ => (),
        }
        ms.push(m);
    }
    let mut o = Opts::default();
    let dir = Scratch::new();
    let mut args = vec![];
    let p = *ctx.s.pick(&[2usize, 1, 3]);
    let mut groups: Vec<Vec<String>> = vec![];
    if ctx.s.chance(p, 5) {
        o.dummies = true;
        groups.push(vec!["--remove_dummies".into()]);
    }
    if (input == In::Negra && ctx.s.chance(4, 5)) || ctx.s.chance(p, 6) {
        o.proj = true;
        groups.push(vec!["--projectivize".into()]);
        if ctx.s.chance(1, 2) {
            o.sec = true;
            groups.push(vec!["--sec_edges".into()]);
        }
    }
    if ctx.s.chance(p, 6) {
        let mut sents = vec![];
        for m in &ms {
            let mut n = m.n_words();
            if ctx.s.chance(1, 12) {
                n = ctx.s.range(1, n + 1);
            }
            let mut tags = (0..n).map(|_| o_tag(&mut ctx.s)).collect::<Vec<_>>();
            if ctx.s.chance(1, 15) {
                // a token without tag
                let i = ctx.s.below(n);
                tags[i] = "_".into();
            }
            sents.push(tags);
        }
        if ctx.s.chance(1, 12) {
            sents.pop();
        } else if ctx.s.chance(1, 12) {
            sents.push(vec!["N".into()]);
        }
        if !sents.is_empty() && ctx.s.chance(1, 10) {
            o.pos_bad = Some(ctx.s.below(sents.len()));
            ctx.class("unreadable sentence in the tag file");
        }
        let bad = o.pos_bad;
        let text = sents
            .iter()
            .enumerate()
            .map(|(i, t)| if bad == Some(i) { "1\tw\t_\tN\tN\t_\tx\tl\t_\t_\n".to_string() } else { conllx_text(&t.iter().map(|t| ("w".to_string(), None, t.clone(), String::new())).collect::<Vec<_>>()) })
            .collect::<Vec<_>>()
            .join("\n");
        groups.push(vec!["--pos".into(), dir.file("pos.conllx", &text)]);
        ctx.log(|| format!("tags: {:?}, not CoNLL-X: {:?}", sents, bad));
        o.pos = Some(sents);
        ctx.class("tags from a file");
    }
    if ctx.s.chance(p, 6) {
        let x = if ctx.s.chance(1, 2) {
            ctx.s.pick(&["$", "N", "V", "NE", "$,", "Q"]).to_string()
        } else {
            // a piece of a tag of the input, at its start, inside or all of it
            let m = ctx.s.pick(&ms).clone();
            let w = pick_word(&mut ctx.s, &m);
            let tag: Vec<char> = m.nodes[&w].label.chars().collect();
            let a = if ctx.s.chance(1, 2) { 0 } else { ctx.s.below(tag.len()) };
            let b = ctx.s.range(a + 1, tag.len());
            let x: String = tag[a..b].iter().collect();
            if x.starts_with('-') {
                "N".to_string()
            } else {
                x
            }
        };
        groups.push(vec!["--reattach".into(), x.clone()]);
        o.prefix = Some(x);
    }
    if ctx.s.chance(p, 6) {
        let (set, text) = label_set(&mut ctx.s);
        groups.push(vec!["--id_set".into(), dir.file("ids", &text)]);
        o.ids = Some(set);
        if ctx.s.chance(1, 2) {
            let n = ctx.s.pick(&["nid", "a", "zz"]).to_string();
            groups.push(vec!["--id_feature".into(), n.clone()]);
            o.id_name = Some(n);
        }
    } else if ctx.s.chance(1, 12) {
        // has no effect on its own
        groups.push(vec!["--id_feature".into(), "q".into()]);
    }
    if ctx.s.chance(p, 6) {
        let (set, text) = label_set(&mut ctx.s);
        groups.push(vec!["--filter".into(), dir.file("filter", &text)]);
        o.filter = Some(set);
    }
    if ctx.s.chance(p, 6) {
        let (set, text) = label_set(&mut ctx.s);
        groups.push(vec!["--insertion_set".into(), dir.file("insertion", &text)]);
        o.insertion = Some(set);
        if ctx.s.chance(1, 2) {
            let l = ctx.s.pick(&["LAB", "NP", "Q"]).to_string();
            groups.push(vec!["--insertion_label".into(), l.clone()]);
            o.insertion_label = Some(l);
        }
    } else if ctx.s.chance(1, 12) {
        groups.push(vec!["--insertion_label".into(), "Q".into()]);
    }
    if ctx.s.chance(p, 6) {
        let n = ctx.s.pick(&["par", "b", "parent"]).to_string();
        groups.push(vec!["--parent".into(), n.clone()]);
        o.parent = Some(n);
    }
    let n_opts = groups.len();
    // the order of the arguments does not matter
    ctx.s.shuffle(&mut groups);
    args.extend(base_args(&mut ctx.s, input, out, false));
    for g in groups {
        args.extend(g);
    }
    let text = {
        let mut t = String::new();
        for m in &ms {
            if let (In::Enc(_), false) = (input, t.is_empty()) {
                t.push('\n');
            }
            t.push_str(&input_text(&mut ctx.s, &[m.clone()], input, false));
        }
        t
    };
    let mut wants: Vec<Vec<Want>> = vec![];
    let mut must_fail = None;
    for (i, m) in ms.iter().enumerate() {
        let r = read_model(m, input);
        match pipeline(ctx, &r, &o, out, i) {
            Ok(w) => wants.push(w),
            Err(e) => {
                must_fail = Some(e);
                break;
            }
        }
    }
    if wants.iter().any(|w| w.is_empty()) {
        ctx.class("reference search capped");
        return Ok(());
    }
    if out == Out::Negra {
        number_sentences(&mut wants);
    }
    let shown: Vec<String> = args.iter().map(|a| a.rsplit('/').next().unwrap().to_string()).collect();
    ctx.log(|| format!("arguments: {:?}\nsets: ids {:?} filter {:?} insertion {:?}\ninput:\n{}", shown, o.ids, o.filter, o.insertion, text));
    let ran = convert(&mut ctx.s, &dir, &text, &args);
    ctx.log(|| format!("success: {}\noutput:\n{}\nerrors: {}", ran.ok, String::from_utf8_lossy(&ran.out), ran.err));
    let case = || format!("arguments {:?}\nsets: ids {:?} filter {:?} insertion {:?}\ninput:\n{}", shown, o.ids, o.filter, o.insertion, text);
    check!(ran.exited, "the converter crashed: {}\n{}", ran.err, case());
    check!(ran.ok != must_fail.is_some(), "exit status is {} but has to be {} ({:?}): {}\n{}", ran.ok, must_fail.is_none(), must_fail, ran.err, case());
    output_is(out, &wants, &ran.out).map_err(|e| format!("{}\n{}", e, case()))?;
    ctx.class_if(n_opts == 0, "no options");
    ctx.class_if(n_opts > 2, "three or more options");
    ctx.class_if(must_fail.is_some(), "failure expected");
    ctx.class_if(wants.iter().any(|w| w.iter().any(|w| !w.sec.is_empty())) && o.sec && out == Out::Negra, "secondary edges of moved nodes");
    ctx.nontrivial = n_opts > 0 && !wants.is_empty();
    Ok(())
}

/// C28: the same conversion in several processes gives the same bytes.
pub fn repeated(ctx: &mut Ctx) -> Res {
    ctx.class("several processes");
    let input = *ctx.s.pick(&[In::Negra, In::Negra, In::Bracket(Fmt::TueBa), In::Enc(true)]);
    let out = *ctx.s.pick(OUTS);
    let mut ms = vec![];
    for i in 0..ctx.s.range(2, 6) {
        ms.push(gen_input(ctx, input, out, 2, i));
    }
    let mut text = String::new();
    for m in &ms {
        if let (In::Enc(_), false) = (input, text.is_empty()) {
            text.push('\n');
        }
        text.push_str(&input_text(&mut ctx.s, &[m.clone()], input, false));
    }
    let dir = Scratch::new();
    let mut args = base_args(&mut ctx.s, input, out, false);
    args.push("--projectivize".into());
    if ctx.s.chance(1, 2) {
        args.push("--sec_edges".into());
    }
    for (o, v) in &[("--id_set", "NP S VP"), ("--filter", "S NP VROOT X"), ("--insertion_set", "S NP")] {
        if ctx.s.chance(1, 3) {
            args.push(o.to_string());
            args.push(dir.file(&o[2..], v));
        }
    }
    if ctx.s.chance(1, 3) {
        args.push("--parent".into());
        args.push("par".into());
    }
    ctx.log(|| format!("arguments: {:?}\ninput:\n{}", args, text));
    let a = convert(&mut ctx.s, &dir, &text, &args);
    for _ in 0..2 {
        let b = convert(&mut ctx.s, &dir, &text, &args);
        check!(a.ok == b.ok, "exit status {} and then {}", a.ok, b.ok);
        check!(a.out == b.out, "the same conversion gives\n{}\nand then\n{}\narguments {:?}\ninput:\n{}", String::from_utf8_lossy(&a.out), String::from_utf8_lossy(&b.out), args, text);
    }
    ctx.nontrivial = true;
    Ok(())
}

/// C29: the converter with an input or output that fails.
pub fn faulty(ctx: &mut Ctx) -> Res {
    let input = *ctx.s.pick(INS);
    let out = *ctx.s.pick(OUTS);
    let m = gen_input(ctx, input, out, 0, 0);
    let text = input_text(&mut ctx.s, &[m], input, false);
    let dir = Scratch::new();
    let mut args = vec!["--input_format".to_string(), input.name().into(), "--output_format".into(), out.name().into()];
    let mut stdout_full = false;
    let src = dir.file("in.txt", &text);
    let (what, i, o) = match ctx.s.below(6) {
        0 => ("missing input file", dir.path("none.txt"), None),
        1 => ("input is a directory", dir.0.to_str().unwrap().to_string(), None),
        2 => ("output in a missing directory", src, Some(dir.path("none/out.txt"))),
        3 => ("output device full", src, Some("/dev/full".to_string())),
        4 => {
            stdout_full = true;
            ("standard output full", src, None)
        }
        _ => {
            args.push((*ctx.s.pick(&["--filter", "--id_set", "--insertion_set", "--pos"])).into());
            args.push(dir.path("none.txt"));
            ("missing option file", src, None)
        }
    };
    ctx.class("converter process");
    args.extend(vec!["--input_file".to_string(), i]);
    if let Some(o) = o {
        args.extend(vec!["--output_file".to_string(), o]);
    }
    ctx.log(|| format!("{}: {:?}\ninput:\n{}", what, args, text));
    let mut cmd = Command::new(binary());
    cmd.args(&args).current_dir(&dir.0).env_clear().stdin(Stdio::null()).stderr(Stdio::null());
    if stdout_full {
        cmd.stdout(fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?);
    } else {
        cmd.stdout(Stdio::null());
    }
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let st = cmd.status().map_err(|e| e.to_string())?;
    check!(!st.success(), "{}: the converter reports success\narguments {:?}\ninput:\n{}", what, args, text);
    check!(st.code().is_some(), "{}: the converter was ended by a signal", what);
    ctx.nontrivial = true;
    Ok(())
}
