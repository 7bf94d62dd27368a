//! Case engine: choice streams, case context, sharded proptest runner, crash and hang
//! containment (parent / worker processes), replay files and evidence.
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A finite stream of choices. Every random decision of a case is one element; an exhausted
/// stream answers 0, so every generator terminates and shrinking the vector shrinks the case.
#[derive(Clone)]
pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
    hash: u64,
    /// state of the generator that continues an exhausted stream, if the stream asked for one
    more: Option<u64>,
    /// the coverage-guided search drew a very large structure; its case does not count
    pub rejected: bool,
}

/// Set by the coverage-guided search, which else would only look for the largest structures.
pub static GUIDED: AtomicBool = AtomicBool::new(false);

impl<'a> Src<'a> {
    /// Whether to draw a very large structure, once in `n`.
    pub fn huge(&mut self, n: usize) -> bool {
        let r = self.chance(1, n);
        if r && GUIDED.load(Ordering::Relaxed) {
            self.rejected = true;
            return false;
        }
        r
    }
    pub fn new(data: &'a [u32]) -> Self {
        Src { data, pos: 0, hash: 0xcbf29ce484222325, more: None, rejected: false }
    }
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    /// Uniform in 0..n (0 when exhausted).
    pub fn below(&mut self, n: usize) -> usize {
        let raw = match (self.data.get(self.pos), self.more.as_mut()) {
            (Some(x), _) => *x,
            (None, None) => 0,
            (None, Some(h)) => {
                *h = h.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = *h;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                ((z ^ (z >> 31)) >> 32) as u32
            }
        };
        self.pos += 1;
        let r = if n <= 1 { 0 } else { ((raw as u64 * n as u64) >> 32) as usize };
        self.mix(r as u64 + 1);
        r
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false when exhausted.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights (0 when exhausted).
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut r = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
    /// From here on, an exhausted stream is continued by a generator seeded from it, so that
    /// structures far larger than the vector can be drawn.
    pub fn expand(&mut self) {
        let a = self.below(1 << 31) as u64;
        let b = self.below(1 << 31) as u64;
        self.more = Some(a << 32 | b);
    }
    /// A number of items: usually `lo` to `hi`, now and then up to `long`.
    pub fn count(&mut self, lo: usize, hi: usize, long: usize) -> usize {
        if self.huge(150) {
            self.expand();
            return self.range(hi, long);
        }
        self.range(lo, hi)
    }
    pub fn expanded(&self) -> bool {
        self.more.is_some()
    }
    /// Choices left in the vector.
    pub fn left(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len() && self.more.is_none()
    }
    pub fn hash(&self) -> u64 {
        self.hash
    }
}

/// Context of one case.
pub struct Ctx<'a> {
    pub s: Src<'a>,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    /// The case turned out not to be an instance of the property (e.g. the tree could not be
    /// set up because a different property is broken). Not counted as non-trivial.
    pub discarded: bool,
    pub known_hits: Vec<String>,
}

impl<'a> Ctx<'a> {
    pub fn new(data: &'a [u32], verbose: bool) -> Self {
        Ctx { s: Src::new(data), verbose, trace: vec![], classes: vec![], nontrivial: false, discarded: false, known_hits: vec![] }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.trace.push(f());
        }
    }
    pub fn discard(&mut self) -> Res {
        self.discarded = true;
        self.class("discarded");
        Ok(())
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Ctx) -> Res;

#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub struct Probe {
    pub key: &'static str,
    pub what: &'static str,
    pub f: fn() -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// total cases in the quick tier (all shards together)
    pub quick: u64,
    /// multiplier of the thorough tier
    pub thorough_factor: u64,
    /// max length of the choice vector
    pub len: usize,
    pub f: CaseFn,
    pub probes: &'static [Probe],
    pub assumptions: &'static [&'static str],
}

pub const SHARDS: usize = 8;
const HANG_WALL: u64 = 40; // seconds without progress of one case before it is examined
const HANG_CPU: u64 = 25; // CPU seconds a case gets in a process of its own
const MEM_LIMIT: u64 = 12 << 30;
const CASE_MEM_LIMIT: u64 = 6 << 30;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

/// Run one case; a panic of the code under test is a failure of the case.
pub fn eval(f: CaseFn, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone())))
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub discarded: u64,
    pub hashes: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<u32>>,
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h: u64 = 0x9E3779B97F4A7C15 ^ seed.wrapping_mul(0xD1342543DE82EF95);
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= shard.wrapping_mul(0xA0761D6478BD642F);
    for chunk in out.chunks_mut(8) {
        h ^= h >> 30;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 27;
        h = h.wrapping_mul(0x94D049BB133111EB);
        h ^= h >> 31;
        chunk.copy_from_slice(&h.to_le_bytes());
        h = h.wrapping_add(0x9E3779B97F4A7C15);
    }
    out
}

struct Slot {
    file: fs::File,
    started: AtomicU64, // ms since worker start + 1; 0 = idle
}

impl Slot {
    fn enter(&self, t0: Instant, v: &[u32]) {
        let mut buf = Vec::with_capacity(4 + v.len() * 4);
        buf.extend_from_slice(&(v.len() as u32).to_le_bytes());
        for x in v {
            buf.extend_from_slice(&x.to_le_bytes());
        }
        let _ = self.file.write_at(&buf, 0);
        self.started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    fn leave(&self) {
        self.started.store(0, Ordering::SeqCst);
    }
}

pub fn read_slot(p: &Path) -> Option<Vec<u32>> {
    let b = fs::read(p).ok()?;
    if b.len() < 4 {
        return None;
    }
    let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if b.len() < 4 + 4 * n {
        return None;
    }
    Some((0..n).map(|i| u32::from_le_bytes([b[4 + 4 * i], b[5 + 4 * i], b[6 + 4 * i], b[7 + 4 * i]])).collect())
}

pub fn write_choices(p: &Path, v: &[u32]) {
    let mut buf = Vec::new();
    buf.extend_from_slice(&(v.len() as u32).to_le_bytes());
    for x in v {
        buf.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(p, buf).expect("write choices");
}

/// Worker process: runs all shards of a property and writes `result` in `dir`.
pub fn worker(prop: &'static Prop, seed: u64, cases: u64, dir: &Path) -> i32 {
    set_limit(libc::RLIMIT_AS, MEM_LIMIT);
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Slot>> = (0..SHARDS)
        .map(|i| {
            let file = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("slot{}", i))).unwrap();
            Arc::new(Slot { file, started: AtomicU64::new(0) })
        })
        .collect();
    // watchdog: leaves the process with code 77 when one case makes no progress
    {
        let slots = slots.clone();
        let dir = dir.to_owned();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for (i, s) in slots.iter().enumerate() {
                let st = s.started.load(Ordering::SeqCst);
                if st != 0 && now > st && now - st > HANG_WALL * 1000 {
                    let _ = fs::write(dir.join("hang"), format!("{}", i));
                    unsafe { libc::_exit(77) };
                }
            }
        });
    }
    let failure: Arc<Mutex<Option<(Vec<u32>, Vec<u32>, String)>>> = Arc::new(Mutex::new(None));
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let stop = stop.clone();
        let slot = slots[shard].clone();
        let failure = failure.clone();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let n = (cases + SHARDS as u64 - 1 - shard as u64) / SHARDS as u64;
                let stats = RefCell::new(Stats::default());
                let failed = AtomicBool::new(false);
                // the last case that failed; what proptest returns after a stopped shrink may pass
                let last: RefCell<Option<(Vec<u32>, String)>> = RefCell::new(None);
                let first: RefCell<Option<(Vec<u32>, String)>> = RefCell::new(None);
                let config = Config {
                    cases: n as u32,
                    max_shrink_iters: 6_000,
                    max_shrink_time: 60_000,
                    failure_persistence: None,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop.id, shard as u64));
                let mut runner = TestRunner::new_with_rng(config, rng);
                let lo = prop.len / 8;
                let strat = prop_oneof![
                    2 => prop::collection::vec(any::<u32>(), 0..=lo.max(1)),
                    6 => prop::collection::vec(any::<u32>(), lo..=(prop.len / 2)),
                    8 => prop::collection::vec(any::<u32>(), (prop.len / 2)..=prop.len),
                    1 => prop::collection::vec(any::<u32>(), (2 * prop.len).max(800)..=(5 * prop.len).max(1200)),
                ];
                let r = runner.run(&strat, |v| {
                    if stop.load(Ordering::Relaxed) && !failed.load(Ordering::Relaxed) {
                        return Ok(());
                    }
                    slot.enter(t0, &v);
                    let mut ctx = Ctx::new(&v, false);
                    let r = eval(prop.f, &mut ctx);
                    slot.leave();
                    if !failed.load(Ordering::Relaxed) {
                        let mut st = stats.borrow_mut();
                        st.evals += 1;
                        for c in &ctx.classes {
                            *st.classes.entry(c).or_insert(0) += 1;
                        }
                        if ctx.discarded {
                            st.discarded += 1;
                        } else if ctx.nontrivial {
                            st.nontrivial += 1;
                            let fresh = st.hashes.insert(ctx.s.hash());
                            if fresh && (st.samples.len() < 2 || (st.samples.len() < 4 && st.evals % 97 == 0)) {
                                st.samples.push(v.clone());
                            }
                        }
                    }
                    match r {
                        Ok(()) => Ok(()),
                        Err(m) => {
                            if !failed.swap(true, Ordering::SeqCst) {
                                if stop.swap(true, Ordering::SeqCst) {
                                    // another shard failed first and is shrinking
                                    return Ok(());
                                }
                            }
                            first.borrow_mut().get_or_insert_with(|| (v.clone(), m.clone()));
                            *last.borrow_mut() = Some((v.clone(), m.clone()));
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                if let Err(TestError::Fail(..)) = r {
                    let (v, _) = last.into_inner().expect("a failing case");
                    let until = Instant::now() + Duration::from_secs(60);
                    let v = extra_shrink(v, &mut |cand: &[u32]| {
                        if Instant::now() > until {
                            return false;
                        }
                        slot.enter(t0, cand);
                        let mut ctx = Ctx::new(cand, false);
                        let r = eval(prop.f, &mut ctx);
                        slot.leave();
                        r.is_err()
                    }, 20_000);
                    let mut g = failure.lock().unwrap();
                    if g.is_none() {
                        let (fv, reason) = first.into_inner().expect("a failing case");
                        *g = Some((v, fv, reason));
                    }
                } else if let Err(TestError::Abort(reason)) = r {
                    eprintln!("proptest aborted: {}", reason);
                    std::process::exit(3);
                }
                stats.into_inner()
            })
            .unwrap();
        handles.push(h);
    }
    let mut total = Stats::default();
    for h in handles {
        let st = match h.join() {
            Ok(s) => s,
            Err(_) => return 4,
        };
        total.evals += st.evals;
        total.nontrivial += st.nontrivial;
        total.discarded += st.discarded;
        total.hashes.extend(st.hashes);
        for (k, v) in st.classes {
            *total.classes.entry(k).or_insert(0) += v;
        }
        for s in st.samples {
            if total.samples.len() < 5 {
                total.samples.push(s);
            }
        }
    }
    let mut out = String::new();
    out.push_str(&format!("evals {}\nnontrivial {}\ndistinct {}\ndiscarded {}\n", total.evals, total.nontrivial, total.hashes.len(), total.discarded));
    for (k, v) in &total.classes {
        out.push_str(&format!("class {} {}\n", v, k));
    }
    for s in &total.samples {
        out.push_str(&format!("sample {}\n", fmt_choices(s)));
    }
    if let Some((v, first, reason)) = failure.lock().unwrap().as_ref() {
        out.push_str(&format!("first {}\n", fmt_choices(first)));
        out.push_str(&format!("reason {}\n", reason.replace('\n', "\u{1}")));
        out.push_str(&format!("fail {}\n", fmt_choices(v)));
    }
    fs::write(dir.join("result"), out).unwrap();
    0
}

pub fn fmt_choices(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().expect("choice")).collect()
}

/// Chunk deletion, zeroing and lowering on top of proptest's element-wise shrinking.
pub fn extra_shrink(mut v: Vec<u32>, fails: &mut dyn FnMut(&[u32]) -> bool, mut budget: usize) -> Vec<u32> {
    if !fails(&v) {
        return v;
    }
    loop {
        let before = v.clone();
        while v.last() == Some(&0) {
            v.pop();
        }
        let mut k = (v.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + k <= v.len() && budget > 0 {
                budget -= 1;
                let mut c = v.clone();
                c.drain(i..i + k);
                if fails(&c) {
                    v = c;
                } else {
                    i += 1.max(k / 2);
                }
            }
            if k == 1 || budget == 0 {
                break;
            }
            k /= 2;
        }
        for i in 0..v.len() {
            if v[i] == 0 || budget == 0 {
                continue;
            }
            budget -= 1;
            let mut c = v.clone();
            c[i] = 0;
            if fails(&c) {
                v = c;
                continue;
            }
            // binary search for a smaller value that still fails
            let (mut lo, mut hi) = (0u32, v[i]);
            for _ in 0..10 {
                if budget == 0 || hi - lo < (1 << 16) {
                    break;
                }
                budget -= 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = v.clone();
                c[i] = mid;
                if fails(&c) {
                    hi = mid;
                    v = c;
                } else {
                    lo = mid;
                }
            }
        }
        if v == before || budget == 0 {
            return v;
        }
    }
}

pub fn set_limit(res: libc::__rlimit_resource_t, val: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: val, rlim_max: val };
        libc::setrlimit(res, &l);
    }
}

pub enum ChildEnd {
    Pass,
    Fail(String),
    Died(String),
    CpuLimit,
}

/// Runs one case (or probe) in a process of its own.
pub fn run_child(args: &[&str], cpu: u64) -> ChildEnd {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: CASE_MEM_LIMIT, rlim_max: CASE_MEM_LIMIT };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let out = cmd.output().expect("spawn child");
    use std::os::unix::process::ExitStatusExt;
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => ChildEnd::Pass,
        (Some(1), _) => ChildEnd::Fail(String::from_utf8_lossy(&out.stdout).trim().to_string()),
        (_, Some(s)) if s == libc::SIGXCPU || s == libc::SIGKILL => ChildEnd::CpuLimit,
        (c, s) => ChildEnd::Died(format!("process died (exit {:?}, signal {:?})", c, s)),
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn describe(prop: &Prop, v: &[u32]) -> (String, Res) {
    let mut ctx = Ctx::new(v, true);
    let r = eval(prop.f, &mut ctx);
    (ctx.trace.join("\n"), r)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Parent process of a run. Exit code 0 (held), 1 (violation reported), 2 (no answer).
pub fn parent(prop: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut cases = if tier == "thorough" { prop.quick * prop.thorough_factor } else { prop.quick };
    if let Some(n) = std::env::var("PBT_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    let vd = verif_dir();
    let work = vd.join("work").join(format!("{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&work).unwrap();
    std::env::set_var("PBT_SCRATCH", &work);
    fs::create_dir_all(vd.join("evidence")).unwrap();
    let known = fs::read_to_string(vd.join("known_findings.txt")).unwrap_or_default();
    let mut violations: Vec<(Vec<u32>, String, String)> = vec![];
    let mut known_lines: Vec<String> = vec![];

    // fixed probes for recorded findings
    let mut probe_count = 0;
    for p in prop.probes {
        probe_count += 1;
        let r = run_child(&["probe", prop.id, p.key], HANG_CPU);
        let bad = match r {
            ChildEnd::Pass => None,
            ChildEnd::Fail(m) => Some(m),
            ChildEnd::Died(m) => Some(m),
            ChildEnd::CpuLimit => Some("does not finish".into()),
        };
        if let Some(m) = bad {
            let listed = known.lines().any(|l| l.starts_with("finding:") && l.contains(&format!("property={} ", prop.id)) && l.contains(&format!("key={} ", p.key)));
            if listed {
                known_lines.push(format!("KNOWN-FINDING: property={} key={} {}", prop.id, p.key, p.what));
            } else {
                violations.push((vec![], format!("probe {}: {}: {}", p.key, p.what, m), String::new()));
            }
        }
    }

    let mut result = String::new();
    let mut attempts = 0;
    let mut code = 0;
    while violations.is_empty() {
        attempts += 1;
        let _ = fs::remove_file(work.join("result"));
        let exe = std::env::current_exe().unwrap();
        let st = Command::new(exe)
            .args(&["worker", prop.id, &seed.to_string(), &cases.to_string(), work.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .status()
            .expect("spawn worker");
        if st.code() == Some(0) {
            result = fs::read_to_string(work.join("result")).unwrap_or_default();
            break;
        }
        // the worker died or one case made no progress: find the case and confirm it alone
        let mut culprit = None;
        let slots: Vec<usize> = match fs::read_to_string(work.join("hang")) {
            Ok(s) if st.code() == Some(77) => vec![s.trim().parse().unwrap()],
            _ => (0..SHARDS).collect(),
        };
        for i in slots {
            if let Some(v) = read_slot(&work.join(format!("slot{}", i))) {
                if let Some(m) = child_case(prop, &work, &v, HANG_CPU) {
                    culprit = Some((v, m));
                    break;
                }
            }
        }
        match culprit {
            Some((v, m)) => {
                let is_hang = m.contains("CPU");
                let v = extra_shrink(v, &mut |c: &[u32]| child_case(prop, &work, c, if is_hang { 3 } else { HANG_CPU }).is_some(), if is_hang { 40 } else { 1500 });
                // the shrunk case has to fail with the full limit, too
                let v2 = v.clone();
                let m = child_case(prop, &work, &v2, HANG_CPU).unwrap_or(m);
                violations.push((v, m, String::new()));
            }
            None => {
                eprintln!("worker ended with {:?} and no single case reproduces it (attempt {})", st, attempts);
                if attempts >= 2 {
                    code = 2;
                    break;
                }
            }
        }
    }
    let mut first: Vec<u32> = vec![];
    let mut reason = String::new();
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut discarded = 0u64;
    let mut nontrivial = 0u64;
    let mut classes: Vec<(u64, String)> = vec![];
    let mut samples: Vec<String> = vec![];
    for l in result.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "evals" => evals = rest.parse().unwrap(),
            "nontrivial" => nontrivial = rest.parse().unwrap(),
            "distinct" => distinct = rest.parse().unwrap(),
            "discarded" => discarded = rest.parse().unwrap(),
            "class" => {
                let (n, c) = rest.split_once(' ').unwrap();
                classes.push((n.parse().unwrap(), c.to_string()));
            }
            "sample" => {
                let (d, _) = describe(prop, &parse_choices(rest));
                let d: String = d.chars().take(1500).collect();
                samples.push(d);
            }
            "first" => first = parse_choices(rest),
            "reason" => reason = rest.replace('\u{1}', "\n"),
            "fail" => {
                let mut v = parse_choices(rest);
                let (mut d, r) = describe(prop, &v);
                let m = match r {
                    Err(m) => m,
                    Ok(()) => {
                        // not reproduced in this process: the outcome varies from process to process
                        let mut got = None;
                        for cand in &[v.clone(), first.clone()] {
                            for _ in 0..20 {
                                if got.is_none() {
                                    got = child_case(prop, &work, cand, HANG_CPU).map(|m| (cand.clone(), m));
                                }
                            }
                        }
                        let (w, m) = match got {
                            Some((w, m)) => (w, format!("{} (not in every run)", m)),
                            None => (first.clone(), format!("{} (seen once, not in the runs after that)", reason)),
                        };
                        if w != v {
                            v = w;
                            d = describe(prop, &v).0;
                        }
                        m
                    }
                };
                violations.push((v, m, d));
            }
            _ => {}
        }
    }
    let mut guided = String::from("not run (thorough tier only)");
    if code == 0 && violations.is_empty() {
        if let (Ok(bin), "thorough") = (std::env::var("GUIDED_BIN"), tier) {
            let (text, found) = guided_search(prop, &bin, seed, &work);
            guided = text;
            if let Some((v, m)) = found {
                violations.push((v, m, String::new()));
            }
        }
    }
    for l in &known_lines {
        println!("{}", l);
    }
    if code == 0 && violations.is_empty() && evals > 0 && discarded * 2 > evals {
        eprintln!("more than half of the cases could not be set up ({} of {})", discarded, evals);
    }
    for (v, m, d) in &violations {
        let rd = vd.join("replays");
        fs::create_dir_all(&rd).unwrap();
        let mut h = 0xcbf29ce484222325u64;
        for x in v {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        let path = rd.join(format!("{}-{:016x}.txt", prop.id, h));
        let d = if d.is_empty() && !v.is_empty() { "(the case kills or blocks its process; run the replay to see it)".to_string() } else { d.clone() };
        let mut f = fs::File::create(&path).unwrap();
        writeln!(f, "# replay with: /verif/check.sh replay {}", path.display()).unwrap();
        writeln!(f, "property {}", prop.id).unwrap();
        writeln!(f, "choices {}", fmt_choices(v)).unwrap();
        writeln!(f, "# --- failure ---\n{}", m.lines().map(|l| format!("# {}", l)).collect::<Vec<_>>().join("\n")).unwrap();
        writeln!(f, "# --- case ---\n{}", d.lines().map(|l| format!("# {}", l)).collect::<Vec<_>>().join("\n")).unwrap();
        println!("failure: {}", m);
        println!("case:\n{}", d);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\": {}, \"nontrivial_evaluations\": {}, \"distinct_nontrivial\": {}, \"not_applicable_cases\": {}, \"finding_probes\": {},\n", evals, nontrivial, distinct, discarded, probe_count));
    cov.push_str(&format!("  \"rule\": {},\n", json_str(prop.rule)));
    cov.push_str(&format!("  \"coverage_guided\": {},\n", json_str(&guided)));
    cov.push_str(&format!("  \"classes\": {{{}}},\n", classes.iter().map(|(n, c)| format!("{}: {}", json_str(c), n)).collect::<Vec<_>>().join(", ")));
    cov.push_str(&format!("  \"known_findings_seen\": [{}],\n", known_lines.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(", ")));
    cov.push_str(&format!("  \"samples\": [{}]", samples.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(", ")));
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(prop.id), json_str(tier), seed, cov,
        prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        wall, violations.len()
    );
    fs::write(vd.join("evidence").join(format!("{}.json", prop.id)), ev).unwrap();
    let _ = fs::remove_dir_all(&work);
    println!("{}: {} cases, {} distinct non-trivial, {} not applicable, {:.1} s, exit {}", prop.id, evals, distinct, discarded, wall, code);
    code
}

/// Coverage-guided search (libFuzzer over the choice vector, see /verif/fuzz) in SHARDS processes with fixed seeds and
/// numbers of runs. What it finds counts only when the uninstrumented harness fails on it, too.
fn guided_search(prop: &'static Prop, bin: &str, seed: u64, work: &Path) -> (String, Option<(Vec<u32>, String)>) {
    let runs: u64 = std::env::var("GUIDED_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(150_000);
    let secs: u64 = std::env::var("GUIDED_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(240);
    let base = work.join("guided");
    let mut children = vec![];
    for i in 0..SHARDS {
        let dir = base.join(format!("{}", i));
        let corpus = dir.join("corpus");
        fs::create_dir_all(&corpus).unwrap();
        // random vectors to start from
        let sb = seed_bytes(seed ^ 0x6775, prop.id, i as u64);
        let mut h = u64::from_le_bytes([sb[0], sb[1], sb[2], sb[3], sb[4], sb[5], sb[6], sb[7]]);
        for k in 0..60 {
            let n = prop.len * (k % 6 + 1) / 6;
            let mut bytes = Vec::with_capacity(4 * n);
            for _ in 0..n {
                h ^= h << 13;
                h ^= h >> 7;
                h ^= h << 17;
                bytes.extend_from_slice(&((h >> 24) as u32).to_le_bytes());
            }
            fs::write(corpus.join(format!("s{}", k)), bytes).unwrap();
        }
        let mut cmd = Command::new(bin);
        cmd.arg(&corpus)
            .arg(format!("-runs={}", runs))
            .arg(format!("-max_total_time={}", secs))
            .arg(format!("-seed={}", (seed * SHARDS as u64 + i as u64) % 0x7fff_ffff + 1))
            .arg(format!("-max_len={}", 4 * prop.len))
            .arg(format!("-artifact_prefix={}/", dir.display()))
            .args(&["-len_control=0", "-timeout=60", "-rss_limit_mb=3000", "-use_value_profile=1", "-print_final_stats=1", "-verbosity=0"])
            .env("GUIDED_PROP", prop.id)
            .env("GUIDED_STATS", dir.join("stats"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(dir.join("log")).unwrap());
        unsafe {
            cmd.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        match cmd.spawn() {
            Ok(c) => children.push((c, dir)),
            Err(e) => return (format!("could not be started: {}", e), None),
        }
    }
    let mut found = None;
    let mut unconfirmed = 0;
    let mut sums = [0u64; 4];
    for (c, _) in &mut children {
        let _ = c.wait();
    }
    for (_, dir) in &children {
        let stats = fs::read_to_string(dir.join("stats")).unwrap_or_default();
        for (i, x) in stats.split_whitespace().enumerate().take(4) {
            sums[i] += x.parse::<u64>().unwrap_or(0);
        }
        let mut arts: Vec<PathBuf> = fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
        arts.sort();
        for a in arts {
            let name = a.file_name().unwrap().to_string_lossy().to_string();
            if !(name.starts_with("crash-") || name.starts_with("timeout-") || name.starts_with("oom-")) {
                continue;
            }
            let v: Vec<u32> = fs::read(&a).unwrap_or_default().chunks_exact(4).take(prop.len).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            match child_case(prop, work, &v, HANG_CPU) {
                None => unconfirmed += 1,
                Some(m) if found.is_none() => {
                    let hang = m.contains("CPU");
                    let until = Instant::now() + Duration::from_secs(90);
                    let v = extra_shrink(v, &mut |c: &[u32]| Instant::now() < until && child_case(prop, work, c, if hang { 3 } else { HANG_CPU }).is_some(), if hang { 30 } else { 6000 });
                    let m = child_case(prop, work, &v, HANG_CPU).unwrap_or(m);
                    found = Some((v, m));
                }
                Some(_) => {}
            }
        }
    }
    (
        format!("{} executions in {} processes, {} of them non-trivial ({} distinct per process, summed), {} set aside as too large, {} reports not confirmed by the harness", sums[0], SHARDS, sums[1], sums[2], sums[3], unconfirmed),
        found,
    )
}

fn child_case(prop: &Prop, work: &Path, v: &[u32], cpu: u64) -> Option<String> {
    let p = work.join("case");
    write_choices(&p, v);
    match run_child(&["case", prop.id, p.to_str().unwrap()], cpu) {
        ChildEnd::Pass => None,
        ChildEnd::Fail(m) => Some(m),
        ChildEnd::Died(m) => Some(m),
        ChildEnd::CpuLimit => Some(format!("does not finish within {} s of CPU time", cpu)),
    }
}
