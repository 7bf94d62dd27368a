//! Coverage-guided search over the same choice vectors and oracles: libFuzzer mutates the vector, the code under test is
//! instrumented. GUIDED_PROP names the property; counts go to GUIDED_STATS.
#![no_main]
use harness::engine::*;
use harness::props;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

static EXECS: AtomicU64 = AtomicU64::new(0);
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
static REJECTED: AtomicU64 = AtomicU64::new(0);
static SEEN: OnceLock<Mutex<HashSet<u64>>> = OnceLock::new();

extern "C" fn save() {
    if let Ok(out) = std::env::var("GUIDED_STATS") {
        let seen = SEEN.get().map(|s| s.lock().map(|s| s.len()).unwrap_or(0)).unwrap_or(0);
        let _ = std::fs::write(
            out,
            format!("{} {} {} {}\n", EXECS.load(Ordering::Relaxed), NONTRIVIAL.load(Ordering::Relaxed), seen, REJECTED.load(Ordering::Relaxed)),
        );
    }
}

fn prop() -> &'static Prop {
    static P: OnceLock<&'static Prop> = OnceLock::new();
    P.get_or_init(|| {
        install_hook();
        GUIDED.store(true, Ordering::Relaxed);
        let id = std::env::var("GUIDED_PROP").expect("GUIDED_PROP");
        props::all().iter().find(|p| p.id == id).expect("property")
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| -> libfuzzer_sys::Corpus {
    let p = prop();
    let v: Vec<u32> = data.chunks_exact(4).take(p.len).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let mut ctx = Ctx::new(&v, false);
    let r = eval(p.f, &mut ctx);
    if EXECS.fetch_add(1, Ordering::Relaxed) % 1000 == 999 {
        save();
    }
    if ctx.s.rejected {
        REJECTED.fetch_add(1, Ordering::Relaxed);
        return libfuzzer_sys::Corpus::Reject;
    }
    if ctx.nontrivial && !ctx.discarded {
        NONTRIVIAL.fetch_add(1, Ordering::Relaxed);
        SEEN.get_or_init(Default::default).lock().unwrap().insert(ctx.s.hash());
    }
    if let Err(m) = r {
        eprintln!("failure: {}", m);
        save();
        std::process::abort();
    }
    libfuzzer_sys::Corpus::Keep
});
