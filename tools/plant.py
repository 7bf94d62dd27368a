#!/usr/bin/env python3
"""plant.py FILE.py [id...]: plants the bugs defined in FILE.py (list BUGS) in a scratch copy of /repo, confirms each
(builds, 103 tests pass, demo 0 without and nonzero with the patch, touches an original line) and keeps it under
/verif/seeded/<id>. Nothing here is used by a check."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
BASE = "2e759cb"
S = "/tmp/plant"
SEEDED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# cwd: /repo. Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
lumberjack = { path = "$repo/lumberjack" }
petgraph = "*"
conllx = "*"
[workspace]
EOF
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 120 cargo run --offline --quiet 2>"$t/err" || { rc=$?; tail -n 5 "$t/err"; exit $rc; }
'''
CLI = r'''#!/bin/bash
# cwd: /repo. Runs the converter built from the current directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true
cargo build --offline --quiet --bin lumberjack-conversion --target-dir "$t/target" 2>"$t/err" || { cat "$t/err"; exit 99; }
conv="$t/target/debug/lumberjack-conversion"
cd "$t" || exit 99
'''
PRE = r'''#![allow(unused_imports, dead_code)]
use lumberjack::io::*;
use lumberjack::*;
use lumberjack::util::*;
use petgraph::prelude::*;
fn simple(s: &str) -> Tree { PTBFormat::Simple.string_to_tree(s).unwrap() }
fn text(t: &Tree) -> String { PTBFormat::Simple.tree_to_string(t).unwrap() }
fn negra(s: &str) -> Tree { NegraReader::new(s.as_bytes()).next().unwrap().unwrap() }
fn nt(t: &Tree, l: &str) -> NodeIndex { t.nonterminals().find(|n| t[*n].label() == l).unwrap() }
fn word(t: &Tree, f: &str) -> NodeIndex { t.terminals().find(|n| t[*n].terminal().unwrap().form() == f).unwrap() }
fn words(t: &Tree) -> Vec<String> {
    let mut w: Vec<(usize, String)> = t.terminals().map(|n| (t[n].span().start, t[n].terminal().unwrap().form().to_string())).collect();
    w.sort();
    w.into_iter().map(|x| x.1).collect()
}
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def clean():
    sh("git checkout -q -- .", S)

def test():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = sh("ulimit -v 16000000; timeout 100 cargo test --workspace --no-fail-fast --offline 2>&1", S, env=env)
    ok = sum(int(l.split("ok. ")[1].split(" passed")[0]) for l in r.stdout.splitlines() if l.startswith("test result: ok."))
    bad = [l for l in r.stdout.splitlines() if l.startswith("test result: FAILED") or l.startswith("error")]
    fails = [l.strip() for l in r.stdout.splitlines() if l.endswith("... FAILED")]
    ci = sh("ulimit -v 8000000; timeout 30 cargo run --offline -q --bin lumberjack-conversion -- --input_file lumberjack/testdata/test.negra --input_format negra --output_format tueba --projectivize 2>/dev/null | diff -q lumberjack/testdata/test.ptb -", S, env=env)
    if ci.returncode: fails.append("ci-script")
    return not bad and not ci.returncode, (ok, fails, bad[:3])

def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    if not os.path.exists(S): shutil.copytree("/repo", S, symlinks=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", S)
    clean()
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        if not only and os.path.exists(os.path.join(SEEDED, b["id"], "patch.diff")): continue
        clean(); probs = []
        for (f, old, new) in b["edits"]:
            p = os.path.join(S, f); t = open(p).read()
            if t.count(old) != 1: probs.append("%d matches in %s for %r" % (t.count(old), f, old[:60])); break
            open(p, "w").write(t.replace(old, new))
        if probs: print(b["id"], "SKIP", probs); continue
        diff = sh("git diff", S).stdout
        # one removed line has to be an original one
        orig = False
        for f in set(e[0] for e in b["edits"]):
            bl = sh("git blame -s HEAD -- " + f, S).stdout.splitlines()
            base = sh("git show %s:%s" % (BASE, f), S).stdout.splitlines()
            rm = [l[1:] for l in sh("git diff -U0 -- " + f, S).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            if any(l in base and l.strip() for l in rm): orig = True
        if not orig: print(b["id"], "SKIP: no original line changed"); continue
        okb, info = test()
        if not okb: print(b["id"], "SKIP: build or tests fail", info); continue
        d = tempfile.mkdtemp()
        if "rs" in b:
            open(d + "/demo.rs", "w").write(PRE + b["rs"]); open(d + "/demo.sh", "w").write(DEMO)
        else:
            open(d + "/demo.sh", "w").write(CLI + b["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        with_ = sh("timeout 200 " + d + "/demo.sh", S)
        clean()
        without = sh("timeout 200 " + d + "/demo.sh", S)
        if without.returncode != 0 or with_.returncode in (0, 99):
            print(b["id"], "SKIP: demo", without.returncode, with_.returncode, without.stdout[-500:], with_.stdout[-500:]); continue
        o = os.path.join(SEEDED, b["id"]); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(o + "/meta.json", "w"), indent=1)
        for f in os.listdir(d): shutil.copy(os.path.join(d, f), o)
        shutil.rmtree(d)
        print(b["id"], "KEPT", info[0], "demo", with_.returncode, with_.stdout.strip()[-120:])
        sys.stdout.flush()
sys.stdout.reconfigure(line_buffering=True); main()
