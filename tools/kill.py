#!/usr/bin/env python3
"""kill.py DIR WORKERS DIV [diff...]: runs the checks (1/DIV of the quick cases) against the mutants in DIR until one reports a
violation. Results in DIR/killed.txt and DIR/alive.txt. Nothing here is used by a check."""
import os, subprocess, sys, shutil, glob, threading, queue
DIR, W, DIV = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or sorted(glob.glob(DIR + "/*.diff"))
ALL = ["C%02d" % i for i in range(1, 33)]
FIRST = {
 "edge": "C27 C31 C22 C08", "features": "C23 C31 C21 C26 C12", "node": "C22 C31 C23 C21 C08 C01", "span": "C24 C03 C01 C05 C10",
 "tree": "C01 C02 C03 C04 C05 C22 C27 C30 C20 C32 C28", "tree_modification": "C05 C28 C17 C18 C19 C20 C26 C13 C27 C01",
 "util": "C04 C17 C19 C13 C26", "conllx": "C21 C26 C25 C14 C15 C10", "encode": "C12 C13 C14 C15 C16 C10", "mod": "C25 C11 C10 C29",
 "negra": "C08 C09 C10 C11 C29 C32", "ptb": "C06 C07 C11 C10 C29", "lumberjack-conversion": "C25 C26 C29 C28",
}
done = set()
for n in ("killed", "alive", "broken"):
    if os.path.exists(DIR + "/%s.txt" % n):
        done |= {l.split()[0] for l in open(DIR + "/%s.txt" % n)}
q = queue.Queue()
for f in files:
    if os.path.basename(f) not in done or sys.argv[4:]:
        q.put(f)
lock = threading.Lock()
def note(kind, text):
    with lock:
        open(DIR + "/%s.txt" % kind, "a").write(text + "\n")
def sh(c, d, env=None, t=900):
    try:
        return subprocess.run(c, shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired:
        return None
def worker(k):
    r, d = "/tmp/kr%d" % k, "/tmp/kv%d" % k
    if not os.path.isdir(r):
        shutil.copytree("/repo", r, symlinks=True)
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + "/target"):
        os.makedirs(d + "/target")
        for x in ("h", "cli"):
            sh("cp -a /verif/target/%s %s/target/" % (x, d), "/")
    sh("rm -rf %s/harness; cp -a /verif/check.sh /verif/harness /verif/known_findings.txt /verif/properties.jsonl %s/; mkdir -p %s/evidence %s/work %s/replays" % (d, d, d, d, d), "/")
    sh("grep -rl /repo check.sh harness/Cargo.toml harness/src | xargs sed -i 's#/repo#%s#g'" % r, d)
    quick = None
    while True:
        try:
            f = q.get_nowait()
        except queue.Empty:
            return
        b = os.path.basename(f)
        sh("git checkout -q -- . && git apply " + f, r)
        p = sh("./check.sh build", d)
        if p is None or p.returncode != 0:
            note("broken", b)
            continue
        if quick is None:
            quick = {l.split()[0]: int(l.split()[1]) for l in sh("target/h/debug/pbt list", d).stdout.split("\n") if l.strip()}
        stem = b.rsplit("-", 2)[0]
        ids = FIRST.get(stem, "").split()
        ids += [i for i in ALL if i not in ids] if os.environ.get('KALL') else []
        if stem == "lumberjack-conversion":
            ids = ids[:4]
        hit = None
        for i in ids:
            env = dict(os.environ, VERIF_DIR=d, PBT_CASES=str(max(16, quick[i] // DIV)), RUST_BACKTRACE="0")
            p = sh("target/h/debug/pbt run " + i, d, env)
            if p is None or p.returncode not in (0, 1):
                note("broken", "%s %s rc=%s" % (b, i, p and p.returncode))
            elif p.returncode == 1:
                m = [l for l in p.stdout.split("\n") if l.startswith("failure:")]
                hit = "%s %s" % (i, (m or [""])[0][:140])
                break
        sh("rm -rf work/* replays/*", d)
        if hit:
            note("killed", "%s %s" % (b, hit))
        else:
            note("alive", b)
        sh("git checkout -q -- .", r)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
print("done")
