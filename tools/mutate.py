#!/usr/bin/env python3
"""mutate.py OUT N SEED [files...]: makes N random small mutants of the non-test sources of /repo in scratch copies, keeps in
OUT/ the patches of those that build and pass the test suite. Nothing here is used by a check."""
import os, random, re, subprocess, sys, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:] or ["lumberjack/src/" + f for f in "edge.rs features.rs node.rs span.rs tree.rs tree_modification.rs util.rs io/conllx.rs io/encode.rs io/mod.rs io/negra.rs io/ptb.rs".split()] + ["lumberjack-utils/src/bin/lumberjack-conversion.rs"]
OPS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ ', [' - ']), (r' \+= ', [' -= ', ' = ']),
    (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b500\b', ['501', '499']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_empty\(\)', ['.is_empty() == false']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()', '.next()']), (r'\.rev\(\)', ['']),
    (r'\.skip\(1\)', ['', '.skip(2)']), (r'\bOutgoing\b', ['Incoming']), (r'\bIncoming\b', ['Outgoing']),
    (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']),
    (r'\.split\(', ['.rsplit(']), (r'\.rsplit\(', ['.split(']), (r'\.find\(', ['.rfind(']), (r'\.rfind\(', ['.find(']),
    (r'\.trim\(\)', ['']), (r'\.trim_(start|end)\(\)', ['']), (r'\.sort[a-z_]*\([^()]*\);', [';']), (r'\.lower\b', ['.upper', '.upper - 1', '.lower + 1']), (r'\.upper\b', ['.lower', '.upper - 1']),
    (r'\.start\b', ['.end', '.start + 1']), (r'\.end\b', ['.start', '.end - 1']), (r'\bNone\b', ['Some(Default::default())']), (r'Some\((\w+)\)\)', ['None)']),
    (r'\.is_terminal\(\)', ['.is_nonterminal()']), (r'\.nonterminals\(\)', ['.terminals()']), (r'\.filter\(', ['.skip_while(', '.take_while(']),
    (r'\.descendent_terminals\(', ['.children(']), (r'\.contains\(', ['.ne(']), (r'is_primary\(\)', ['is_secondary()']), (r'is_secondary\(\)', ['is_primary()']),
    (r'"([^"\n{}]{1,12})"', ['"x"', '""']), (r"'(.)'", ["'x'"]), (r'_mut\(\)', ['_mut().clone()']),
    (r'\?;', ['.ok();']), (r'\.cloned\(\)', ['.cloned().filter(|_| false)']), (r'\.take\(\)', ['.clone()']), (r'\.unwrap_or\(([^()]+)\)', ['.unwrap_or_default()']),
    (r'\.start_with\(', ['.ends_with(']), (r'\.starts_with\(', ['.contains(']), (r'\.map\(', ['.filter(|_| false).map(']), (r'\.next\(\)', ['.last()', '.nth(1)']), (r'\.extend\(', ['.append(&mut ']),
]
def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l and i + 1 < len(lines) and "mod " in lines[i + 1]:
                break
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "extern", "mod ", "pub mod", "impl", "where", "pub fn", "fn ", "struct", "pub struct", "pub(crate) fn")):
                continue
            if "format_err!" in l or "assert" in l or "Err(" in l and "return" in l and "format" in l:
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        out.append((f, i, l, l[:m.start()] + r + l[m.end():]))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".")) and lines[i - 1].strip().endswith((";", "{", "}")):
                out.append((f, i, l, ""))
            m = re.match(r'^(\s*)(\}? ?(?:else )?if )(?!let)(.+)( \{)$', l)
            if m:
                out.append((f, i, l, m.group(1) + m.group(2) + "true || " + m.group(3) + m.group(4)))
                out.append((f, i, l, m.group(1) + m.group(2) + "false && (" + m.group(3) + ")" + m.group(4)))
                for op in (" && ", " || "):
                    if op in m.group(3):
                        a, b = m.group(3).split(op, 1)
                        out.append((f, i, l, m.group(1) + m.group(2) + a + m.group(4)))
                        out.append((f, i, l, m.group(1) + m.group(2) + b + m.group(4)))
    return [x for x in dict.fromkeys(out) if x[2] != x[3]]
W = int(os.environ.get("MW", "4"))
def setup(k):
    d = "/tmp/mut%d" % k
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, symlinks=True)
    return d
def sh(c, d):
    return subprocess.run(c, shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
def one(args):
    k, chunk = args
    d = setup(k)
    kept = 0
    names = [("%s-%d-%s.diff" % (os.path.basename(f)[:-3], i + 1, hashlib.sha1((f + str(i) + new).encode()).hexdigest()[:6])) for f, i, l, new in chunk]
    start = max([0] + [j + 1 for j, n in enumerate(names) if os.path.exists(OUT + "/" + n)])
    print("worker", k, "from", start, "of", len(chunk), flush=True)
    for f, i, l, new in chunk[start:]:
        p = d + "/" + f
        lines = open("/repo/" + f).read().split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        try:
            r = sh("cargo build --offline --quiet --workspace 2>&1", d)
            ok = r.returncode == 0 and sh("ulimit -v 4000000; timeout 15 cargo test --offline --quiet --workspace 2>&1", d).returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            diff = sh("git diff", d).stdout
            h = hashlib.sha1((f + str(i) + new).encode()).hexdigest()[:6]
            open("%s/%s-%d-%s.diff" % (OUT, os.path.basename(f)[:-3], i + 1, h), "w").write(diff)
            kept += 1
        sh("git checkout -q -- .", d)
    return kept
os.makedirs(OUT, exist_ok=True)
ms = mutants()
print(len(ms), "mutants possible", flush=True)
random.Random(SEED).shuffle(ms)
ms = ms[:N]
with ThreadPoolExecutor(W) as ex:
    print(sum(ex.map(one, [(k, ms[k::W]) for k in range(W)])), "survive of", len(ms))
