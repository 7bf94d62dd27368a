"""dry.py FILE id...: applies the changes of a bug file to /tmp/bugrepo and runs the property's quick check, keeping nothing
(for changes that touch no original line and so can't be kept as seeded changes)."""
import runpy, subprocess, sys
R = "/tmp/bugrepo"
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if b["id"] not in sys.argv[2:]:
        continue
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    for f, old, new in b["edits"]:
        s = open(f"{R}/{f}").read()
        assert s.count(old) >= 1, (b["id"], old)
        open(f"{R}/{f}", "w").write(s.replace(old, new, 1))
    o = subprocess.run(["/verif/tools/against.sh", R, "bug", b["prop"]], capture_output=True, text=True).stdout
    print(b["id"], "caught" if "rc=1" in o and "VIOLATION" in o else "MISSED", o.strip()[:120], flush=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
