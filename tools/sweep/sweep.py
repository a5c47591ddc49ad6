# usage (in a private copy, see ../ns.sh): sweep.py K W MUTANTS OUT [STAGE1...] - for each W-th mutant: does it build, do the
# repository's tests pass, does the code under test treat any specification of the families differently, and which check reports it
import json, subprocess, sys, os, time
k, w, src, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
known = {}
for f in sys.argv[5:]:
    for l in open(f):
        m = json.loads(l); known[m["id"]] = m["st"]
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
os.environ["VERIF_TIER"] = "quick"
def sh(c, t):
    return subprocess.run("ulimit -v 80000000; timeout -k 5 %d %s" % (t, c), shell=True, executable="/bin/bash", capture_output=True, text=True, errors="replace")
DRV = "/verif/target/drv/debug/drv"
def build(): return sh("bash -c '. /verif/env.sh; cd /verif/drv && CARGO_TARGET_DIR=/verif/target/drv cargo build --offline -q'", 300).returncode == 0
def fp():
    r = sh(DRV + " print quick", 300)
    return {tuple(l.split()[:2]): l.split()[2:] for l in r.stdout.split("\n") if len(l.split()) == 4} if r.returncode == 0 else None
assert build()
base = fp()
assert base, "no fingerprints"
ORDER = "tagged args calc foreign repr cond lens xform real base consts scope gz expr at-tagged at-xform at-args at-lens at-cond at-calc large combo".split()
FRONT = [("tokenizer.rs", "C18 C20"), ("prelude/", "C21"), ("parser/", "C19"), ("ast/", "C21 C12"), ("import.rs", "C22"), ("ffi/", "C21 C22"), ("lib.rs", "C25 C22 C20"), ("result.rs", "C25"), ("program/import", "C22 C21"), ("program/resolve", "C22 C21"),
  ("program/", "C21 C22 C24"), ("semantics/", "C21 C22 C12"), ("const_int", "C12 C21 C19"), ("asg/", "C21 C12"), ("compiler/expr", "C12"), ("compiler/mod", "C24"), ("", "")]
for n, l in enumerate(open(src)):
    if n % w != k: continue
    m = json.loads(l)
    if m["id"] in done or known.get(m["id"], "survived") != "survived": continue
    p = "/repo/" + m["file"]
    text = open(p).read(); lines = text.split("\n")
    if lines[m["line"] - 1] != m["old"]: continue
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
    t0 = time.time()
    m["st"] = "?"; m["by"] = None; m["tried"] = []
    try:
        if not build(): m["st"] = "nobuild"; continue
        f = fp()
        m["fp"] = "failed" if f is None else sorted("%s/%s" % x for x in base if f.get(x) != base[x])
        if m["id"] not in known:
            if sh("bash /opt/vp/build.sh", 200).returncode != 0: m["st"] = "nobuild"; continue
            r = sh("bash /opt/vp/test.sh /tmp/sweep.%d.json" % k, 120)
            if "222 tests run: 222 passed" not in r.stdout + r.stderr: m["st"] = "killed"; continue
        m["st"] = "survived"
        if f is None: m["by"] = "print"; continue
        worse = [x for x in base if int(f[x][0]) > int(base[x][0])]
        if worse: m["by"] = "rejected " + "/".join(worse[0]); continue
        # asynchronous code of the same kind is only looked at where synchronous code does not differ
        fams = [x for x in ORDER if f[(x, "0")] != base[(x, "0")]]
        afams = [] if fams else [x for x in ORDER if f[(x, "1")] != base[(x, "1")]]
        for fam, modes in [(x, {"large": "large", "gz": "round+wire+frag+large"}.get(x, "round+wire+bad+bytes+trunc+frag+short")) for x in fams[:5]] + [(x, {"large": "largeasync"}.get(x, "async")) for x in afams[:4]]:
            r = sh("bash /verif/check.sh family quick %s %s" % (fam, modes), 600)
            m["tried"].append([fam, r.returncode])
            if r.returncode == 1 and "VIOLATION" in r.stdout: m["by"] = fam; m["what"] = [x for x in r.stdout.split("\n") if x.startswith("  ")][:1]; break
            if r.returncode not in (0, 1): m.setdefault("odd", []).append([fam, r.returncode, (r.stdout + r.stderr)[-300:]])
        if m["by"] is None:
            rel = m["file"][len("protospec-build/src/"):]
            for c in next(c for q, c in FRONT if q in rel).split():
                r = sh("bash /verif/check.sh %s quick" % c, 600)
                m["tried"].append([c, r.returncode])
                if r.returncode == 1 and "VIOLATION property=" in r.stdout: m["by"] = c; m["what"] = [x for x in r.stdout.split("\n") if x.startswith("  ")][:1]; break
                if r.returncode not in (0, 1): m.setdefault("odd", []).append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
    finally:
        open(p, "w").write(text)
        m["s"] = round(time.time() - t0)
        open(out, "a").write(json.dumps(m) + "\n")
