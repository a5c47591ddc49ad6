import json, subprocess, sys, os, time
k, w, src, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
CODEC = "C12 C10 C08 C09 C11 C13 C14 C15 C16 C17 C02 C26 C03 C04 C06 C05 C07".split()
PLANS = [("tokenizer.rs", "C18 C20"), ("prelude/", ["C15", "C11", "C13", "C09", "C02", "C26", "C03", "C05", "C06", "C07", "C21", "C23"]), ("parser/", "C19 C20 C21"), ("ast/", "C19 C21 C23"),
  ("coder/", CODEC + ["C21", "C23", "C24"]), ("compiler/", CODEC + ["C23", "C24", "C21"]), ("import.rs", "C22"), ("ffi/", ["C21", "C22", "C15", "C13", "C11", "C23"]),
  ("lib.rs", "C25 C22 C20"), ("result.rs", "C25 C20"), ("program/import", "C22 C21 C23"), ("program/resolve", "C22 C21 C23"), ("program/", ["C21", "C22", "C12", "C09", "C16", "C24", "C23", "C20"]), ("semantics/", ["C21", "C12", "C11", "C10", "C16", "C22", "C02", "C14", "C17", "C23", "C24", "C20"]), ("asg/", ["C21", "C12", "C11", "C16", "C02", "C14", "C09", "C22", "C23", "C24"]), ("", CODEC + ["C21", "C22", "C19", "C18", "C23"])]
def plan(f):
    for p, c in PLANS:
        if p in f: return c.split() if isinstance(c, str) else c
for n, l in enumerate(open(src)):
    if n % w != k: continue
    m = json.loads(l)
    if m["id"] in done: continue
    p = "/repo/" + m["file"]
    text = open(p).read(); lines = text.split("\n")
    if lines[m["line"] - 1] != m["old"]: continue
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
    m["by"] = None; m["tried"] = []
    t0 = time.time()
    try:
        for c in plan(m["file"][len("protospec-build/src/"):]):
            env = dict(os.environ, VERIF_TIER="quick")
            r = subprocess.run("ulimit -v 16000000; timeout -k 5 600 bash /verif/check.sh %s quick" % c, shell=True, executable="/bin/bash", capture_output=True, text=True, errors="replace", env=env)
            m["tried"].append([c, r.returncode])
            if r.returncode == 1 and "VIOLATION property=" in r.stdout: m["by"] = c; m["what"] = [x for x in r.stdout.split("\n") if x.startswith("  ")][:1]; break
            if r.returncode not in (0, 1): m.setdefault("odd", []).append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
    finally: open(p, "w").write(text)
    m["s"] = round(time.time() - t0)
    open(out, "a").write(json.dumps(m) + "\n")
