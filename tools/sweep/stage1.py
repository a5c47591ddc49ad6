import json, subprocess, sys, os
k, w, src, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
def sh(c, t):
    try: return subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", c], capture_output=True, text=True)
    except Exception as e: return None
for n, l in enumerate(open(src)):
    if n % w != k: continue
    m = json.loads(l)
    if m["id"] in done: continue
    p = "/repo/" + m["file"]
    text = open(p).read(); lines = text.split("\n")
    assert lines[m["line"] - 1] == m["old"]
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
    try:
        r = sh("bash /opt/vp/build.sh", 120)
        if r.returncode != 0: st = "nobuild"
        else:
            r = sh("bash /opt/vp/test.sh /tmp/mw/%d/out.json" % k, 90)
            st = "survived" if r and "222 tests run: 222 passed" in r.stdout + r.stderr else "killed"
    finally: open(p, "w").write(text)
    m["st"] = st
    open(out, "a").write(json.dumps(m) + "\n")
