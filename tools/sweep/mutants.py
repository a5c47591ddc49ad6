#!/usr/bin/env python3
"""Lists single changes of /repo's sources: one JSON line per mutant {id,file,line,old,new,op}.  usage: mutants.py [STEP OFFSET]"""
import re, sys, json, os, glob
R = "/repo/protospec-build/src"
SKIP = ("/tests",)
OPS = [
 ("eq", r" == ", " != "), ("ne", r" != ", " == "), ("lt", r" < (?!')", " <= "), ("gt", r"(?<![-=]) > ", " >= "), ("le", r" <= ", " < "), ("ge", r" >= ", " > "),
 ("and", r" && ", " || "), ("or", r" \|\| ", " && "), ("add", r" \+ (?!')", " - "), ("sub", r" - ", " + "), ("addeq", r" \+= ", " -= "),
 ("true", r"\btrue\b", "false"), ("false", r"\bfalse\b", "true"), ("not", r"(?<=[\s(])!(?=[a-z(*])", ""), ("some", r"\bis_some\(", "is_none("), ("none", r"\bis_none\(", "is_some("),
 ("any", r"\.any\(", ".all("), ("all", r"\.all\(", ".any("), ("rev", r"\.rev\(\)", ""), ("incl", r"\.\.=", ".."), ("brk", r"\bbreak\b", "continue"), ("cont", r"\bcontinue\b", "break"),
 ("num", r"(?<![\w.#\"])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)), ("if", r"\bif (?!let)(.+) \{$", r"if false && (\1) {"), ("ift", r"\bif (?!let)(.+) \{$", r"if true || (\1) {"),
 ("shl", r" << ", " >> "), ("shr", r" >> ", " << "), ("bor", r" \| (?=[a-z*])", " & "), ("band", r" & (?=[a-z0*])", " | "), ("mul", r" \* ", " + "), ("rem", r" % ", " / "), ("div", r" / ", " * "),
 ("le2be", r"\bto_le_bytes|from_le_bytes", lambda m: m.group(0).replace("le", "be")), ("be2le", r"\bto_be_bytes|from_be_bytes", lambda m: m.group(0).replace("be", "le")),
 ("none2", r"(?<==> )None\b", "return None"), ("min", r"\.min\(", ".max("), ("max", r"\.max\(", ".min("), ("first", r"\.first\(", ".last("), ("last", r"\.last\(", ".first("), ("skip", r"\.skip\(1\)", ".skip(0)"),
]
def main():
    out, n = [], 0
    for f in sorted(glob.glob(R + "/**/*.rs", recursive=True)):
        rel = os.path.relpath(f, "/repo")
        lines = open(f).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#[") or "println!" in s or "panic!" in s or "write!" in s or "unimplemented" in s: continue
            for op, a, b in OPS:
                for m in re.finditer(a, l):
                    new = l[:m.start()] + re.sub(a, b, l[m.start():], count=1) if op not in ("if", "ift") else re.sub(a, b, l, count=1)
                    if new != l: out.append((rel, i, l, new, op))
                    if op in ("if", "ift"): break
            if re.match(r"^[a-z_.()&*]+(::[a-z_]+)*[.(].*\);$", s) and not s.startswith(("let", "return", "assert")): out.append((rel, i, l, re.match(r"\s*", l).group(0), "del"))
            if re.match(r"^[a-z_.*]+ (=|\+=|\|=) .*;$", s): out.append((rel, i, l, re.match(r"\s*", l).group(0), "delset"))
            if re.match(r"^return .*;$", s): out.append((rel, i, l, re.match(r"\s*", l).group(0), "delret"))
    step, off = (int(sys.argv[1]), int(sys.argv[2])) if len(sys.argv) > 2 else (1, 0)
    for k, (f, i, o, w, op) in enumerate(out):
        if k % step == off: print(json.dumps({"id": k, "file": f, "line": i + 1, "old": o, "new": w, "op": op}))
main()
