#!/usr/bin/env python3
"""fmt.py ENGINE PROG.bc OUT.json — the compiler's own format checking over every source file, with the repository's formatting functions
(found by the rules analysis) declared as such."""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
eng, bc, out = sys.argv[1:4]
src = os.path.join(os.environ.get("REPO", "/repo"), "src")
if subprocess.run([eng, bc, "rules", out]).returncode: sys.exit(2)
r = json.load(open(out))
inc = ["-I" + x for x in (".", "./common/util", "./common", "./dns", "./http", "./app", "./bin", "./test")]
cc = ["/usr/bin/clang-18", "-fsyntax-only", "-Wno-everything", "-Wformat", "-Wno-format-extra-args"] + inc
with tempfile.TemporaryDirectory() as t:
    decl = []
    for k, v in r["facts"].items():
        if not k.startswith("format:"): continue
        d = "__typeof__(%s) %s __attribute__((format(printf,%s,%d)));\n" % (k[7:], k[7:], v, int(v) + 1)
        open(t + "/p.c", "w").write('#include "common.h"\n' + d)
        if subprocess.run(cc + [t + "/p.c"], cwd=src, capture_output=True).returncode == 0: decl.append(d)
    open(t + "/d.h", "w").write("".join(decl))
    files = [os.path.join(b, f) for b, _, fs in os.walk(src) for f in fs if f.endswith(".c") and "/test" not in b[len(src):] and "cJSON" not in f]
    run = lambda f: subprocess.run(cc + ["-include", "common.h", "-include", t + "/d.h", os.path.relpath(f, src)], cwd=src, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, files))
r["obligations"]["files checked by the compiler's format rules"] = len(files)
r["facts"]["functions declared as formatting"] = str(len(decl))
seen = set()
for p in res:
    if p.returncode: sys.stderr.write(p.stderr); sys.exit(2)
    for m in re.finditer(r"^([^\s:]+):(\d+):\d+: warning: (.*?) \[-W[\w-]+\]$", p.stderr, re.M):
        if m.groups() in seen or "unsafe" in m[3]: continue
        seen.add(m.groups())
        r["violations"].append({"kind": "format", "function": "", "file": m[1], "line": int(m[2]), "msg": m[3], "props": ["P14"], "trace": []})
json.dump(r, open(out, "w"))
