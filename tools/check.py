#!/usr/bin/env python3
"""check.py PROPERTY — decide one property from /repo's current source.

Compiles the working tree of /repo to IR, runs the analyses the property needs (results are shared between
properties through a cache keyed by the content of the sources and of the analyser) and reports.
exit 0: held; exit 1: VIOLATION line; exit 3: the analysis itself could not be completed."""
import fcntl, hashlib, json, os, subprocess, sys, time
import claims
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(BUILD, "analyse")
t0 = time.time()

def broken(msg):
    print("ANALYSIS-ERROR: " + msg)
    sys.exit(3)

def tree_key():
    h = hashlib.sha256()
    files = []
    for base, _, fs in os.walk(os.path.join(REPO, "src")):
        if os.path.relpath(base, os.path.join(REPO, "src")).split(os.sep)[0] == "test": continue
        files += [os.path.join(base, f) for f in fs if f.endswith((".c", ".h"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(ENG, "rb").read())
    drv = os.path.join(VERIF, "engine", "drv")
    for f in ["prep.sh", "drvprep.sh", "fmt.py", "hints.txt"] + ["drv/" + x for x in sorted(os.listdir(drv))]: h.update(open(os.path.join(VERIF, "engine", f), "rb").read())
    return h.hexdigest()[:24]

def prune(cache, keep):
    ds = sorted((os.path.join(cache, d) for d in os.listdir(cache) if d != keep and os.path.isdir(os.path.join(cache, d))), key=os.path.getmtime)
    for d in ds[:-12]:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

def results(needed, stop=None):
    """returns {analysis: json} for the current tree, running what is missing in parallel"""
    if not os.path.exists(ENG):
        if subprocess.run(["bash", os.path.join(VERIF, "setup.sh"), "build"], stdout=subprocess.DEVNULL).returncode: broken("the analyser does not build")
    cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    lock = open(os.path.join(cache, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    key = tree_key(); d = os.path.join(cache, key); os.makedirs(d, exist_ok=True); os.utime(d); prune(cache, key)
    bc = os.path.join(d, "prog.bc")
    if not os.path.exists(bc):
        tmp = os.path.join(BUILD, "ir." + key); os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["bash", os.path.join(VERIF, "engine", "prep.sh"), tmp], env=dict(os.environ, REPO=REPO), capture_output=True, text=True)
        if r.returncode: broken("the source does not compile: " + r.stderr.strip()[-500:])
        for f in os.listdir(tmp):
            if f != "prog.bc": os.rename(os.path.join(tmp, f), os.path.join(d, f))
        os.rename(os.path.join(tmp, "prog.bc"), bc); os.rmdir(tmp)
    procs, out = {}, {}
    eng = os.path.join(VERIF, "engine")
    path = lambda a: os.path.join(d, a.replace(":", "_") + ".json")
    for a in needed:
        p = path(a)
        if os.path.exists(p): continue
        env = dict(os.environ, REPO=REPO, AI_HINTS=os.path.join(eng, "hints.txt"))
        if a.startswith("unit:"): env["AI_TIME"] = "420"
        elif stop: env["AI_STOP"] = stop
        if a.startswith("unit:"):           # driver: compile and link it with the repository's code, then interpret
            u = a[5:]
            cmd = ["bash", "-c", 'bash "$1/drvprep.sh" "$2" "$3" && exec "$4" "$3/unit_$2.bc" "unit:$2" "$5"', "unit", eng, u, d, ENG, p + ".tmp"]
        elif a == "rules": cmd = ["python3", os.path.join(eng, "fmt.py"), ENG, bc, p + ".tmp"]
        else:
            cmd = [ENG, bc, a, p + ".tmp"]
        procs[a] = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(p + ".err", "w"))
    # wait; the first analysis that finds the property violated decides, the others need not finish
    end = time.time() + 840
    run = dict(procs)
    while run:
        for a, p in list(run.items()):
            rc = p.poll()
            if rc is None and time.time() < end: continue
            if rc is None: p.kill(); p.wait(); rc = -1
            del run[a]
            t = path(a)
            if rc == 0:
                r = json.load(open(t + ".tmp"))
                if any(x.startswith("stopped") for x in r["incomplete"]): out[a] = r
                else: os.rename(t + ".tmp", t)
                if stop and any(stop in v["props"] for v in r["violations"]):
                    for b, q in run.items(): q.kill(); q.wait(); out[b] = {"failed": "analysis %s was not needed any more" % b}
                    run = {}; break
            else: out[a] = {"failed": "analysis %s %s" % (a, "did not finish in time" if rc == -1 else "ended with status %d: %s" % (rc, open(t + ".err").read().strip()[-300:]))}
        if run: time.sleep(0.1)
    for a in needed:
        if a not in out: out[a] = json.load(open(path(a)))
    return out

def known():
    p = os.path.join(VERIF, "known-findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):        # known: property=Pxx kind=... function=... | text
                head, text = l[7:].split(" | ", 1)
                r.append((dict(x.split("=", 1) for x in head.split()), text))
    return r

def main():
    if sys.argv[1] == "--prefill":            # set-up: analyse the tree as it is, so that checks of the same tree only read the result
        results(sorted({a for c in claims.CLAIMS.values() for a in c["analyses"]})); return
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    if tier not in ("quick", "thorough"): tier = "quick"
    c = claims.CLAIMS[prop]
    kn = [k for k in known() if k[0].get("property") == prop]
    res = results(c["analyses"], None if kn else prop)
    viol, errors, cov, samples = [], [], {}, []
    for a, r in res.items():
        if "failed" in r: errors.append(r["failed"]); continue
        for v in r["violations"]:
            if prop in v["props"]: viol.append((a, v))
        for x in r["incomplete"]: errors.append("analysis %s is incomplete: %s" % (a, x))
        if r["unresolved_sites"] and c.get("resolve", True): errors.append("analysis %s could not resolve %s" % (a, ", ".join(r["unresolved_sites"][:5])))
        fns = [f for f in r["functions"]]
        cov[a] = {"functions_analysed": len(fns), "counts": r["counts"], "obligations": {k: v for k, v in r["obligations"].items() if claims.relevant(prop, k)}, "facts": r.get("facts", {})}
        need = c.get("min", {}).get(a, {})
        for k, n in need.items():
            if r["obligations"].get(k, 0) < n: errors.append("analysis %s met %d instances of '%s', at least %d expected: its anchors are gone" % (a, r["obligations"].get(k, 0), k, n))
        for f in c.get("functions", {}).get(a, []):
            if f not in fns: errors.append("analysis %s never reached %s" % (a, f))
    fresh = []
    for a, v in viol:
        hit = [k for k in kn if k[0].get("kind") in (None, v["kind"]) and k[0].get("function") in (None, v["function"]) and k[0].get("analysis") in (None, a)]
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
        else: fresh.append((a, v))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "violations": len(fresh), "wall_s": round(time.time() - t0, 2),
          "coverage": {"explanation": c["rule"], "rule": c["rule"], "analyses": cov, "obligations_met": sum(n for x in cov.values() for n in x["obligations"].values()),
                       "access_sites": sum(x["counts"].get("access_sites", 0) for x in cov.values()), "call_sites": sum(x["counts"].get("call_sites", 0) for x in cov.values())},
          "assumptions": c.get("assumptions", claims.ASSUME)}
    if errors and not fresh: ev["coverage"]["errors"] = errors
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if fresh:
        rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
        with open(rp, "w") as f:
            for a, v in fresh:
                f.write("%s:%d in %s [%s, analysis %s]\n  %s\n" % (v["file"], v["line"], v["function"], v["kind"], a, v["msg"]))
                for t in v["trace"]: f.write("    " + t + "\n")
        for a, v in fresh[:10]: print("%s:%d: %s: %s (%s)" % (v["file"], v["line"], v["function"], v["msg"], a))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if errors: broken("; ".join(errors[:6]))
    print("%s held: %d obligations in %s" % (prop, ev["coverage"]["obligations_met"], ", ".join(sorted(res))))
main()
