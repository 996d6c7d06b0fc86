#!/usr/bin/env python3
"""check.py PROPERTY             decide one property on /repo's current tree (quick or thorough by VERIF_TIER)
   check.py PROPERTY --thorough   decide it as deeply as the machinery can
   check.py PROPERTY --replay F   run the calls of script F and judge them against the specification"""
import glob, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.realpath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import config
sys.modules.setdefault("check", sys.modules[__name__])
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough" or "--thorough" in sys.argv
CP = ":".join([os.path.join(V, "work/classes"), "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
N = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
class Broken(Exception): pass

def sh(cmd, timeout=None, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **k)
def classes():
    d = os.path.join(V, "work/classes")
    src = os.path.join(V, "spec/java")
    if os.path.exists(os.path.join(d, "BigNat.class")) and os.path.getmtime(os.path.join(d, "BigNat.class")) >= os.path.getmtime(src + "/BigNat.java"): return
    os.makedirs(d, exist_ok=True)
    r = sh(["javac", "-cp", CP, "-d", d] + glob.glob(src + "/*.java"))
    if r.returncode: raise Broken("javac: " + r.stdout[-500:])
def build(work, cov=True):
    b = os.path.join(work, "b")
    r = sh(["bash", os.path.join(V, "harness/build.sh"), REPO, b], env=dict(os.environ, NOCOV="0" if cov else "1"))
    if r.returncode: raise Broken("build of %s failed: %s" % (REPO, r.stdout[-1500:]))
    return b
def par(cmds, limit, stop=None):
    """run commands (cmd, stdout path or None, env) N at a time; returns list of return codes; one that ends with code `stop` ends the rest (codes None, -99)"""
    q = list(enumerate(cmds)); run = {}; rc = [None] * len(cmds); end = time.time() + limit
    while q or run:
        while q and len(run) < N:
            i, (c, out, env) = q.pop(0)
            f = open(out, "w") if out else subprocess.DEVNULL
            run[i] = subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT if out and out.endswith(".out") else subprocess.DEVNULL, env=dict(os.environ, **(env or {})))
            if out: f.close()
        for i in list(run):
            p = run[i].poll()
            if p is not None: rc[i] = p; del run[i]
        if time.time() > end or (stop is not None and stop in rc):
            for p in run.values(): p.kill()
            for i in run: rc[i] = -99
            break
        time.sleep(0.02)
    return rc
def tlc(module, cfg, meta, extra=(), workers=1, mem="2g"):
    return ["java", "-Djava.io.tmpdir=" + os.path.dirname(meta), "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
            "-metadir", meta, "-config", cfg] + list(extra) + [module]
SPEC = os.path.join(V, "spec")

def gen_scripts(b, c, work):
    """generated and explored calls for the property's operations, in a seeded random order"""
    mult = c.get("thorough", 8) if THOROUGH else 1
    cmds = []; k = 0
    env = {"NC": "1"} if c.get("nc") else None      # operands in unusual encodings
    for ops, n, it in c["ops"]:
        for op in ops:
            if n: cmds.append(([b + "/drv.lib", "gen", op, str(n * mult), str(SEED)], "%s/g%03d.s" % (work, k), env)); k += 1
            if it: cmds.append(([b + "/drv.cov", "explore", op, str(it * mult), str(SEED), str(6 * mult)], "%s/g%03d.s" % (work, k), env)); k += 1
    rc = par(cmds, 300 * mult)
    lines = []
    for i, f in enumerate(sorted(glob.glob(work + "/g*.s"))):
        t = open(f).read().split("\n")
        if t and t[-1]: t = t[:-1]            # a line cut short by a crash of the generator
        lines += [l for l in t if l]
    for f in glob.glob(work + "/g*.s"): os.unlink(f)
    mine = {tuple(op.split(":")) for g in c["ops"] for op in g[0]}
    first = [l for l in open(os.path.join(V, "corpus/known.s")).read().split("\n") if tuple(l.split()[:2]) in mine]
    rng = random.Random(SEED); rng.shuffle(lines)
    if c.get("strip"):      # let direction, flags and errno carry over from call to call
        pat = re.compile(r" [mfn]=\d+")
        lines = [pat.sub("", l) if rng.random() < c["strip"] else l for l in lines]
    if not c.get("sessions"): lines = first + lines
    return lines
def record(b, shards, threads=0):
    par([([b + "/drv.lib", "rec", s, s[:-2] + ".nd"] + ([str(threads)] if threads else []), None, None) for s in shards], 900 if not THOROUGH else 7200)
def judge(shards, cfg, survey=False):
    cmds = [(tlc(SPEC + "/Trace.tla", cfg, s[:-2] + ".meta"), s[:-2] + ".out", {"TRACE": s[:-2] + ".nd", "SURVEY": "1" if survey else "0"}) for s in shards]
    rc = par(cmds, 840 if not THOROUGH else 14400)
    res = []
    for s, r in zip(shards, rc):
        t = open(s[:-2] + ".out").read()
        rej, known = [], []
        for l in t.split("\n"):
            if l.startswith('"{'):
                try: j = json.loads(json.loads(l))
                except ValueError: continue
                (known if j.get("known") else rej).append(j)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t)
        ok = "Model checking completed. No error has been found." in t
        if not ok and not rej: raise Broken("TLC on %s (rc %s): %s" % (s, r, t[-1500:]))
        res.append(dict(shard=s, ok=ok and not rej, rej=rej, known=known, gen=int(m[-1][0]) if m else 0, dist=int(m[-1][1]) if m else 0))
        shutil.rmtree(s[:-2] + ".meta", ignore_errors=True)
    return res
def cfgfile(work, aspects):
    p = work + "/Trace.cfg"
    t = open(SPEC + "/Trace.cfg").read()
    t = re.sub(r"Aspects = \{[^}]*\}", "Aspects = {%s}" % ", ".join('"%s"' % a for a in sorted(aspects)), t)
    open(p, "w").write(t); return p

def dec(a):
    if isinstance(a, list) and len(a) >= 3 and a[0] in (0, 1, 2, 3) and a[1] in (0, 1):
        c = 0
        for x in reversed(a[3:]): c = c * 10000 + x
        return ("-" if a[1] else "") + {0: "%de%d" % (c, a[2]), 1: "Inf", 2: "NaN", 3: "sNaN"}[a[0]]
    return a
MODE = ["near", "zero", "up", "down", "away"]
STRARG = {"strtod", "wcstod", "nan", "iget", "iget2"}
def show(e):
    tx = lambda v: "".join(map(chr, v)) if isinstance(v, list) and all(isinstance(x, int) and 0 < x < 256 for x in v) else dec(v)
    f = e["f"]
    a = [tx(v) if (f in STRARG or (f in ("fmt", "strfrom") and i == 1)) else dec(v) for i, v in enumerate(e["a"])]
    r = [tx(v) if (f in ("fmt", "strfrom", "oput", "decoded") and i == 0) else dec(v) for i, v in enumerate(e["r"])]
    return {"call": "%s:%s" % (f, e["w"]), "args": a, "direction": MODE[e["p"][0]] if 0 <= e["p"][0] < 5 else e["p"][0], "before": e["p"][1:], "result": r, "after": e["q"], "thread": e["t"]}
def line_of(script_lines, idx): return script_lines[idx - 1]
def pinned(line, ev):
    """script line with the recorded state before the call made explicit"""
    tok = [t for t in line.split() if not re.match(r"^(@\d+|[mfnb]=)", t)]
    p = ev["p"]
    st = ["m=%d" % p[0], "f=%d" % p[1], "n=%d" % p[2], "b=%d" % p[3]]
    return " ".join(tok[:2] + st + tok[2:])

def run(prop, c, work, ev):
    b = build(work); log("built")
    classes()
    lines = gen_scripts(b, c, work)
    log("script: %d calls" % len(lines))
    if c.get("sessions"):      # judged by the hook
        ev["script"] = lines; return b, cfgfile(work, c["aspects"])
    cap = c.get("cap", 60000) * (20 if THOROUGH else 1)
    if len(lines) > cap: lines = lines[:cap]
    ns = N if len(lines) < 400000 else N * ((len(lines) + 399999) // 400000)
    shards, per = [], {}
    for i in range(ns):
        s = "%s/s%03d.s" % (work, i); part = lines[i::ns]
        if not part: continue
        open(s, "w").write("\n".join(part) + "\n"); shards.append(s); per[s] = part
    record(b, shards)
    nev = 0
    for s in shards:
        n = sum(1 for _ in open(s[:-2] + ".nd")); nev += n
        if n < len(per[s]):
            last = json.loads(open(s[:-2] + ".nd").read().split("\n")[n - 1]) if n else None
            if not last or last["c"] == 0:
                # the process died inside call n+1
                ev["violations"].append(("process ended inside a call", per[s][n], per[s][: n + 1]))
    log("recorded %d events" % nev)
    cfg = cfgfile(work, c["aspects"])
    res = judge(shards, cfg)
    ev["events"] += nev; ev["states"] += sum(r["dist"] for r in res); ev["trans"] += sum(r["gen"] for r in res)
    ev["traces"] += sum(1 for r in res if r["ok"])
    for s in shards[:3]:
        for l in open(s[:-2] + ".nd").read().split("\n")[5:7]:
            if l: ev["samples"].append(show(json.loads(l)))
    for r in res:
        for k in r["known"]: ev["known"][k["known"]] = k
        for k in r["rej"]:
            part = per[r["shard"]]; l = part[k["rejected"] - 1]
            ev["violations"].append((k, pinned(l, k["event"]), part[: k["rejected"]]))
    log("judged: %d rejected" % sum(len(r["rej"]) for r in res))
    return b, cfg

def confirm(prop, b, cfg, work, ev):
    """replay each violation from a script of its own and print it"""
    out = []
    rd = os.path.join(V, "work", "replay"); os.makedirs(rd, exist_ok=True)
    for i, (k, line, prefix, *ses) in enumerate(ev["violations"][:8]):
        path = "%s/%s-%d.s" % (rd, prop, i)
        if ses:                # a concurrent history: threads and scheduler seed go with it
            open(path, "w").write("# %s %d %d\n" % ses[0][1:] + "\n".join(prefix) + "\n")
            log("REJECTED (concurrent history)", k if isinstance(k, str) else "%s: %s" % (",".join(k["aspects"]), json.dumps(show(k["event"])) if k.get("event") else ""))
            out.append(path); continue
        open(path, "w").write(line + "\n")
        how = "single call"
        if isinstance(k, str): why = k
        else:
            why = "%s: %s; expected %s" % (",".join(k["aspects"]), json.dumps(show(k["event"])), json.dumps(k.get("expected"))[:400])
            record(b, [path])
            again = judge([path], cfg)[0]["rej"] if os.path.getsize(path[:-2] + ".nd") else []
            if not again:
                open(path, "w").write("\n".join(prefix) + "\n"); how = "whole history"
        log("REJECTED (%s) %s" % (how, why))
        out.append(path)
    for p in out[:8]: print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)

def evidence(prop, c, ev, wall):
    os.makedirs(V + "/evidence", exist_ok=True)
    d = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
         "coverage": {"states": ev["states"] + ev["mstates"], "transitions": ev["trans"] + ev["mtrans"], "traces_validated_against_impl": ev["traces"],
                      "events_validated": ev["events"], "model_states": ev["mstates"], "model_transitions": ev["mtrans"], "models": ev["models"],
                      "operations": sorted({op for g in c.get("ops", []) for op in g[0]}), "aspects": sorted(c["aspects"]), "samples": ev["samples"][:8]},
         "assumptions": c.get("assumptions", ["argument and result encodings are decoded by harness/val.c", "the platform's fenv and errno are observed truthfully"]),
         "wall_s": round(wall, 1), "violations": len(ev["violations"])}
    json.dump(d, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)

def findings():
    """known-findings.txt: lines "F1 property=C14 text": finding and property -> text"""
    d = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"(F\d+) property=(\w+) (.*)", l)
        if m: d[m[1], m[2]] = m[3].strip(); d.setdefault((m[1], ""), m[3].strip())
    return d
def main():
    prop = sys.argv[1]; c = config.CHECKS[prop]
    work = os.path.join(V, "work", prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    ev = dict(events=0, states=0, trans=0, traces=0, mstates=0, mtrans=0, models=[], samples=[], violations=[], known={})
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            if re.match(r"# (coop|par) ", open(sys.argv[3]).read(20)):
                import extra
                b = build(work); classes(); r = extra.replay_threads(sys.argv[3], work, c, b)
                for k in r: print(",".join(k["aspects"]), json.dumps(show(k["event"])) if k["event"] else "")
                return 1 if r else 0
            b = build(work, cov=False); classes(); s = work + "/replay.s"; shutil.copy(sys.argv[3], s)
            record(b, [s]); r = judge([s], cfgfile(work, c["aspects"]), survey=True)[0]
            for k in r["rej"]: print(",".join(k["aspects"]), json.dumps(show(k["event"])), "expected", json.dumps(k.get("expected")))
            return 1 if r["rej"] else 0
        b, cfg = run(prop, c, work, ev)
        for hook in c.get("extra", []):
            import extra; getattr(extra, hook)(prop, c, work, ev, b)
        for k in sorted(ev["known"]): print("KNOWN-FINDING: property=%s %s %s" % (prop, k, findings().get((k, prop), findings().get((k, ""), ""))))
        if ev["violations"]: confirm(prop, b, cfg, work, ev)
        evidence(prop, c, ev, time.time() - T0)
    except Broken as x:
        print("ERROR: %s" % x); return 2
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    log("done"); return 1 if ev["violations"] else 0
if __name__ == "__main__": sys.exit(main())
