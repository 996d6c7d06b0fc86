"""Parts of checks beyond recording generated calls one after another."""
import glob, json, os, random, re, shutil, subprocess
import check, config

def split(name, T, lines):
    for t in range(T):
        with open("%s.%d.s" % (name, t), "w") as f:
            for l in lines:
                m = re.match(r"@(\d+) (.*)", l)
                if (int(m[1]) if m else 0) == t: f.write((m[2] if m else l) + "\n")
    open(name + ".s", "w").write("\n".join(lines) + "\n")
def alone_jobs(b, name, kind, T): return [([b + ("/drv.cov" if kind == "coop" else "/drv.lib"), "rec", "%s.%d.s" % (name, t), "%s.%d.al" % (name, t)], None, None) for t in range(T)]
def mt_job(b, name, kind, T, seed): return ([b + ("/drv.cov" if kind == "coop" else "/drv.lib"), "rec", name + ".s", name + ".mt", str(T)] + ([str(seed)] if kind == "coop" else []), None, None)
def merge(name, T, out=None, base=0):
    """one history: every thread alone (as threads 100+t), then all together, each call naming its twin; returns calls missing"""
    alone = {}; only = out is None; out = [] if only else out; n0 = len(out)
    for t in range(T):
        for i, l in enumerate(open("%s.%d.al" % (name, t))):
            e = json.loads(l); e["t"] = base + 100 + t; out.append(json.dumps(e)); alone[t, i] = len(out)
    cnt = [0] * T; na = len(out) - n0
    for l in open(name + ".mt") if os.path.exists(name + ".mt") else []:
        try: e = json.loads(l)
        except ValueError: break
        t = e["t"]
        if (t, cnt[t]) in alone: e["ref"] = alone[t, cnt[t]]
        cnt[t] += 1; e["t"] = base + t; out.append(json.dumps(e))
    if only: open(name + ".nd", "w").write("\n".join(out) + "\n")
    return sum(1 for _ in open(name + ".s")) - sum(cnt), len(out) - n0, na
def threads(prop, c, work, ev, b):
    """Concurrent histories: each thread's calls are recorded alone and then among other threads, under a seeded
       scheduler that switches inside library calls (instrumented library) and under the system's (shipped library).
       TLC accepts a history iff every call is a step of its own thread's environment and does what it did alone."""
    k = 6 if check.THOROUGH else 1
    lines = ev.pop("script"); rng = random.Random(check.SEED * 7919 + 1)
    byop = {}
    for l in lines: byop.setdefault(" ".join(l.split()[:2]), []).append(l)
    ses = []
    for kind, T, n, count in c["sessions"]:
        for s in range(count * k):
            name = "%s/m%03d" % (work, len(ses)); src = lines
            if rng.random() < 0.6:          # a few kinds of call on every thread
                src = [l for o in rng.sample(sorted(byop), min(rng.choice([1, 2, 6]), len(byop))) for l in byop[o]]
            allf = []
            for t in range(T):
                p = []
                for l in rng.sample(src, min(n, len(src))):
                    if not l.startswith("setround") and rng.random() < 0.9: l = re.sub(r" [mfnb]=\d+", "", l)
                    if rng.random() < 0.1: p.append("setround 0 %x" % rng.randrange(5))
                    p.append(l)
                w = re.sub(r" [mfnb]=\d+", "", p[0]).split(); p[0] = " ".join(w[:2] + ["m=%d" % rng.randrange(5), "f=0", "n=0", "b=0"] + w[2:])
                allf += ["@%d %s" % (t, l) for l in p]
            split(name, T, allf); ses.append((name, kind, T, check.SEED * 1000 + s + 1))
    nbig = len(ses)
    for o in sorted(byop):              # the first calls of a process
        for s in range(c.get("cold", 2) * k):
            name = "%s/m%04d" % (work, len(ses)); T = 3; allf = []
            for t in range(T):
                p = [re.sub(r" [mfnb]=\d+", "", l).split() for l in rng.sample(byop[o], min(4, len(byop[o])))]
                p[0][2:2] = ["m=%d" % rng.randrange(5), "f=0", "n=0", "b=0"]
                allf += ["@%d %s" % (t, " ".join(l)) for l in p]
            split(name, T, allf); ses.append((name, "coop", T, check.SEED * 100000 + len(ses)))
    check.par([j for s in ses for j in alone_jobs(b, s[0], s[1], s[2])], 900 * k)
    coop = [s for s in ses if s[1] == "coop"]
    rc = dict(zip(coop, check.par([mt_job(b, *s) for s in coop], 500 * k, stop=3)))       # 3: a call that never ended; the sessions after it are left out
    if 3 not in rc.values():
        for s in ses:
            if s[1] != "coop": rc[s] = check.par([mt_job(b, *s)], 100)[0]       # real parallelism: one at a time
            if rc.get(s) == 3: break
    done = [s for s in ses if rc.get(s) not in (None, -99)]
    check.log("%d of %d concurrent sessions recorded" % (len(done), len(ses)))
    if len(done) < len(ses) and 3 not in rc.values(): ev["capped"] = "%d of %d sessions recorded in time" % (len(done), len(ses))
    if not done: raise check.Broken("no concurrent session could be recorded")
    big = [s for s in done if s in set(ses[:nbig])]; small = [s for s in done if s not in set(ses[:nbig])]
    groups = [[s] for s in big] + [small[i::check.N] for i in range(check.N)]
    shards = []; where = {}
    for g in groups:
        if not g: continue
        out = []; pos = []
        for i, s in enumerate(g):
            miss, n, na = merge(s[0], s[2], out, 1000 * i); ev["events"] += n; pos.append((len(out), s))
            if miss: ev["violations"].append(("concurrent run ended %d calls early" % miss, None, open(s[0] + ".s").read().split("\n")[:-1], s))
        sh = g[0][0] + ".g.s"; open(sh[:-2] + ".nd", "w").write("\n".join(out) + "\n"); shards.append(sh); where[sh] = pos
    for r in check.judge(shards, check.cfgfile(work, c["aspects"])):
        ev["states"] += r["dist"]; ev["trans"] += r["gen"]; ev["traces"] += len(where[r["shard"]]) if r["ok"] else 0
        for x in r["known"]: ev["known"][x["known"]] = x
        for x in r["rej"]:
            s = next(s for end, s in where[r["shard"]] if x["rejected"] <= end)
            ev["violations"].append((x, None, open(s[0] + ".s").read().split("\n")[:-1], s))
    ev["models"].append({"kind": "concurrent sessions", "count": len(done), "scheduler": {"coop": sum(s[1] == "coop" for s in done), "system": sum(s[1] != "coop" for s in done)}})
def replay_threads(path, work, c, b):
    lines = open(path).read().split("\n")[:-1]; h = lines[0].split(); kind, T, seed = h[1], int(h[2]), int(h[3])
    name = work + "/m000"; split(name, T, lines[1:])
    check.par(alone_jobs(b, name, kind, T), 900); check.par([mt_job(b, name, kind, T, seed)], 900)
    miss = merge(name, T)[0]
    if miss: return [{"aspects": ["ended %d calls early" % miss], "event": None}]
    return check.judge([name + ".s"], check.cfgfile(work, c["aspects"]))[0]["rej"]

def models(prop, c, work, ev, b):
    """The specification itself, model checked: its definitions against the properties' own words on small formats,
       its machine against the properties of steps, its references against the identities that define the functions."""
    for i, (mod, consts) in enumerate(config.MODELS[prop][1 if check.THOROUGH else 0]):
        t = open("%s/%s.cfg" % (check.SPEC, mod)).read()
        if consts: t = re.sub(r"CONSTANTS.*", "CONSTANTS " + consts, t)
        name = "%s/model%d" % (work, i); open(name + ".cfg", "w").write(t)
        check.par([(check.tlc("%s/%s.tla" % (check.SPEC, mod), name + ".cfg", name + ".meta", workers=check.N, mem="8g"), name + ".out", None)], 14400 if check.THOROUGH else 300)
        o = open(name + ".out").read(); m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        if "Model checking completed. No error has been found." not in o: raise check.Broken("model %s %s: %s" % (mod, consts, o[-1500:]))
        ev["mstates"] += int(m[-1][1]); ev["mtrans"] += int(m[-1][0])
        ev["models"].append({"kind": "specification model checked", "module": mod, "constants": consts, "states": int(m[-1][1])})
        check.log("model %s %s: %s states" % (mod, consts, m[-1][1])); shutil.rmtree(name + ".meta", ignore_errors=True)
