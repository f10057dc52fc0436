"""Concurrency: programs run under controlled schedules, histories validated by TLC against ConcAlloc."""
import json, os, random
from vutil import *
import emit

ALPHABET = {
    "C10": [["set", "mod", "get", "commit", "new", "drop"], ["set", "lock", "commit", "up", "newg"],
            ["set", "ids", "commit", "hasq", "newg"]],
    "C11": [["new", "arr", "commit", "drop", "newg"], ["new", "commit", "clone", "defrag", "drop"]],
    "C12": [["drop", "clone", "up", "commit", "new"], ["gpu", "drop", "upg", "commit", "set", "rc"],
            ["drop", "commit", "new", "defrag", "ids"]],
    "C13": [["commit", "new", "getb", "upd", "val"], ["commit", "arr", "upd", "peek", "getb"]],
}
# weights of the operations of random programs
WEIGHTS = {
    "C10": dict(set=5, mod=3, lock=2, rep=2, commit=5, new=2, peek=1, get=2, drop=1, gpu=1, ids=2, hasq=1, clone=1,
                defrag=1),
    "C11": dict(new=8, commit=4, drop=4, set=1, clone=1, defrag=1, ids=1),
    "C12": dict(drop=5, clone=3, up=4, upg=3, weak=3, commit=5, new=4, gpu=2, set=2, rc=2, ids=1, defrag=1),
    "C13": dict(commit=5, new=5, getb=3, upd=4, val=3, peek=2, bclone=1, drop=1),
    "C22": dict(commit=5, new=6, getb=3, upd=4, bclone=2, bdrop=4, peek=1),
}

# the lock-grain design (CommitDesign): calls to combine, and defects which it must refute, with calls that show them
DESIGN = {
    "C10": (["set", "gset", "get", "commit", "drop", "new"],
            {"early": (["new", "commit"], 1, 1), "unserial": (["set", "commit", "new", "big"], 2, 1),
             "clear": (["set", "commit", "ids"], 2, 1), "unlock": (["set", "commit"], 2, 2)}),
    "C11": (["new", "big", "commit", "defrag", "drop"],
            {"split": (["new", "big", "commit"], 1, 1), "expand": (["new", "big", "commit"], 2, 1),
             "hold": (["new", "commit"], 1, 1)}),
    "C12": (["drop", "upg", "gpu", "commit", "new"], {"notify": (["drop", "commit"], 2, 1)}),
    "C13": (["commit", "big", "upd", "val", "getb"], {"late": (["commit", "big", "upd", "val"], 2, 1)}),
}


def design(run):
    """The design refines ConcAlloc; with one of its precautions left out it does not."""
    calls, flaws = DESIGN[run.pid]

    def one(calls, lens, flaw, workers):
        def job():
            consts = {"Alphabet": "{%s}" % ",".join('"%s"' % c for c in calls), "Flaws": "{%s}" % (flaw and '"%s"' % flaw)}
            consts.update(zip(("LenA", "LenB", "LenC"), lens))
            c = emit.cfg(run, "CommitDesign", consts, name=flaw + "-".join(map(str, lens)))
            r = tlc("CommitDesign.tla", c, workers=workers, timeout=600, heap="6g" if workers > 1 else "2g")
            if bool(flaw) == r.ok or not (r.ok or "is violated" in r.out or "Deadlock reached" in r.out):
                raise ToolError("the design %s: %s" % ("without the precaution '%s' is not refuted" % flaw if flaw else "does not hold",
                                                       r.out[-3000:]))
            return r, flaw
        return job

    jobs = [one(calls, (2, 1, 0), "", 1)] + [one(c, (a, b, 0), f, 1) for f, (c, a, b) in flaws.items()]
    res = parallel(jobs)
    if run.thorough():
        res += [one(calls, (2, 2, 0), "", CORES)(), one(calls, (1, 1, 1), "", CORES)()]
    for r, flaw in res:
        if not flaw:
            run.add_tlc(r)
            run.count("design_states", r.distinct)
        else:
            run.count("design_flaws_refuted", 1)


class Gen:
    """Names variables, objects and values of one program."""

    def __init__(self, rng):
        self.r, self.var, self.obj, self.val, self.buf = rng, 0, 0, 0, 0

    def v(self):
        self.val += 1
        return self.val

    def x(self):
        self.var += 1
        return self.var

    def new(self, w, n, kind):
        self.obj += 1
        x = self.x()
        return x, ["new", x, self.obj, w, [self.v() for _ in range(n)], kind]


def small(pid, prog, scenario, seed, k):
    """A program of ConcProg turned into calls."""
    g = Gen(random.Random(seed))
    init = []
    if scenario >= 1:
        # room to reuse: one free run between two live objects
        y, op = g.new(3, 1, "h")
        init += [op]
    if scenario == 2:
        z, op = g.new(1, 2, "ha")
    else:
        z, op = g.new(2, 1, "h")
    init += [op, ["weak", z, 501], ["weakg", z, 502], ["clone", z, 503]]
    init += [["clone", 501, 504], ["clone", 502, 505]]
    if scenario >= 1:
        q, op = g.new(1, 1, "g")
        init += [op, ["commit", 510], ["drop", y], ["commit", 510], ["clone", 510, 511]]
        if scenario >= 3:
            # the second thread's buffer handle is already stale
            _, op = g.new(3, 3, "ga")
            init += [op, ["commit", 510]]
    threads = []
    for t, (x, wk, wg, b) in (("a", (z, 501, 502, 510)), ("b", (503, 504, 505, 511))):
        ops = []
        for o in prog[t]:
            if o in ("set", "mod", "lock"):
                ops.append([o, x, 0, g.v()])
            elif o in ("get", "look"):
                ops.append([o, x, 0])
            elif o in ("new", "newg", "arr"):
                what = {"new": (3, 1, "h"), "newg": (2, 1, "g"), "arr": (1, 3, "ha")}
                if scenario == 4:
                    # each of them outgrows the buffer
                    what.update(new=(3, 20, "ha"), arr=(1, 40, "ga"))
                _, op = g.new(*what[o])
                ops.append(op)
            elif o == "clone":
                ops.append(["clone", x, g.x()])
            elif o in ("up", "upg"):
                ops.append(["up", wk if o == "up" else wg, g.x()])
            elif o in ("drop", "gpu", "rc"):
                ops.append([o, x])
            elif o in ("commit", "getb"):
                ops.append([o, 600 + g.x()])
            elif o in ("upd", "val", "peek"):
                ops.append([o, b])
            else:
                ops.append([o, 0])
        threads.append({"take": [x, wk, wg, b], "ops": ops})
    return {"p": "s%d-%d-%s-%s" % (scenario, k, "+".join(prog["a"]), "+".join(prog["b"])), "init": init,
            "threads": threads, "short": True}


def rand_program(pid, seed, k, threads, length):
    r = random.Random(seed * 1000003 + k)
    g = Gen(r)
    init, objs = [], []
    w = WEIGHTS[pid]
    lens = [0, 1, 2, 2, 3]
    if pid in ("C13", "C22") and r.random() < .6:
        # buffers are replaced more often
        lens += [8, 12, 20]

    def obj():
        kind = r.choice(["h", "h", "h", "ha", "ha", "g", "ga"])
        n = 1 if kind in "hg" else r.choice(lens)
        x, op = g.new(r.choice([1, 2, 3]), n, kind)
        return x, op, n, kind

    for _ in range(r.randint(1, 4)):
        x, op, n, kind = obj()
        init.append(op)
        objs.append((x, n, kind))
        if r.random() < .3:
            init.append(["commit", 700])
    if r.random() < .6 and len(objs) > 1:
        d = objs.pop(r.randrange(len(objs)))
        init += [["drop", d[0]]] + ([["commit", 700]] if r.random() < .7 else [])
    elif r.random() < .5:
        init.append(["commit", 700])
    owned = [[] for _ in range(threads)]  # (var, n, strong)
    bufs = [[] for _ in range(threads)]
    for x, n, kind in objs:
        first = True
        for t in range(threads):
            if r.random() < .6:
                y = g.x()
                init.append(["clone", x, y])
                owned[t].append((y, n, "s"))
            if kind in "hg" and r.random() < .35:
                y = g.x()
                init.append([r.choice(["weak", "weakg"]), x, y])
                owned[t].append((y, n, "w"))
        if r.random() < .5:
            init.append(["drop", x])
    for t in range(threads):
        if r.random() < .6:
            b = 700 + g.x()
            init.append(["getb", b])
            bufs[t].append(b)
    if r.random() < .4:
        # make those handles stale
        _, op = g.new(3, r.choice([3, 8]), "ga")
        init += [op, ["commit", 700]]
    body = []
    for t in range(threads):
        ops = []
        start_o, start_b = [x for x, _, _ in owned[t]], list(bufs[t])
        for _ in range(r.randint(1, length)):
            o = r.choices(list(w), list(w.values()))[0]
            strong = [x for x in owned[t] if x[2] == "s"]
            weak = [x for x in owned[t] if x[2] == "w"]
            if o == "new":
                x, op, n, kind = obj()
                ops.append(op)
                owned[t].append((x, n, "s"))
            elif o in ("set", "mod", "lock", "rep") and strong:
                x = r.choice(strong)
                ops.append([o, x[0], r.randrange(max(1, x[1])) if r.random() < .93 else x[1], g.v()])
            elif o == "get" and strong:
                x = r.choice(strong)
                ops.append([r.choice(["get", "look", "getv"]), x[0], r.randrange(max(1, x[1]))])
            elif o in ("drop", "gpu") and strong:
                x = r.choice(strong)
                ops.append([o, x[0]])
                if o == "drop":
                    owned[t].remove(x)
            elif o == "clone" and strong:
                x, y = r.choice(strong), g.x()
                ops.append(["clone", x[0], y])
                owned[t].append((y, x[1], "s"))
            elif o == "weak" and strong:
                x, y = r.choice(strong), g.x()
                ops.append([r.choice(["weak", "weakg"]), x[0], y])
                owned[t].append((y, x[1], "w"))
            elif o in ("up", "upg") and weak:
                x, y = r.choice(weak), g.x()
                ops.append(["up", x[0], y])
                owned[t].append((y, x[1], "s"))
            elif o == "rc" and owned[t]:
                ops.append(["rc", r.choice(owned[t])[0]])
            elif o in ("commit", "getb"):
                b = r.choice(bufs[t]) if bufs[t] and r.random() < .4 else 700 + g.x()
                ops.append([o, b])
                if b not in bufs[t]:
                    bufs[t].append(b)
            elif o in ("upd", "val", "peek") and bufs[t]:
                ops.append([o, r.choice(bufs[t])])
            elif o == "bclone" and bufs[t]:
                b = 700 + g.x()
                ops.append(["clone", r.choice(bufs[t]), b])
                bufs[t].append(b)
            elif o == "bdrop" and bufs[t]:
                b = r.choice(bufs[t])
                bufs[t].remove(b)
                ops.append(["drop", b])
            elif o in ("ids", "hasq", "defrag"):
                ops.append([o, 0])
        body.append({"take": start_o + start_b, "ops": ops})
    return {"p": "r%d-%d" % (seed, k), "init": init, "threads": body, "short": r.random() < .6}


def build():
    """The harness; if the code uses something the replacements lack, with fewer scheduling points."""
    try:
        return cargo_build("conc"), ""
    except BuildFailed as e:
        first = e
    try:
        return cargo_build("conc", ["--features", "plain"], name="conc-plain"), "fewer scheduling points"
    except BuildFailed:
        raise first


def run_histories(run, exe, programs, timeout, deadline):
    parts = split_programs(programs, CORES)

    def one(k):
        def job():
            pf, tf = run.path("cp%d.ndjson" % k), run.path("ch%d.ndjson" % k)
            write_programs(pf, parts[k])
            rc, out = run_driver(exe, pf, tf, timeout=timeout, args=[str(deadline)])
            hist = []
            if os.path.exists(tf):
                for line in open(tf):
                    if line.endswith("}\n"):
                        hist.append(line)
            stats = re.findall(r"^(\d+) (\d+) (\d+)$", out, re.M)
            if stats:
                run.count("schedules", int(stats[-1][0]))
                run.count("programs", int(stats[-1][1]))
                run.count("distinct_histories", int(stats[-1][2]))
            if rc != 0:
                # the process was killed by what it ran: an abort, or a call that never came back
                last = json.loads(hist[-1])["p"] if hist else parts[k][0]["p"]
                hist.append(json.dumps({"p": last, "ev": [{"k": "panic", "msg": "died %s: %s" % (rc, out[-300:])}]}) + "\n")
            return hist
        return job

    return [h for part in parallel([one(k) for k in range(len(parts))]) for h in part]


def judge(run, hist, prop, timeout):
    """Indices of the histories that have no explanation, with the first unexplained event."""
    parts = [list(range(len(hist)))[i::CORES] for i in range(CORES)]
    parts = [p for p in parts if p]

    def one(k):
        def job():
            tf = run.path("cj%d.ndjson" % k)
            with open(tf, "w") as f:
                f.writelines(hist[i] for i in parts[k])
            r = tlc("TraceConc.tla", "TraceConc.cfg", env={"TRACE": tf, "PROP": prop}, timeout=timeout, heap="3500m")
            os.remove(tf)
            if not r.prints("DONE"):
                raise ToolError("history validation did not finish: " + r.out[-2500:])
            bad = []
            for x in r.prints("STUCK"):
                n, at = x.split()
                bad.append((parts[k][int(n) - 1], int(at)))
            return r, bad
        return job

    out = []
    for r, bad in parallel([one(k) for k in range(len(parts))]):
        run.add_tlc(r)
        out += bad
    run.count("traces_validated_against_impl", len(hist))
    return out


def programs(run, pid):
    thorough = run.thorough()
    rng = random.Random(run.seed * 7919 + 13)
    progs = []
    for j, alpha in enumerate(ALPHABET[pid]):
        consts = {"Alphabet": "{%s}" % ",".join('"%s"' % a for a in alpha), "LenA": 2, "LenB": 2}
        _, ps = emit.model(run, "ConcProg", consts, name=str(j))
        small_ones = [p for p in ps if len(p["b"]) == 1 or len(p["a"]) == 1]
        large = [p for p in ps if len(p["b"]) == 2 and len(p["a"]) == 2]
        chosen = small_ones + (large if thorough else rng.sample(large, min(len(large), 80 // len(ALPHABET[pid]))))
        if pid == "C13" and not thorough:
            # nothing happens to handles without a commit
            chosen = [p for p in chosen if "commit" in p["a"] + p["b"]]
        for k, p in enumerate(chosen):
            tiny = min(len(p["a"]), len(p["b"])) == 1
            for sc in ((0, 1, 2, 3, 4) if thorough else (rng.choice((1, 2, 3)), 4) if pid == "C13" else (rng.choice((0, 1, 1, 2, 3)),)):
                q = small(pid, p, sc, run.seed, k)
                q["p"] += "-%d" % j
                q["sched"] = {"kind": "exh", "depth": 3 if thorough and len(p["a"]) + len(p["b"]) <= 3 else 2,
                              "iters": 60000 if thorough else 900 if tiny else 2500, "seed": run.seed}
                q["cap"] = 25 if thorough else 12 if tiny else 16
                progs.append(q)
    for k in range(4000 if thorough else 330):
        th = rng.choice((2, 2, 3))
        q = rand_program(pid, run.seed, k, th, rng.choice((2, 3, 4)) if th == 2 else rng.choice((2, 3)))
        kind = rng.choice(("rand", "pct", "pct", "exh"))
        q["sched"] = {"kind": kind, "depth": rng.choice((2, 3, 4)) if kind == "pct" else 1, "seed": rng.randrange(1 << 30),
                      "iters": 3000 if thorough else 400}
        q["cap"] = 15 if thorough else 10
        progs.append(q)
    rng.shuffle(progs)
    return progs


def check(run):
    d, note = build()
    if note:
        run.notes.append(note)
    exe = os.path.join(d, "conc")
    design(run)
    progs = programs(run, run.pid)
    batches = [progs] if not run.thorough() else [progs[i:i + 700] for i in range(0, len(progs), 700)]
    budget = 800 if run.thorough() else 400
    for batch in batches:
        if run.elapsed() > budget * .75:
            run.notes.append("stopped after the time budget")
            break
        hist = run_histories(run, exe, batch, timeout=700, deadline=60 if not run.thorough() else 200)
        byid = {p["p"]: p for p in batch}
        if not hist:
            raise ToolError("no histories")
        if not run.cov["samples"]:
            run.sample({"program": byid.get(json.loads(hist[0])["p"])})
        seen = set()
        for i, at in judge(run, hist, run.pid, timeout=700):
            h = json.loads(hist[i])
            if h["p"] in seen:
                continue
            seen.add(h["p"])
            broken = h["ev"][-1] if h["ev"][-1]["k"] in ("panic", "dead") else None
            if broken:
                at = len(h["ev"])
            ev = h["ev"][min(at, len(h["ev"])) - 1]
            run.violation("history of program %s has no explanation: event %d: %s" % (h["p"], at, json.dumps(ev)[:300]),
                          {"driver": "conc", "program": byid.get(h["p"]), "history": h["ev"]})
            if len(seen) >= 5:
                break
        if run.violations:
            break
