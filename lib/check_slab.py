"""C16, C17, C18, C20: slabs of words, item codecs, ids and arrays (crate crabslab)."""
import os, random
from vutil import *
import emit, check_trace

SIZES = {0: 1, 1: 2, 2: 3, 3: 0, 4: 4, 5: 1, 6: 1, 7: 3, 8: 5, 9: 3, 10: 2, 11: 2, 12: 0, 13: 2, 14: 1, 15: 1}
NTYPES = 78


def codec(run, rng):
    """C18: every type many times; the narrow types completely."""
    k = 900 if not run.thorough() else 1200
    out = [{"codec": {"ty": t, "n": 20}} for t in range(NTYPES) for _ in range(max(1, k // 20))]
    if run.thorough():
        out += [{"codec": {"all": a, "lo": lo, "hi": lo + 1024}} for a in (2, 3) for lo in range(0, 1 << 16, 1024)]
    else:
        lo = [0, 0x7f80, 0x80 * rng.randrange(512), 0x80 * rng.randrange(512), 0xff80]
        out += [{"codec": {"all": a, "lo": x, "hi": x + 128}} for a in (2, 3) for x in lo]
    out += [{"codec": {"all": a, "lo": 0, "hi": 256}} for a in (0, 1)]
    return out


def reads(m):
    ops = []
    for t in (0, 1, 2, 3, 4, 7, 8, 11, 6, 10, 12):
        ids = sorted(set([0, m - SIZES[t] - 1, m - SIZES[t], m - SIZES[t] + 1, m - 1, m, m + 1]))
        ops += [["rd", t, i] for i in ids + [-1, -2, -1 - SIZES[t], (1 << 31) - 1, -(1 << 31)] if i >= 0 or i < -1 or i == -1]
    return ops


def mem(run, rng):
    """C17: sequences of writes and reads."""
    out = []
    _, progs = emit.model(run, "SlabMem", dict(N=4, D=2) if not run.thorough() else dict(N=5, D=2))
    if run.thorough():
        progs += emit.model(run, "SlabMem", dict(N=4, D=3), name="3")[1]
        rng.shuffle(progs)
        progs = progs[:60000]
    else:
        rng.shuffle(progs)
        progs = progs[:5000]
    for i, p in enumerate(progs):
        n = 4 if not run.thorough() else 5
        t = (0, 1, 9, 3, 7, 2, 11, 4)[i % 8]
        out.append({"mem": n, "zero": i % 3 == 0,
                    "ops": [list(x) for x in p] + [["rd", t, j] for j in range(-1, n + 1)] + [["rv", t, i % 3, i % 4]]})
    for m in range(0, 10):
        out += [{"mem": m, "zero": z, "ops": reads(m)} for z in (True, False)]
    for _ in range(5000 if not run.thorough() else 15000):
        m = rng.choice([0, 1, 2, 3, 5, 8, 13, 30] * 3 + [70, 300])
        ops = []
        for _ in range(rng.randint(5, 25 if m < 70 else 8)):
            t = rng.randrange(16)
            s = SIZES[t]
            x = rng.random()
            if x < 0.3:
                if s <= m:
                    at = rng.choice([rng.randint(0, m - s), m - s])
                    ops.append([rng.choice(["w", "wid"]), t, at])
            elif x < 0.42:
                at = rng.randint(0, m)
                c = rng.choice([rng.randint(0, 6), 20, 64, 100, 256]) if m >= 70 else rng.randint(0, 6)
                if s:
                    c = min(c, (m - at) // s)
                ops.append(["ws", t, at, c])
            elif x < 0.6:
                at = rng.randint(0, m)
                a = rng.choice([rng.randint(0, 6), 20, 64, 100, 256]) if m >= 70 else rng.randint(0, 6)
                if s:
                    a = min(a, (m - at) // s)
                ops.append(["wa", t, -1 if a == 0 and rng.random() < .3 else at, a, rng.choice([a, a, a + 1, a + 3, max(0, a - 1), 0])])
            else:
                i = rng.choice([rng.randint(0, m + 2), m - s, m - s + 1, -1, -2, -1 - s, rng.randint(-(1 << 31), (1 << 31) - 1)])
                k = rng.random()
                if k < 0.5:
                    ops.append(["rd", t, i])
                elif k < 0.75:
                    ops.append(["ri", t, i])
                else:
                    i = rng.randint(0, m + 2)
                    ops.append(["rv", t, i, rng.choice([rng.randint(0, 5), 70, 256]) if m >= 70 else rng.randint(0, 5)])
        out.append({"mem": m, "zero": rng.random() < .2, "ops": ops})
    return out


def grow(run, rng):
    """C16: append, preallocate, reserve."""
    out = []
    jobs = [lambda: emit.model(run, "GrowSlab", dict(L=7 if not run.thorough() else 10)),
            lambda: emit.model(run, "GrowSlab", dict(L=4 if not run.thorough() else 6), view="View2", name="2")]
    for _, progs in parallel(jobs):
        rng.shuffle(progs)
        for i, (init, ops) in enumerate(progs[:6000 if not run.thorough() else 40000]):
            out.append({"grow": (i + run.seed) % 4, "init": init[0], "cap": init[1], "ops": ops})
    # a lot at once
    sizes = [100, 257, 300, 520, 1030, 2049] if not run.thorough() else [100, 257, 300, 520, 1030, 2049, 4099, 5000]
    for j, c in enumerate(sizes * 4):
        t = [1, 0, 2, 9, 4, 11, 8, 7][(j + j // len(sizes)) % 8]
        ops = [[rng.choice(["app", "al"]), rng.choice([0, 1, 2])] for _ in range(rng.randint(0, 2))]
        ops += [[rng.choice(["apa", "apa", "ala"]), t, c]]
        if rng.random() < .5:
            ops.insert(rng.randint(0, len(ops)), ["res", 0, rng.choice([c, 3 * c])])
        ops += [["w", 1, rng.randint(0, c)], ["app", 1], ["apa", 1, rng.choice([0, 3, c])]]
        out.append({"grow": rng.randrange(4), "init": rng.choice([0, 3]), "cap": rng.choice([0, 7, 300]), "ops": ops})
    for _ in range(1500 if not run.thorough() else 15000):
        ops = []
        for _ in range(rng.randint(3, 20)):
            t = rng.randrange(16)
            k = rng.choice(["app", "apa", "al", "ala", "exp", "res", "inc", "w", "app", "apa"])
            c = rng.choice([0, 1, 1, 2, 3, 5, 9, 30])
            if k == "res":
                c = rng.choice([0, 1, rng.randint(0, 400), rng.randint(0, 60)])
            ops.append([k, t, c] if k not in ("app", "al") else [k, t])
        out.append({"grow": rng.randrange(4), "init": rng.choice([0, 0, 1, 3, 10]), "cap": rng.choice([0, 0, 1, 2, 7, 50]), "ops": ops})
    return out


def addr(run, rng):
    """C20: ids, arrays, unions."""
    I = 1 << 31
    nums = [0, 1, 2, 3, 5, 31, 255, 256, 65535, 65536, 1 << 24, I - 1, -I, -I + 1, -256, -3, -2, -1]
    q = []
    for a in nums:
        for b in nums:
            q.append({"k": "ids", "q": [a, b, 0]})
    for _ in range(40000 if not run.thorough() else 60000):
        a = rng.choice([rng.choice(nums), rng.randint(-I, I - 1), rng.randint(0, 40)])
        b = rng.choice([a, a, rng.choice(nums), rng.randint(-I, I - 1), max(-I, a - 1), min(I - 1, a + 1)])
        room = (I - 1 - a) if a >= 0 else -1 - a
        k = min(room, rng.choice([0, 1, 2, 3, 7, 100, 1 << 20, I - 1]))
        q.append({"k": "ids", "q": [a, b, k]})
    for t in range(16):
        for l in (0, 1, 2, 3, 4, 7):
            for a in (0, 1, 2, 5, 100, 1 << 20, (1 << 30)):
                q.append({"k": "arr", "q": [t, a, l]})
        q.append({"k": "arr", "q": [t, -1, 0]})
    for _ in range(25000 if not run.thorough() else 60000):
        q.append({"k": "arr", "q": [rng.randrange(16), rng.choice([0, rng.randint(0, 50), rng.randint(0, 4095), rng.randint(0, 1 << 30)]),
                                    rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 40)])]})
    m = 6 if not run.thorough() else 9
    iv = [(a, b - a + 1) for a in range(m) for b in range(a, m)]
    q += [{"k": "union", "q": [a, la, c, lc]} for a, la in iv for c, lc in iv]
    for _ in range(1000):
        q.append({"k": "union", "q": [rng.randint(0, 1 << 29), rng.randint(1, 1 << 20), rng.randint(0, 1 << 29), rng.randint(1, 1 << 20)]})
    rng.shuffle(q)
    return [{"addr": q[i:i + 25]} for i in range(0, len(q), 25)]


def check(run):
    exe = os.path.join(cargo_build("seq", ["--bin", "slab"]), "slab")
    rng = random.Random("slab-%d" % run.seed)
    programs = {"C16": grow, "C17": mem, "C18": codec, "C20": addr}[run.pid](run, rng)
    for i, p in enumerate(programs):
        p["p"] = i + 1
        p["seed"] = run.seed
    run.sample(programs[0])
    run.sample(programs[-1])
    found = check_trace.validate(run, exe, programs, "TraceSlab")
    if any("ERR" in f[3] for f in found):
        raise ToolError("the harness asked for something outside the contract: %s" % [f for f in found if "ERR" in f[3]][:2])
    check_trace.report(run, found, programs, "slab")
