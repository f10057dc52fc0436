"""C14 (free ranges) and C15 (merging of queued writes)."""
import json, os, random
from vutil import *
import emit, check_trace

# where signed numbers and numbers as such end
HALF, HIGH = (1 << 31) - 20, (1 << 32) - 1024


def free_programs(run, rng):
    out = []
    big, pair = (8, 6) if not run.thorough() else (10, 8)
    jobs = [lambda: emit.model(run, "RangeVec", dict(N=big), name="a"),
            lambda: emit.model(run, "RangeVec", dict(N=pair), view="View2", name="b")]
    for _, progs in parallel(jobs):
        out += [{"ops": p, "off": 0} for p in progs]
    # long histories over wider numbers
    for _ in range(1500 if not run.thorough() else 20000):
        n = rng.choice([8, 16, 32, 60])
        cuts = sorted(rng.sample(range(1, n), rng.randint(0, min(n - 1, 12))))
        pieces = list(zip([0] + cuts, [c - 1 for c in cuts] + [n - 1]))
        rng.shuffle(pieces)
        ops = []
        for _ in range(rng.randint(5, 50)):
            x = rng.random()
            if pieces and x < 0.35:
                ops.append(list(pieces.pop()))
            elif x < 0.65:
                ops.append([rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 7, 12, 30])])
            else:  # give back (a part of) something that was taken
                ops.append([rng.randrange(64), rng.choice([0, 0, 1, 2]), rng.randrange(2)])
        out.append({"ops": ops, "off": rng.choice([0, 0, 5, 1000, 1 << 20, HALF, HIGH])})
    # many ranges
    for _ in range(40 if not run.thorough() else 400):
        n = rng.choice([80, 150, 300])
        k = rng.choice([1, 2, 3])
        pieces = [(a, a + k - 1) for a in range(0, n, k + rng.randrange(2))]
        how = rng.randrange(3)
        if how == 0:
            rng.shuffle(pieces)
        elif how == 1:
            pieces = pieces[::2] + pieces[1::2]
        else:
            pieces.reverse()
        ops = [[a, b] for a, b in pieces]
        for _ in range(rng.randint(10, 40)):
            ops.insert(rng.randrange(len(ops) // 2, len(ops)), [rng.choice([1, 1, 2, 3, 5, 20, 64, 100])])
        out.append({"ops": ops, "off": rng.choice([0, HIGH])})
    # fill completely in random order, then take everything in pieces
    for _ in range(1500 if not run.thorough() else 20000):
        n = rng.choice([6, 10, 20, 40])
        cuts = sorted(rng.sample(range(1, n), rng.randint(0, min(n - 1, 12))))
        pieces = list(zip([0] + cuts, [c - 1 for c in cuts] + [n - 1]))
        rng.shuffle(pieces)
        if rng.random() < 0.4:
            pieces = pieces[:rng.randint(1, len(pieces))]
        ops = [[a, b] for a, b in pieces]
        ops += [[rng.randint(0, n)] for _ in range(rng.randint(1, 8))]
        out.append({"ops": ops, "off": rng.choice([0, 0, 3, 4096, HALF, HIGH])})
    # single ranges: every pair of intervals over a few numbers
    m = 6 if not run.thorough() else 9
    iv = [(a, b) for a in range(m) for b in range(a, m)]
    iv0 = iv + [(a, a - 1) for a in range(1, m)]
    for o, sc in [(0, 1), (7, 1), (HIGH, 1), (HALF, 1), (0, 1 << 24), (HALF - 3 * (1 << 20), 1 << 20)]:
        out += [{"rng": [a, b, c, d], "off": o, "sc": sc} for a, b in iv0 for c, d in iv]
    return out


def write_programs_(run, rng):
    out = []
    n, d = (5, 4) if not run.thorough() else (6, 4)
    jobs = [lambda: emit.model(run, "WriteVec", dict(N=n, D=d), name="a"),
            lambda: emit.model(run, "WriteVec", dict(N=7, D=3), name="b")]
    for _, progs in parallel(jobs):
        out += [{"wr": p, "off": 0} for p in progs]
    for _ in range(1500 if not run.thorough() else 20000):
        n = rng.choice([8, 16, 40])
        ws = []
        m = rng.choice([1, 2, 4, n])
        for _ in range(rng.randint(3, 25)):
            a = rng.randrange(n)
            ws.append([a, min(rng.randint(1, m), n - a)])
        out.append({"wr": ws, "off": rng.choice([0, 0, 9, 1 << 16, HALF, HIGH])})
    # many writes, long writes
    for _ in range(60 if not run.thorough() else 600):
        n = rng.choice([100, 300])
        m = rng.choice([1, 3, 70, 300])
        out.append({"wr": [[a, min(rng.randint(1, m), n - a)] for a in (rng.randrange(n) for _ in range(rng.choice([40, 80, 150])))],
                    "off": rng.choice([0, 1 << 16, HALF])})
    return out


def check(run):
    exe = os.path.join(cargo_build("seq", ["--bin", "ranges"]), "ranges")
    rng = random.Random("ranges-%d" % run.seed)
    programs = free_programs(run, rng) if run.pid == "C14" else write_programs_(run, rng)
    for i, p in enumerate(programs):
        p["p"] = i + 1
    run.sample(programs[len(programs) // 2])
    run.sample(programs[-1])
    found = check_trace.validate(run, exe, programs, "TraceRanges")
    check_trace.report(run, found, programs, "ranges")
    if run.pid == "C15":
        # the same through the allocator: the writes a commit hands to the runtime
        import check_alloc, gen_alloc
        exe = os.path.join(cargo_build("seq", ["--bin", "alloc"]), "alloc")
        progs = gen_alloc.programs(run.seed, dict(assign=4, arrays=4, mix=2), 500 if not run.thorough() else 6000, 40, large=12)
        f2 = check_trace.validate(run, exe, progs, "TraceAlloc")
        check_trace.report(run, f2, progs, "alloc")
