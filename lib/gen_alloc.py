"""Random programs for the allocator driver.  Operations that do not apply are skipped by the driver."""
import random

TYPES = [0, 1, 2, 3, 4, 5, 6]

BASE = dict(new=10, arr=6, clone=4, drop=10, weak=3, weakgpu=1, up=3, gpuonly=2, set=6, mod=3, guard=4, aset=5, amod=3,
            aget=2, aid=1, commit=8, getbuf=1, bclone=1, bdrop=3, bsync=2, defrag=1, ids=2, aclone=0.2, adrop=0.1,
            read=0, fault=0, oob=0.5, empty=0.5, poke=0.7, aread=0, rarr=0, rnull=0, gopen=0.5, gmut=0.8, gclose=1.5, nest=0.4, echo=0.3)

PROFILES = {
    "mix": {},
    "reuse": dict(new=14, arr=8, drop=18, commit=10, clone=1, weak=0.5, up=0.5, gpuonly=0.5, set=2, mod=1, guard=1,
                  aset=2, amod=1, aget=0.2, bsync=1, ids=0.3, getbuf=0.3),
    "handles": dict(clone=12, weak=8, weakgpu=5, up=12, gpuonly=5, drop=14, new=5, arr=3, commit=8, guard=5, mod=5),
    "arrays": dict(arr=12, new=4, aset=14, amod=8, aget=6, aid=4, commit=8, drop=6, gpuonly=3, clone=4, oob=5, empty=4),
    "buffers": dict(commit=14, getbuf=6, bclone=6, bdrop=10, bsync=10, new=10, arr=6, aclone=2, adrop=1.0, drop=5),
    "assign": dict(echo=3, new=5, arr=4, set=14, mod=8, guard=8, aset=14, amod=8, commit=9, drop=3, gpuonly=3, clone=4),
    "notify": dict(ids=14, commit=9, new=6, drop=8, clone=6, set=6, guard=8, up=4, weak=4, aset=6, oob=2, defrag=2),
    "open": dict(gopen=8, gmut=8, gclose=6, nest=8, new=5, arr=4, clone=7, drop=7, set=6, mod=3, guard=2, aset=5, commit=8, up=6,
                 weak=3, ids=2, gpuonly=3),
    "odd": dict(new=5, arr=4, oob=10, empty=12, aset=5, commit=12, drop=12, clone=6, gpuonly=4, guard=2, set=2),
    "read": dict(read=30, commit=8, new=6, arr=6, set=4, aset=4, drop=3, bdrop=0.5, getbuf=2),
    "poke": dict(echo=3, poke=12, commit=9, new=7, arr=5, set=4, aset=5, guard=3, drop=4, gpuonly=2),
    "gpuread": dict(echo=2, read=8, aread=14, rarr=12, rnull=0.6, commit=8, new=6, arr=8, set=4, aset=5, drop=4, empty=2, poke=2),
    "fault": dict(fault=14, commit=9, new=9, arr=6, drop=6, set=6, aset=5, mod=4, guard=4),
    "outlive": dict(adrop=3, aclone=1, new=8, arr=5, set=8, aset=6, guard=4, commit=6, drop=5, bsync=4, bclone=3),
}


def program(rng, profile, length, pid):
    w = dict(BASE)
    w.update(PROFILES[profile])
    # vary the mix from program to program
    for k in w:
        if w[k] and rng.random() < 0.25:
            w[k] *= rng.choice([0, 0.3, 3])
    w["new"] += 0.5
    w["commit"] += 0.5
    names, weights = list(w), list(w.values())
    w["direct"] = rng.choice([0, 0.5, 1, 3])
    types = rng.sample(TYPES, rng.randint(1, len(TYPES)))
    if profile == "reuse":
        types = rng.sample([1, 2, 3, 4], rng.randint(1, 4))
    if profile == "odd" and 0 not in types:
        types.append(0)
    if profile == "fault":
        types = types + [7] * max(2, len(types))
    elif rng.random() < 0.05:
        types.append(7)
    if all(t == 0 for t in types):
        types.append(1)
    maxlen = rng.choice([2, 3, 3, 5, 9])
    ops, val, nh, nb = [], 0, 0, 0
    # what we believe exists: handle -> (kind, arr, len)
    hs, bs, nalloc = {}, set(), 1
    limit_h = rng.choice([4, 8, 14])
    limit_b = rng.choice([1, 3, 6])

    def pick(pred):
        c = [h for h, x in hs.items() if pred(x)]
        return rng.choice(c) if c else None

    def fresh():
        nonlocal nh
        nh += 1
        return nh

    # values come again, and some have all bits clear or set
    again = rng.choice([0, 0, 0.1, 0.4])

    def v():
        nonlocal val
        if rng.random() < again:
            return rng.choice([-1, -1, -2, val, max(1, val - rng.randint(0, 5))])
        val += 1
        return val

    guards = []
    nest = None    # a call whose closure makes the calls from here on
    INSIDE = {"fmod", "fguard", "famod", "faset", "fset", "fnew", "fiter", "fclone", "modn", "amodn", "adrop"}
    while len(ops) < length:
        if nest and len(ops) - nest[2] >= nest[3]:
            call, h, at, _ = nest
            inner = [o for o in ops[at:] if o[0] not in INSIDE and (o[0] not in ("drop", "gpuonly") or o[1] != h)]
            later = [o for o in ops[at:] if o[0] in ("drop", "gpuonly") and o[1] == h]
            ops[at:] = [call + [inner]] + later
            nest = None
        op = rng.choices(names, weights)[0]
        if op in ("new", "arr", "clone", "up", "weak", "weakgpu", "empty") and len(hs) >= limit_h:
            op = "drop"
        if op == "new":
            h = fresh()
            g = rng.random() < w["direct"] * 0.1
            ops.append(["newg" if g else "new", h, rng.choice(types), v()])
            hs[h] = ("gpu" if g else "cpu", False, 1)
        elif op in ("arr", "empty"):
            h = fresh()
            n = 0 if op == "empty" and rng.random() < 0.6 else rng.randint(0 if rng.random() < 0.1 else 1, maxlen)
            t = 0 if op == "empty" and rng.random() < 0.5 else rng.choice(types)
            g = rng.random() < w["direct"] * 0.1
            ops.append(["arrg" if g else "arr", h, t, [v() for _ in range(n)]])
            hs[h] = ("gpu" if g else "cpu", True, n)
        elif op == "clone":
            h = pick(lambda x: True)
            if h is None: continue
            h2 = fresh(); ops.append(["clone", h, h2]); hs[h2] = hs[h]
        elif op == "drop":
            h = pick(lambda x: True)
            if h is None: continue
            ops.append(["drop", h]); del hs[h]
        elif op == "weak":
            h = pick(lambda x: not x[1] and x[0] in ("cpu", "gpu"))
            if h is None: continue
            h2 = fresh(); ops.append(["weak", h, h2]); hs[h2] = ("w" + hs[h][0], False, 1)
        elif op == "weakgpu":
            h = pick(lambda x: x[0] == "wcpu")
            if h is None: continue
            h2 = fresh(); ops.append(["weakgpu", h, h2]); hs[h2] = ("wgpu", False, 1)
        elif op == "up":
            h = pick(lambda x: x[0] in ("wcpu", "wgpu"))
            if h is None: continue
            h2 = fresh(); ops.append(["up", h, h2]); hs[h2] = (hs[h][0][1:], False, 1)
        elif op == "gpuonly":
            h = pick(lambda x: x[0] == "cpu")
            if h is None: continue
            ops.append(["gpuonly", h]); hs[h] = ("gpu",) + hs[h][1:]
        elif op == "set":
            h = pick(lambda x: x[0] in ("cpu", "gpu") and not x[1])
            if h is None: continue
            ops.append(["set", h, v()])
        elif op == "mod":
            h = pick(lambda x: x[0] == "cpu" and not x[1])
            if h is None: continue
            ops.append(["mod", h, v()])
        elif op == "gopen" and len(guards) < 3:
            h = pick(lambda x: x[0] == "cpu" and not x[1])
            if h is None: continue
            ops.append(["gopen", h]); guards.append(h)
        elif op == "gmut" and guards:
            ops.append(["gmut", rng.choice(guards), v()])
        elif op == "gclose" and guards:
            ops.append(["gclose", guards.pop(rng.randrange(len(guards)))])
        elif op == "nest" and not nest:
            h = pick(lambda x: x[0] == "cpu")
            if h is None: continue
            call = ["amodn", h, rng.randrange(hs[h][2] + (rng.random() < 0.1)), v()] if hs[h][1] and hs[h][2] else ["modn", h, v()]
            if hs[h][1] and not hs[h][2]: continue
            nest = (call, h, len(ops), rng.randint(1, 5))
        elif op == "guard":
            h = pick(lambda x: x[0] == "cpu" and not x[1])
            if h is None: continue
            ops.append(["guard", h, int(rng.random() < 0.6), v()])
        elif op in ("aset", "amod", "aget", "aid", "oob"):
            h = pick(lambda x: x[1])
            if h is None: continue
            n = hs[h][2]
            i = rng.randrange(n) if n and op != "oob" else n + rng.choice([0, 0, 1, 2, 7, 100])
            if op == "oob":
                op = rng.choice(["aset", "aset", "amod", "aget", "aid"])
            ops.append([op, h, i] + ([v()] if op in ("aset", "amod") else []))
        elif op == "commit":
            if len(bs) >= limit_b:
                b = rng.choice(sorted(bs)); ops.append(["bdrop", b]); bs.discard(b)
            nb += 1; ops.append(["commit", nb]); bs.add(nb)
            if rng.random() < 0.15:
                nb += 1; ops.append(["commit", nb]); bs.add(nb)
        elif op == "getbuf":
            nb += 1; ops.append(["getbuf", nb]); bs.add(nb)
        elif op == "bclone" and bs:
            nb += 1; ops.append(["bclone", rng.choice(sorted(bs)), nb]); bs.add(nb)
        elif op == "bdrop" and bs:
            b = rng.choice(sorted(bs)); ops.append(["bdrop", b]); bs.discard(b)
        elif op == "bsync" and bs:
            ops.append(["bsync", rng.choice(sorted(bs))])
        elif op in ("defrag", "ids"):
            ops.append([op])
        elif op == "aclone" and nalloc < 4:
            nalloc += 1; ops.append([op])
        elif op == "adrop" and (nalloc > 1 or (profile in ("outlive", "buffers") and len(ops) > length // 2)):
            nalloc -= 1; ops.append([op])
        elif op == "read" and bs:
            ops.append(["read", rng.choice(sorted(bs)), rng.randrange(9), rng.choice([0, 0, 1, 2, 3, 5, 8, 13]), rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 16, 99])])
        elif op == "aread":
            ops.append(["aread", 0, rng.randrange(9), rng.choice([0, 0, 1, 2, 3, 5, 8, 13]), rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 16, 99])])
        elif op == "rarr":
            h = pick(lambda x: x[1])
            if h is None: continue
            ops.append(["rarr", h])
        elif op == "rnull":
            ops.append(["rnull", 0, rng.choice(types)])
        elif op == "poke":
            h = pick(lambda x: x[0] in ("cpu", "gpu"))
            if h is None: continue
            ops.append(["poke", h, rng.randrange(max(1, 2 * hs[h][2])), abs(v()) + 7000000])
        elif op == "echo":
            # the same value again, after something else got there
            h = pick(lambda x: x[0] == "cpu" and (not x[1] or x[2]))
            if h is None: continue
            i, x = rng.randrange(hs[h][2]), v()
            same = [rng.choice(["aset", "aset", "amod"]), h, i, x] if hs[h][1] else rng.choice([["set", h, x], ["mod", h, x], ["guard", h, 1, x]])
            def maybe_commit():
                nonlocal nb
                if rng.random() < 0.6:
                    nb += 1
                    ops.extend([["commit", nb], ["bdrop", nb]])
            ops.append(same)
            maybe_commit()
            if rng.random() < 0.6:
                h2 = fresh()
                ops += [["clone", h, h2], ["gpuonly", h2], ["aset", h2, i, v()] if hs[h][1] else ["set", h2, v()]]
                hs[h2] = ("gpu",) + hs[h][1:]
            else:
                ops.append(["poke", h, i, abs(v()) + 7000000])
            maybe_commit()
            ops.append(list(same))
        elif op == "fault":
            k = rng.choice(["fmod", "fguard", "fset", "famod", "faset", "fnew", "fiter", "fclone", "fset", "faset"])
            if k == "fnew":
                ops.append([k, fresh(), v(), rng.randrange(2), rng.choice([-1, -1, 1, 2, 3])])
            elif k == "fiter":
                ops.append([k, 0, rng.randrange(3)])
            else:
                arr = k in ("famod", "faset")
                h = pick(lambda x: x[0] in ("cpu", "gpu") and x[1] == arr)
                if h is None: continue
                if k == "fmod": ops.append([k, h, v()])
                elif k == "fguard": ops.append([k, h, rng.randrange(2), v()])
                elif k == "fset": ops.append([k, h, v(), rng.randrange(2)])
                elif k == "fclone": ops.append([k, h])
                else: ops.append([k, h, rng.randrange(max(1, hs[h][2])), v()])
        if nalloc == 0 and rng.random() < 0.2:
            break
    if nest:
        call, h, at, _ = nest
        ops[at:] = [call + [[o for o in ops[at:] if o[0] not in INSIDE and (o[0] not in ("drop", "gpuonly") or o[1] != h)]]]
    if rng.random() < 0.8:
        ops += [["gclose", h] for h in guards]
    # what every program ends with: the handles go in some order, with commits in between
    if nalloc > 0 and rng.random() < 0.7:
        order = list(hs)
        rng.shuffle(order)
        for h in order:
            ops.append(["drop", h])
            if rng.random() < 0.2:
                nb += 1; ops.append(["commit", nb])
        nb += 1; ops.append(["commit", nb])
        # everything is free now: one allocation of everything must fit
        if rng.random() < 0.7:
            for t, n in [(1, rng.choice([1, 2, 3, 4, 6, 8])), (rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3]))]:
                ops.append(["arr", fresh(), t, [v() for _ in range(n)]])
            nb += 1; ops.append(["commit", nb])
    return {"p": pid, "ops": ops}


def churn(rng, pid):
    """Fill, free a random part in random order, and ask for exactly the runs that must exist."""
    ops, v, nh, nb = [], 0, 0, 0
    sizes = {1: 1, 2: 2, 3: 3, 4: 4}
    types = rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2, 4]))
    live = []
    grow_first = rng.random() < 0.5
    n = rng.randint(3, 14)
    for _ in range(rng.randint(1, 4)):
        for _ in range(n):
            nh += 1
            if rng.random() < 0.3:
                k = rng.randint(1, 3)
                t = rng.choice(types)
                ops.append(["arr", nh, t, [v + i + 1 for i in range(k)]])
                v += k
                live.append((nh, sizes[t] * k))
            else:
                v += 1
                t = rng.choice(types)
                ops.append(["new", nh, t, v])
                live.append((nh, sizes[t]))
            if rng.random() < 0.05:
                nb += 1
                ops.append(["commit", nb])
        if grow_first or rng.random() < 0.5:
            nb += 1
            ops += [["commit", nb], ["bdrop", nb]]
        mode = rng.randrange(4)
        k = rng.randint(1, len(live))
        if mode == 0:      # a contiguous group, any order
            i = rng.randint(0, len(live) - k)
            gone = live[i:i + k]
            rng.shuffle(gone)
        elif mode == 1:    # every other one first, then the rest
            gone = live[::2] + live[1::2]
            gone = gone[:k]
        elif mode == 2:
            gone = rng.sample(live, k)
        else:
            gone = list(reversed(live))[:k]
        for h in gone:
            ops.append(["drop", h[0]])
            live.remove(h)
            if rng.random() < 0.12:
                nb += 1
                ops += [["commit", nb], ["bdrop", nb]]
        nb += 1
        ops += [["commit", nb], ["bdrop", nb]]
        if rng.random() < 0.2:
            ops.append(["defrag"])
        # the freed total in one piece, then pieces of it
        total = sum(h[1] for h in gone)
        for want in ([total] if rng.random() < 0.7 else []) + [rng.randint(1, total) for _ in range(2)]:
            nh += 1
            ops.append(["arr", nh, 1, [v + i + 1 for i in range(want)]])
            v += want
            live.append((nh, want))
            if rng.random() < 0.5:
                live.pop()
                nb += 1
                ops += [["drop", nh], ["commit", nb], ["bdrop", nb]]
        n = rng.randint(0 if live else 1, 6)
    for h, _ in live:
        if rng.random() < 0.4:
            v += 1
            ops.append(["set", h, v])
    nb += 1
    ops.append(["commit", nb])
    return {"p": pid, "ops": ops}


def big(rng, pid, kind=None, n=None):
    """A lot of one thing: values, clones, commits, queued writes, or one long array."""
    ops, v, nh, nb = [], 0, 0, 0
    kind = kind or rng.choice(["values", "long", "clones", "commits", "queue", "weaks", "frag"])
    n = n or rng.choice([20, 40, 70, 140, 270])

    again = rng.choice([0, 0, 0.1, 0.4])

    def val():
        nonlocal v
        if rng.random() < again:
            return rng.choice([-1, -2, max(1, v)])
        v += 1
        return v

    def new(t):
        nonlocal nh
        nh += 1
        ops.append(["new", nh, t, val()])
        return nh

    def arr(t, k):
        nonlocal nh
        nh += 1
        ops.append(["arr", nh, t, [val() for _ in range(k)]])
        return nh

    def commit(keep=False):
        nonlocal nb
        nb += 1
        ops.append(["commit", nb])
        if not keep:
            ops.append(["bdrop", nb])
        return nb

    edge = [x + d for x in (0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256) for d in (0, 1)]

    def index(k):
        return rng.choice([rng.randrange(k), min(k - 1, rng.choice(edge)), k - 1, 0])

    sizes = {1: 1, 2: 2, 3: 3, 4: 4, 5: 3, 6: 3, 8: 16}
    types = rng.sample(list(sizes), rng.choice([1, 2, 4]))
    if kind == "values":
        live = [new(rng.choice(types)) for _ in range(n)]
        commit()
        for h in rng.sample(live, rng.randint(1, n)):
            ops.append(["set", h, val()])
        if rng.random() < 0.5:
            commit()
        for _ in range(2):
            gone = rng.sample(live, rng.randint(1, max(1, len(live) - 1)))
            if rng.random() < 0.5:
                gone = gone[0:0] + live[:len(gone)]
            for h in gone:
                ops.append(["drop", h])
                live.remove(h)
            commit()
            for _ in range(rng.randint(1, 4)):
                live.append(arr(rng.choice(types), rng.randint(1, max(1, len(gone)))))
                if rng.random() < 0.3:
                    commit()
            live += [new(rng.choice(types)) for _ in range(rng.randint(1, n // 4 + 1))]
            if not live:
                break
    elif kind == "frag":
        # many fragments too small for a request, the ones that fit among or behind them
        keep, gone, wants = [], [], []
        behind = rng.random() < 0.5
        cut = set(rng.sample(range(n), min(n, rng.randint(1, 6))))
        for i in range(n):
            if i in cut and not behind:
                wants.append(rng.randint(4, 12))
                gone.append(arr(1, wants[-1]))
                keep.append(new(1))
            gone.append(new(rng.choice([1, 1, 2, 3])))
            keep.append(new(1))
        if behind:
            for _ in cut:
                wants.append(rng.randint(4, 12))
                gone.append(arr(1, wants[-1]))
                keep.append(new(1))
        commit()
        if rng.random() < 0.5:
            rng.shuffle(gone)
        for h in gone:
            ops.append(["drop", h])
        commit()
        rng.shuffle(wants)
        for k in wants:
            arr(1, rng.randint(4, k) if rng.random() < 0.3 else k)
        for _ in range(rng.randint(1, 10)):
            new(rng.choice([1, 2, 3]))
        # two neighbours of a fragment go as well: one longer run
        for _ in range(3):
            i = rng.randrange(len(keep))
            if keep[i]:
                ops.append(["drop", keep[i]])
                keep[i] = 0
                commit()
                arr(1, rng.randint(2, 5))
        for h in keep:
            if h and rng.random() < 0.2:
                ops.append(["set", h, val()])
    elif kind == "long":
        t = rng.choice(types)
        if t == 8:
            n = min(n, 70)
        if rng.random() < 0.5:
            new(rng.choice(types))
        a = arr(t, n)
        if rng.random() < 0.5:
            ops.append(["gpuonly", a])
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.8:
                commit(True)
            at = index(n)
            for d in range(rng.choice([1, 1, 2, 5, 40] if n < 1000 else [1, 2, 5])):
                i = at + d if rng.random() < 0.7 else index(n)
                ops.append([rng.choice(["aset", "aset", "amod"]), a, i, val()])
            if rng.random() < 0.3:
                ops.append(["aset", a, rng.choice([n, n + 1, 2 * n, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + n - 1, 1 << 62]), val()])
            if rng.random() < 0.3:
                ops.append(["aget", a, index(n)])
            if rng.random() < 0.3:
                ops.append(["aid", a, rng.choice([index(n), n, 1 << 32, (1 << 32) + 1, 1 << 40])])
            if rng.random() < 0.3:
                new(rng.choice(types))
    elif kind in ("clones", "weaks"):
        a = arr(rng.choice(types), rng.randint(1, 3)) if kind == "clones" and rng.random() < 0.4 else new(rng.choice(types))
        hs = [a]
        if rng.random() < 0.5:
            commit()
        for i in range(n):
            nh += 1
            ops.append(["clone", rng.choice(hs), nh] if kind == "clones" or i % 2 else ["weak", rng.choice(hs), nh])
            if kind == "clones" or i % 2:
                hs.append(nh)
            else:
                w = nh
                nh += 1
                ops.append(["up", w, nh])
                hs.append(nh)
            if rng.random() < 0.02:
                commit()
            if rng.random() < 0.1:
                ops.append(["gpuonly", hs[-1]])
        rng.shuffle(hs)
        if rng.random() < 0.7:
            hs.remove(a)
            hs.append(a)
        for h in hs:
            if rng.random() < 0.02:
                commit()
            if rng.random() < 0.05:
                ops.append(["set", h, val()])
            ops.append(["drop", h])
        commit()
        arr(1, rng.randint(1, 4))
    elif kind == "commits":
        live, held = [new(rng.choice(types))], []
        for i in range(n // 2):
            k = rng.random()
            if k < 0.25:
                live.append(new(rng.choice(types)) if rng.random() < 0.7 else arr(rng.choice(types), rng.randint(1, 9)))
            elif k < 0.6:
                ops.append(["set", rng.choice(live), val()])
            elif k < 0.75 and len(live) > 1:
                h = live.pop(rng.randrange(len(live)))
                ops.append(["drop", h])
            keep = rng.random() < 0.2
            b = commit(keep)
            if keep:
                held.append(b)
            if held and rng.random() < 0.15:
                ops.append(["bsync", rng.choice(held)])
        for b in held:
            ops.append([rng.choice(["bsync", "bdrop"]), b])
    elif kind == "huge":
        # slots beyond 2^16, in items of 16 slots
        if rng.random() < 0.7:
            new(1)
        a = arr(8, n)
        if rng.random() < 0.5:
            commit(True)
        small = [new(rng.choice(types)) if rng.random() < 0.6 else arr(rng.choice(types), rng.randint(1, 5)) for _ in range(6)]
        commit(True)
        for i in (0, 4094, 4095, 4096, n - 1, n):
            ops.append(["aset", a, i, val()])
            ops.append(["aid", a, i])
        for h in small:
            ops.append(["set", h, val()])
            ops.append(["aset", h, 0, val()])
        commit(True)
        rng.shuffle(small)
        for h in small[:3] + ([a] if rng.random() < 0.5 else []):
            ops.append(["drop", h])
        commit()
        for _ in range(3):
            small.append(arr(rng.choice(types), rng.randint(1, 3)))
        commit()
    else:
        t = rng.choice(types)
        k = rng.choice([3, 9, 30])
        a, b = arr(t, k), new(t)
        c = [new(rng.choice(types)) for _ in range(3)]
        # what changes only once much else is queued
        late = [new(rng.choice(types)) for _ in range(2)]
        if n >= 1000 or rng.random() < 0.6:
            commit()
        for _ in range(n):
            x = rng.random()
            if x < 0.6:
                ops.append(["aset", a, rng.randrange(k), val()])
            elif x < 0.8:
                ops.append(["set", b, val()])
            else:
                ops.append([rng.choice(["set", "mod"]), rng.choice(c), val()])
            if rng.random() < 0.01 and n < 1000:
                commit()
        ops += [["set", late[0], val()], ["drop", late[1]]]
        new(rng.choice(types))
        if rng.random() < 0.8:
            ops.append(["ids"])
        commit()
        arr(types[0], 2)
    commit()
    for h in rng.sample(range(1, nh + 1), nh):
        ops.append(["drop", h])
        if rng.random() < 0.01:
            commit()
    commit()
    arr(1, rng.choice([1, 5, n if n < 3000 else 5]))
    commit(True)
    return {"p": pid, "ops": ops, "every": 10 ** 6 if n >= 1000 else rng.choice([1000, 1000, 37, 11]) if n > 40 else rng.choice([1, 5, 1000])}


def programs(seed, mix, count, length, start=1, large=0):
    """mix: {profile: weight}"""
    rng = random.Random("alloc-%d-%s" % (seed, sorted(mix.items())))
    names, ws = list(mix), list(mix.values())
    res = []
    for i in range(count):
        if i < large:
            kind = {0: ("queue", 3000), 1: ("long", 4500), 2: ("queue", 1200), 3: ("frag", 140), 4: ("frag", 70), 5: ("commits", 700),
                    6: ("huge", 4150)}.get(i, (None, None))
            res.append(big(rng, start + i, *kind))
            continue
        prof = rng.choices(names, ws)[0]
        if prof == "churn":
            res.append(churn(rng, start + i))
        else:
            res.append(program(rng, prof, rng.choice([length // 2, length, length, 2 * length]), start + i))
        if rng.random() < 0.35:
            res[-1]["every"] = rng.choice([2, 3, 5, 1000, 1000])
    return res
