"""The design model MCCrabAlloc: checked exhaustively within bounds, and every transition a program for the real code."""
import random
from vutil import *
import emit

# name: (operations, item types, array lengths, handles, buffer handles, objects, calls)
PROFILES = {
    "refs": ("new newg clone drop weak weakgpu up gpuonly set commit", [1], [], 4, 0, 1, 8),
    "reuse": ("new arr drop commit", [1, 2], [3], 4, 0, 5, 6),
    "holes": ("new arr drop commit defrag", [1], [2, 3], 4, 0, 6, 7),
    "array": ("arr arrg clone drop gpuonly aset amod commit", [2], [2], 2, 0, 2, 7),
    "growth": ("new arr newg set aset commit drop", [1, 3], [4], 3, 0, 3, 6),
    "buffers": ("new commit getbuf bclone bdrop bsync", [3], [], 3, 3, 3, 8),
    "outlive": ("new commit set drop bdrop bsync aclone adrop", [3], [], 2, 2, 2, 7),
    "notify": ("new newg set guard clone drop gpuonly ids commit", [1], [], 2, 0, 2, 7),
    "values": ("new set mod guard gpuonly clone commit", [2], [], 2, 0, 1, 8),
    "empty": ("new newg arr arrg clone drop aset gpuonly commit", [0, 1], [0, 2], 3, 0, 3, 5),
    "gpu": ("new arrg set aset poke commit drop", [2], [2], 2, 0, 3, 7),
}
# how many calls more a thorough run explores
DEEPER = {"refs": 1, "array": 2, "growth": 1, "buffers": 2, "outlive": 1, "notify": 2, "values": 2, "gpu": 1}

BY_PROPERTY = {
    "C01": ["values", "array", "growth", "refs"],
    "C02": ["reuse", "growth", "array"],
    "C03": ["gpu", "growth", "array"],
    "C04": ["refs", "reuse", "empty"],
    "C05": ["holes", "reuse"],
    "C06": ["buffers", "growth", "outlive"],
    "C07": ["notify", "refs", "array"],
    "C08": ["refs", "values", "array"],
    "C09": ["empty", "array"],
    "C15": ["array", "growth"],
    "C21": ["growth", "gpu", "buffers", "array"],
    "C22": ["outlive", "buffers"],
}


def consts(name, deeper=0):
    ops, items, lens, h, b, o, n = PROFILES[name]
    ops = ops.split()
    return dict(Ops="{%s}" % ",".join('"%s"' % x for x in ops), Items="{%s}" % ",".join(map(str, items)),
                Lens="{%s}" % ",".join(map(str, lens)), MaxH=h, MaxB=b, MaxObj=o, MaxOps=n + deeper)


def programs(run, names, limit, start):
    """Every transition of the named profiles, as programs; prefixes of others are left out."""
    rng = random.Random("model-%d" % run.seed)

    def one(name):
        def job():
            r, progs = emit.model(run, "MCCrabAlloc", consts(name, DEEPER.get(name, 0) if run.thorough() else 0), name=name,
                                  timeout=800)
            return name, r, progs
        return job

    out = []
    for name, r, progs in parallel([one(n) for n in names], 4):
        full = {}
        for p in progs:
            full[repr(p)[:-1]] = p
        pre = set()
        for p in progs:
            pre.add(repr(p[:-1])[:-1])
        progs = [p for k, p in full.items() if k not in pre]
        run.count("model_states_" + name, r.distinct)
        if len(progs) > limit:
            run.count("model_programs_skipped", len(progs) - limit)
            progs = rng.sample(progs, limit)
        for p in progs:
            out.append({"p": start + len(out), "ops": finish(rng, p), "every": rng.choice([1, 1, 1, 3, 1000])})
    return out


def finish(rng, ops):
    """What every program ends with: one more commit, everything dropped in some order, one more allocation."""
    hs, nb = [], 1000
    for op in ops:
        if op[0] in ("new", "arr", "newg", "arrg"):
            hs.append(op[1])
        elif op[0] in ("clone", "weak", "weakgpu", "up"):
            hs.append(op[2])
        elif op[0] == "drop":
            if op[1] in hs:
                hs.remove(op[1])
    ops = [list(op) for op in ops]
    if rng.random() < 0.3:
        # values of which all bits are clear or set, and values that come again
        for op in ops:
            if op[0] in ("new", "newg", "set", "mod", "guard", "aset", "amod") and rng.random() < 0.5:
                op[-1] = rng.choice([-1, -1, -2, 10])
    if rng.random() < 0.7:
        ops.append(["commit", nb])
    hs = sorted(set(hs))
    rng.shuffle(hs)
    ops += [["drop", h] for h in hs]
    ops += [["commit", nb + 1], ["arr", 1000, 1, [5, 6, 7]], ["commit", nb + 2]]
    return ops
