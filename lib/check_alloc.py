"""Sequential allocator properties: programs -> real code -> trace -> TLC against CrabAlloc."""
import json, os
from vutil import *
import emit, gen_alloc, model_alloc, check_trace

# which program profiles a property concentrates on
MIX = {
    "C01": dict(assign=4, open=2, mix=3, arrays=2, handles=2, reuse=2, churn=2),
    "C02": dict(reuse=4, churn=4, mix=3, arrays=2, handles=2),
    "C03": dict(assign=4, open=2, mix=3, buffers=2, churn=2, reuse=2, poke=3),
    "C04": dict(churn=4, open=1, reuse=4, handles=4, mix=2),
    "C05": dict(churn=8, reuse=4, mix=1),
    "C06": dict(buffers=6, mix=2, outlive=2, churn=1),
    "C07": dict(notify=6, open=2, handles=2, mix=2, arrays=1),
    "C08": dict(handles=5, open=4, assign=3, arrays=3, mix=2, outlive=1),
    "C09": dict(arrays=6, mix=2, odd=6),
    "C21": dict(gpuread=6, open=1, poke=2, mix=3, buffers=3, assign=2, arrays=1, reuse=1, churn=1, outlive=1, odd=1, fault=0.5),
    "C22": dict(buffers=5, outlive=5, mix=1),
    "C23": dict(read=8),
    "C24": dict(fault=8),
}

def check(run):
    if run.pid == "C21":
        exe = os.path.join(cargo_build("gpu"), "gpu")
    else:
        exe = os.path.join(cargo_build("seq", ["--bin", "alloc"]), "alloc")
    n, length = (1500, 40) if not run.thorough() else (12000, 60)
    if run.pid in ("C23", "C24") and not run.thorough():
        # these come without programs of the model
        n = 4000
    programs = gen_alloc.programs(run.seed, MIX[run.pid], n, length, large=n // 40)
    names = model_alloc.BY_PROPERTY.get(run.pid, [])
    if run.pid in ("C02", "C04", "C05"):
        # the guarantees suffice wherever an allocation is placed
        for name in ("reuse", "holes"):
            c = dict(model_alloc.consts(name), AnyPlace="TRUE", EMIT="FALSE")
            if not run.thorough():
                c["MaxOps"] -= 1
            r, _ = emit.model(run, "MCCrabAlloc", c, name=name + "-any", timeout=800, workers=4)
            run.count("model_states_%s_any_place" % name, r.distinct)
    model = model_alloc.programs(run, names, 2500 if not run.thorough() else 30000, n + 1)
    if model:
        run.sample({"model program": model[len(model) // 2]})
    programs += model
    run.sample({"program": programs[0]})
    found = check_trace.validate(run, exe, programs, "TraceAlloc")
    check_trace.report(run, found, programs, "alloc")
    batch = 0
    while run.thorough() and not run.violations and run.elapsed() < 500:
        batch += 1
        programs = gen_alloc.programs(run.seed + 1000 * batch, MIX[run.pid], n, length, large=n // 40)
        found = check_trace.validate(run, exe, programs, "TraceAlloc")
        check_trace.report(run, found, programs, "alloc")
