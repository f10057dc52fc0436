"""Programs enumerated by TLC from a specification: lines printed as "PROG <json>"."""
import json, os
from vutil import *


def cfg(run, module, consts, base=None, view=None, drop=(), name=""):
    """A variant of spec/<base>.cfg with other constants."""
    out = []
    for line in open(os.path.join(SPEC, (base or module) + ".cfg")):
        for k, v in consts.items():
            line = re.sub(r"(\b%s\s*=\s*)\S+" % k, lambda m: m.group(1) + str(v), line)
        if view and line.startswith("VIEW"):
            line = "VIEW %s\n" % view
        if any(line.startswith(d) for d in drop):
            continue
        out.append(line)
    p = run.path("%s%s.cfg" % (module, name))
    with open(p, "w") as f:
        f.write("".join(out))
    return p


def model(run, module, consts=None, base=None, view=None, drop=(), name="", workers=1, timeout=600, args=(), heap="4g"):
    """Check a design model; anything but success is an error of the machinery, not of /repo."""
    c = cfg(run, module, consts or {}, base, view, drop, name)
    r = tlc(module + ".tla", c, workers=workers, timeout=timeout, args=args, heap=heap)
    if not r.ok and "-simulate" not in args:
        raise ToolError("the design model %s does not hold: %s" % (module, r.out[-3000:]))
    run.add_tlc(r)
    progs = []
    for line in r.out.splitlines():
        if line.startswith('"PROG '):
            progs.append(json.loads(json.loads(line)[5:]))
    run.count("model_programs", len(progs))
    return r, progs
