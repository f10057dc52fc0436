"""programs -> driver -> trace -> TLC.  Shared by the checks that validate sequential traces."""
import json, os
from vutil import *


def validate(run, exe, programs, spec, jobs=CORES, timeout=700, env=None):
    """Returns [(program id, event index in its trace, event, ids)]."""
    parts = split_programs(programs, jobs)

    def one(k):
        def job():
            pf, tf = run.path("%s-p%d.ndjson" % (spec, k)), run.path("%s-t%d.ndjson" % (spec, k))
            write_programs(pf, parts[k])
            rc, out = run_driver(exe, pf, tf, timeout=600 if run.thorough() else 150, env=env, memory=3 << 30)
            if rc == -9:
                raise ToolError("driver was killed: " + out[-800:])
            if rc != 0:
                # The code under test brought the process down (an abort, its memory used up) or does not return.
                # What was recorded last is close to the cause.
                with open(tf, "rb") as f:
                    body = f.read().decode("utf-8", "replace")
                lines = [l for l in body.splitlines() if l.startswith("{") and l.endswith("}")]
                resets = [json.loads(l) for l in lines if '"e":"reset"' in l] or [{"p": parts[k][0]["p"]}]
                lines.append(json.dumps({"e": "reset", "p": resets[-1]["p"], "m": [], "gpu": False}, separators=(",", ":")))
                lines.append(json.dumps({"e": "panic", "died": rc, "msg": out[-300:]}, separators=(",", ":")))
                with open(tf, "w") as f:
                    f.write("\n".join(lines) + "\n")
            r = tlc(spec + ".tla", spec + ".cfg", env={"TRACE": tf}, timeout=timeout)
            done = r.prints("DONE")
            viol = [parse_viol(x) for x in r.prints("VIOL")]
            viol = [v for v in viol if v[1]]
            if not any(run.pid in v[1] for v in viol) and (not done or len(set(done[0].split())) != 1):
                raise ToolError("trace validation did not finish: " + r.out[-2500:])
            return tf, r, viol
        return job

    found, total = [], 0
    for tf, r, viol in parallel([one(k) for k in range(len(parts))], jobs):
        run.add_tlc(r)
        lines = open(tf).read().splitlines()
        total += len(lines)
        at = {}
        pid, start = None, 0
        for i, line in enumerate(lines, 1):
            if '"e":"reset"' in line:
                pid = json.loads(line)["p"]
                start = i
            at[i] = (pid, start)
        for l, ids in viol:
            found.append((at[l][0], l - at[l][1], lines[l - 1], ids))
        os.remove(tf)
    run.count("traces_validated_against_impl", len(programs))
    run.count("events_validated", total)
    return found


def report(run, found, programs, driver):
    byid = {p["p"]: p for p in programs}
    mine = [f for f in found if run.pid in f[3]]
    other = sorted({i for f in found for i in f[3]} - {run.pid})
    if other:
        run.notes.append("violations of other properties seen: %s" % other)
    seen = set()
    for p, i, ev, ids in mine:
        if p in seen:
            continue
        seen.add(p)
        run.violation("event %d of program %s: %s" % (i, p, ev[:400]),
                      {"driver": driver, "program": byid.get(p), "event": json.loads(ev)})
        if len(seen) >= 5:
            break
