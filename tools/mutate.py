#!/usr/bin/env python3
"""Mechanical mutants of /repo's sources, in scratch copies: which survive the tests, and which of those the checks.

mutate.py list FILE...            print the mutants
mutate.py run SCRATCH OUT [FILE...]   SCRATCH/repo and SCRATCH/verif are copies (with paths adjusted); resumes OUT
"""
import json, os, re, subprocess, sys

FILES = {
    "crates/craballoc/src/slab.rs": "C06 C05 C07 C22 C24 C21 C13 C10 C12",
    "crates/craballoc/src/value.rs": "C08 C07 C09 C24 C10 C12",
    "crates/craballoc/src/range.rs": "C14 C15 C05 C01",
    "crates/craballoc/src/runtime.rs": "C21 C23 C15 C06",
    "crates/craballoc/src/slab/wgpu_slab.rs": "C21",
    "crates/crabslab/src/slab.rs": "C17 C16 C18",
    "crates/crabslab/src/id.rs": "C20 C18 C17",
    "crates/crabslab/src/array.rs": "C20 C17",
    "crates/crabslab/src/offset.rs": "C20 C18 C19",
    "crates/crabslab/src/impl_slab_item/mod.rs": "C18 C19 C17",
    "crates/crabslab/src/impl_slab_item/primitives.rs": "C18 C17",
    "crates/crabslab/src/impl_slab_item/tuples.rs": "C18",
    "crates/crabslab/src/impl_slab_item/glam.rs": "C18",
    "crates/crabslab-derive/src/lib.rs": "C19",
}
SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "),
    (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"\.min\(", ".max("),
    (r"\.max\(", ".min("), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"if (?!let)([^{]+) \{", "if true {"),
    (r"if (?!let)([^{]+) \{", "if false {"), (r"\.saturating_sub\(", ".wrapping_add("), (r" \+= ", " = "), (r"\.\.=", ".."),
    (r"\.upgrade\(\)", ".upgrade().filter(|_| false)"), (r"strong_count", "weak_count"), (r" \| ", " & "),
    (r"unwrap_or_default\(\)", "unwrap()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.iter\(\)", ".iter().skip(1)"),
    (r"return;", ""), (r"break;", ""), (r"continue;", ""),
]


def code_lines(path):
    lines = open(path).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "log::", "use ", "pub use", "debug_assert", "assert", "mod ", "tracing")):
            continue
        out.append((i, l))
    return lines, out


def mutants(root, f):
    lines, code = code_lines(os.path.join(root, f))
    seen = set()
    for i, l in code:
        body = l.split("//")[0]
        cands = []
        for pat, rep in SUBS:
            for m in re.finditer(pat, body):
                cands.append(body[:m.start()] + re.sub(pat, rep, m.group(0)) + body[m.end():])
        s = body.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "fn ", "pub ")) and s.count("(") == s.count(")") \
                and not s.startswith((")", "}", ".")):
            cands.append(re.match(r"\s*", body).group(0) + ";")
        for c in cands:
            if c != body and (i, c) not in seen:
                seen.add((i, c))
                yield i, l, c


def sh(cmd, cwd, timeout=900, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


SCREEN = """
import os, sys
sys.path.insert(0, %(verif)r + "/lib")
import vutil
from vutil import *
import check_trace, gen_alloc
class R:
    def __init__(s): s.d = os.path.join(BUILD, "screen"); os.makedirs(s.d, exist_ok=True)
    def path(s, n): return os.path.join(s.d, n)
    def add_tlc(s, r): pass
    def count(s, *a): pass
r = R()
for crate, args in (("seq", ["--bin", "alloc"]), ("gpu", [])):
    exe = os.path.join(cargo_build(crate, args), "alloc" if crate == "seq" else "gpu")
    progs = gen_alloc.programs(7, {k: 1 for k in list(gen_alloc.PROFILES) + ["churn"]}, 400, 40, large=8)
    found = check_trace.validate(r, exe, progs, "TraceAlloc", jobs=4)
    if found:
        print("SCREENED", crate, sorted({i for f in found for i in f[3]}))
        sys.exit(1)
"""


def run(scratch, out, files):
    repo, verif = scratch + "/repo", scratch + "/verif"
    done = {}
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done[(r["file"], r["line"], r["new"])] = r
    for f in files:
        path = os.path.join(repo, f)
        sh("git checkout -q -- .", repo)
        orig = open(path).read()
        for i, old, new in list(mutants(repo, f)):
            key = (f, i + 1, new.strip())
            if key in done:
                continue
            lines = orig.split("\n")
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
            env = dict(os.environ, CARGO_NET_OFFLINE="true")
            rc, o = sh("timeout 120 cargo test --workspace --offline --no-run", repo, 400, env)
            if rc != 0:
                rec["result"] = "does not build"
            else:
                rc, o = sh("timeout 60 cargo test --workspace --offline", repo, 100, env)
                if rc != 0:
                    rec["result"] = "tests"
                else:
                    rec["result"], rec["runs"] = "survives", []
                    if f.startswith("crates/craballoc"):
                        rc, o = sh("python3 -c '%s'" % SCREEN.replace("%(verif)r", '"%s"' % verif), verif, 900)
                        if "SCREENED" in o:
                            rec["result"], rec["runs"] = "caught", [o.strip().split("\n")[-1]]
                        elif rc != 0:
                            rec["out"] = o[-600:]
                    for pid in [] if rec["result"] == "caught" else FILES[f].split():
                        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                        rc, o = sh("%s/bin/check %s" % (verif, pid), verif, 900, e)
                        rec["runs"].append("%s:%d" % (pid, rc))
                        if rc == 1:
                            rec["result"] = "caught"
                            break
                        if rc not in (0, 1):
                            rec["out"] = o[-600:]
            with open(out, "a") as fh:
                fh.write(json.dumps(rec) + "\n")
        open(path, "w").write(orig)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or FILES:
            for i, a, b in mutants("/repo", f):
                print("%s:%d\n  - %s\n  + %s" % (f, i + 1, a.strip(), b.strip()))
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4:] or list(FILES))
