#!/usr/bin/env python3
"""Planted bugs.

plant.py new DEFS.py        write /verif/seeded/<id>/ from definitions and confirm each of them
plant.py confirm ID...      confirm existing ones in a scratch copy of /repo
plant.py check ID...        apply each to /repo, run the check of its property, undo
                            (with --all-checks: run every check)

A definition is a dict: id, property, edits [(file, old, new)], demo (main.rs), needs, breaks.
"""
import json, os, runpy, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/plant"
COPY = SCRATCH + "/repo"
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
craballoc = { path = "$repo/crates/craballoc", default-features = false }
crabslab = { path = "$repo/crates/crabslab" }
glam = "0.29"
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 2
timeout 120 "$d/target/debug/demo"
'''

# the same, against a stand-in for wgpu (vwgpu.rs, beside it)
GPU_DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src" "$d/vwgpu/src" "$d/calloc"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/vwgpu.rs" "$d/vwgpu/src/lib.rs"
cat > "$d/vwgpu/Cargo.toml" <<EOF
[package]
name = "vwgpu"
version = "24.0.5"
edition = "2021"
[dependencies]
wgpu-types = "24"
EOF
cat > "$d/calloc/Cargo.toml" <<EOF
[package]
name = "craballoc"
version = "0.1.11"
edition = "2021"
[lib]
path = "$repo/crates/craballoc/src/lib.rs"
doctest = false
[features]
default = ["wgpu"]
wgpu = ["dep:wgpu"]
[dependencies]
async-channel = "1.8"
bytemuck = { version = "1.13.0", features = ["derive"] }
log = "0.4"
rustc-hash = "1.1"
snafu = "0.8"
tracing = "0.1.41"
wgpu = { package = "vwgpu", path = "../vwgpu", optional = true }
crabslab = { path = "$repo/crates/crabslab" }
EOF
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
craballoc = { path = "calloc" }
crabslab = { path = "$repo/crates/crabslab" }
wgpu = { package = "vwgpu", path = "vwgpu" }
[workspace]
members = [".", "vwgpu", "calloc"]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 2
timeout 60 "$d/target/debug/demo"
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=env)


def fresh():
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.isdir(COPY):
        r = sh("cp -a /repo " + COPY)
        assert r.returncode == 0, r.stdout
    r = sh("git checkout -q --detach && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", COPY)
    assert r.returncode == 0, r.stdout


def tests(out):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = sh("timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", COPY, env=env)
    bad = [l for l in r.stdout.splitlines() if l.startswith("test result") and "FAILED" in l]
    return r.returncode == 0, r.stdout


def confirm(sid):
    d = os.path.join(SEEDED, sid)
    fresh()
    r = sh("bash %s/demo.sh" % d, COPY)
    if r.returncode != 0:
        return "demo fails on the unchanged tree (%d): %s" % (r.returncode, r.stdout[-1500:])
    r = sh("git apply %s/patch.diff" % d, COPY)
    if r.returncode != 0:
        return "patch does not apply: " + r.stdout
    ok, out = tests(sid)
    if not ok:
        return "tests fail: " + "\n".join(l for l in out.splitlines() if "FAILED" in l or "panicked" in l or "error" in l)[:800]
    t0 = time.time()
    r = sh("bash %s/demo.sh" % d, COPY)
    print("   demo with patch: rc=%d %.0fs %s" % (r.returncode, time.time() - t0, r.stdout.strip()[-160:].replace("\n", " | ")))
    if r.returncode == 0:
        return "demo passes with the patch"
    if r.returncode == 2:
        return "demo does not build: " + r.stdout[-1500:]
    sh("git checkout -q -- .", COPY)
    return None


def new(defs):
    for s in defs:
        sid = s["id"]
        d = os.path.join(SEEDED, sid)
        fresh()
        bad = None
        for f, old, new_ in s["edits"]:
            p = os.path.join(COPY, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, t.count(old), old[:80])
                break
            open(p, "w").write(t.replace(old, new_))
        if bad:
            print(sid, "BAD EDIT", bad)
            continue
        diff = sh("git diff", COPY).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(s["demo"].lstrip("\n"))
        demo = DEMO
        if s.get("gpu"):
            demo = GPU_DEMO
            shutil.copy(VERIF + "/harness/gpu/vwgpu/src/lib.rs", d + "/vwgpu.rs")
        if s.get("demo_dep"):
            demo = demo.replace('glam = "0.29"', 'glam = "0.29"\n%s = "*"' % s["demo_dep"])
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        e = confirm(sid)
        if e:
            print(sid, "NOT CONFIRMED:", e)
            shutil.rmtree(d)
        else:
            print(sid, "confirmed", flush=True)


def check(ids, all_checks=False, seed=None):
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    every = [c["property"] if "property" in c else c["id"] for c in man.get("checks", man.get("properties", []))]
    for sid in ids:
        d = os.path.join(SEEDED, sid)
        meta = json.load(open(d + "/meta.json"))
        assert sh("git status --porcelain", "/repo").stdout == "", "/repo is not clean"
        r = sh("git apply %s/patch.diff" % d, "/repo")
        assert r.returncode == 0, r.stdout
        res = []
        try:
            for pid in (every if all_checks else [meta["property"]]):
                t0 = time.time()
                env = dict(os.environ, VERIF_SEED=seed or "1", VERIF_TIER="quick")
                r = sh("%s/bin/check %s" % (VERIF, pid), VERIF, timeout=1200, env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % pid)]
                res.append("%s:%s(%d, %.0fs)" % (pid, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR",
                                                r.returncode, time.time() - t0))
                if r.returncode not in (0, 1):
                    res.append(r.stdout[-1500:])
        finally:
            sh("git checkout -q -- .", "/repo")
        print(sid, " ".join(res), flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        defs = runpy.run_path(a[1])["SEEDS"]
        if len(a) > 2:
            defs = [s for s in defs if s["id"] in a[2:]]
        new(defs)
    elif a[0] == "confirm":
        for s in a[1:] or sorted(os.listdir(SEEDED)):
            print(s, confirm(s) or "confirmed", flush=True)
    elif a[0] == "check":
        rest = [x for x in a[1:] if not x.startswith("--")]
        check(rest or sorted(os.listdir(SEEDED)), "--all-checks" in a)
