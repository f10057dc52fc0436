"""C19: derived items.  Random type definitions, built against the real derive macro and exercised."""
import os, random, shutil
from vutil import *
import check_trace, gen_derive

TOML = """[package]
name = "derive_corpus"
version = "0.1.0"
edition = "2021"
[dependencies]
crabslab = { path = "%s/crates/crabslab" }
serde_json = "1"
glam = "0.29"
[profile.dev]
opt-level = 0
debug = 0
[workspace]
"""


def build(seed, modules, per):
    """The generated crate of one seed."""
    d = os.path.join(BUILD, "derive-%d-%d-%d" % (seed, modules, per))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(TOML % REPO)
    shutil.copy(os.path.join(VERIF, "harness", "seq", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(gen_derive.source(seed, modules, per, VERIF))
    return os.path.join(cargo_build(d, name="derive"), "derive_corpus")


def check(run):
    # what everything else needs must build, or this is not about derived items
    cargo_build("seq", ["--bin", "slab"])
    rounds = [(run.seed, 8, 24)]
    if run.thorough():
        rounds += [(1000 * run.seed + i, 8, 16) for i in range(1, 9)]
    for seed, modules, per in rounds:
        try:
            exe = build(seed, modules, per)
        except BuildFailed as e:
            run.violation("definitions with derived items do not compile: " + str(e)[-1500:],
                          {"seed": seed, "modules": modules, "per": per, "errors": str(e)})
            return
        reps, n = (4, 8) if not run.thorough() else (10, 24)
        programs = [{"p": i * (modules + 2) + m + 1, "seed": run.seed, "mod": m, "n": n} for m in range(modules + 2) for i in range(reps)]
        run.count("type_definitions", modules * per + 6)
        run.sample({"seed": seed, "programs": programs[0]})
        found = check_trace.validate(run, exe, programs, "TraceSlab")
        check_trace.report(run, found, programs, "derive seed %d" % seed)
        if run.violations:
            return
