"""Shared plumbing of the checks: building harnesses, running TLC, reporting."""
import resource, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


class BuildFailed(Exception):
    """The code under test, or generated code using it, does not compile."""


def repo_hash():
    h = hashlib.sha256()
    for root in ("Cargo.toml", "crates"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(p) if "target" not in d.split("/") for f in fs)
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def cargo_build(crate, extra=(), name=None, env=None, timeout=800):
    """Build /verif/harness/<crate> against /repo's working tree."""
    src = os.path.join(VERIF, "harness", crate)
    tgt = os.path.join(BUILD, name or crate)
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, ".repo-hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # do not rely on modification times of /repo's files
        for prof in ("debug", "release"):
            fp = os.path.join(tgt, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if re.match(r"(crabslab|craballoc)", d):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    cmd = ["cargo", "build", "--offline", "--quiet"] + list(extra)
    r = subprocess.run(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildFailed(r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(tgt, "debug")


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ms = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(ms[-1][0].replace(",", "")) if ms else 0
        self.distinct = int(ms[-1][1].replace(",", "")) if ms else 0
        if not ms:
            m = re.search(r"states generated: (\d+)", out) or re.search(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = int(m.group(1))
        self.ok = "Model checking completed. No error has been found." in out

    def prints(self, tag):
        """Rest of the lines printed with PrintT("TAG ...")."""
        return [l[len(tag) + 2:].rstrip('"') for l in self.out.splitlines() if l.startswith('"%s ' % tag)]


def tlc(module, cfg=None, workers=1, env=None, args=(), timeout=600, heap="3g", scratch=None, java=()):
    scratch = scratch or os.path.join(BUILD, "tlc")
    meta = os.path.join(scratch, "meta-%s-%d-%d" % (os.path.basename(module), os.getpid(), time.monotonic_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = (["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
           + list(java) + ["-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                           "-nowarning"]
           + (["-config", cfg] if cfg else []) + list(args) + [module])
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return Tlc(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return Tlc(o + "\nTIMEOUT", 124)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def parallel(jobs, n=CORES):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda j: j(), jobs))


def parse_viol(rest):
    """12 {"C01", "C02"} -> (12, {"C01","C02"})"""
    n, ids = rest.split(" ", 1)
    return int(n), set(re.findall(r"C\d\d|ERR", ids))


class Run:
    """State of one check run."""

    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.notes = []
        self.known = []

    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def path(self, name):
        return os.path.join(self.dir, name)

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
        self.violations.append((what, p))

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(self.elapsed(), 2)}
        if self.violations:
            ev["coverage"]["violations"] = [str(v[0])[:500] for v in self.violations[:5]]
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            ev["coverage"]["samples"] = [str(x)[:2000] for x in ev["coverage"]["samples"]]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("   " + str(what)[:600])
        shutil.rmtree(self.dir, ignore_errors=True)
        print("%s: %s in %.1f s; %s" % (self.pid, "VIOLATED" if self.violations else "held", self.elapsed(),
              {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def split_programs(programs, n):
    k = max(1, min(n, len(programs)))
    return [programs[i::k] for i in range(k)]


def write_programs(path, programs):
    with open(path, "w") as f:
        for p in programs:
            f.write(json.dumps(p, separators=(",", ":")) + "\n")


def run_driver(exe, programs_file, trace_file, timeout=300, env=None, args=(), memory=None):
    e = dict(os.environ)
    if env:
        e.update(env)

    def limit():
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe, programs_file, trace_file] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, preexec_fn=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
