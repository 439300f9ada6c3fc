"""Build cells of the harness from /repo's working tree, run explorer processes, merge their
reports, write evidence and replay files. Python standard library only."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
CPUS = min(8, os.cpu_count() or 8)
STABLE = "1.99.1"
T0 = time.time()


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, script="", cell=None, params="", kind="value", extra=None):
        super().__init__(what)
        self.what, self.script, self.cell, self.params, self.kind = what, script, cell, params, kind
        self.extra = extra or {}


def env(toolchain=STABLE, rustflags=""):
    e = {
        "HOME": "/root",
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "CARGO_NET_OFFLINE": "true",
        "RUSTUP_TOOLCHAIN": toolchain,
        "CARGO_TERM_COLOR": "never",
        "LANG": "C.UTF-8",
    }
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return e


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


LINK = {
    "aarch64-unknown-linux-gnu": "aarch64-linux-gnu-gcc",
    "i686-unknown-linux-gnu": "i686-linux-gnu-gcc",
    "powerpc64-unknown-linux-gnu": "powerpc64-linux-gnu-gcc",
}
QEMU = {
    "aarch64-unknown-linux-gnu": ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"],
    "powerpc64-unknown-linux-gnu": ["qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"],
}


class Cell:
    """One build configuration of harness + crate under test."""

    def __init__(self, profile="release", std=True, flags="", target=None, toolchain=STABLE,
                 crate="mc", bin="hwmc", buildstd=None, runner=None, features=None, tag=""):
        self.profile, self.std, self.flags, self.target = profile, std, flags, target
        self.toolchain, self.crate, self.bin, self.buildstd = toolchain, crate, bin, buildstd
        self.runner = runner if runner is not None else QEMU.get(target, [])
        if features is None:
            features = ["std", "hstd"] if std else ["std"]
        self.features = features
        n = "-".join([crate, target or "host", profile, "std" if std else "nostd"])
        if flags:
            n += "-" + re.sub(r"[^A-Za-z0-9.+=]+", "_", flags)
        if toolchain != STABLE:
            n += "-" + toolchain
        if tag:
            n += "-" + tag
        self.name = n

    def __eq__(self, o):
        return self.name == o.name

    def __hash__(self):
        return hash(self.name)

    @property
    def dir(self):
        return os.path.join(BUILD, "cells", self.name)

    @property
    def path(self):
        d = self.dir
        if self.target:
            d = os.path.join(d, os.path.basename(self.target).replace(".json", ""))
        return os.path.join(d, {"dev": "debug"}.get(self.profile, self.profile), self.bin)

    def cmd(self):
        if self.crate == "ops":
            return self.ops_cmd()
        c = ["cargo", "build", "--offline", "--bin" if "." not in self.bin else "--lib"]
        if "." not in self.bin:
            c.append(self.bin)
        c += ["--profile", self.profile, "--no-default-features", "--target-dir", self.dir]
        if self.features:
            c += ["--features", ",".join(self.features)]
        if self.target:
            c += ["--target", self.target]
            t = os.path.basename(self.target).replace(".json", "")
            if t in LINK:
                c += ["--config", 'target.%s.linker="%s"' % (t, LINK[t])]
        if self.buildstd:
            c += ["-Zbuild-std=" + self.buildstd]
        return c

    def argv(self):
        return [self.path]

    def failed(self, out, err, job):
        """A process of this cell ended without a report: None if that is a harness problem."""
        return None

    cwd = "/"
    toolenv = None

    def ops_cmd(self):
        """The exported operations as one relocatable object, link-time optimised with std."""
        c = ["cargo", "rustc", "--offline", "--lib", "--release", "--target-dir", self.dir]
        if self.features:
            c += ["--features", ",".join(self.features)]
        if self.target:
            c += ["--target", self.target]
            if self.target in LINK:
                c += ["--config", 'target.%s.linker="%s"' % (self.target, LINK[self.target])]
        return c + ["--", "--emit=obj"]

    def build(self):
        if not os.path.isdir(os.path.join(VERIF, self.crate)):
            raise HarnessError("no crate " + self.crate)
        p = subprocess.run(self.cmd(), cwd=os.path.join(VERIF, self.crate),
                           env=env(self.toolchain, self.flags), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            tail = "\n".join(p.stdout.splitlines()[-60:])
            if "could not compile `highway`" in p.stdout and "error" in p.stdout:
                raise Violation("the crate does not compile in configuration " + self.name,
                                tail, self, "", "build")
            raise HarnessError("building %s failed:\n%s" % (self.name, tail))
        if not os.path.exists(self.path):
            raise HarnessError("no binary at " + self.path)
        return self


class MiriCell(Cell):
    """The same harness interpreted: every access, alignment and initialisation is checked."""

    def __init__(self, flags="", std=True, target=None):
        super().__init__("dev", std, flags, target, "nightly", tag="miri", runner=[])
        self.cwd = os.path.join(VERIF, self.crate)
        self.toolenv = env("nightly", flags)
        self.toolenv["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"
        self.unsupported = 0

    def argv(self):
        c = ["cargo", "miri", "run", "--offline", "--bin", self.bin, "--target-dir", self.dir,
             "--no-default-features", "--features", ",".join(self.features)]
        if self.target:
            c += ["--target", self.target]
        return c + ["--"]

    def build(self):
        p = subprocess.run(self.argv() + ["x=nothing"], cwd=self.cwd, env=self.toolenv, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if "HWMC-REPORT" not in p.stdout:
            raise HarnessError("miri: " + p.stdout[-3000:])
        return self

    def failed(self, out, err, job):
        m = re.search(r"^error: (Undefined Behavior.*)$", err, re.M)
        if m:
            i = err.index(m.group(0))
            return Violation("Miri: " + m.group(1), "# no script\n" + "\n".join("# " + l for l in err[i:i + 4000].splitlines()),
                             self, job.params, "undefined-behaviour", {"runner": []})
        if "unsupported operation" in err:
            self.unsupported += 1
            job.reports = []
            return "skip"
        return None


def build_all(cells, workers=CPUS):
    cells = list(dict.fromkeys(cells))
    t = time.time()
    os.makedirs(os.path.join(BUILD, "cells"), exist_ok=True)
    for c in sorted({c.crate for c in cells}):
        lock = os.path.join(VERIF, c, "Cargo.lock")
        if not os.path.exists(lock):
            subprocess.run(["cargo", "generate-lockfile", "--offline"], cwd=os.path.join(VERIF, c),
                           env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(c.build) for c in cells]:
            f.result()
    say("built %d cells in %.1fs" % (len(cells), time.time() - t))


# ---- dictionary of source literals ---------------------------------------------------

def dictionary(limit=160):
    """Integer, character and short string literals of the sources under test: values a
    special case could be keyed on, added to the explorers' alphabets."""
    vals = set()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        s = open(f, errors="replace").read()
        s = re.sub(r"//[^\n]*", "", s)
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.){1,8})"', s):
            b = m.group(1).encode("utf8", "replace")[:8]
            vals.add(int.from_bytes(b, "little"))
            vals.add(int.from_bytes(b, "big"))
        s = re.sub(r'b?"(?:[^"\\]|\\.)*"', '""', s)
        tok = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|(?<![\w.])[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?"
        def num(t):
            t = t.replace("_", "")
            try:
                return int(t, 0)
            except ValueError:
                return int(t.lstrip("0") or "0")
        for m in re.finditer(tok, s):
            vals.add(num(m.group(1)))
        for m in re.finditer(tok + r"\s*<<\s*" + tok, s):
            k = num(m.group(2))
            if k < 64:
                vals.add(num(m.group(1)) << k)
        for m in re.finditer(tok + r"\s*\*\s*" + tok, s):
            vals.add(num(m.group(1)) * num(m.group(2)))
    vals = sorted(v & (2**64 - 1) for v in vals if v > 1)
    return vals[:limit]


# ---- running -------------------------------------------------------------------------

class Job:
    def __init__(self, cell, params, timeout=800, runner=None, envx=None, weight=1):
        self.cell, self.params, self.timeout = cell, params, timeout
        self.runner = cell.runner if runner is None else runner
        self.envx = envx or {}
        self.report = None
        self.reports = []
        self.lines = []
        self.wall = 0
        self.weight = weight

    def argv(self):
        return self.runner + self.cell.argv() + self.params.split()


_live = set()
_lock = threading.Lock()
_stop = threading.Event()


def _kill_all():
    with _lock:
        for p in list(_live):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def parse_output(out, job):
    """Report dict(s) or raise."""
    if "HWMC-VIOLATION" in out:
        m = re.search(r"HWMC-VIOLATION kind=(\S+) what=(.*)", out)
        s = re.search(r"HWMC-SCRIPT-BEGIN\n(.*?)\n?HWMC-SCRIPT-END", out, re.S)
        raise Violation(m.group(2), s.group(1) if s else "", job.cell, job.params, m.group(1),
                        {"runner": job.runner})
    job.reports = [json.loads(x) for x in re.findall(r"^HWMC-REPORT (\{.*\})$", out, re.M)]
    job.lines = out.splitlines()


def run_job(job):
    if _stop.is_set():
        return None
    t = time.time()
    e = dict(job.cell.toolenv or env())
    e.update(job.envx)
    p = subprocess.Popen(job.argv(), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True, cwd=job.cell.cwd)
    with _lock:
        _live.add(p)
    try:
        out, err = p.communicate(timeout=job.timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise HarnessError("timeout after %ds: %s %s" % (job.timeout, job.cell.name, job.params))
    finally:
        with _lock:
            _live.discard(p)
    job.wall = time.time() - t
    if _stop.is_set():
        return None
    parse_output(out, job)
    if p.returncode != 0 or not job.reports:
        f = job.cell.failed(out, err, job)
        if isinstance(f, Violation):
            raise f
        if f == "skip":
            return job
        raise HarnessError("exit %s of %s %s\n%s\n%s" % (
            p.returncode, job.cell.name, job.params, out[-3000:], err[-3000:]))
    job.report = job.reports[-1]
    return job


def run_jobs(jobs, workers=CPUS):
    """Run all; the violation of the earliest job wins among those seen when one is found."""
    t = time.time()
    first = None
    with ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(run_job, j): i for i, j in enumerate(jobs)}
        for f in as_completed(fs):
            try:
                f.result()
            except (Violation, HarnessError) as v:
                rank = (0 if isinstance(v, Violation) else 1, fs[f])
                if first is None or rank < first[0]:
                    first = (rank, v)
                if isinstance(v, Violation):
                    # let runs already under way finish only if they are quick; then stop
                    _stop.set()
                    _kill_all()
    if first:
        raise first[1]
    say("ran %d processes in %.1fs" % (len(jobs), time.time() - t))
    return jobs


def sharded(cell, params, n, **kw):
    return [Job(cell, "%s nshards=%d shard=%d" % (params, n, i), **kw) for i in range(n)]


# ---- reporting -----------------------------------------------------------------------

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.scale = 3 if self.thorough else 2
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.jobs = []
        self.cover = {}
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples = []
        self.assume = []
        self.exhaustive = True
        self.dict = dictionary()
        self.dictarg = "dict=" + ",".join("%x" % v for v in self.dict)

    def add(self, jobs):
        """Merge finished jobs into the coverage."""
        for j in jobs:
            self.jobs.append(j)
            for r in j.reports:
                self.states += r["states"]
                self.transitions += r["transitions"]
                self.traces += r["evaluations"]
                self.evals += r["evaluations"]
                if r.get("capped"):
                    self.exhaustive = False
                k = r["explorer"] + "@" + j.cell.name
                c = self.cover.setdefault(k, {"processes": 0, "evaluations": 0, "transitions": 0,
                                              "states": 0, "outcomes": 0, "backends": r["backends"],
                                              "digest": 0, "notes": [], "counters_saturated": False,
                                              "capped": False, "cpu_s": 0.0})
                c["processes"] += 1
                for f in ("evaluations", "transitions", "states", "outcomes"):
                    c[f] += r[f]
                c["digest"] = (c["digest"] + int(r["digest"], 16)) & (2**64 - 1)
                c["counters_saturated"] |= r["counter_full"]
                c["capped"] |= r["capped"]
                c["cpu_s"] = round(c["cpu_s"] + j.wall, 2)
                for n in r["notes"]:
                    if n not in c["notes"] and len(c["notes"]) < 8:
                        c["notes"].append(n)
                for s in r["samples"]:
                    if len(self.samples) < 12 and s not in self.samples:
                        self.samples.append(s)

    def run(self, jobs, **kw):
        self.add(run_jobs(jobs, **kw))
        return jobs

    def note(self, key, **kw):
        self.cover[key] = kw

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for c in self.cover.values():
            if isinstance(c.get("digest"), int):
                c["digest"] = "%016x" % c["digest"]
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evals,
            "samples": self.samples or ["(no case completed)"],
            "exhaustive": bool(self.exhaustive and not violations),
            "explorations": self.cover,
            "source_dictionary": ["%x" % v for v in self.dict],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - T0, 2), "violations": violations}
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def violation(self, v):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        cell = v.cell
        rec = {"property": self.pid, "kind": v.kind, "what": v.what, "script": v.script,
               "params": v.params, "extra": v.extra, "tier": self.tier,
               "cell": cell.__dict__ if cell else None}
        h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.pid, h))
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        say("violation (%s) in %s: %s" % (v.kind, cell.name if cell else "-", v.what[:600]))
        for l in v.script.splitlines()[:40]:
            print("    " + l[:400])
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
