"""C16: the graph of what the portable path executes, for every configuration the source can tell
apart, searched for unsafe code; and the graph checked against recorded executions."""
import glob, itertools, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *

FILES = ("lib.rs", "portable.rs", "internal.rs", "key.rs", "traits.rs", "macros.rs", "hash.rs")
HOST = "x86_64-unknown-linux-gnu"


def sh(cmd, env_, cwd="/", timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env_, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=timeout)
    return p.returncode, p.stdout, p.stderr


# ---- what the source can tell apart ----------------------------------------------------

def strip(src):
    """Comments out; strings stay."""
    out, i, n = [], 0, len(src)
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif src.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def atoms():
    """Every name or name=value the crate's conditional compilation asks about."""
    found = set()
    for f in glob.glob(REPO + "/src/**/*.rs", recursive=True):
        s = strip(open(f, errors="replace").read())
        for m in re.finditer(r"\b(cfg|cfg_attr|cfg_if|cfg_match|cfg_select)\s*!?\s*([({])", s):
            d, j = 0, m.end() - 1
            while j < len(s):
                d += s[j] in "({["
                d -= s[j] in ")}]"
                j += 1
                if d == 0:
                    break
            body = s[m.end():j - 1]
            if m.group(1) in ("cfg_if", "cfg_match", "cfg_select"):
                continue  # their conditions are matched as cfg(...) or below
            if m.group(1) == "cfg_attr":
                d = 0
                for k, ch in enumerate(body):
                    d += ch in "({["
                    d -= ch in ")}]"
                    if ch == "," and d == 0:
                        body = body[:k]
                        break
            for a in re.finditer(r'([A-Za-z_]\w*)\s*(?:=\s*"([^"]*)")?', re.sub(r'\b(all|any|not)\s*\(', "(", body)):
                found.add((a.group(1), a.group(2)))
    t = open(REPO + "/Cargo.toml").read()
    m = re.search(r"^\[features\]\n(.*?)(?=^\[|\Z)", t, re.M | re.S)
    for l in (m.group(1).splitlines() if m else []):
        k = re.match(r'"?([\w-]+)"?\s*=', l)
        if k and k.group(1) != "default":
            found.add(("feature", k.group(1)))
    return sorted(found, key=lambda a: (a[0], a[1] or ""))


ARCH = {  # arch: (pointer width, endian)
    "x86": ("32", "little"), "arm": ("32", "little"), "powerpc": ("32", "big"), "mips": ("32", "big"),
    "wasm32": ("32", "little"), "riscv32": ("32", "little"), "sparc": ("32", "big"), "avr": ("16", "little"),
    "msp430": ("16", "little"), "powerpc64": ("64", "big"), "s390x": ("64", "big"), "riscv64": ("64", "little"),
    "loongarch64": ("64", "little"), "mips64": ("64", "big"), "sparc64": ("64", "big"), "wasm64": ("64", "little"),
    "arm64ec": ("64", "little"), "hexagon": ("32", "little"), "bpf": ("64", "little"), "nvptx64": ("64", "little"),
}
SINGLE = ("target_os", "target_env", "target_vendor", "target_abi", "panic", "target_pointer_width", "target_endian")


def subsets(free, most):
    if 2 ** len(free) <= most:
        for r in range(len(free) + 1):
            yield from itertools.combinations(free, r)
    else:
        # too many to combine freely: none, all, each alone, each missing, each pair
        seen = set()
        for s in ([()] + [tuple(free)] + [(a,) for a in free] + [tuple(b for b in free if b != a) for a in free]
                  + list(itertools.combinations(free, 2))):
            if s not in seen:
                seen.add(s)
                yield s


def configurations(found, most):
    """(name, target or None for a pretended one on this host, rustc flags, cfg changes)"""
    feats = [a for a in found if a[0] == "feature"]
    tf = [a for a in found if a[0] == "target_feature"]
    special = ("feature", "target_feature", "target_arch", "target_family", "test", "doc", "doctest", "unix", "windows",
               "true", "false", "rustfmt", "clippy") + SINGLE
    free = [a for a in found if a[0] not in special]
    multi = {}
    for a in found:
        if a[0] in SINGLE and a[1] is not None:
            multi.setdefault(a[0], []).append(a[1])
    archs = dict(ARCH)
    for a in found:
        if a[0] == "target_arch" and a[1] not in archs and a[1] not in ("x86_64", "aarch64"):
            archs[a[1]] = ("64", "little")
    bases = []
    xf = [a for a in tf if a[1] not in ("simd128", "neon", "relaxed-simd")]
    for s in subsets(xf, 16):
        fl = ["-Ctarget-feature=" + ",".join("+" + a[1] for a in s)] if s else []
        off = ["-target_feature=" + a[1] for a in xf if a not in s]
        # a feature implies others: only what is asked for is taken away when nothing is on
        bases.append(("x86_64" + "".join("+" + a[1] for a in s), None, fl, off if not s else []))
    bases.append(("aarch64", "aarch64-unknown-linux-gnu", [], []))
    bases.append(("wasm32", "wasm32-unknown-unknown", [], []))
    bases.append(("wasm32+simd128", "wasm32-unknown-unknown", ["-Ctarget-feature=+simd128"], []))
    for a, (w, e) in sorted(archs.items()):
        ch = ["-target_arch", "+target_arch=" + a, "-target_feature", "-target_pointer_width", "+target_pointer_width=" + w,
              "-target_endian", "+target_endian=" + e]
        if a.startswith("wasm"):
            ch += ["-unix", "-target_family", "+target_family=wasm"]
        bases.append(("pretended " + a, None, [], ch))
    out = []
    for n, t, fl, ch in bases:
        main = t is not None or n.startswith("x86_64") or n in ("pretended x86", "pretended powerpc")
        for fs in subsets(feats, 64):
            if t is not None and ("feature", "std") in fs:
                continue  # only core is built for these here; with std they go through the lint
            for s in (subsets(free, most if main else 2) if free else [()]):
                m = [[]] if not multi else None
                if m is None:
                    m = [[]]
                    for k, vs in sorted(multi.items()):
                        for v in vs:
                            m.append(["-" + k, "+%s=%s" % (k, v)])
                        m.append(["-" + k, "+%s=other" % k])
                    if not main:
                        m = m[:1]
                for mm in m:
                    c = list(ch)
                    if ("debug_assertions", None) in free and ("debug_assertions", None) not in s:
                        c.append("-debug_assertions")
                    for a in free:
                        w = a[0] if a[1] is None else "%s=%s" % a
                        c.append(("+" if a in s else "-") + w)
                    c += mm
                    for a in found:
                        if a[0] in ("unix", "windows") and any(x.startswith("+target_os=") for x in mm):
                            c.append(("+" if a[0] == "windows" and "+target_os=windows" in mm else "-") + a[0])
                    f2 = list(fl)
                    for x in fs:
                        f2 += ["--cfg", 'feature="%s"' % x[1]]
                    name = "%s%s%s%s" % (n, "".join(" " + x[1] for x in fs),
                                         "".join(" %s" % (a[0] if a[1] is None else "%s=%s" % a) for a in s),
                                         "".join(" " + x[1:] for x in mm if x[0] == "+"))
                    out.append((name, t, f2, ",".join(c)))
    return out


# ---- tools -----------------------------------------------------------------------------

def edition():
    m = re.search(r'^edition\s*=\s*"(\d+)"', open(REPO + "/Cargo.toml").read(), re.M)
    return m.group(1) if m else "2015"


def prepare():
    e = env("nightly")
    d = BUILD + "/nounsafe"
    rc, o, err = sh(["cargo", "build", "--offline", "--release", "--target-dir", d], e, VERIF + "/nounsafe")
    if rc:
        raise HarnessError("building nounsafe: " + err[-2000:])
    rc, o, err = sh(["rustc", "--print", "sysroot"], e)
    root = o.strip()
    src = root + "/lib/rustlib/src/rust/library/core/src/lib.rs"
    mini = BUILD + "/nounsafe/sysroot"

    def core_for(t):
        lib = "%s/lib/rustlib/%s/lib" % (mini, t)
        if os.path.exists(lib + "/done"):
            return
        os.makedirs(lib, exist_ok=True)
        a = ["rustc", "--crate-type", "rlib", "--emit", "metadata", "-Zforce-unstable-if-unmarked", "--cap-lints", "allow",
             "--target", t, "--out-dir", lib]
        rc, o, err = sh(a + ["--edition", "2024", "--crate-name", "core", src], e)
        if rc:
            raise HarnessError("core for %s: %s" % (t, err[-2000:]))
        stub = lib + "/cb.rs"
        open(stub, "w").write("#![feature(compiler_builtins)]\n#![allow(internal_features)]\n#![compiler_builtins]\n#![no_std]\n")
        rc, o, err = sh(a + ["--sysroot", mini, "--edition", "2021", "--crate-name", "compiler_builtins", stub], e)
        if rc:
            raise HarnessError("compiler_builtins for %s: %s" % (t, err[-2000:]))
        open(lib + "/done", "w").close()
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(core_for, ("wasm32-unknown-unknown", "aarch64-unknown-linux-gnu")))
    return d + "/release/nounsafe", root, mini


def graph(tool, conf, i):
    exe, root, mini = tool
    name, t, fl, ch = conf
    e = env("nightly")
    e["LD_LIBRARY_PATH"] = root + "/lib"
    d = "%s/nounsafe/out/%d" % (BUILD, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    a = [exe, d + "/g", ch, "--sysroot", mini if t else root, "--edition", edition(), "--crate-name", "highway",
         "--crate-type", "lib", "-Zmir-opt-level=0", "--out-dir", d, REPO + "/src/lib.rs"] + fl
    if t:
        a += ["--target", t]
    rc, o, err = sh(a, e)
    L = open(d + "/g").read().splitlines() if os.path.exists(d + "/g") else []
    if not L or L[-1] != "END":
        return name, None, err
    return name, [json.loads(l) for l in L[:-1]], err


def on_path(r):
    return r["how"] == "reachable" or r["file"] in FILES or r.get("outer") in FILES


def lint(conf):
    """The compiler's own account, with the stable toolchain and the real standard library."""
    name, t, fl = conf
    d = BUILD + "/nounsafe/lint"
    os.makedirs(d, exist_ok=True)
    a = ["rustc", "--edition", edition(), "--crate-name", "highway", "--crate-type", "lib", "--emit", "metadata", "-o",
         "%s/%s.rmeta" % (d, re.sub(r"\W+", "_", name)), "--force-warn", "unsafe_code", "--error-format", "json", REPO + "/src/lib.rs"] + fl
    if t:
        a += ["--target", t]
    rc, o, err = sh(a, env())
    if rc:
        return name, None, err
    hits, n = [], 0
    for l in err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if not m.get("code") or m["code"]["code"] != "unsafe_code":
            continue
        n += 1
        for s in m["spans"]:
            if not s["is_primary"]:
                continue
            chain = []
            while s:
                chain.append("%s:%d" % (s["file_name"].rsplit("/src/", 1)[-1], s["line_start"]))
                s = s["expansion"]["span"] if s.get("expansion") else None
            if any(c.rsplit(":", 1)[0] in FILES for c in chain):
                hits.append((m["message"], " in ".join(chain)))
    return name, (hits, n), err


def executed(tool, std):
    """The crate's functions that short histories of the portable hasher execute."""
    e = env("nightly", "-Cinstrument-coverage")
    d = BUILD + "/nounsafe/run"
    tag = "std" if std else "nostd"
    rc, o, err = sh(["cargo", "build", "--offline", "--target-dir", d + "-" + tag] + (["--features", "hstd"] if std else []),
                    e, VERIF + "/nounsafe-run")
    if rc:
        raise HarnessError("building nounsafe-run: " + err[-2000:])
    exe = d + "-" + tag + "/debug/nounsafe-run"
    e["LLVM_PROFILE_FILE"] = d + "-" + tag + "/p.profraw"
    rc, o, err = sh([exe], e)
    if rc or "RUNS" not in o:
        raise HarnessError("nounsafe-run: %s %s" % (rc, err[-1500:]))
    runs = int(o.split()[1])
    b = tool[1] + "/lib/rustlib/%s/bin/" % HOST
    p = d + "-" + tag + "/p.profdata"
    rc, o, err = sh([b + "llvm-profdata", "merge", "-o", p, e["LLVM_PROFILE_FILE"]], e)
    if rc:
        raise HarnessError("llvm-profdata: " + err[-500:])
    rc, o, err = sh([b + "llvm-cov", "export", "-instr-profile", p, exe], e)
    if rc:
        raise HarnessError("llvm-cov: " + err[-500:])
    got = set()
    for f in json.loads(o)["data"][0]["functions"]:
        if f["count"] and any(x.startswith(REPO + "/src/") for x in f["filenames"]):
            r = f["regions"][0]
            got.add((f["filenames"][r[5]].rsplit("/src/", 1)[-1], r[0], f["name"]))
    return runs, got


def check(c):
    tool = prepare()
    found = atoms()
    confs = configurations(found, 256 if c.thorough else 64)
    say("%d configurations over %d conditions" % (len(confs), len(found)))
    L = []
    for std in (True, False):
        f = ["--cfg", 'feature="std"'] if std else []
        s = " std" if std else " no_std"
        for n, t, x in (("x86_64", None, []), ("x86_64+sse4.1", None, ["-Ctarget-feature=+sse4.1"]),
                        ("x86_64+avx2", None, ["-Ctarget-feature=+avx2"]), ("native", None, ["-Ctarget-cpu=native"]),
                        ("x86_64 release", None, ["-Copt-level=3", "-Cdebug-assertions=off", "-Cpanic=abort"]),
                        ("aarch64", "aarch64-unknown-linux-gnu", []), ("i686", "i686-unknown-linux-gnu", []),
                        ("wasm32", "wasm32-unknown-unknown", []), ("wasm32+simd128", "wasm32-unknown-unknown", ["-Ctarget-feature=+simd128"])):
            L.append((n + s, t, f + x))
    with ThreadPoolExecutor(CPUS) as ex:
        G = list(ex.map(lambda k: graph(tool, k[1], k[0]), enumerate(confs)))
        M = list(ex.map(lint, L))
    refused, nodes, edges, hosts = [], set(), 0, {}
    bad = []
    for (name, recs, err), (_, t, fl, ch) in zip(G, confs):
        if recs is None:
            refused.append(name)
            if t is not None or (name.split()[0] == "x86_64" and len(refused) > len(confs) // 2):
                raise HarnessError("configuration %s does not compile: %s" % (name, err[-2500:]))
            continue
        roots = [r for r in recs if r["k"] == "roots"][0]
        st = [r for r in recs if r["k"] == "stats"][0]
        fns = [r for r in recs if r["k"] == "fn"]
        if int(roots["found"]) < 4:
            raise HarnessError("only %s of 4 roots in %s" % (roots["found"], name))
        if len(fns) < 20:
            raise HarnessError("only %d functions reachable in %s" % (len(fns), name))
        edges += int(st["edges"])
        for f in fns:
            nodes.add((name, f["name"], f["at"]))
        if name in ("x86_64 std", "x86_64"):
            hosts[name.endswith("std")] = fns
        for r in recs:
            if r["k"] in ("unsafe", "override") and on_path(r):
                if r["k"] == "unsafe":
                    bad.append((name, "%s in %s at %s (%s)" % (r["what"], r["in"], r["at"], r["how"])))
                else:
                    bad.append((name, "%s(%s) over %s, set at %s" % (r["level"], r["lint"], r["of"], r["at"])))
    for (name, res, err) in M:
        if res is None:
            raise HarnessError("%s does not compile: %s" % (name, err[-2500:]))
        bad += [(name + " (lint)", "%s at %s" % h) for h in res[0]]
    seen = {}
    for n, w in bad:
        seen.setdefault(w, []).append(n)
    if seen:
        t = "\n".join("# %s\n#   in %d configurations: %s" % (w, len(n), ", ".join(n[:4])) for w, n in seen.items())
        w = next(iter(seen))
        raise Violation("unsafe code on the portable path: " + w, "# no script\n" + t, None, "", "unsafe")
    # the graph against executions
    runs = 0
    for std in (True, False):
        if std not in hosts:
            raise HarnessError("no host graph")
        r, got = executed(tool, std)
        runs += r
        span = []
        for f in hosts[std]:
            a, b = f["lines"].split("-")
            span.append((f["file"], int(a), int(b)))
            at = re.search(r"\(from (.*):(\d+)\)", f["at"])
            if at:
                span.append((at.group(1), int(at.group(2)), int(at.group(2))))
            at = re.match(r"(.*?):(\d+)", f["at"])
            span.append((at.group(1), int(at.group(2)), int(at.group(2)) + max(0, int(b) - int(a))))
        missed = [g for g in got if not any(f == g[0] and a <= g[1] <= b for f, a, b in span)]
        if missed:
            raise HarnessError("executed but not in the graph: %s" % missed[:5])
        if len(got) < 25:
            raise HarnessError("only %d executed functions recorded" % len(got))
        c.note("executed functions, all in the graph (%s)" % ("std" if std else "no_std"), functions=len(got), runs=r)
    c.states = len(nodes)
    c.transitions = edges
    c.traces = runs
    c.evals = len(confs) + len(L)
    c.samples = ["%s: %s at %s" % k for k in sorted(nodes)[::max(1, len(nodes) // 8)]][:8]
    c.note("configurations", graphs=len(confs) - len(refused), refused=refused, lint=[x[0] for x in L],
           conditions=["%s=%s" % a if a[1] else a[0] for a in found],
           unsafe_elsewhere=sum(1 for _, r, _ in G if r for x in r if x["k"] == "unsafe"))
    if refused:
        c.exhaustive = False
