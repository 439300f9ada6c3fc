"""What each property's check builds and explores."""
from core import *

REL = Cell("release")
RELN = Cell("release", std=False)
CHK = Cell("checked")
CHKN = Cell("checked", std=False)
DEV = Cell("dev")
SSE = "-Ctarget-feature=+sse4.1"
AVX = "-Ctarget-feature=+avx2"
NAT = "-Ctarget-cpu=native"
# builds whose dispatcher is SSE4.1, and AVX2, whatever the CPU
SSEN = Cell("release", False, SSE)
AVXN = Cell("release", False, AVX)
ARM = "aarch64-unknown-linux-gnu"
X86 = "i686-unknown-linux-gnu"


SIMD = "-Ctarget-feature=+simd128"


def wasm(profile="release", std=True, flags=""):
    return Cell(profile, std, flags, target="wasm32-unknown-unknown", crate="mc-wasm", bin="mcwasm.wasm",
                runner=["node", VERIF + "/mc-wasm/run.mjs"], features=["hstd"] if std else [])


def p(c, x, scale=None, **kw):
    s = "x=%s scale=%d %s" % (x, c.scale if scale is None else scale, c.dictarg)
    for k, v in kw.items():
        s += " %s=%s" % (k, v)
    return s


def q(c, quick, thorough):
    return thorough if c.thorough else quick


def depth(c, cell, main=REL):
    """Scale (and extra operations per history) of an exploration whose `main` cell goes deepest."""
    return dict(scale=3, **q(c, {}, dict(deeper=1))) if cell == main else dict(scale=q(c, 1, 3))


# what qemu's default aarch64 CPU has
QEMU_MAX = ("aes", "sha2", "sha3", "crc", "dotprod", "fp16", "lse", "rdm", "rcpc", "i8mm", "bf16", "sve", "sve2", "fcma", "jsconv")


def asked(known, base="", **kw):
    """Release cells for compile-time target features the source asks about beyond the known
    ones, alone and all together. What cannot be built or run here is left out."""
    import nounsafe
    arch = kw.get("target") or "x86_64"
    have = subprocess.run(["rustc", "--print", "target-features"] + (["--target", kw["target"]] if kw.get("target") else []),
                          env=env(), stdout=subprocess.PIPE, text=True).stdout
    have = set(re.findall(r"^\s+(\S+)\s+-", have, re.M))
    more = [v for k, v in nounsafe.atoms() if k == "target_feature" and v in have and v not in known and v != "crt-static"]
    # what every build has anyway
    cfg = subprocess.run(["rustc", "--print", "cfg"] + (["--target", kw["target"]] if kw.get("target") else []),
                         env=env(), stdout=subprocess.PIPE, text=True).stdout
    more = [v for v in sorted(set(more)) if 'target_feature="%s"' % v not in cfg][:4]
    if arch == "x86_64":
        here = subprocess.run(["rustc", "--print", "cfg", "-Ctarget-cpu=native"], env=env(), stdout=subprocess.PIPE, text=True).stdout
        more = [v for v in more if 'target_feature="%s"' % v in here]
    elif arch == ARM:
        more = [v for v in more if v in QEMU_MAX]
    sets = [[v] for v in more] + ([more] if len(more) > 1 else [])
    out = []
    for fs in sets:
        f = "-Ctarget-feature=" + ",".join(([base] if base else []) + ["+" + v for v in fs])
        cell = wasm(flags=f) if arch.startswith("wasm") else Cell("release", flags=f, **kw)
        try:
            build_all([cell])
            j = Job(cell, "x=nothing scale=0 dict=")
            run_jobs([j])
        except (HarnessError, Violation):
            say("not runnable here:", f)
            continue
        out.append(cell)
    return out


def huge(cell, c, n=16, **kw):
    """Streams and slices past 2^31 and 2^32 bytes (calls past 2^24 unless `plans` stops before)."""
    return sharded(cell, p(c, "huge", scale=2, **kw), n)


def C01(c):
    others = [RELN, Cell("release", target=X86), Cell("checked", False, target=X86), wasm()]
    build_all([REL, CHK, DEV] + others)
    b = dict(backends="portable")
    jobs = sharded(REL, p(c, "lattice", **b), q(c, 16, 64))
    jobs += sharded(CHK, p(c, "lattice", scale=c.scale - 1, **b), 8)
    jobs += sharded(DEV, p(c, "lattice", scale=0, **b), 1)
    jobs += sharded(DEV, p(c, "lattice", scale=1, phases="lengths,sizes", **b), 4)
    for x in ("stream", "bfs"):
        jobs += sharded(REL, p(c, x, oracle="spec", **b), 4)
    for cell in others:
        jobs += sharded(cell, p(c, "lattice", scale=q(c, 1, 2), gate=0, **b), q(c, 4, 16))
        jobs += sharded(cell, p(c, "lattice", scale=2, phases="lengths", gate=0, **b), 2)
        jobs += sharded(cell, p(c, "stream", scale=q(c, 1, 2), oracle="spec", **b), 1)
    jobs = huge(REL, c, oracle="spec", **b) + jobs
    if c.thorough:
        jobs = huge(REL, c, 1, only="packets", oracle="spec", **b) + jobs
    jobs += huge(others[1], c, 4, calls=70000, oracle="spec", **b)
    c.run(jobs)
    c.assume = ["the model in mc/src/spec.rs is HighwayHash: replayed against the 195 published vectors at every start"]


def C02(c):
    cells = []
    for prof in ("release", "dev"):
        for std in (True, False):
            for fl in ("", SSE, AVX, NAT):
                cells.append(Cell(prof, std, fl))
    build_all(cells)
    o = dict(oracle="portable")
    simd = "auto,sse,avx"
    jobs = sharded(REL, p(c, "lattice", backends=simd, **o), q(c, 16, 64))
    for cell in cells:
        if cell.profile == "dev":
            jobs += [Job(cell, p(c, "lattice", scale=0, **o))]
            jobs += [Job(cell, p(c, "lattice", scale=1, phases="lengths", maxlen=200, **o))]
            jobs += [Job(cell, p(c, "stream", scale=1, **o))]
        else:
            jobs += sharded(cell, p(c, "lattice", scale=q(c, 1, 2), **o), q(c, 2, 8))
            jobs += [Job(cell, p(c, "stream", scale=q(c, 1, 2), **o))]
    for cell in asked(("sse4.1", "avx2")):
        jobs += sharded(cell, p(c, "lattice", scale=q(c, 1, 2), **o), 4)
        jobs += [Job(cell, p(c, "stream", scale=1, **o))]
    c.run(huge(REL, c, backends=simd, **q(c, dict(plans=10), {}), **o) + jobs)


def C03(c):
    cells = [Cell(pr, s, target=ARM) for pr in ("release", "dev") for s in (True, False)]
    build_all(cells)
    o = dict(oracle="portable", gate=0)
    jobs = []
    for cell in cells:
        if cell.profile == "release":
            sc = c.scale if cell.std else 1
            jobs += sharded(cell, p(c, "lattice", backends="neon,auto", scale=sc, **o), q(c, 16, 64) if cell.std else 4)
            jobs += sharded(cell, p(c, "stream", scale=sc, **o), 4)
            jobs += sharded(cell, p(c, "hops", scale=sc, **o), 8)
            jobs += sharded(cell, p(c, "bfs", scale=sc, hops=1, **o), 4)
        else:
            jobs += [Job(cell, p(c, "lattice", scale=0, **o))]
            jobs += sharded(cell, p(c, "lattice", scale=1, phases="lengths", **o), 2)
            jobs += sharded(cell, p(c, "hops", scale=1, **o), 2)
    for cell in asked(("neon",), target=ARM):
        jobs += sharded(cell, p(c, "lattice", scale=1, **o), 4)
        jobs += sharded(cell, p(c, "hops", scale=1, **o), 2)
    c.run(huge(cells[0], c, backends="neon,auto", plans=q(c, 2, 99), hop=1, **o) + jobs)


def C04(c):
    cells = [wasm(pr, s, f) for pr in ("release", "checked", "dev") for s in (True, False) for f in ("", SIMD)]
    build_all(cells)
    o = dict(oracle="portable", gate=0)
    jobs = []
    for cell in cells:
        simd = cell.flags == SIMD
        if cell.profile == "release" and simd:
            sc = c.scale if cell.std else q(c, 1, 2)
            jobs += sharded(cell, p(c, "lattice", backends="wasm,auto", scale=sc, **o), q(c, 16, 64) if cell.std else 4)
            jobs += sharded(cell, p(c, "stream", scale=c.scale, **o), 4)
            jobs += sharded(cell, p(c, "hops", scale=c.scale, **o), 8)
            jobs += sharded(cell, p(c, "bfs", scale=c.scale, hops=1, **o), 4)
        elif cell.profile == "checked" and simd:
            jobs += sharded(cell, p(c, "lattice", scale=1, **o), 4)
            jobs += sharded(cell, p(c, "hops", scale=1, **o), 2)
            jobs += sharded(cell, p(c, "bfs", scale=1, hops=1, **o), 2)
        else:
            # the auto-selecting hasher of builds without SIMD; unoptimised builds
            jobs += [Job(cell, p(c, "lattice", scale=0, **o))]
            jobs += sharded(cell, p(c, "lattice", scale=1, phases="lengths,sizes", maxlen=200, **o), 2)
            jobs += [Job(cell, p(c, "hops", scale=1, **o))]
    for cell in asked(("simd128",), "+simd128", target="wasm32-unknown-unknown"):
        jobs += sharded(cell, p(c, "lattice", scale=1, **o), 4)
        jobs += sharded(cell, p(c, "hops", scale=1, **o), 2)
    c.run(huge(wasm(flags=SIMD), c, 6, backends="wasm,auto", plans=q(c, 2, 99), hop=1, **o) + jobs)


def C05(c):
    cells = [REL, RELN, SSEN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86)]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        jobs += sharded(cell, p(c, "bfs", **sc, via=1), q(c, 8, 32) if cell == REL else q(c, 2, 8))
        jobs += sharded(cell, p(c, "stream", **sc), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    for via, b in ((0, "all"), (1, "auto,portable"), (2, "auto,portable")):
        jobs = huge(REL, c, plans=q(c, 10, 99), oracle="fresh", via=via, **q(c, {"backends": b} if via else {}, {})) + jobs
    jobs += huge(Cell("release", target=X86), c, 4, oracle="fresh", calls=70000) + huge(wasm(flags=SIMD), c, 4, plans=q(c, 1, 99), oracle="fresh")
    c.run(jobs)


def C06(c):
    cells = [REL, RELN, SSEN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86)]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        jobs += sharded(cell, p(c, "bfs", **sc, hops=1), q(c, 8, 32) if cell == REL else q(c, 2, 8))
        jobs += sharded(cell, p(c, "hops", **sc), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    c.run(huge(REL, c, plans=q(c, 10, 99), oracle="fresh", hop=1) + jobs)


def C07(c):
    cells = [REL, RELN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86),
             Cell("release", flags=SSE), SSEN, AVXN]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        for o in ("fresh", "portable"):
            jobs += sharded(cell, p(c, "default", **sc, oracle=o), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    c.run(jobs)


def ops(flags="", std=True, target=None, toolchain=STABLE):
    return Cell("release", std, flags, target, toolchain, crate="ops", bin="deps/hwops.o",
                features=["hstd"] if std else [])


OBJDUMP = {ARM: "aarch64-linux-gnu-objdump", "wasm32-unknown-unknown": "llvm-objdump-18"}


def compiled_paths(c, goal, roots, past, noun, kind):
    """No compiled operation can reach a function matching `goal`. A compiler may fail to
    remove a dead path; one is reported only if both installed compilers keep it."""
    import callgraph
    W = "wasm32-unknown-unknown"
    conf = [(f, s, t) for s in (True, False) for f, t in (
        ("", None), (SSE, None), (AVX, None), (NAT, None), ("", ARM), ("", X86), ("", W), (SIMD, W))]
    cells = [ops(*k) for k in conf]
    build_all(cells)

    def reach(cell, t):
        return callgraph.reach(cell.path, OBJDUMP.get(t, "objdump"), goal, roots, past)

    def also(op, k):
        """Does the other compiler keep a path from this operation?"""
        if k[2] is None:
            return op in {r for r, _ in reach(ops(*k, toolchain="nightly").build(), None)[4]}
        if not re.match(r"o[pd]_(neon|wasm)_", op):
            # the same code was compiled for the host, where the path must be there as well
            return op in {r for r, _ in reach(ops("", k[1]).build(), None)[4]}
        try:
            alt = ops(k[0], k[1], k[2], "nightly").build()
        except (HarnessError, Violation):
            return True
        return op in {r for r, _ in reach(alt, k[2])[4]}
    for k, cell in zip(conf, cells):
        found, inner, ext, ins, bad = reach(cell, k[2])
        if len(found) < 40:
            raise HarnessError("only %d operations found in %s" % (len(found), cell.path))
        c.states += len(inner)
        c.transitions += ins
        kept = [b for b in bad if also(b[0], k)]
        if kept:
            raise Violation("compiled operation %s can reach %s: %s" % (kept[0][0], noun, " -> ".join(kept[0][1])),
                            "\n".join("# %s: %s" % (r, " -> ".join(x)) for r, x in kept), cell, "", kind)
        if bad:
            c.note(kind + ", one compiler only: " + cell.name, operations=[b[0] for b in bad])
        c.note("callgraph@" + cell.name, operations=len(found), functions=len(inner), instructions=ins,
               paths=len(bad), external=[e for e in ext if "LCPI" not in e][:20])


def panic_paths(c):
    """Static half of C08."""
    import callgraph
    compiled_paths(c, callgraph.PANIC, "op_", None, "a panic", "static-panic")


def C08(c):
    cells = [CHK, CHKN, DEV, Cell("dev", False), REL, Cell("checked", flags=NAT), Cell("checked", flags=SSE), Cell("dev", False, AVX),
             Cell("checked", target=ARM), Cell("dev", target=ARM), Cell("checked", target=X86), Cell("dev", False, target=X86),
             wasm("checked", flags=SIMD), wasm("dev", False, SIMD), wasm("checked")]
    build_all(cells)
    jobs = []
    # wrong values are other properties' business here; panics, traps and hangs are not
    v = dict(values=0)
    for cell in cells:
        full = cell in (CHK, CHKN)
        slow = cell.profile == "dev" or cell.target == ARM
        sc = c.scale if full else 0 if slow and not c.thorough else 1
        for x in ("totality", "stream", "hops", "adapters", "observers", "default", "arb"):
            jobs += sharded(cell, p(c, x, scale=max(sc, 1) if x in ("hops", "totality") else sc, **v), q(c, 4, 16) if full else 1)
        # unoptimised code leaves garbage in padding: identify states by their Debug text there
        h = dict(hidden="debug") if cell.profile == "dev" else {}
        jobs += sharded(cell, p(c, "bfs", scale=max(sc, 1), hops=1, **v, **h), 2 if full else 1)
        jobs += sharded(cell, p(c, "lattice", scale=1 if full else 0, gate=0, **v), 4 if full else 1)
        if full:
            jobs += sharded(cell, p(c, "lattice", scale=q(c, 1, 2), phases="lengths,sizes,align", gate=0, **v), 4)
    # more than 2^32 packets and more than 2^32 calls: the longest jobs go first
    jobs = huge(CHK, c, 4, only="packets", backends=q(c, "portable,avx", "portable,auto,sse,avx"), **v) + jobs
    jobs = huge(CHK, c, 4, only="calls", calls=(1 << 32) + 3, plans=2, backends=q(c, "portable", "portable,auto,sse,avx"), **v) + jobs
    jobs += sharded(CHK, p(c, "huge", oracle="fresh", **v), 16)
    jobs += sharded(Cell("checked", target=X86), p(c, "huge", scale=2, calls=70000, oracle="fresh", **v), 4)
    if c.thorough:
        jobs += sharded(CHK, p(c, "allcounts", **v), 64)
    c.run(jobs)
    panic_paths(c)


def C09(c):
    A = Cell("release", False, AVX)
    cells = [REL, RELN, CHK, DEV, A, Cell("release", flags=SSE), Cell("release", flags=NAT), Cell("release", target=X86),
             Cell("release", target=ARM), Cell("dev", target=ARM), wasm(flags=SIMD), wasm("dev", False, SIMD)]
    miri = [MiriCell(), MiriCell("-Ctarget-feature=+avx2,+sse4.1"), MiriCell("-Ctarget-feature=+avx2,+sse4.1", False)]
    build_all(cells + miri)
    jobs = []
    # interpreted and instrumented runs first: they are the longest
    for m in miri:
        jobs += sharded(m, p(c, "micro", scale=0, top=q(c, 66, 260)), q(c, 8, 32))
    vg = ["valgrind", "-q", "--partial-loads-ok=no", "--error-limit=no", "--undef-value-errors=yes", "--expensive-definedness-checks=yes"]
    for cell, n in ((REL, 8), (A, 2), (CHK, 2), (DEV, 2)):
        jobs += sharded(cell, p(c, "checked", scale=c.scale if cell == REL else c.scale - 1, need="valgrind"), n, runner=vg)
    for cell in cells:
        slow = cell.profile == "dev"
        jobs += sharded(cell, p(c, "guard", scale=c.scale if cell == REL else 1 if slow else c.scale), 8)
    c.run(jobs)
    for m in miri:
        if m.unsupported:
            c.note("interpreter lacks an operation: " + m.name, processes=m.unsupported)


# CPUs a runtime-detecting build can find itself on (user-mode emulation), besides this one
CPUS_EMULATED = ("core2duo", "qemu64", "Nehalem", "SandyBridge", "Haswell,-avx2", "Haswell,-xsave", "Haswell", "max")
NAMES = {"sse4.1": "SseHash", "avx2": "AvxHash"}


def enabled(cell):
    """Target features a configuration enables at compile time."""
    out = subprocess.run(["rustc", "--print", "cfg"] + cell.flags.split() + (["--target", cell.target] if cell.target else []),
                         env=env(), stdout=subprocess.PIPE, text=True).stdout
    return set(re.findall(r'target_feature="([^"]+)"', out))


def selections(job, cfg):
    """Judge what one process saw of selection in its configuration and on its CPU."""
    cell = job.cell
    seen = [re.match(r"HWMC-SELECT (\S+) (\d+) (.*)", l).groups() for l in job.lines if l.startswith("HWMC-SELECT")]
    cpu = {k for l in job.lines if l.startswith("HWMC-CPU") for k in re.findall(r"(\S+)=true", l)}
    opts = [re.match(r"HWMC-OPT (\S+) (\d+) (\d+)", l).groups() for l in job.lines if l.startswith("HWMC-OPT")]

    def bad(what):
        text = "\n".join("# " + l for l in job.lines if re.match("HWMC-(SELECT|CPU|OPT)", l))
        raise Violation(what + " in " + cell.name + " " + " ".join(job.runner), text, cell, job.params, "selection", {"runner": job.runner})

    if not seen:
        raise HarnessError("no selections reported by " + cell.name)
    t = cell.target or "x86_64"
    if t.startswith("x86_64"):
        detected = cpu if cell.std else set()
        may = {NAMES[f] for f in (cfg | detected) if f in NAMES} or {"PortableHash"}
        for name, some, of in opts:
            f = {"Sse": "sse4.1", "Avx": "avx2"}[name[:3]]
            some, of = int(some), int(of)
            if some and f not in (cfg | detected):
                bad("%s returns a hasher although %s is not detected" % (name, f))
            if some != of and f in detected:
                bad("%s returns no hasher for %d of %d arguments although %s is detected" % (name, of - some, of, f))
        if not opts:
            raise HarnessError("constructors not reported")
    elif t == ARM:
        may = {"NeonHash"}
    elif t.startswith("wasm32") and "simd128" in cfg:
        may = {"WasmHash"}
    else:
        may = {"PortableHash"}
    kinds = {k for k, _, _ in seen}
    if kinds == {"unknown"}:
        return {"unreadable": True}
    for k, n, route in seen:
        if k != "unknown" and k not in may:
            bad("%s picks %s where the configuration permits only %s" % (route, k, "/".join(sorted(may))))
    if len(kinds) > 1:
        bad("selection differs between the ways of obtaining a hasher: " + ", ".join("%s: %s" % (r, k) for k, _, r in seen))
    return {"picked": sorted(kinds), "permitted": sorted(may), "routes": len(seen), "detected": sorted(cpu)}


def C10(c):
    import nounsafe
    flags = ("", SSE, AVX, SSE + ",-avx2", NAT)
    cells = [Cell(pr, s, f) for pr in ("release", "dev") for s in (True, False) for f in flags]
    cells += [Cell(pr, s, target=t) for pr in ("release", "dev") for s in (True, False) for t in (ARM, X86)]
    cells += [wasm(pr, s, f) for pr in ("release", "dev") for s in (True, False) for f in ("", SIMD)]
    build_all(cells)
    o = dict(oracle="portable", gate=0)
    sel, jobs = [], []

    def results(cell, sc, runner=None, **kw):
        """The dispatch arms of every operation, on whatever was selected."""
        a = dict(o, backends="auto", **kw)
        jobs.extend([Job(cell, p(c, "lattice", scale=0, **a), runner=runner),
                     Job(cell, p(c, "lattice", scale=1, phases="lengths", maxlen=q(c, 140, 400), **a), runner=runner),
                     Job(cell, p(c, "default", scale=min(sc, 1), **o), runner=runner),
                     Job(cell, p(c, "adapters", scale=min(sc, 1), **o), runner=runner)])
        # dispatch of every operation in every order, through checkpoints and clones too
        if runner is None and not (cell.target == ARM and cell.profile == "dev") or c.thorough:
            jobs.extend(sharded(cell, p(c, "stream", scale=sc, **o), q(c, 1, 4), runner=runner))
        jobs.extend(sharded(cell, p(c, "hops", scale=max(sc, 1), **o), q(c, 1, 4), runner=runner))
        h = dict(hidden="debug") if cell.profile == "dev" else {}
        if sc:
            jobs.extend(sharded(cell, p(c, "bfs", scale=1, hops=1, **o, **h), 1, runner=runner))

    # between the features the crate needs, and any other its source asks about: selection only
    fine = {"sse3", "ssse3", "sse4.2", "avx", "bmi2", "fma"} | {v for k, v in nounsafe.atoms() if k == "target_feature"}
    have = subprocess.run(["rustc", "--print", "target-features"], env=env(), stdout=subprocess.PIPE, text=True).stdout
    have = set(re.findall(r"^\s+(\S+)\s+-", have, re.M)) - {"sse4.1", "avx2", "crt-static"}
    here = subprocess.run(["rustc", "--print", "cfg", "-Ctarget-cpu=native"], env=env(), stdout=subprocess.PIPE, text=True).stdout
    fine = [f for f in sorted(fine & have) if 'target_feature="%s"' % f in here]
    fcells = [Cell("release", s, "-Ctarget-feature=+" + f) for s in (True, False) for f in fine[:12]]
    build_all(fcells)
    for cell in fcells:
        sel += [Job(cell, p(c, "select", scale=1, first=i)) for i in range(7)]
        f = cell.flags.split("+")[-1]
        for m in {"sse3": ("Nehalem", "SandyBridge"), "ssse3": ("Nehalem", "SandyBridge"), "sse4.2": ("Nehalem", "SandyBridge"),
                  "avx": ("SandyBridge",), "fma": ("Haswell,-avx2",), "bmi2": ("Haswell,-avx2",)}.get(f, ()):
            sel += [Job(cell, p(c, "select", scale=1, first=i), runner=["qemu-x86_64", "-cpu", m]) for i in range(7)]
    for cell in cells:
        slow = cell.target == ARM and not c.thorough
        sel += [Job(cell, p(c, "select", scale=1 if slow else c.scale, first=i)) for i in range(7)]
        results(cell, q(c, 0 if cell.profile == "dev" else 1, 1 if cell.profile == "dev" else 2))
    for cell in cells:
        if cell.target or cell.flags == AVX or cell.flags == NAT:
            continue
        for m in CPUS_EMULATED:
            if cell.flags and m in ("core2duo", "qemu64"):
                continue   # such a build does not run there
            r = ["qemu-x86_64", "-cpu", m]
            dev = cell.profile == "dev"
            sel += [Job(cell, p(c, "select", scale=min(c.scale - 1, 1 if dev else 2), first=i), runner=r)
                    for i in (range(7) if not dev or c.thorough else (0,))]
            if not dev and not cell.flags or c.thorough:
                results(cell, q(c, 0, 1), runner=r)
    c.run(sel + jobs)
    cfg = {}
    table = {}
    for j in sel:
        if j.cell not in cfg:
            cfg[j.cell] = enabled(j.cell)
        r = selections(j, cfg[j.cell])
        cpu = j.runner[-1] if "-cpu" in j.runner else "host"
        table["%s on %s" % (j.cell.name, cpu)] = r
    c.note("selection", configurations=len(table), table=table)
    for n, r in table.items():
        if r.get("unreadable"):
            say("Debug output does not name the backend:", n)
        c.states += 1


def C11(c):
    cells = [REL, RELN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), DEV, Cell("release", target=ARM), Cell("dev", target=ARM), Cell("release", target=X86),
             SSEN, AVXN]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        jobs += sharded(cell, p(c, "arb", scale=0 if cell.profile == "dev" else c.scale if cell in (REL, CHK) else 1), 8 if cell == REL else 4)
    if c.thorough:
        jobs += sharded(REL, p(c, "allcounts"), 64)
    c.run(jobs)


def C12(c):
    cells = [REL, RELN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86), Cell("release", flags=NAT), SSEN, AVXN]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        jobs += sharded(cell, p(c, "adapters", **sc), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    for via in (1, 2, 3):
        jobs = huge(REL, c, 8, plans=q(c, 2, 10), oracle="fresh", via=via, obs=1) + jobs
    c.run(jobs)


def C13(c):
    cells = [REL, RELN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86), Cell("release", flags=NAT), SSEN, AVXN]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        jobs += sharded(cell, p(c, "observers", **sc), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    c.run(huge(REL, c, plans=q(c, 10, 99), oracle="fresh", obs=1) + jobs)


def C14(c):
    cells = [REL, RELN, SSEN, CHK, wasm(flags=SIMD), wasm("checked", False, SIMD), Cell("release", target=ARM), Cell("release", target=X86)]
    cells += asked(("sse4.1", "avx2"))
    build_all(cells)
    jobs = []
    for cell in cells:
        sc = depth(c, cell)
        jobs += sharded(cell, p(c, "bfs", **sc, hops=1, canon=1, oracle="portable"), q(c, 8, 32) if cell == REL else q(c, 2, 8))
        jobs += sharded(cell, p(c, "hops", **sc, canon=1, oracle="portable"), q(c, 8, 32) if cell == REL else q(c, 2, 8))
    c.run(huge(REL, c, plans=q(c, 10, 99), oracle="portable", hop=1, canon=1) + jobs)


def C15(c):
    native = [REL, RELN, CHK, AVXN, SSEN]
    others = [DEV, Cell("release", target=X86), Cell("release", target=ARM)]
    w = [wasm(flags=SIMD), wasm("checked", False)]
    build_all(native + others + w)
    jobs = []
    for cell in native:
        first = cell == REL
        jobs += sharded(cell, p(c, "preempt", scale=c.scale if first else c.scale - 1), 8 if first else 4)
        jobs += sharded(cell, p(c, "preempt", scale=c.scale if first else c.scale - 1, points="all"), q(c, 8, 48) if first else 2)
        jobs += sharded(cell, p(c, "races", scale=c.scale if first else c.scale - 1), q(c, 8, 16) if first else 2)
    for cell in native + others:
        slow = cell.target == ARM or cell.profile == "dev"
        sc = c.scale if cell == REL else c.scale - 1
        n = 8 if cell == REL or slow else 4
        if slow and not c.thorough:
            jobs += sharded(cell, p(c, "interleave", scale=0, oracle="fresh"), 2)
            jobs += sharded(cell, p(c, "interleave", scale=0, oracle="alone", threads="some"), 4)
            continue
        jobs += sharded(cell, p(c, "interleave", scale=sc, oracle="alone"), n)
        jobs += sharded(cell, p(c, "interleave", scale=sc, oracle="alone", threads="some"), n)
    jobs += sharded(REL, p(c, "interleave", scale=c.scale - 1, oracle="alone", threads="all"), 8)
    for cell in w:
        jobs += sharded(cell, p(c, "interleave", scale=c.scale - 1, oracle="fresh"), 2)
    c.run(jobs)
    c.assume = ["interleavings are sequentially consistent: weak-memory behaviour is not explored",
                "concurrency on targets other than x86_64 Linux: operations switch threads, but do not overlap"]


def C16(c):
    import nounsafe
    nounsafe.check(c)
    c.assume = ["configurations are told apart by the conditions in the source; architectures without a compiled core here are pretended on this host",
                "what the standard library does inside its own functions is not part of the path"]


PPC = "powerpc64-unknown-linux-gnu"
MIRI_ARCH = {  # interpreted targets for conditions no other build here satisfies
    "arm": "armv7-unknown-linux-gnueabihf", "mips": "mips-unknown-linux-gnu", "mips64": "mips64-unknown-linux-gnuabi64",
    "riscv64": "riscv64gc-unknown-linux-gnu", "riscv32": "riscv32gc-unknown-linux-gnu", "loongarch64": "loongarch64-unknown-linux-gnu",
    "sparc64": "sparc64-unknown-linux-gnu", "sparc": "sparc-unknown-linux-gnu", "powerpc64": "powerpc64le-unknown-linux-gnu",
    "hexagon": "hexagon-unknown-linux-musl", "csky": "csky-unknown-linux-gnuabiv2", "m68k": "m68k-unknown-linux-gnu",
    "windows": "x86_64-pc-windows-gnu", "macos": "aarch64-apple-darwin", "freebsd": "x86_64-unknown-freebsd",
    "apple": "aarch64-apple-darwin", "msvc": "x86_64-pc-windows-msvc", "musl": "x86_64-unknown-linux-musl",
}


def ppc(profile="release", std=True):
    return Cell(profile, std, target=PPC, toolchain="nightly", buildstd="std,panic_unwind")


def C17(c):
    import nounsafe
    native = [CHK, CHKN, Cell("release", target=X86), Cell("checked", target=X86), Cell("dev", False, target=X86),
              ppc(), ppc("checked"), ppc("dev", False), wasm(), wasm("checked", False), wasm(flags=SIMD), Cell("release", target=ARM)]
    miri = [MiriCell(target="s390x-unknown-linux-gnu"), MiriCell(target="powerpc-unknown-linux-gnu")]
    # conditions in the source that none of these satisfies: interpret a target that does
    extra = []
    for k, v in nounsafe.atoms():
        if k in ("target_arch", "target_os", "target_vendor", "target_env") and MIRI_ARCH.get(v) and MIRI_ARCH[v] not in extra:
            extra.append(MIRI_ARCH[v])
    tried = []
    for t in extra[:4]:
        m = MiriCell(target=t)
        try:
            build_all([m])
            miri.append(m)
        except HarnessError:
            tried.append(t)
    build_all([REL, RELN] + native + miri)
    o = dict(oracle="portable", backends="portable")
    full = []

    def explore(x, n, scale=None, **kw):
        full.append((p(c, x, scale=scale, **o, **kw), n))
    explore("cross", 2)
    explore("lattice", 8, scale=q(c, 1, 2), gate=0)
    explore("lattice", 4, scale=q(c, 0, 1), gate=0, phases="update,final,keys,bytes")
    explore("lattice", 4, scale=2, gate=0, phases="lengths")
    explore("bfs", 2, hops=1)
    explore("hops", 4, scale=q(c, 1, 2))
    explore("arb", 4, scale=1)
    explore("stream", 2, scale=q(c, 1, 2))
    explore("default", 2, scale=1)
    small = [(p(c, "cross", scale=0, top=q(c, 34, 100), **o), q(c, 8, 32))]
    light = [(p(c, "cross", **o), 1), (p(c, "lattice", scale=0, gate=0, **o), 1), (p(c, "hops", scale=1, **o), 1)]
    groups = []          # (params, the jobs that must agree, base first)
    for params, n in small + full + light:
        if (params, n) in small:
            them = miri
        else:
            them = [x for x in native if (x.profile == "dev") == ((params, n) not in full)]
        for i in range(n):
            a = "%s nshards=%d shard=%d" % (params, n, i)
            # operations of the std adapters exist with std only: like is compared with like
            for b in (REL, RELN):
                who = [b] + [x for x in them if x.std == b.std and x != b]
                if len(who) > 1:
                    groups.append((a, [Job(w, a) for w in who]))
            if (params, n) == full[0]:
                groups.append((a, [Job(w, a) for w in (REL, RELN)]))
    jobs = [j for _, g in groups for j in g]
    jobs.sort(key=lambda j: 0 if isinstance(j.cell, MiriCell) else 1)
    # the longest slices and streams a 32-bit target can have (and, deeper, a big-endian one)
    far = sharded(Cell("release", target=X86), p(c, "huge", scale=2, oracle="spec", backends="portable", calls=70000), 8)
    if c.thorough:
        far += sharded(ppc(), p(c, "huge", scale=2, oracle="spec", backends="portable", calls=70000), 8)
    c.run(far + jobs)
    for a, g in groups:
        want = g[0].report
        for j in g[1:]:
            if j.report["digest"] != want["digest"]:
                differs(j, g[0], a)
    c.note("agreement", explorations=len(groups), targets=sorted({j.cell.name for j in jobs}),
           not_interpretable=tried)


def differs(j, base, a):
    """Two targets disagree on an exploration: find the history."""
    # first against the model: the target that is wrong gives a shortest script
    for who in (j, base):
        if " x=cross" in " " + a:
            break
        run_jobs([Job(who.cell, a.replace("oracle=portable", "oracle=spec"))])
    gold = [dict(re.match(r"HWMC-GOLD (\d+) (\S+)", l).groups() for l in x.lines if l.startswith("HWMC-GOLD")) for x in (base, j)]
    what = "results differ between %s and %s" % (base.cell.name, j.cell.name)
    for k in gold[0]:
        if gold[1].get(k) == gold[0][k]:
            continue
        two = [Job(x.cell, re.sub(r" nshards=\d+ shard=\d+", "", a) + " block=%s" % k) for x in (base, j)]
        run_jobs(two)
        cases = [[re.match(r"HWMC-CASE (\d+) (\S+) (.*)", l).groups() for l in x.lines if l.startswith("HWMC-CASE")] for x in two]
        for x, y in zip(*cases):
            if x != y:
                raise Violation(what + ": " + x[2], x[2].replace("; ", "\n"), j.cell, j.params, "targets")
    raise Violation(what + " in " + a, "# digests %s and %s" % (base.report["digest"], j.report["digest"]), j.cell, j.params, "targets")


def watched(*a, **kw):
    """A native cell that also watches the C library's allocator."""
    x = Cell(*a, tag="malloc", **kw)
    x.features = x.features + ["malloc"]
    return x


def unlinked(c):
    """The crate without std, linked into images that have no allocator at all."""
    def one(target, profile, control):
        cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", BUILD + "/noalloc-" + (target or "host")]
        cmd += ["--features", "control"] if control else []
        cmd += ["--target", target] if target else []
        f = SIMD if target and target.startswith("wasm") and profile == "release" else ""
        r = subprocess.run(cmd, cwd=VERIF + "/noalloc", env=env(STABLE, f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        return r.returncode, r.stdout
    n = 0
    for t in (None, X86, ARM, "wasm32-unknown-unknown"):
        for prof in ("release", "dev"):
            rc, out = one(t, prof, False)
            n += 1
            if rc and "no global memory allocator found" in out:
                raise Violation("without std, the crate needs a heap allocator (%s, %s)" % (t or "host", prof),
                                "\n".join("# " + l for l in out.splitlines()[-20:]), None, "", "needs-allocator")
            if rc and "could not compile `highway`" in out or rc and "can't find crate for `std`" in out:
                raise Violation("the crate does not build without std (%s, %s)" % (t or "host", prof),
                                "\n".join("# " + l for l in out.splitlines()[-20:]), None, "", "build")
            if rc:
                raise HarnessError("noalloc: " + out[-2500:])
        rc, out = one(t, "dev", True)
        if rc == 0 or "no global memory allocator found" not in out:
            raise HarnessError("the control image was not refused: " + out[-1500:])
    c.note("images without an allocator", linked=n, controls_refused=4)
    c.states += n


def C18(c):
    import callgraph
    A = watched("release")
    cells = [A, watched("release", False), watched("dev"), watched("dev", False), watched("checked", flags=NAT),
             watched("release", False, SSE), watched("dev", flags=AVX), watched("release", target=X86), watched("dev", False, target=X86),
             watched("release", target=ARM), watched("dev", target=ARM),
             wasm(flags=SIMD), wasm("dev", flags=SIMD), wasm("dev", False, SIMD), wasm("dev", False)]
    build_all(cells)
    v = dict(values=0, alloc="strict")
    jobs = []
    for cell in cells:
        full = cell == A
        slow = cell.profile == "dev"
        sc = c.scale if full else 1
        h = dict(hidden="debug") if slow else {}
        for x in ("stream", "hops", "adapters", "observers", "default", "totality"):
            jobs += sharded(cell, p(c, x, scale=sc, **v), q(c, 4, 16) if full else 1)
        jobs += sharded(cell, p(c, "interleave", scale=0 if slow or cell.target else 1, oracle="fresh", **v), 1)
        jobs += sharded(cell, p(c, "arb", scale=c.scale if full else 0 if slow else 1, **v), 4 if full else 1)
        jobs += sharded(cell, p(c, "bfs", scale=sc, hops=1, **v, **h), 2 if full else 1)
        jobs += sharded(cell, p(c, "lattice", scale=1 if full else 0, gate=0, **v), 2 if full else 1)
        # every size: a staging buffer need not appear at the first length
        jobs += sharded(cell, p(c, "lattice", scale=q(c, 1, 2) if full or not slow else 1, phases="lengths", gate=0, **v), 4 if full else 1)
        jobs += sharded(cell, p(c, "lattice", scale=2 if not slow or c.thorough else 1, phases="sizes", gate=0, **v), 4 if full else 2)
    jobs += sharded(A, p(c, "huge", oracle="fresh", **v), 16)
    jobs += sharded(watched("release", target=X86), p(c, "huge", scale=2, calls=70000, oracle="fresh", **v), 4)
    for cell in (watched("dev"), watched("dev", False)):
        jobs += sharded(cell, p(c, "lattice", scale=2, phases="sizes", maxsize=1 << 21, gate=0, backends="portable,auto", **v), 4)
    c.run(jobs)
    compiled_paths(c, callgraph.ALLOC, "op_|od_", callgraph.PANIC, "a heap allocation", "static-alloc")
    unlinked(c)


CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
