"""Reachability over compiled code: which functions can an exported operation end up in?
Nodes are the functions of one relocatable object, edges their direct call, jump and
address-taking relocations; explored breadth-first from every `op_` symbol."""
import re, subprocess, collections

PANIC = re.compile(
    r"core::panicking|std::panicking|core::option::(unwrap|expect)_failed|core::result::(unwrap|expect)_failed|"
    r"core::slice::(index|copy_from_slice)[^ ]*(fail|mismatch)|core::str::slice_error_fail|core::cell::panic|"
    r"handle_alloc_error|alloc::raw_vec::(handle_error|capacity_overflow)|rust_begin_unwind|rust_panic|"
    r"_Unwind_(RaiseException|Resume)|std::process::(abort|exit)|^abort$|len_mismatch_fail|_fail(ed)?(::|$|\b)|"
    r"__rust_start_panic|panic_const|panic_fmt|panic_bounds_check|panic_nounwind|rust_foreign_exception")

ALLOC = re.compile(
    r"__rust(c::)?_*alloc|__rust_(realloc|alloc)|__rg_|__rdl_|^__r(ust|dl|g)_|\b(malloc|calloc|realloc|reallocarray|memalign|posix_memalign|aligned_alloc|valloc|pvalloc|"
    r"strdup|mmap|mmap64|sbrk|brk|HeapAlloc)$|alloc::alloc::|exchange_malloc|std::alloc::|System as core::alloc|"
    r"__cxa_thread_atexit|register_dtor|^_Znwm|^_Znam|operator new")


def demangle(names):
    p = subprocess.run(["c++filt", "-s", "auto"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.splitlines()))


def graph(obj, objdump="objdump"):
    """{function: set(callees)}, instruction counts, and ud2-like trap counts."""
    out = subprocess.run([objdump, "-dr", "--no-show-raw-insn", obj], stdout=subprocess.PIPE, text=True, errors="replace").stdout
    g, n = collections.OrderedDict(), collections.Counter()
    cur = None
    for l in out.splitlines():
        m = re.match(r"^[0-9a-f]+ <(.+)>:$", l)
        if m:
            if not m.group(1).startswith((".L", "$", "BB")):
                cur = m.group(1)
                g.setdefault(cur, set())
            continue
        if cur is None:
            continue
        m = re.search(r"\sR_[A-Z0-9_]+\s+([^\s]+)", l)
        if m:
            s = re.sub(r"@.*$", "", m.group(1))
            s = re.sub(r"[-+]0x[0-9a-f]+$|[-+]\d+$", "", s)
            if s.startswith(".text."):
                s = s[6:]
                for pre in ("unlikely.", "hot.", "startup."):
                    if s.startswith(pre):
                        s = s[len(pre):]
            g[cur].add(s)
            continue
        if re.match(r"^\s*[0-9a-f]+:", l):
            n[cur] += 1
            # direct branches inside one section carry no relocation
            m = re.search(r"<([^<>+]+)(\+0x[0-9a-f]+)?>\s*$", l)
            if m and m.group(1) != cur:
                g[cur].add(m.group(1))
    return g, n


def reach(obj, objdump="objdump", goal=PANIC, roots="op_", past=None):
    """(roots, functions reached, instructions, [(root, path to a goal)]); paths do not go
    past functions that match `past`."""
    g, n = graph(obj, objdump)
    dem = demangle(sorted(set(g) | {c for v in g.values() for c in v}))
    short = lambda s: re.sub(r"::h[0-9a-f]{16}$", "", dem.get(s, s))
    roots = [f for f in g if re.match(r"^(%s)[a-z0-9_]+$" % roots, f)]
    bad, seen_all = [], set()
    for r in roots:
        prev = {r: None}
        q = collections.deque([r])
        hit = None
        while q and hit is None:
            f = q.popleft()
            for c in sorted(g.get(f, ())):
                if c in prev:
                    continue
                prev[c] = f
                if goal.search(short(c)):
                    hit = c
                    break
                if past is None or not past.search(short(c)):
                    q.append(c)
        seen_all |= set(prev)
        if hit:
            p, x = [], hit
            while x:
                p.append(short(x))
                x = prev[x]
            bad.append((r, p[::-1]))
    inner = [f for f in seen_all if f in g]
    ext = sorted({short(f) for f in seen_all if f not in g})
    return roots, inner, ext, sum(n[f] for f in inner), bad


if __name__ == "__main__":
    import sys
    roots, inner, ext, ins, bad = reach(sys.argv[1], *sys.argv[2:3])
    print(len(roots), "roots", len(inner), "functions", ins, "instructions")
    print("external:", ext[:60])
    for r, p in bad:
        print(r, " -> ".join(p)[:300])
