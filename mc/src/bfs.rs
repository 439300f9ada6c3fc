//! Explicit-state breadth-first search over the streaming machine: a state is (bytes consumed,
//! backend, hidden contents of the object); a transition appends the next L bytes of a fixed
//! stream (every L that fits) or hops through a checkpoint. Search runs to its fixpoint, so
//! every one of the 2^(N-1) ways to cut the stream - and every placement of hops - is covered.
use crate::backends::Any;
use crate::ctx::*;
use crate::data;
use crate::hist::Oracle;
use crate::lattice::{KEY0, KEY1};
use crate::plat;
use crate::spec::Spec;
use alloc::format;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;

struct Node {
    any: Any,
    parent: u32,
    /// 0x1000000 | backend for a hop, else the append length
    edge: u32,
}
const HOP: u32 = 0x100_0000;
/// edge flag: through Hasher::write / io::Write::write instead of append
const VIA_H: u32 = 0x10_0000;
const VIA_IO: u32 = 0x20_0000;

struct Trace<'a> {
    nodes: &'a Vec<Node>,
    at: u32,
    last: u32,
    home: u8,
    key: [u64; 4],
    pat: usize,
}
fn render(p: *const ()) -> String {
    let t = unsafe { &*(p as *const Trace) };
    let mut e = Vec::new();
    if t.last != u32::MAX {
        e.push(t.last);
    }
    let mut i = t.at;
    while t.nodes[i as usize].parent != u32::MAX {
        e.push(t.nodes[i as usize].edge);
        i = t.nodes[i as usize].parent;
    }
    let k = t.key;
    let mut s = format!(
        "0 new {} {:x} {:x} {:x} {:x}\n0 pattern {}\n",
        crate::backends::name(t.home), k[0], k[1], k[2], k[3], t.pat
    );
    for x in e.iter().rev() {
        if x & HOP != 0 {
            s.push_str(&format!("0 hop {}\n", crate::backends::name((x & 0xff) as u8)));
        } else {
            let n = x & 0xfffff;
            let w = if x & VIA_IO != 0 {
                "iowrite"
            } else if x & VIA_H != 0 {
                "hwrite"
            } else {
                "append"
            };
            s.push_str(&format!("0 {} {}\n", w, n));
        }
    }
    s.push_str("0 check\n");
    s
}

fn hidden(a: &Any, debug: bool) -> u64 {
    if debug {
        fnv(a.debug1(), a.id() as u64)
    } else {
        fnv(fnv_bytes(17, a.raw()), a.id() as u64)
    }
}

fn one(cx: &mut Ctx, home: u8, key: [u64; 4], pat: usize, n: usize, hops: bool, via: bool, oracle: Oracle) {
    let canon = cx.p.get("canon").is_some();
    let debug = cx.p.get("hidden") == Some("debug");
    let cap = cx.p.num("cap", [3_000, 60_000, 1_500_000, 6_000_000][cx.scale.min(3) as usize]) as usize;
    let stream = data::slice(pat, 0, n);
    // the reference observation at every position
    let refs: Vec<Expect> = (0..=n)
        .map(|p| {
            if oracle == Oracle::Spec {
                let mut s = Spec::new(key);
                s.absorb(&stream[..p]);
                return Expect::new(&s, OUT | CK);
            }
            let b = if oracle == Oracle::Portable { 0 } else { home };
            let mk = || {
                let mut a = Any::new(b, key);
                a.append(&stream[..p]);
                a
            };
            Expect {
                obs: OUT | CK,
                n: p % 32,
                ck: mk().checkpoint(),
                o64: mk().fin64(),
                o128: mk().fin128(),
                o256: mk().fin256(),
            }
        })
        .collect();
    let mut seen = Distinct::new(if cx.scale >= 2 { 23 } else { 17 });
    let mut nodes: Vec<Node> = vec![Node {
        any: Any::new(home, key),
        parent: u32::MAX,
        edge: 0,
    }];
    // states grouped by position; a hop adds to the current position's list
    let mut at: Vec<Vec<u32>> = vec![Vec::new(); n + 1];
    at[0].push(0);
    seen.add(fnv(hidden(&nodes[0].any, debug), 0));
    let backends = cx.backends.clone();
    let mut capped = false;
    for p in 0..=n {
        let mut i = 0;
        while i < at[p].len() {
            let id = at[p][i];
            i += 1;
            // observe
            {
                let t = Trace { nodes: &nodes, at: id, last: u32::MAX, home, key, pat };
                unsafe { plat::CURRENT = Some((render, &t as *const Trace as *const ())) };
                let e = &refs[p];
                let a = &nodes[id as usize].any;
                let bad = |what: &str, g: String, w: String| {
                    plat::differs(what, || {
                        format!("{}# {}: got {} want {} ({:?} reference)\n", render(&t as *const Trace as *const ()), what, g, w, oracle)
                    })
                };
                let ck = a.checkpoint();
                if canon && cx.tails_on {
                    if ck != e.ck {
                        bad("checkpoint bytes", hex(&ck), hex(&e.ck));
                    }
                } else if !ck_eq(&ck, &e.ck, e.n) {
                    bad("checkpoint", hex(&ck), hex(&e.ck));
                }
                let g = a.finish();
                if g != e.o64 {
                    bad("finish", format!("{:x}", g), format!("{:x}", e.o64));
                }
                let g = a.clone().fin64();
                if g != e.o64 {
                    bad("hash64", format!("{:x}", g), format!("{:x}", e.o64));
                }
                let g = a.clone().fin128();
                if g != e.o128 {
                    bad("hash128", format!("{:x?}", g), format!("{:x?}", e.o128));
                }
                let g = a.clone().fin256();
                if g != e.o256 {
                    bad("hash256", format!("{:x?}", g), format!("{:x?}", e.o256));
                }
                if canon {
                    let m = e.n;
                    let tail = &ck[128 + m..160];
                    match &cx.tails[m] {
                        None => {
                            let mut x = [0u8; 32];
                            x[..tail.len()].copy_from_slice(tail);
                            cx.tails[m] = Some(x);
                        }
                        Some(x) => {
                            if x[..tail.len()] != *tail {
                                bad(
                                    "bytes beyond the pending count depend on absorbed input",
                                    hex(tail),
                                    hex(&x[..tail.len()]),
                                );
                            }
                        }
                    }
                    for b in &backends {
                        let r = Any::restore(*b, &ck).checkpoint();
                        if r != ck {
                            bad(
                                &format!("restore({}) then checkpoint", crate::backends::name(*b)),
                                hex(&r),
                                hex(&ck),
                            );
                        }
                    }
                }
                cx.evals += 1;
                let d = e.digest();
                if cx.outcomes.add(d) {
                    cx.digest = cx.digest.wrapping_add(fnv(d, p as u64));
                }
            }
            // successors
            let mut edges: Vec<u32> = Vec::with_capacity(n - p + 8);
            if hops {
                for b in &backends {
                    edges.push(HOP | *b as u32);
                }
            }
            for l in 0..=(n - p) {
                edges.push(l as u32);
                if via && (l < 3 || l % 7 == p % 7 || l % 32 < 2) {
                    edges.push(VIA_H | l as u32);
                    #[cfg(feature = "hstd")]
                    edges.push(VIA_IO | l as u32);
                }
            }
            for e in edges {
                let (q, a) = {
                    let t = Trace { nodes: &nodes, at: id, last: e, home, key, pat };
                    unsafe { plat::CURRENT = Some((render, &t as *const Trace as *const ())) };
                    let src = &nodes[id as usize].any;
                    if e & HOP != 0 {
                        (p, Any::restore((e & 0xff) as u8, &src.checkpoint()))
                    } else {
                        let l = (e & 0xfffff) as usize;
                        let mut a = src.clone();
                        let d = &stream[p..p + l];
                        if e & VIA_H != 0 {
                            a.hwrite(d);
                        } else if e & VIA_IO != 0 {
                            #[cfg(feature = "hstd")]
                            if a.iowrite(d) != Ok(l) {
                                plat::differs("io::Write::write did not report the full length", || render(&t as *const Trace as *const ()));
                            }
                        } else {
                            a.append(d);
                        }
                        (p + l, a)
                    }
                };
                if seen.n as usize >= cap || seen.full {
                    capped = true;
                    // a state that cannot be remembered is still observed: only its
                    // successors are not explored
                    continue;
                }
                if seen.add(fnv(hidden(&a, debug), q as u64 + 1)) {
                    let nid = nodes.len() as u32;
                    nodes.push(Node { any: a, parent: id, edge: e });
                    at[q].push(nid);
                }
            }
        }
    }
    unsafe { plat::CURRENT = None };
    for x in 0..nodes.len() {
        cx.states.add(fnv(fnv(x as u64, home as u64 + 100 * pat as u64), fnv(key[0], hops as u64)));
    }
    if capped {
        cx.capped = true;
        cx.notes.push(format!("search over {} bytes from {} capped at {} states", n, crate::backends::name(home), cap));
    }
    if cx.samples.len() < 3 && nodes.len() > 20 {
        let t = Trace { nodes: &nodes, at: (nodes.len() / 2) as u32, last: u32::MAX, home, key, pat };
        cx.samples.push(render(&t as *const Trace as *const ()).replace('\n', "; "));
    }
    cx.notes.push(format!("{}/{}/pattern{}: {} states", n, crate::backends::name(home), pat, nodes.len()));
}

pub fn explore(cx: &mut Ctx) {
    let hops = cx.p.num("hops", 0) == 1;
    let via = cx.p.num("via", 0) == 1;
    let oracle = Oracle::of(cx, Oracle::Fresh);
    let n = cx.p.num("bytes", [36, 66, 100, 132][cx.scale.min(3) as usize]) as usize;
    let pats: &[usize] = match cx.scale {
        0 => &[0],
        1 => &[0, 2],
        _ => &[0, 1, 2, 3, 4],
    };
    // canonical comparison across backends
    if cx.p.get("canon").is_some() {
        cx.tails_on = true;
    }
    for home in cx.backends.clone() {
        for &pat in pats {
            for key in [KEY1, KEY0] {
                if key == KEY0 && (cx.scale < 2 || pat != 4) {
                    continue;
                }
                if !cx.take() {
                    continue;
                }
                // low-entropy streams collapse to few hidden states: search longer ones
                let m = if pat == 1 || pat == 2 { n + n / 2 } else { n };
                one(cx, home, key, pat, m, hops, via, oracle);
            }
        }
    }
}
