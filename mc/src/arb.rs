//! Restoring arbitrary 164-byte arrays (C11): no panic, the same results on every backend,
//! and the laws of a fresh hasher.
use crate::backends::{self, Any};
use crate::ctx::*;
use crate::data;
use crate::plat;
use alloc::format;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;

struct Cur<'a> {
    c: &'a [u8; 164],
    b: u8,
    what: &'a str,
}
fn render(p: *const ()) -> String {
    let c = unsafe { &*(p as *const Cur) };
    format!("0 restore {} {}\n# law: {}\n0 check\n", backends::name(c.b), hex(c.c), c.what)
}

#[derive(PartialEq, Clone)]
struct Obs {
    o64: u64,
    fin: u64,
    o128: [u64; 2],
    o256: [u64; 4],
}
fn obs(a: Any) -> Obs {
    let (b, c) = (a.clone(), a.clone());
    Obs {
        fin: a.finish(),
        o64: a.fin64(),
        o128: b.fin128(),
        o256: c.fin256(),
    }
}

/// follow-up appends (each a chunking of a stream prefix)
fn follow(scale: u32) -> Vec<Vec<usize>> {
    let mut v = vec![vec![], vec![0], vec![1], vec![32], vec![33]];
    if scale >= 1 {
        v.extend([vec![31], vec![5, 40], vec![64], vec![0, 0], vec![1, 0, 31], vec![100]]);
    }
    v
}

fn one(cx: &mut Ctx, c: &[u8; 164], deep: bool) {
    let d = data::slice(0, 0, 160);
    let bs = cx.backends.clone();
    let bad = |b: u8, what: &str, script: String| {
        plat::differs(&format!("{} on {}", what, backends::name(b)), || script)
    };
    let run = |b: u8, ch: &[usize]| -> Any {
        let mut a = Any::restore(b, c);
        let mut at = 0;
        for l in ch {
            a.append(&d[at..at + l]);
            at += l;
        }
        a
    };
    let script = |b: u8, ch: &[usize]| -> String {
        let mut s = format!("0 restore {} {}\n0 pattern 0\n", backends::name(b), hex(c));
        for l in ch {
            s.push_str(&format!("0 append {}\n", l));
        }
        s.push_str("0 check\n");
        s
    };
    let fl = follow(if deep { 1 } else { 0 });
    let mut first: Vec<Obs> = Vec::new();
    for &b in &bs {
        let cur = Cur { c, b, what: "no panic, backend agreement" };
        unsafe { plat::CURRENT = Some((render, &cur as *const Cur as *const ())) };
        for (i, ch) in fl.iter().enumerate() {
            let o = obs(run(b, ch));
            if o.fin != o.o64 {
                bad(b, "finish differs from finalize64 after restore", script(b, ch));
            }
            // streaming invariance: the same bytes in one append (none: no append at all)
            let total: usize = ch.iter().sum();
            if ch.len() > 1 || total == 0 {
                let one: &[usize] = &[total];
                let r = obs(run(b, if total == 0 { &[] } else { one }));
                if r != o {
                    bad(
                        b,
                        if total == 0 { "an empty append changes a restored hasher" } else { "chunking changes a restored hasher" },
                        script(b, ch),
                    );
                }
            } else if ch.len() == 1 && deep {
                for cut in [0, 1, total / 2, total.saturating_sub(1), total] {
                    let two = [cut.min(total), total - cut.min(total)];
                    if obs(run(b, &two)) != o {
                        bad(b, "chunking changes a restored hasher", script(b, &two));
                    }
                }
            }
            if b == bs[0] {
                first.push(o.clone());
                let mut h = fnv(o.o64, i as u64);
                for x in o.o128.iter().chain(o.o256.iter()) {
                    h = fnv(h, *x);
                }
                cx.outcomes.add(h);
                cx.digest = cx.digest.wrapping_add(fnv_bytes(h, c));
            } else if o != first[i] {
                bad(b, &format!("differs from {} after restore", backends::name(bs[0])), script(b, ch));
            }
            cx.evals += 1;
        }
        // its own checkpoint restores transparently, everywhere
        let cur = Cur { c, b, what: "own checkpoint restores transparently" };
        unsafe { plat::CURRENT = Some((render, &cur as *const Cur as *const ())) };
        for (ch, rest) in [(&[][..], 0usize), (&[][..], 33), (&[3][..], 30), (&[40][..], 1)] {
            if !deep && rest != 33 {
                continue;
            }
            let a = run(b, ch);
            let c2 = a.checkpoint();
            let at: usize = ch.iter().sum();
            let mut x = a;
            x.append(&d[at..at + rest]);
            let want = obs(x);
            for &b2 in &bs {
                let mut y = Any::restore(b2, &c2);
                y.append(&d[at..at + rest]);
                if obs(y) != want {
                    bad(
                        b,
                        &format!("the checkpoint of a restored hasher does not restore transparently to {}", backends::name(b2)),
                        format!("{}# then checkpoint, restore on {}, append {}\n", script(b, ch), backends::name(b2), rest),
                    );
                }
            }
            if cx.p.get("canon").is_some() {
                let c3 = Any::restore(b, &c2).checkpoint();
                if c3 != c2 {
                    bad(b, "restore then checkpoint is not the identity on a produced checkpoint", script(b, ch));
                }
            }
        }
    }
    unsafe { plat::CURRENT = None };
    let s = fnv_bytes(1, c);
    cx.states.add(s);
    if cx.samples.len() < 2 && cx.states.n % 101 == 3 {
        cx.samples.push(format!("restore {}", hex(c)));
    }
}

fn put_count(c: &mut [u8; 164], n: u32) {
    c[160..].copy_from_slice(&n.to_le_bytes());
}

pub fn counts(cx: &Ctx) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=70).collect();
    for k in 5..32u32 {
        for d in [-33i64, -32, -31, -1, 0, 1, 31, 32, 33] {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    v.extend([u32::MAX, u32::MAX - 1, u32::MAX - 31, u32::MAX - 32, 0x2000_0000, 0x2020_2020]);
    for i in 0..4 {
        for x in 0..256u32 {
            v.push(x << (8 * i));
            v.push((x << (8 * i)) | 5);
        }
    }
    for d in &cx.dict {
        for e in [0u64, 1, u64::MAX, 32] {
            v.push(d.wrapping_add(e) as u32);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn explore(cx: &mut Ctx) {
    let mut bases: Vec<[u8; 164]> = Vec::new();
    for (i, fill) in [0u8, 0xff, 0x80].iter().enumerate() {
        if cx.scale == 0 && i > 0 {
            break;
        }
        bases.push([*fill; 164]);
    }
    let mut r = Rng(23);
    for _ in 0..2 {
        let mut c = [0u8; 164];
        for x in c.iter_mut() {
            *x = r.next() as u8;
        }
        bases.push(c);
    }
    // a checkpoint the library itself produced
    let mut a = Any::new(0, crate::lattice::KEY1);
    a.append(data::slice(0, 0, 77));
    bases.push(a.checkpoint());

    let cs = counts(cx);
    for (i, b) in bases.iter().enumerate() {
        for n in &cs {
            if cx.scale == 0 && *n > 33 && *n % 64 != 0 && *n < u32::MAX - 1 {
                continue;
            }
            if !cx.take() {
                continue;
            }
            let mut c = *b;
            put_count(&mut c, *n);
            one(cx, &c, i >= 3 || *n < 70);
        }
    }
    if cx.scale == 0 {
        return;
    }
    // every byte of the array x every value, at the counts around the limits
    let ns: &[u32] = if cx.scale >= 2 { &[0, 1, 15, 16, 17, 30, 31, 32, 33, 64, u32::MAX] } else { &[0, 31, 32] };
    for n in ns {
        for pos in 0..160usize {
            if !cx.take() {
                continue;
            }
            let step = if cx.scale >= 2 { 1 } else { 51 };
            for v in (0..256usize).step_by(step) {
                let mut c = bases[bases.len() - 1];
                put_count(&mut c, *n);
                c[pos] = v as u8;
                one(cx, &c, false);
            }
        }
    }
    // lanes through the alphabet
    let al = crate::lattice::alphabet(cx);
    for lane in 0..20usize {
        for x in &al {
            if !cx.take() {
                continue;
            }
            for n in ns {
                for b in [0usize, 1, bases.len() - 1] {
                    let mut c = bases[b];
                    put_count(&mut c, *n);
                    c[8 * lane..8 * lane + 8].copy_from_slice(&x.to_le_bytes());
                    one(cx, &c, false);
                }
            }
        }
    }
}

/// All 2^32 values of the count field (thorough): portable hasher laws and agreement of every
/// backend, against the result for the class representative computed in full above.
pub fn all_counts(cx: &mut Ctx) {
    let mut c = [0u8; 164];
    let mut r = Rng(29);
    for x in c.iter_mut() {
        *x = r.next() as u8;
    }
    let d = data::slice(0, 0, 33);
    let bs = cx.backends.clone();
    let lo = cx.p.num("from", 0);
    let hi = cx.p.num("to", 1 << 32);
    let per = (hi - lo + cx.nshards - 1) / cx.nshards;
    let (a, b) = (lo + per * cx.shard, (lo + per * (cx.shard + 1)).min(hi));
    let mut n = a;
    while n < b {
        put_count(&mut c, n as u32);
        let mut w = None;
        for &b in &bs {
            let cur = Cur { c: &c, b, what: "no panic, agreement, empty append" };
            unsafe { plat::CURRENT = Some((render, &cur as *const Cur as *const ())) };
            let mut h = Any::restore(b, &c);
            let f0 = h.finish();
            h.append(&[]);
            let f1 = h.finish();
            h.append(d);
            let f2 = h.fin64();
            let bad = f0 != f1
                || match w {
                    None => {
                        w = Some((f0, f2));
                        false
                    }
                    Some(x) => x != (f0, f2),
                };
            if bad {
                plat::differs("law broken after restore", || render(&cur as *const Cur as *const ()));
            }
            cx.evals += 1;
        }
        if let Some((x, y)) = w {
            cx.outcomes.add(fnv(x, y));
        }
        n += 1;
    }
    unsafe { plat::CURRENT = None };
    cx.notes.push(format!("counts {}..{} exhausted", a, b));
}
