//! Data-space lattices: every one-step behaviour (key schedule, packet update, remainder,
//! finalisation) over complete finite neighbourhoods of the 1024-bit state, plus all keyed
//! input lengths, bytes and splits within the bounds.
use crate::ctx::*;
use crate::data;
use crate::plat::lib;
use crate::spec::*;
use alloc::vec;
use alloc::vec::Vec;
use highway::{HighwayHash, PortableHash};

pub const KEY0: [u64; 4] = [
    0x0706050403020100,
    0x0F0E0D0C0B0A0908,
    0x1716151413121110,
    0x1F1E1D1C1B1A1918,
];
pub const KEY1: [u64; 4] = [
    0xf0e1d2c3b4a59687,
    0x8899aabbccddeeff,
    0xfedcba9876543210,
    0x80000000ffffffff,
];

pub fn keys() -> [[u64; 4]; 4] {
    [KEY0, KEY1, [0; 4], [u64::MAX; 4]]
}

/// Lane values every lane is driven through.
pub fn alphabet(cx: &Ctx) -> Vec<u64> {
    let mut v = vec![
        0,
        u64::MAX,
        1,
        0x8000_0000_0000_0000,
        0xffff_ffff,
        0xffff_ffff_0000_0000,
        0x8000_0000,
        0x0123_4567_89ab_cdef,
        0x1_0000_0000,
        0x7fff_ffff_ffff_ffff,
        0xfedc_ba98_7654_3210,
        0x7fff_ffff,
        0x00ff_00ff_00ff_00ff,
        0xff00_ff00_ff00_ff00,
    ];
    for i in 0..4 {
        v.push(INIT0[i]);
        v.push(INIT1[i]);
        v.push(INIT1[i].rotate_left(32));
    }
    for d in &cx.dict {
        v.push(*d);
        v.push(d.wrapping_add(1));
        v.push(d.wrapping_sub(1));
        v.push(d << 32);
        v.push(!d);
    }
    let mut out: Vec<u64> = Vec::new();
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// Does the checkpoint codec carry arbitrary states faithfully, on every backend? Phases
/// that inject states need it; if it fails, that is C06's and C14's finding, and this
/// exploration falls back to keyed inputs only.
pub fn codec_ok(cx: &Ctx) -> bool {
    let mut ok = true;
    let mut test = |s: &Spec| {
        let c = s.ckpt();
        for b in cx.backends.iter() {
            let r = crate::with_backend!(*b, B => {
                let h = lib(|| <B as crate::backends::H>::rs(c));
                lib(|| HighwayHash::checkpoint(&h))
            });
            ok &= ck_eq(&r, &c, s.n);
        }
        let h = lib(|| PortableHash::from_checkpoint(c));
        ok &= ck_eq(&lib(|| HighwayHash::checkpoint(&h)), &c, s.n);
    };
    let mut r = Rng(7);
    for base in 0..3 {
        let mut l = [0u64; 16];
        for x in l.iter_mut() {
            *x = match base {
                0 => 0,
                1 => u64::MAX,
                _ => r.next(),
            };
        }
        for n in 0..32usize {
            test(&Spec::from_parts(&l, &data::slice(0, n, 2 * n)));
        }
        for b in 0..1024 {
            let mut m = l;
            m[b / 64] ^= 1 << (b % 64);
            test(&Spec::from_parts(&m, &data::slice(0, 3, 3 + b % 32)));
        }
    }
    ok
}

fn keyed(cx: &mut Ctx, key: [u64; 4], chunks: &[&[u8]], obs: u8) {
    let mut s = Spec::new(key);
    for c in chunks {
        s.absorb(c);
    }
    cx.check(Init::Key(key), chunks, obs, &s);
}

struct Cfg {
    inject: bool,
    ck: u8,
}

fn phase_keys(cx: &mut Ctx, c: &Cfg) {
    let al = alphabet(cx);
    let obs = OUT | c.ck;
    let d = data::slice(0, 0, 256);
    // full product over the core alphabet
    let core = [1, 2, 5, 9][cx.scale.min(3) as usize];
    for a in 0..core {
        for b in 0..core {
            if !cx.take() {
                continue;
            }
            for e in 0..core {
                for f in 0..core {
                    for n in [0usize, 3, 32, 50] {
                        keyed(cx, [al[a], al[b], al[e], al[f]], &[&d[..n]], obs);
                    }
                }
            }
        }
    }
    // every alphabet value in each lane, each pair of lanes
    let full = if cx.scale == 0 { 8 } else { al.len() };
    for base in keys() {
        for i in 0..4 {
            for j in i..4 {
                if cx.scale == 0 && i != j {
                    continue;
                }
                for x in 0..full {
                    if !cx.take() {
                        continue;
                    }
                    for y in 0..(if i == j { 1 } else { full }) {
                        let mut k = base;
                        k[i] = al[x];
                        if i != j {
                            k[j] = al[y];
                        }
                        keyed(cx, k, &[&d[..17]], obs);
                    }
                }
            }
        }
    }
    if cx.scale == 0 {
        return;
    }
    // bit balls
    let nb = [1, 1, 2, 4][cx.scale.min(3) as usize];
    for base in keys().iter().take(nb) {
        for i in 0..256 {
            if !cx.take() {
                continue;
            }
            for j in 0..=(if cx.scale >= 2 { i } else { 0 }) {
                let mut k = *base;
                k[i / 64] ^= 1 << (i % 64);
                if j != i {
                    k[j / 64] ^= 1 << (j % 64);
                }
                keyed(cx, k, &[&d[..35]], obs);
            }
        }
    }
}

/// Every length 0..=max in one call, and (up to a smaller bound) in every two-call split.
fn phase_lengths(cx: &mut Ctx, c: &Cfg) {
    let max = cx.p.num("maxlen", [68, 300, 2200, 9000][cx.scale.min(3) as usize]) as usize;
    let nkeys = if cx.scale >= 1 { 2 } else { 1 };
    for key in keys().iter().take(nkeys) {
        for p in 0..data::PATTERNS {
            if cx.scale == 0 && p % 4 != 0 {
                continue;
            }
            let d = data::slice(p, 0, max + 1);
            let mut s = Spec::new(*key);
            for n in 0..=max {
                if cx.take() {
                    cx.check(Init::Key(*key), &[&d[..n]], OUT | c.ck, &s);
                }
                s.absorb(&d[n..n + 1]);
            }
        }
    }
    let split = [34, 70, 130, 300][cx.scale.min(3) as usize];
    let d = data::slice(0, 0, 2 * split + 1);
    for n in 0..=split {
        if !cx.take() {
            continue;
        }
        let mut s = Spec::new(KEY1);
        s.absorb(&d[..n]);
        for a in 0..=n {
            cx.check(Init::Key(KEY1), &[&d[..a], &d[a..n]], OUT | c.ck, &s);
        }
    }
}

/// Every value of every byte of every input up to a length; pairs and triples of the bytes
/// in the last group.
fn phase_bytes(cx: &mut Ctx, c: &Cfg) {
    let max = [33, 40, 100, 200][cx.scale.min(3) as usize];
    let step = if cx.scale == 0 { 85 } else { 1 };
    for p in [0usize, 1, 2] {
        if cx.scale == 0 && p > 0 {
            return;
        }
        for n in 1..=max {
            if !cx.take() {
                continue;
            }
            let mut d = data::slice(p, 0, n).to_vec();
            let start = if p == 0 { 0 } else { n.saturating_sub(40) };
            for i in start..n {
                if cx.scale == 0 && i + 6 < n && i % 5 != 0 {
                    continue;
                }
                let old = d[i];
                for v in (0..256).step_by(step) {
                    d[i] = v as u8;
                    keyed(cx, KEY1, &[&d], OUT | (c.ck & if v == 0x80 { CK } else { 0 }));
                }
                d[i] = old;
            }
        }
    }
    if cx.scale == 0 {
        return;
    }
    let al: &[u8] = if cx.scale == 1 {
        &[0, 0xff, 0x80]
    } else {
        &[0, 1, 0x7f, 0x80, 0xff, 0x55]
    };
    for n in 1..=64usize {
        if !cx.take() {
            continue;
        }
        let mut d = data::slice(5, 0, n).to_vec();
        for i in 0..n {
            for j in 0..i {
                let (a, b) = (d[i], d[j]);
                for &x in al {
                    for &y in al {
                        d[i] = x;
                        d[j] = y;
                        keyed(cx, KEY0, &[&d], OUT);
                    }
                }
                d[i] = a;
                d[j] = b;
            }
        }
        // exhaustive pairs of the last two bytes; alphabet^4 of the last four
        if n >= 2 && cx.scale >= 2 {
            let t = d.clone();
            for x in 0..256usize {
                for y in (0..256).step_by(if cx.scale == 2 { 5 } else { 1 }) {
                    d[n - 1] = x as u8;
                    d[n - 2] = y as u8;
                    keyed(cx, KEY0, &[&d], F64);
                }
            }
            d = t;
        }
        if n >= 4 {
            for &x in al {
                for &y in al {
                    for &z in al {
                        for &w in al {
                            d[n - 1] = x;
                            d[n - 2] = y;
                            d[n - 3] = z;
                            d[n - 4] = w;
                            keyed(cx, KEY0, &[&d], F256);
                        }
                    }
                }
            }
        }
    }
}

fn bases(k: usize) -> Vec<[u64; 16]> {
    let mut r = Rng(11);
    let mut v = vec![[0u64; 16], [u64::MAX; 16]];
    let mut s = Spec::new(KEY1);
    s.absorb(data::slice(0, 0, 96));
    v.push(s.lanes());
    v.push(Spec::new(KEY0).lanes());
    for _ in 0..8 {
        let mut l = [0; 16];
        for x in l.iter_mut() {
            *x = r.next();
        }
        v.push(l);
    }
    v.truncate(k);
    v
}

fn inject(cx: &mut Ctx, s: &Spec, chunks: &[&[u8]], obs: u8) {
    let c = s.ckpt();
    let mut t = *s;
    for d in chunks {
        t.absorb(d);
    }
    cx.check(Init::Ckpt(&c), chunks, obs, &t);
}

/// Packet update from every state in a neighbourhood (state and packet bits together).
fn phase_update(cx: &mut Ctx, c: &Cfg) {
    if !c.inject {
        return;
    }
    let nb = [1, 2, 4, 12][cx.scale.min(3) as usize];
    for (bi, l) in bases(nb).iter().enumerate() {
        let mut pk = [0u8; 32];
        pk.copy_from_slice(data::slice([1, 2, 0, 5][bi % 4], 64, 96));
        let apply = |l: &mut [u64; 16], p: &mut [u8; 32], b: usize| {
            if b < 1024 {
                l[b / 64] ^= 1 << (b % 64);
            } else {
                p[(b - 1024) / 8] ^= 1 << (b % 8);
            }
        };
        let rad2 = cx.scale >= 2;
        let stepi = if cx.scale == 0 { 37 } else { 1 };
        for i in (0..1280).step_by(stepi) {
            if !cx.take() {
                continue;
            }
            let jmax = if rad2 { i } else { 0 };
            for j in 0..=jmax {
                let (mut m, mut p) = (*l, pk);
                apply(&mut m, &mut p, i);
                if j != i && rad2 {
                    apply(&mut m, &mut p, j);
                }
                inject(cx, &Spec::from_parts(&m, &[]), &[&p], CK);
            }
        }
    }
    // the five words one lane's step reads, through the alphabet
    let al = alphabet(cx);
    let core = [2, 3, 8, 12][cx.scale.min(3) as usize].min(al.len());
    for base in bases(2) {
        for lane in 0..4 {
            for a in 0..core {
                for b in 0..core {
                    if !cx.take() {
                        continue;
                    }
                    for e in 0..core {
                        for f in 0..core {
                            for g in 0..core {
                                let mut l = base;
                                l[lane] = al[a];
                                l[4 + lane] = al[b];
                                l[8 + lane] = al[e];
                                l[12 + lane] = al[f];
                                let mut p = [0u8; 32];
                                p[8 * lane..8 * lane + 8].copy_from_slice(&al[g].to_le_bytes());
                                inject(cx, &Spec::from_parts(&l, &[]), &[&p], CK);
                            }
                        }
                    }
                }
            }
        }
    }
    // every pair of state words through the whole alphabet (dictionary included)
    if cx.scale >= 1 {
        let n = if cx.scale == 1 { 6 } else { al.len() };
        for i in 0..20 {
            for j in 0..i {
                if !cx.take() {
                    continue;
                }
                for x in 0..n {
                    for y in 0..n {
                        let mut l = bases(3)[2];
                        let mut p = [0u8; 32];
                        p.copy_from_slice(data::slice(0, 0, 32));
                        for (w, v) in [(i, al[x]), (j, al[y])] {
                            if w < 16 {
                                l[w] = v;
                            } else {
                                p[8 * (w - 16)..8 * (w - 16) + 8].copy_from_slice(&v.to_le_bytes());
                            }
                        }
                        inject(cx, &Spec::from_parts(&l, &[]), &[&p], CK);
                    }
                }
            }
        }
    }
    // intermediate sums: aim at states reached after the update
    if cx.scale >= 1 {
        let l0 = bases(3)[2];
        for i in 0..1024 {
            if !cx.take() {
                continue;
            }
            for j in 0..=(if cx.scale >= 2 { i } else { 0 }) {
                let mut l = l0;
                l[i / 64] ^= 1 << (i % 64);
                if j != i {
                    l[j / 64] ^= 1 << (j % 64);
                }
                // one permuted update is exactly aim(.., 1): run it as a packet
                let s = Spec::aim(&l, &[], 1);
                let mut p = [0u8; 32];
                for q in 0..4 {
                    let x = s.v0[q ^ 2].rotate_left(32);
                    p[8 * q..8 * q + 8].copy_from_slice(&x.to_le_bytes());
                }
                inject(cx, &s, &[&p], CK);
            }
        }
    }
}

/// Finalisation from every pending count and a neighbourhood of states, both before the
/// remainder step and aimed at the state it (and the rounds after it) must reach.
fn phase_final(cx: &mut Ctx, c: &Cfg) {
    if !c.inject {
        return;
    }
    let nb = [1, 2, 3, 12][cx.scale.min(3) as usize];
    for (bi, l) in bases(nb).iter().enumerate() {
        for n in 0..32usize {
            let step = if cx.scale == 0 { 211 } else { 1 };
            for i in (0..1024 + 8 * n).step_by(step) {
                if !cx.take() {
                    continue;
                }
                let mut m = *l;
                let mut p = data::slice([0, 2, 1][bi % 3], 0, 32).to_vec();
                p.truncate(n);
                if i < 1024 {
                    m[i / 64] ^= 1 << (i % 64);
                } else {
                    p[(i - 1024) / 8] ^= 1 << (i % 8);
                }
                inject(cx, &Spec::from_parts(&m, &p), &[], OUT | c.ck);
                if i < 1024 {
                    inject(cx, &Spec::aim(&m, &p, 0), &[], OUT);
                }
            }
        }
    }
    // aim at the state after the last round of each width: the output stage itself
    let al = alphabet(cx);
    for (k, obs) in [(4usize, F64), (6, F128), (10, F256)] {
        for l in bases(nb).iter() {
            let step = if cx.scale == 0 { 101 } else { 1 };
            for i in (0..1024).step_by(step) {
                if !cx.take() {
                    continue;
                }
                for j in 0..=(if cx.scale >= 2 { i } else { 0 }) {
                    let mut m = *l;
                    m[i / 64] ^= 1 << (i % 64);
                    if j != i && cx.scale >= 2 {
                        m[j / 64] ^= 1 << (j % 64);
                    }
                    inject(cx, &Spec::aim(&m, &[], k), &[], obs);
                }
            }
        }
        // words of the output stage through the alphabet: pairs anywhere; and for each
        // 128-bit half the four sums that enter the reduction
        let n = [2, 6, 12.max(al.len().min(40)), al.len()][cx.scale.min(3) as usize].min(al.len());
        for i in 0..16 {
            for j in 0..i {
                if !cx.take() {
                    continue;
                }
                for x in 0..n {
                    for y in 0..n {
                        let mut m = bases(3)[2];
                        m[i] = al[x];
                        m[j] = al[y];
                        inject(cx, &Spec::aim(&m, &[], k), &[], obs);
                    }
                }
            }
        }
        let core = [1, 3, 8, 14][cx.scale.min(3) as usize].min(al.len());
        for h in [0usize, 2] {
            for a in 0..core {
                for b in 0..core {
                    if !cx.take() {
                        continue;
                    }
                    for e in 0..core {
                        for f in 0..core {
                            for z in [0u64, 0x9e37_79b9_7f4a_7c15] {
                                let mut m = [z; 16];
                                for (w, v) in [(h, a), (h + 1, b), (4 + h, e), (5 + h, f)] {
                                    m[w] = al[v].wrapping_sub(z);
                                }
                                inject(cx, &Spec::aim(&m, &[], k), &[], obs);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Sizes around powers of two and around every small literal of the sources.
pub fn sizes(cx: &Ctx, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    let mut add = |x: i128| {
        if x >= 0 && x <= max as i128 {
            v.push(x as usize);
        }
    };
    for k in 5..40 {
        for d in [-33i128, -32, -31, -1, 0, 1, 17, 31, 32, 33] {
            add((1i128 << k) + d);
        }
        add((3i128 << k) + 5);
    }
    for x in &cx.dict {
        for d in [-32i128, -1, 0, 1, 32] {
            add(*x as i128 + d);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn phase_sizes(cx: &mut Ctx, c: &Cfg) {
    let max = cx.p.num(
        "maxsize",
        [200, 5000, 1 << 22, 1 << 26][cx.scale.min(3) as usize],
    ) as usize;
    let sz = sizes(cx, max);
    let big = *sz.last().unwrap_or(&0);
    let pats: &[usize] = if cx.scale >= 2 { &[0, 4] } else { &[0] };
    for &p in pats {
        let d = data::slice(p, 0, big + 64);
        let mut s = Spec::new(KEY1);
        let mut at = 0;
        for &n in &sz {
            let mine = cx.take();
            if !mine {
                continue;
            }
            s.absorb(&d[at..n]);
            at = n;
            cx.check(Init::Key(KEY1), &[&d[..n]], OUT | c.ck, &s);
            // behind a partly filled packet, and followed by a tail
            if n > 40 {
                cx.check(Init::Key(KEY1), &[&d[..7], &d[7..n]], OUT | c.ck, &s);
                cx.check(Init::Key(KEY1), &[&d[..n - 33], &d[n - 33..n]], F64, &s);
            }
        }
    }
}

/// Lengths from a threshold on, in every remainder class of two packets, behind every pending
/// count: code paths for long input must join the short ones everywhere.
pub fn fills(scale: u32) -> Vec<usize> {
    let top = [0, 1024, 4096, 65536][scale.min(3) as usize];
    let mut v = Vec::new();
    let mut b = 64usize;
    while b <= top {
        v.extend((0..=64).map(|r| b + r));
        b *= 2;
    }
    v.dedup();
    v
}
fn phase_fills(cx: &mut Ctx) {
    let v = fills(cx.scale);
    let d = data::slice(0, 0, v.last().unwrap_or(&0) + 64);
    for p in 0..32usize {
        for n in &v {
            if cx.take() {
                keyed(cx, KEY1, &[&d[..p], &d[p..p + n]], F64);
            }
        }
    }
}

/// Every length at every address alignment, also behind every pending count.
fn phase_align(cx: &mut Ctx) {
    let max = [36, 80, 140, 600][cx.scale.min(3) as usize];
    let mut buf = vec![0u8; max + 200 + 128];
    let base = (64 - (buf.as_ptr() as usize) % 64) % 64;
    let step = [16, 4, 1, 1][cx.scale.min(3) as usize];
    for o in (0..64usize).step_by(step) {
        for n in 0..=max {
            if !cx.take() {
                continue;
            }
            let at = base + o;
            buf[at..at + n].copy_from_slice(data::slice(0, 0, n));
            keyed(cx, KEY1, &[&buf[at..at + n]], OUT);
        }
        for p in 0..32usize {
            if !cx.take() {
                continue;
            }
            for n in [31usize, 32, 33, 63, 64, 65, 96, 100, 130] {
                let at = base + o;
                let d = data::slice(0, 0, p + n);
                buf[at..at + n].copy_from_slice(&d[p..]);
                keyed(cx, KEY1, &[&d[..p], &buf[at..at + n]], F64);
            }
        }
    }
}

pub fn explore(cx: &mut Ctx) {
    if let Err(n) = selftest() {
        panic!("harness: model does not match the published vectors at {}", n);
    }
    let gate = cx.p.num("gate", 1) == 0 || codec_ok(cx);
    if !gate {
        cx.notes.push("checkpoint codec not faithful: state injection skipped (see C06/C14)".into());
    }
    let c = Cfg {
        inject: gate && cx.p.num("inject", 1) == 1,
        ck: if gate { CK } else { 0 },
    };
    let ph = cx.p.get("phases").unwrap_or("keys,lengths,bytes,update,final,sizes,align,fills");
    for p in ph.split(',') {
        match p {
            "keys" => phase_keys(cx, &c),
            "lengths" => phase_lengths(cx, &c),
            "bytes" => phase_bytes(cx, &c),
            "update" => phase_update(cx, &c),
            "final" => phase_final(cx, &c),
            "sizes" => phase_sizes(cx, &c),
            "align" => phase_align(cx),
            "fills" => phase_fills(cx),
            _ => panic!("harness: unknown phase {}", p),
        }
    }
}
