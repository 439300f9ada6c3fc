//! What must be the same on every target: a fixed list of histories, printed as hashes of
//! everything observable (all 164 checkpoint bytes included), block by block. Processes of
//! different targets are compared with each other by the driver.
use crate::backends::Any;
use crate::ctx::*;
use crate::data;
use crate::plat;
use alloc::format;
use alloc::string::String;

const BLOCK: u64 = 64;

struct Out {
    n: u64,
    block: Option<u64>,
    h: u64,
}

fn bytes(h: u64, c: &[u8; 164]) -> u64 {
    fnv_bytes(h, c)
}
fn all(mut h: u64, a: Any) -> u64 {
    h = bytes(h, &a.checkpoint());
    h = fnv(h, a.finish());
    let (x, y) = (a.clone(), a.clone());
    h = fnv(h, a.fin64());
    for v in x.fin128() {
        h = fnv(h, v);
    }
    for v in y.fin256() {
        h = fnv(h, v);
    }
    h
}

impl Out {
    fn case(&mut self, cx: &mut Ctx, what: &dyn Fn() -> String, run: &dyn Fn() -> u64) {
        let b = self.n / BLOCK;
        let mine = match self.block {
            Some(k) => k == b,
            None => b % cx.nshards == cx.shard,
        };
        if mine {
            let v = run();
            cx.evals += 1;
            cx.outcomes.add(v);
            self.h = fnv(fnv(7, self.h), v);
            if self.block.is_some() {
                plat::log(&format!("HWMC-CASE {} {:016x} {}", self.n, v, what()));
            }
            if cx.samples.len() < 2 {
                cx.samples.push(what());
            }
        }
        self.n += 1;
        if self.n % BLOCK == 0 {
            if mine {
                self.flush(cx, b);
            }
        }
    }
    fn flush(&mut self, cx: &mut Ctx, b: u64) {
        if self.block.is_none() {
            plat::log(&format!("HWMC-GOLD {} {:016x}", b, self.h));
        }
        cx.digest = cx.digest.wrapping_add(fnv(fnv(7, b), self.h));
        cx.states.add(self.h);
        self.h = 0;
    }
}

pub fn explore(cx: &mut Ctx) {
    let top = cx.p.num("top", [34, 100, 300, 700][cx.scale.min(3) as usize]) as usize;
    let mut o = Out { n: 0, block: cx.p.get("block").map(|b| b.parse().unwrap()), h: 0 };
    let ks = crate::lattice::keys();
    let small = cx.scale == 0;
    for n in 0..=top {
        for (ki, &k) in ks.iter().enumerate() {
            if small && ki != n % 4 {
                continue;
            }
            let mut last = usize::MAX;
            for s in [0, 1, 7, n / 2, 31, 32, 33] {
                if s > n || s == last || (small && s > 0 && s != 1 + n % 7) {
                    continue;
                }
                last = s;
                let p = if small { 0 } else { (n + s) % data::PATTERNS };
                o.case(
                    cx,
                    &|| format!("0 new portable {:x} {:x} {:x} {:x}; 0 pattern {}; 0 append {}; 0 append {}; 0 hop portable; 0 append 5; 0 check", k[0], k[1], k[2], k[3], p, s, n - s),
                    &|| {
                        let d = data::slice(p, 0, n + 5);
                        let mut a = Any::new(0, k);
                        a.append(&d[..s]);
                        let mut h = bytes(7, &a.checkpoint());
                        a.append(&d[s..n]);
                        h = all(h, a.clone());
                        let mut r = Any::restore(0, &a.checkpoint());
                        r.hwrite(&d[n..]);
                        h = all(h, r);
                        h = fnv(h, a.clone().hash64(&d[..n.min(9)]));
                        h = fnv(h, a.clone().hash128(&d[..n.min(17)])[1]);
                        fnv(h, a.hash256(&d[..n.min(33)])[3])
                    },
                );
            }
        }
    }
    let counts = [
        0u32, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 19, 20, 24, 28, 30, 31, 32, 33, 40, 63, 64, 96, 127, 128, 255, 256, 257, 0xffff,
        0x1_0000, 0x1_0001, 0x1_001f, 0x00ff_ffff, 0x0100_0000, 0x0100_0007, 0x1f00_0000, 0x7fff_ffff, 0x8000_0000, 0x8000_0007, 0xffff_ffe0, u32::MAX,
    ];
    for (i, &n) in counts.iter().enumerate() {
        for p in 0..data::PATTERNS {
            if small && (i + p) % 3 != 0 {
                continue;
            }
            let mut c = [0u8; 164];
            c.copy_from_slice(data::slice(p, 3 * i, 3 * i + 164));
            c[160..].copy_from_slice(&n.to_le_bytes());
            o.case(cx, &|| format!("# from_checkpoint of pattern {} at {} with count {:#x}, then append 3", p, 3 * i, n), &|| {
                let mut a = Any::restore(0, &c);
                let h = all(7, a.clone());
                a.append(&[1, 2, 3]);
                all(h, a)
            });
        }
    }
    o.case(cx, &|| String::from("# default"), &|| {
        let mut a = Any::default(0);
        a.append(&[9; 5]);
        all(7, a)
    });
    let b = (o.n - 1) / BLOCK;
    let mine = match o.block {
        Some(k) => k == b,
        None => b % cx.nshards == cx.shard,
    };
    if o.n % BLOCK != 0 && mine {
        o.flush(cx, b);
    }
}
