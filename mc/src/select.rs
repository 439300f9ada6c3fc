//! Backend selection (C10): every way of obtaining the auto-selecting hasher, and the explicit
//! constructors; prints what each gave. The driver knows what the configuration permits.
use crate::ctx::*;
use crate::data;
use crate::plat::{self, lib};
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use core::hash::{BuildHasher, BuildHasherDefault, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

fn kind(h: &HighwayHasher) -> String {
    let s = format!("{:?}", h);
    let mut v: Vec<&str> = Vec::new();
    for n in ["PortableHash", "SseHash", "AvxHash", "NeonHash", "WasmHash"] {
        if s.contains(n) {
            v.push(n);
        }
    }
    if v.is_empty() {
        v.push("unknown");
    }
    v.join("+")
}

fn script_now(p: *const ()) -> String {
    let s = unsafe { &*(p as *const String) };
    format!("# no script: selection route {}\n", s)
}

struct Seen {
    /// (key or restored state, bytes, hasher)
    out: Vec<(String, HighwayHasher, Option<Key>, Option<[u8; 164]>)>,
}

fn keys(cx: &Ctx) -> Vec<[u64; 4]> {
    let mut v = alloc::vec![[0; 4], crate::lattice::KEY1, [u64::MAX; 4]];
    for (i, x) in crate::lattice::alphabet(cx).into_iter().enumerate() {
        let mut k = [0; 4];
        k[i % 4] = x;
        v.push(k);
    }
    v.truncate([4, 12, 400, 4000][cx.scale.min(3) as usize]);
    v
}

fn checkpoints(cx: &Ctx) -> Vec<[u8; 164]> {
    let mut v = Vec::new();
    for n in [0usize, 1, 31, 32, 50] {
        let mut h = PortableHash::new(Key(crate::lattice::KEY1));
        HighwayHash::append(&mut h, data::slice(0, 0, n));
        v.push(HighwayHash::checkpoint(&h));
    }
    for f in [0u8, 0xff, 0x5a] {
        v.push([f; 164]);
    }
    for n in crate::arb::counts(cx) {
        let mut c = v[4];
        c[160..].copy_from_slice(&n.to_le_bytes());
        v.push(c);
    }
    v.truncate([8, 60, 100_000, 100_000][cx.scale.min(3) as usize]);
    v
}

pub fn explore(cx: &mut Ctx) {
    let first = cx.p.num("first", 0) as usize;
    let ks = keys(cx);
    let cks = checkpoints(cx);
    let mut seen = Seen { out: Vec::new() };
    let mut label = String::new();
    // the order of the routes matters only through process-wide state: rotate it
    for step in 0..7 {
        let mut put = |l: &str, k: Option<[u64; 4]>, c: Option<[u8; 164]>, f: &dyn Fn() -> HighwayHasher| {
            label = String::from(l);
            unsafe { plat::CURRENT = Some((script_now, &label as *const String as *const ())) };
            let h = lib(f);
            seen.out.push((String::from(l), h, k.map(Key), c));
        };
        match (step + first) % 7 {
            0 => {
                for k in &ks {
                    put("new", Some(*k), None, &|| HighwayHasher::new(Key(*k)));
                }
            }
            1 => put("default", Some([0; 4]), None, &|| HighwayHasher::default()),
            2 => {
                for c in &cks {
                    put("from_checkpoint", None, Some(*c), &|| HighwayHasher::from_checkpoint(*c));
                }
            }
            3 => {
                for k in &ks {
                    put("HighwayBuildHasher", Some(*k), None, &|| HighwayBuildHasher::new(Key(*k)).build_hasher());
                    let b = HighwayBuildHasher::new(Key(*k));
                    for _ in 0..3 {
                        put("HighwayBuildHasher, again", Some(*k), None, &|| b.build_hasher());
                    }
                }
            }
            4 => put("HighwayBuildHasher::default", Some([0; 4]), None, &|| HighwayBuildHasher::default().build_hasher()),
            5 => put("BuildHasherDefault", Some([0; 4]), None, &|| {
                let b: BuildHasherDefault<HighwayHasher> = Default::default();
                b.build_hasher()
            }),
            _ => {
                #[cfg(all(feature = "std", not(target_family = "wasm")))]
                {
                    let h = std::thread::spawn(|| HighwayHasher::new(Key(crate::lattice::KEY1))).join().unwrap();
                    seen.out.push((String::from("new in another thread"), h, Some(Key(crate::lattice::KEY1)), None));
                }
            }
        }
    }
    // derived hashers: clones, clones of used hashers, overwritten and restored ones
    let n = seen.out.len();
    for i in 0..n {
        let (l, h, k, c) = &seen.out[i];
        let (k, c) = (*k, *c);
        let l = l.clone();
        label = format!("clone of {}", l);
        unsafe { plat::CURRENT = Some((script_now, &label as *const String as *const ())) };
        let cl = lib(|| h.clone());
        let mut used = lib(|| h.clone());
        lib(|| HighwayHash::append(&mut used, &[]));
        lib(|| Hasher::finish(&used));
        let mut over = lib(HighwayHasher::default);
        lib(|| over.clone_from(h));
        let ck = lib(|| HighwayHash::checkpoint(h));
        let re = lib(|| HighwayHasher::from_checkpoint(ck));
        let used2 = lib(|| used.clone());
        seen.out.push((format!("clone of {}", l), cl, k, c));
        seen.out.push((format!("clone of a used {}", l), used2, k, c));
        seen.out.push((format!("clone_from {}", l), over, k, c));
        seen.out.push((format!("restored checkpoint of {}", l), re, k, c));
        seen.out.push((format!("used {}", l), used, k, c));
    }
    // selection and results of each
    let mut kinds: Vec<(String, String, u64)> = Vec::new();
    let d = data::slice(0, 0, 101);
    for (l, mut h, k, c) in seen.out {
        let kd = kind(&h);
        match kinds.iter_mut().find(|x| x.0 == l && x.1 == kd) {
            Some(x) => x.2 += 1,
            None => kinds.push((l.clone(), kd, 1)),
        }
        label = format!("{}, then append", l);
        unsafe { plat::CURRENT = Some((script_now, &label as *const String as *const ())) };
        let mut p = match (k, c) {
            (Some(k), _) => PortableHash::new(k),
            (_, Some(c)) => PortableHash::from_checkpoint(c),
            _ => continue,
        };
        HighwayHash::append(&mut p, d);
        lib(|| HighwayHash::append(&mut h, d));
        let (a, b) = (lib(|| h.clone()), lib(|| h.clone()));
        let got = (lib(|| HighwayHash::finalize64(a)), lib(|| HighwayHash::finalize128(b)), lib(|| HighwayHash::finalize256(h)));
        let want = (HighwayHash::finalize64(p.clone()), HighwayHash::finalize128(p.clone()), HighwayHash::finalize256(p));
        if got != want {
            plat::differs(&format!("{}: results differ from portable", l), || {
                let mut s = match (k, c) {
                    (Some(k), _) => format!("0 new auto {:x} {:x} {:x} {:x}\n", k.0[0], k.0[1], k.0[2], k.0[3]),
                    (_, Some(c)) => format!("0 restore auto {}\n", hex(&c)),
                    _ => String::new(),
                };
                s.push_str("0 append 101\n0 check\n");
                s
            });
        }
        cx.evals += 1;
        cx.outcomes.add(got.0);
        cx.states.add(fnv(got.0, kd_hash(&l)));
        cx.digest = cx.digest.wrapping_add(fnv(got.0, 1));
    }
    for (l, k, n) in &kinds {
        plat::log(&format!("HWMC-SELECT {} {} {}", k, n, l));
    }
    #[cfg(target_arch = "x86_64")]
    {
        let opt = |name: &str, some: usize, of: usize| plat::log(&format!("HWMC-OPT {} {} {}", name, some, of));
        label = String::from("explicit constructors");
        unsafe { plat::CURRENT = Some((script_now, &label as *const String as *const ())) };
        let count = |f: &dyn Fn(usize) -> bool, n: usize| (0..n).filter(|i| f(*i)).count();
        opt("SseHash::new", count(&|i| lib(|| highway::SseHash::new(Key(ks[i])).is_some()), ks.len()), ks.len());
        opt("AvxHash::new", count(&|i| lib(|| highway::AvxHash::new(Key(ks[i])).is_some()), ks.len()), ks.len());
        opt("SseHash::from_checkpoint", count(&|i| lib(|| highway::SseHash::from_checkpoint(cks[i]).is_some()), cks.len()), cks.len());
        opt("AvxHash::from_checkpoint", count(&|i| lib(|| highway::AvxHash::from_checkpoint(cks[i]).is_some()), cks.len()), cks.len());
        // what they return works
        for (i, k) in ks.iter().enumerate() {
            let want = PortableHash::new(Key(*k)).hash64(d);
            let c = cks[i % 5];
            let want2 = PortableHash::from_checkpoint(c).hash64(d);
            for (n, got, w) in [
                ("SseHash::new", highway::SseHash::new(Key(*k)).map(|h| h.hash64(d)), want),
                ("AvxHash::new", highway::AvxHash::new(Key(*k)).map(|h| h.hash64(d)), want),
                ("SseHash::from_checkpoint", highway::SseHash::from_checkpoint(c).map(|h| h.hash64(d)), want2),
                ("AvxHash::from_checkpoint", highway::AvxHash::from_checkpoint(c).map(|h| h.hash64(d)), want2),
            ] {
                if got.is_some() && got != Some(w) {
                    plat::differs(n, || format!("# no script: {} at key {:x?}\n", n, k));
                }
            }
            cx.evals += 4;
        }
        #[cfg(feature = "std")]
        plat::log(&format!(
            "HWMC-CPU sse4.1={} avx2={}",
            std::is_x86_feature_detected!("sse4.1"),
            std::is_x86_feature_detected!("avx2")
        ));
    }
    unsafe { plat::CURRENT = None };
}
fn kd_hash(s: &str) -> u64 {
    fnv_bytes(9, s.as_bytes())
}
