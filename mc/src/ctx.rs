//! Exploration context: parameters, sharding, counters, and the single place where a
//! library execution is compared with the model.
use crate::backends::H;
use crate::plat::{self, lib};
use crate::spec::Spec;
use crate::with_backend;
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use highway::Key;

pub struct Params<'a>(pub Vec<(&'a str, &'a str)>);
impl<'a> Params<'a> {
    pub fn parse(s: &'a str) -> Self {
        Params(
            s.split_whitespace()
                .filter_map(|kv| kv.split_once('='))
                .collect(),
        )
    }
    pub fn get(&self, k: &str) -> Option<&'a str> {
        self.0.iter().rev().find(|x| x.0 == k).map(|x| x.1)
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        match self.get(k) {
            None => d,
            Some(v) => match v.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).expect("number"),
                None => v.parse().expect("number"),
            },
        }
    }
}

/// Deterministic background data (never decides a verdict; only fills bytes).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

/// Set of 64-bit fingerprints with a fixed capacity; counts distinct values up to the cap.
pub struct Distinct {
    tab: Vec<u64>,
    pub n: u64,
    pub full: bool,
}
impl Distinct {
    pub fn new(bits: u32) -> Self {
        Distinct {
            tab: alloc::vec![0; 1 << bits],
            n: 0,
            full: false,
        }
    }
    /// true when new
    pub fn add(&mut self, x: u64) -> bool {
        if self.full {
            return false;
        }
        let x = if x == 0 { 1 } else { x };
        let m = self.tab.len() - 1;
        let mut i = (x.wrapping_mul(0x9e3779b97f4a7c15) >> 20) as usize & m;
        loop {
            if self.tab[i] == x {
                return false;
            }
            if self.tab[i] == 0 {
                self.tab[i] = x;
                self.n += 1;
                if self.n as usize > self.tab.len() / 4 * 3 {
                    self.full = true;
                }
                return true;
            }
            i = (i + 1) & m;
        }
    }
}

pub fn fnv(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0xff51afd7ed558ccd);
    z ^= z >> 32;
    z
}
pub fn fnv_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, v) in c.iter().enumerate() {
            x |= (*v as u64) << (8 * i);
        }
        h = fnv(h, x.wrapping_add(c.len() as u64));
    }
    h
}

pub const CK: u8 = 1;
pub const F64: u8 = 2;
pub const F128: u8 = 4;
pub const F256: u8 = 8;
pub const OUT: u8 = 14;

#[derive(Clone, Copy)]
pub enum Init<'a> {
    Key([u64; 4]),
    Ckpt(&'a [u8; 164]),
}

pub struct Expect {
    pub obs: u8,
    pub ck: [u8; 164],
    pub n: usize,
    pub o64: u64,
    pub o128: [u64; 2],
    pub o256: [u64; 4],
}
impl Expect {
    pub fn new(s: &Spec, obs: u8) -> Self {
        Expect {
            obs,
            n: s.n,
            ck: if obs & CK != 0 { s.ckpt() } else { [0; 164] },
            o64: if obs & F64 != 0 { s.out64() } else { 0 },
            o128: if obs & F128 != 0 { s.out128() } else { [0; 2] },
            o256: if obs & F256 != 0 { s.out256() } else { [0; 4] },
        }
    }
    pub fn portable(init: Init, chunks: &[&[u8]], obs: u8) -> Self {
        use highway::{HighwayHash, PortableHash};
        let mut h = lib(|| match init {
            Init::Key(k) => PortableHash::new(Key(k)),
            Init::Ckpt(c) => PortableHash::from_checkpoint(*c),
        });
        let mut n = match init {
            Init::Key(_) => 0,
            Init::Ckpt(c) => c[160] as usize,
        };
        for d in chunks {
            n += d.len();
            lib(|| HighwayHash::append(&mut h, d));
        }
        let f = |b: u8| obs & b != 0;
        Expect {
            obs,
            n: n % 32,
            ck: if f(CK) { lib(|| HighwayHash::checkpoint(&h)) } else { [0; 164] },
            o64: if f(F64) { let h = h.clone(); lib(|| HighwayHash::finalize64(h)) } else { 0 },
            o128: if f(F128) { let h = h.clone(); lib(|| HighwayHash::finalize128(h)) } else { [0; 2] },
            o256: if f(F256) { lib(|| HighwayHash::finalize256(h)) } else { [0; 4] },
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h = fnv(self.obs as u64, self.o64);
        for x in self.o128.iter().chain(self.o256.iter()) {
            h = fnv(h, *x);
        }
        if self.obs & CK != 0 {
            h = fnv_bytes(h, &self.ck);
        }
        h
    }
}

pub struct Case<'a> {
    pub backend: u8,
    pub init: Init<'a>,
    pub chunks: &'a [&'a [u8]],
    pub obs: u8,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn render_case(p: *const ()) -> String {
    let c = unsafe { &*(p as *const Case) };
    let b = crate::backends::name(c.backend);
    let mut s = match c.init {
        Init::Key(k) => format!("0 new {} {:x} {:x} {:x} {:x}\n", b, k[0], k[1], k[2], k[3]),
        Init::Ckpt(c) => format!("0 restore {} {}\n", b, hex(c)),
    };
    for d in c.chunks {
        if d.len() <= 4096 {
            s.push_str(&format!("0 append hex:{}\n", hex(d)));
        } else {
            s.push_str(&format!("0 append {} # bytes of the explorer's pattern\n", d.len()));
        }
    }
    s.push_str("0 check\n");
    s
}

pub struct Ctx<'a> {
    pub p: Params<'a>,
    pub scale: u32,
    pub shard: u64,
    pub nshards: u64,
    ctr: u64,
    pub seed: u64,
    pub backends: Vec<u8>,
    /// literals found in the sources under test: extra alphabet values
    pub dict: Vec<u64>,
    pub evals: u64,
    pub states: Distinct,
    pub outcomes: Distinct,
    pub samples: Vec<String>,
    pub digest: u64,
    pub capped: bool,
    pub notes: Vec<String>,
    pub portable_oracle: bool,
    /// checkpoint bytes beyond the pending count, per count (C14)
    pub tails: Vec<Option<[u8; 32]>>,
    pub tails_on: bool,
}

impl<'a> Ctx<'a> {
    pub fn new(p: Params<'a>) -> Self {
        let scale = p.num("scale", 1) as u32;
        unsafe { plat::VALUES = p.num("values", 1) == 1 };
        let bits = p.num("bits", [14, 18, 22, 24][scale.min(3) as usize]) as u32;
        // these explorers call nothing of the library in this process, not even detection
        let avail = match p.get("x") {
            Some("preempt") | Some("races") => alloc::vec![0],
            _ => crate::backends::available(),
        };
        let backends = match p.get("backends") {
            None => avail,
            Some(_) if matches!(p.get("x"), Some("preempt") | Some("races")) => avail,
            Some(l) => avail
                .into_iter()
                .filter(|b| l.split(',').any(|n| n == crate::backends::name(*b)))
                .collect(),
        };
        let dict = match p.get("dict") {
            None => Vec::new(),
            Some(l) => l
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| u64::from_str_radix(x, 16).expect("dict"))
                .collect(),
        };
        Ctx {
            scale,
            shard: p.num("shard", 0),
            nshards: p.num("nshards", 1),
            ctr: 0,
            seed: p.num("seed", 1),
            backends,
            dict,
            evals: 0,
            states: Distinct::new(bits),
            outcomes: Distinct::new(bits),
            samples: Vec::new(),
            digest: 0,
            capped: false,
            notes: Vec::new(),
            tails: alloc::vec![None; 32],
            tails_on: false,
            portable_oracle: p.get("oracle") == Some("portable"),
            p,
        }
    }
    /// Is the next enumerated block this shard's?
    #[inline]
    pub fn take(&mut self) -> bool {
        let r = self.ctr % self.nshards == self.shard;
        self.ctr += 1;
        r
    }

    /// Execute one case on every backend. The expectation is the model's state, or in
    /// `oracle=portable` mode what the portable hasher of this build does with the same case.
    #[inline]
    pub fn check(&mut self, init: Init, chunks: &[&[u8]], obs: u8, spec: &Spec) {
        let e = if self.portable_oracle {
            Expect::portable(init, chunks, obs)
        } else {
            Expect::new(spec, obs)
        };
        let d = e.digest();
        self.outcomes.add(d);
        let mut sh = spec.n as u64 + 1;
        for x in spec.lanes() {
            sh = fnv(sh, x);
        }
        self.states.add(fnv_bytes(sh, &spec.pend[..spec.n]));
        self.digest = self.digest.wrapping_add(fnv(d, 0x5555));
        for i in 0..self.backends.len() {
            let b = self.backends[i];
            self.evals += 1;
            with_backend!(b, B => check_one::<B>(init, chunks, &e));
        }
        if self.samples.len() < 3 && (self.evals & 0x3ff) < 8 {
            let c = Case {
                backend: self.backends[0],
                init,
                chunks,
                obs,
            };
            let mut t = render_case(&c as *const Case as *const ());
            t.truncate(400);
            t = t.replace('\n', "; ");
            self.samples.push(t);
        }
    }

    pub fn report(&self, name: &str) {
        let mut s = format!(
            "HWMC-REPORT {{\"explorer\":\"{}\",\"different\":{},\"evaluations\":{},\"transitions\":{},\"states\":{},\"outcomes\":{},\"allocs\":{},\"digest\":\"{:016x}\",\"capped\":{},\"counter_full\":{},\"backends\":\"{}\",\"notes\":[",
            name,
            unsafe { plat::DIFFERENT },
            self.evals,
            unsafe { plat::CALLS },
            self.states.n,
            self.outcomes.n,
            unsafe { plat::ALLOCS },
            self.digest,
            self.capped,
            self.states.full || self.outcomes.full,
            self.backends.iter().map(|b| crate::backends::name(*b)).collect::<Vec<_>>().join(","),
        );
        for (i, n) in self.notes.iter().enumerate() {
            s.push_str(&format!("{}\"{}\"", if i > 0 { "," } else { "" }, n));
        }
        s.push_str("],\"samples\":[");
        for (i, n) in self.samples.iter().enumerate() {
            s.push_str(&format!("{}\"{}\"", if i > 0 { "," } else { "" }, n));
        }
        s.push_str("]}");
        plat::log(&s);
    }
}

/// Compare checkpoint `c` with the model, without looking at the bytes of the packet
/// buffer beyond the pending count (whose content is C14's business).
#[inline]
pub fn ck_eq(c: &[u8; 164], e: &[u8; 164], n: usize) -> bool {
    c[..128 + n] == e[..128 + n] && c[160..] == e[160..]
}

pub fn check_one<B: H>(init: Init, chunks: &[&[u8]], e: &Expect) {
    let case = Case {
        backend: B::ID,
        init,
        chunks,
        obs: e.obs,
    };
    unsafe {
        plat::CURRENT = Some((render_case, &case as *const Case as *const ()));
    }
    let start = || {
        let mut h = lib(|| match init {
            Init::Key(k) => B::mk(Key(k)),
            Init::Ckpt(c) => B::rs(*c),
        });
        for d in chunks {
            lib(|| highway::HighwayHash::append(&mut h, d));
        }
        h
    };
    let bad = |what: &str, got: String, want: String| {
        plat::differs(what, || {
            format!(
                "{}# {} of {}: got {} want {}\n",
                render_case(&case as *const Case as *const ()),
                what,
                B::NAME,
                got,
                want
            )
        })
    };
    let mut h = start();
    let mut left = e.obs;
    if e.obs & CK != 0 {
        let c = lib(|| highway::HighwayHash::checkpoint(&h));
        if !ck_eq(&c, &e.ck, e.n) {
            bad("checkpoint", hex(&c), hex(&e.ck));
        }
        left &= !CK;
    }
    macro_rules! fin {
        ($bit:expr, $name:expr, $m:ident, $want:expr) => {
            if left & $bit != 0 {
                left &= !$bit;
                // the last observation consumes the hasher itself, earlier ones a fresh copy
                let g = if left == 0 {
                    let g = lib(move || highway::HighwayHash::$m(h));
                    if g != $want {
                        bad($name, format!("{:x?}", g), format!("{:x?}", $want));
                    }
                    unsafe { plat::CURRENT = None };
                    return;
                } else {
                    let h2 = h.clone();
                    lib(move || highway::HighwayHash::$m(h2))
                };
                if g != $want {
                    bad($name, format!("{:x?}", g), format!("{:x?}", $want));
                }
            }
        };
    }
    fin!(F64, "hash64", finalize64, e.o64);
    fin!(F128, "hash128", finalize128, e.o128);
    fin!(F256, "hash256", finalize256, e.o256);
    let _ = &mut h;
    unsafe { plat::CURRENT = None };
}
