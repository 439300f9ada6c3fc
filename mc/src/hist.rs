//! Operation histories: a small language over a few hasher slots, a stateless executor that
//! runs a history on the real types and compares every observation with a reference, and the
//! depth-bounded enumerators. The same language is the replay format.
use crate::backends::{self, Any};
use crate::ctx::*;
use crate::data;
use crate::plat;
use crate::spec::Spec;
use alloc::boxed::Box;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use core::hash::BuildHasher;
use highway::{HighwayBuildHasher, Key};

pub const SLOTS: usize = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    /// the next n bytes of the slot's stream
    Next(usize),
    Lit(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Append,
    HWrite,
    IoWrite,
    IoWriteAll,
    /// vectored write of k equal pieces (0: one third, an empty piece, the rest)
    IoWritev(usize),
    /// io::copy from a reader that hands out the data in steps of k
    IoCopy(usize),
    /// write_fmt with the bytes as text
    IoFmt,
    /// typed write through core::hash (see `typed`)
    Typed(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(usize, u8, [u64; 4]),
    Default(usize, u8),
    Build(usize, [u64; 4]),
    BuildDefault(usize, u8),
    Restore(usize, u8, Box<[u8; 164]>),
    Pattern(usize, usize),
    Feed(usize, How, Data),
    Finish(usize),
    Ckpt(usize),
    Debug(usize),
    /// Debug formatting into a sink that fails after k fragments
    DebugAt(usize, usize),
    Flush(usize),
    /// slot a becomes a clone of slot b
    Clone(usize, usize),
    /// slot a is overwritten by `clone_from(b)` (same type, else a clone)
    CloneFrom(usize, usize),
    /// the slot goes on as its own clone, the original is dropped
    Reclone(usize),
    /// clone and drop the clone
    CloneDrop(usize),
    /// clone, finalize the clone
    CloneFin(usize),
    Move(usize, usize),
    Drop(usize),
    Hop(usize, u8),
    /// consume and compare: width 64/128/256
    Fin(usize, u16),
    /// one-shot helper with data, consuming: width
    Shot(usize, u16, Data),
    Check(usize),
    /// `hash_one` of the key's shared builder, of a value that feeds the hasher in these steps:
    /// (false, n) writes n bytes of the slot's pattern, (true, k) is typed write k
    One(usize, [u64; 4], Vec<(bool, usize)>),
}
pub use Op::*;

/// A value that feeds a hasher in given steps.
pub struct Steps<'a>(pub usize, pub &'a [(bool, usize)]);
impl core::hash::Hash for Steps<'_> {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        let mut at = 0;
        for (t, n) in self.1 {
            if *t {
                typed(h, *n as u8, data::slice(self.0, at, at + 16));
                at += 16;
            } else {
                h.write(data::slice(self.0, at, at + n));
                at += n;
            }
        }
    }
}

fn keytext(k: &[u64; 4]) -> String {
    format!("{:x} {:x} {:x} {:x}", k[0], k[1], k[2], k[3])
}
fn datatext(d: &Data) -> String {
    match d {
        Data::Next(n) => n.to_string(),
        Data::Lit(b) => format!("hex:{}", hex(b)),
    }
}

pub fn text(op: &Op) -> String {
    let bn = backends::name;
    match op {
        New(s, b, k) => format!("{} new {} {}", s, bn(*b), keytext(k)),
        Default(s, b) => format!("{} default {}", s, bn(*b)),
        Build(s, k) => format!("{} build {}", s, keytext(k)),
        BuildDefault(s, b) => format!("{} build-default {}", s, bn(*b)),
        Restore(s, b, c) => format!("{} restore {} {}", s, bn(*b), hex(&c[..])),
        Pattern(s, p) => format!("{} pattern {}", s, p),
        Feed(s, h, d) => {
            let n = match h {
                How::Append => "append".to_string(),
                How::HWrite => "hwrite".to_string(),
                How::IoWrite => "iowrite".to_string(),
                How::IoWriteAll => "iowriteall".to_string(),
                How::IoWritev(k) => format!("iowritev:{}", k),
                How::IoCopy(k) => format!("iocopy:{}", k),
                How::IoFmt => "iofmt".to_string(),
                How::Typed(k) => format!("typed:{}", k),
            };
            format!("{} {} {}", s, n, datatext(d))
        }
        Finish(s) => format!("{} finish", s),
        Ckpt(s) => format!("{} checkpoint", s),
        Debug(s) => format!("{} debug", s),
        DebugAt(s, k) => format!("{} debugat:{}", s, k),
        Flush(s) => format!("{} flush", s),
        Clone(a, b) => format!("{} clone {}", a, b),
        CloneFrom(a, b) => format!("{} clonefrom {}", a, b),
        Reclone(s) => format!("{} reclone", s),
        CloneDrop(s) => format!("{} clonedrop", s),
        CloneFin(s) => format!("{} clonefin", s),
        Move(a, b) => format!("{} move {}", a, b),
        Drop(s) => format!("{} drop", s),
        Hop(s, b) => format!("{} hop {}", s, bn(*b)),
        Fin(s, w) => format!("{} fin {}", s, w),
        Shot(s, w, d) => format!("{} shot {} {}", s, w, datatext(d)),
        Check(s) => format!("{} check", s),
        One(s, k, v) => {
            let mut t = format!("{} hashone {}", s, keytext(k));
            for (ty, n) in v {
                t.push_str(&format!(" {}{}", if *ty { 't' } else { 'w' }, n));
            }
            t
        }
    }
}

pub fn render(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        s.push_str(&text(o));
        s.push('\n');
    }
    s
}
pub fn render_ptr(p: *const ()) -> String {
    let v = unsafe { &*(p as *const &[Op]) };
    render(v)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}
pub fn parse(line: &str) -> Option<Op> {
    let line = line.split('#').next().unwrap().trim();
    if line.is_empty() {
        return None;
    }
    let w: Vec<&str> = line.split_whitespace().collect();
    let s: usize = w[0].parse().expect("slot");
    let bk = |n: &str| -> u8 { (0..6).find(|i| backends::name(*i) == n).expect("backend") };
    let key = |w: &[&str]| -> [u64; 4] {
        let mut k = [0; 4];
        for i in 0..4 {
            k[i] = u64::from_str_radix(w[i], 16).expect("key");
        }
        k
    };
    let dat = |w: &str| -> Data {
        match w.strip_prefix("hex:") {
            Some(h) => Data::Lit(unhex(h)),
            None => Data::Next(w.parse().expect("len")),
        }
    };
    let (name, arg) = match w[1].split_once(':') {
        Some((a, b)) => (a, b.parse::<usize>().expect("arg")),
        None => (w[1], 0),
    };
    Some(match name {
        "new" => New(s, bk(w[2]), key(&w[3..])),
        "default" => Default(s, bk(w[2])),
        "build" => Build(s, key(&w[2..])),
        "build-default" => BuildDefault(s, bk(w[2])),
        "restore" => {
            let v = unhex(w[3]);
            let mut c = [0u8; 164];
            c.copy_from_slice(&v);
            Restore(s, bk(w[2]), Box::new(c))
        }
        "pattern" => Pattern(s, w[2].parse().unwrap()),
        "append" => Feed(s, How::Append, dat(w.get(2).unwrap_or(&"hex:"))),
        "hwrite" => Feed(s, How::HWrite, dat(w[2])),
        "iowrite" => Feed(s, How::IoWrite, dat(w[2])),
        "iowriteall" => Feed(s, How::IoWriteAll, dat(w[2])),
        "iowritev" => Feed(s, How::IoWritev(arg), dat(w[2])),
        "iocopy" => Feed(s, How::IoCopy(arg), dat(w[2])),
        "iofmt" => Feed(s, How::IoFmt, dat(w[2])),
        "typed" => Feed(s, How::Typed(arg as u8), dat(w[2])),
        "finish" => Finish(s),
        "checkpoint" => Ckpt(s),
        "debug" => Debug(s),
        "debugat" => DebugAt(s, arg),
        "flush" => Flush(s),
        "clone" => Clone(s, w[2].parse().unwrap()),
        "clonefrom" => CloneFrom(s, w[2].parse().unwrap()),
        "reclone" => Reclone(s),
        "clonedrop" => CloneDrop(s),
        "clonefin" => CloneFin(s),
        "move" => Move(s, w[2].parse().unwrap()),
        "drop" => Drop(s),
        "hop" => Hop(s, bk(w[2])),
        "fin" => Fin(s, w[2].parse().unwrap()),
        "shot" => Shot(s, w[2].parse().unwrap(), dat(w[3])),
        "check" => Check(s),
        "hashone" => One(s, key(&w[2..6]), w[6..].iter().map(|x| (x.starts_with('t'), x[1..].parse().unwrap())).collect()),
        x => panic!("harness: unknown op {}", x),
    })
}

// ---- reference -----------------------------------------------------------------------

/// What an observation is compared with.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Oracle {
    /// the specification
    Spec,
    /// the same type, all bytes given in one append to a fresh hasher
    Fresh,
    /// the portable hasher of this build, likewise
    Portable,
    /// the same operations on that instance alone, in a process that runs nothing else
    Alone,
    /// nothing: only record what is observed
    Record,
}
impl Oracle {
    pub fn of(cx: &Ctx, d: Oracle) -> Oracle {
        match cx.p.get("oracle") {
            Some("spec") => Oracle::Spec,
            Some("fresh") => Oracle::Fresh,
            Some("portable") => Oracle::Portable,
            Some("alone") => Oracle::Alone,
            _ => d,
        }
    }
}

#[derive(Clone)]
enum Origin {
    Key([u64; 4]),
    Ckpt(Box<[u8; 164]>),
}

/// One hasher with the ghost history the reference needs.
pub struct Slot {
    pub any: Any,
    origin: Origin,
    home: u8,
    bytes: Vec<u8>,
    pattern: usize,
    pos: usize,
}
impl Slot {
    fn dup(&self) -> Slot {
        Slot {
            any: self.any.clone(),
            origin: self.origin.clone(),
            home: self.home,
            bytes: self.bytes.clone(),
            pattern: self.pattern,
            pos: self.pos,
        }
    }
    fn reference(&self, o: Oracle) -> Any {
        let b = match o {
            Oracle::Portable => 0,
            _ => self.home,
        };
        let mut a = match &self.origin {
            Origin::Key(k) => Any::new(b, *k),
            Origin::Ckpt(c) => Any::restore(b, c),
        };
        a.append(&self.bytes);
        a
    }
    fn model(&self) -> Spec {
        let mut s = match &self.origin {
            Origin::Key(k) => Spec::new(*k),
            Origin::Ckpt(c) => {
                let mut l = [0u64; 16];
                for (i, x) in l.iter_mut().enumerate() {
                    for b in 0..8 {
                        *x |= (c[8 * i + b] as u64) << (8 * b);
                    }
                }
                Spec::from_parts(&l, &c[128..128 + (c[160] as usize).min(31)])
            }
        };
        s.absorb(&self.bytes);
        s
    }
    pub fn pending(&self) -> usize {
        let n = match &self.origin {
            Origin::Key(_) => 0,
            Origin::Ckpt(c) => (c[160] as usize).min(31),
        };
        (n + self.bytes.len()) % 32
    }
    fn want(&self, o: Oracle, obs: u8) -> Expect {
        if o == Oracle::Spec {
            return Expect::new(&self.model(), obs);
        }
        if o == Oracle::Record {
            return Expect { obs, n: 0, ck: [0; 164], o64: 0, o128: [0; 2], o256: [0; 4] };
        }
        let r = self.reference(o);
        Expect {
            obs,
            n: self.pending(),
            ck: if obs & CK != 0 { r.checkpoint() } else { [0; 164] },
            o64: if obs & F64 != 0 { self.reference(o).fin64() } else { 0 },
            o128: if obs & F128 != 0 { self.reference(o).fin128() } else { [0; 2] },
            o256: if obs & F256 != 0 { self.reference(o).fin256() } else { [0; 4] },
        }
    }
}

/// Bytes a typed write is expected to feed, recorded with core's own default methods.
pub struct Rec(pub Vec<u8>);
impl core::hash::Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
#[derive(Hash)]
struct Point {
    x: u32,
    y: u64,
    s: &'static str,
    o: Option<u8>,
}
pub const TYPED: u8 = 24;
/// Apply typed write `k` with material `m` to any Hasher.
pub fn typed(h: &mut dyn core::hash::Hasher, k: u8, m: &[u8]) {
    let mut w = [0u8; 16];
    let n = m.len().min(16);
    w[..n].copy_from_slice(&m[..n]);
    let u = u128::from_le_bytes(w);
    let mut h = h;
    use core::hash::Hash;
    match k {
        0 => h.write_u8(u as u8),
        1 => h.write_u16(u as u16),
        2 => h.write_u32(u as u32),
        3 => h.write_u64(u as u64),
        4 => h.write_u128(u),
        5 => h.write_usize(u as usize),
        6 => h.write_i8(u as i8),
        7 => h.write_i16(u as i16),
        8 => h.write_i32(u as i32),
        9 => h.write_i64(u as i64),
        10 => h.write_i128(u as i128),
        11 => h.write_isize(u as isize),
        12 => "hasher".hash(&mut h),
        13 => m.hash(&mut h),
        14 => (u as u8, u as u64, 'x', true).hash(&mut h),
        15 => Some(u as u32).hash(&mut h),
        16 => [u as u64, !u as u64, 0, u64::MAX].hash(&mut h),
        17 => "".hash(&mut h),
        18 => ().hash(&mut h),
        19 => [u as u16; 5][..].hash(&mut h),
        20 => core::mem::discriminant(&Some(1u8)).hash(&mut h),
        21 => (-1i8, i64::MIN, u as i128).hash(&mut h),
        22 => Point { x: 1, y: u as u64, s: "pt", o: None }.hash(&mut h),
        _ => 1.5f64.to_bits().hash(&mut h),
    }
}

#[cfg(feature = "hstd")]
struct Stepper<'a> {
    d: &'a [u8],
    k: usize,
}
#[cfg(feature = "hstd")]
impl<'a> std::io::Read for Stepper<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.k.min(self.d.len()).min(b.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}

/// Bytes at a chosen offset from a 64-byte boundary.
pub struct Placed {
    buf: Vec<u8>,
    at: usize,
    n: usize,
}
impl Placed {
    pub fn new(v: &[u8], offset: usize) -> Placed {
        let mut buf = vec![0xa5u8; v.len() + 128];
        let at = (64 - (buf.as_ptr() as usize) % 64) % 64 + offset % 64;
        buf[at..at + v.len()].copy_from_slice(v);
        Placed { buf, at, n: v.len() }
    }
}
impl core::ops::Deref for Placed {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.buf[self.at..self.at + self.n]
    }
}

pub struct Exec<'c> {
    pub slots: [Option<Slot>; SLOTS],
    oracle: Oracle,
    canon: bool,
    ops: &'c [Op],
    at: usize,
    pub observed: u64,
    pub obs_hash: u64,
    /// (operation, value) of every observation, in record mode
    pub record: Vec<(usize, u64)>,
    /// builders live as long as the history: one key, one shared builder
    builders: Vec<([u64; 4], HighwayBuildHasher)>,
}

impl<'c> Exec<'c> {
    pub fn new(ops: &'c [Op], oracle: Oracle, canon: bool) -> Self {
        Exec {
            slots: [None, None, None],
            oracle,
            canon,
            ops,
            at: 0,
            observed: 0,
            obs_hash: 1,
            record: Vec::new(),
            builders: Vec::new(),
        }
    }
    /// Run operation i.
    pub fn run(&mut self, i: usize) {
        self.at = i;
        let ops = self.ops;
        self.step(&ops[i]);
    }
    fn bad(&self, what: &str, got: String, want: String) {
        plat::differs(what, || {
            format!(
                "{}# at step {}: {}: got {} want {} ({:?} reference)\n",
                render(self.ops),
                self.at,
                what,
                got,
                want,
                self.oracle
            )
        })
    }
    fn cmp<T: PartialEq + Hx>(&mut self, what: &str, got: T, want: T) {
        self.observed += 1;
        if self.oracle == Oracle::Record {
            self.record.push((self.at, got.fold()));
            return;
        }
        self.obs_hash = fnv(self.obs_hash, want.fold());
        if got != want {
            self.bad(what, got.hx(), want.hx());
        }
    }
    fn builder(&mut self, k: &[u64; 4]) -> usize {
        match self.builders.iter().position(|b| b.0 == *k) {
            Some(i) => i,
            None => {
                self.builders.push((*k, plat::lib(|| HighwayBuildHasher::new(Key(*k)))));
                self.builders.len() - 1
            }
        }
    }
    fn slot(&mut self, i: usize) -> &mut Slot {
        match &mut self.slots[i] {
            Some(s) => s,
            None => panic!("harness: empty slot {}", i),
        }
    }
    fn cmp_ck(&mut self, got: &[u8; 164], want: &Expect) {
        self.observed += 1;
        if self.oracle == Oracle::Record {
            self.record.push((self.at, fnv_bytes(7, got)));
            return;
        }
        self.obs_hash = fnv_bytes(self.obs_hash, &want.ck[..128]);
        let ok = if self.canon {
            *got == want.ck
        } else {
            ck_eq(got, &want.ck, want.n)
        };
        if !ok {
            self.bad("checkpoint", hex(got), hex(&want.ck));
        }
    }
    fn put(&mut self, i: usize, any: Any, origin: Origin) {
        let home = any.id();
        self.slots[i] = Some(Slot {
            any,
            origin,
            home,
            bytes: Vec::new(),
            pattern: i,
            pos: 0,
        });
    }
    /// The bytes of a feed, at an address whose alignment depends on the step, so that
    /// histories meet every alignment.
    fn data(&mut self, i: usize, d: &Data) -> Placed {
        let v = self.bytes_of(i, d);
        let o = match self.oracle {
            // the same in the history and in its projections
            Oracle::Record => 7 * self.slot(i).pos + 13 * v.len(),
            _ => 7 * self.at + 13 * v.len() + self.ops.len(),
        } % 64;
        Placed::new(&v, o)
    }
    fn bytes_of(&mut self, i: usize, d: &Data) -> Vec<u8> {
        match d {
            Data::Lit(v) => v.clone(),
            Data::Next(n) => {
                let s = self.slot(i);
                let r = data::slice(s.pattern, s.pos, s.pos + n).to_vec();
                s.pos += n;
                r
            }
        }
    }

    pub fn step(&mut self, op: &Op) {
        match op {
            New(i, b, k) => {
                let a = Any::new(*b, *k);
                self.put(*i, a, Origin::Key(*k))
            }
            Default(i, b) => {
                let a = Any::default(*b);
                self.put(*i, a, Origin::Key([0; 4]))
            }
            One(i, k, v) => {
                let at = self.builder(k);
                let mut r = Rec(Vec::new());
                core::hash::Hash::hash(&Steps(*i, v), &mut r);
                let s = Slot { any: Any::new(1, *k), origin: Origin::Key(*k), home: 1, bytes: r.0, pattern: *i, pos: 0 };
                let want = s.want(self.oracle, F64).o64;
                let bh = &self.builders[at].1;
                let got = plat::lib(|| bh.hash_one(Steps(*i, v)));
                self.cmp("hash_one", got, want);
            }
            Build(i, k) => {
                let at = self.builder(k);
                let bh = &self.builders[at].1;
                let h = plat::lib(|| bh.build_hasher());
                self.put(*i, Any::Auto(h), Origin::Key(*k))
            }
            BuildDefault(i, b) => {
                let a = if *b == 1 && (self.at % 2 == 0 || self.oracle == Oracle::Record) {
                    let bh = plat::lib(HighwayBuildHasher::default);
                    Any::Auto(plat::lib(|| bh.build_hasher()))
                } else {
                    crate::backends::build_default(*b)
                };
                self.put(*i, a, Origin::Key([0; 4]))
            }
            Restore(i, b, c) => {
                let a = Any::restore(*b, c);
                self.put(*i, a, Origin::Ckpt(c.clone()))
            }
            Pattern(i, p) => self.slot(*i).pattern = *p,
            Feed(i, how, d) => {
                let v = self.data(*i, d);
                self.feed(*i, *how, v);
            }
            Finish(i) => {
                let (o, s) = (self.oracle, self.slot(*i));
                let w = s.want(o, F64).o64;
                let g = s.any.finish();
                self.cmp("finish", g, w);
            }
            Ckpt(i) => {
                let (o, s) = (self.oracle, self.slot(*i));
                let w = s.want(o, CK);
                let g = s.any.checkpoint();
                self.cmp_ck(&g, &w);
            }
            DebugAt(i, k) => self.slot(*i).any.debug_at(*k),
            Debug(i) => {
                // must not panic or change anything; its text is not compared
                self.slot(*i).any.debug();
            }
            #[cfg(feature = "hstd")]
            Flush(i) => {
                if self.slot(*i).any.flush().is_err() {
                    self.bad("flush", "error".into(), "ok".into());
                }
            }
            #[cfg(not(feature = "hstd"))]
            Flush(_) => {}
            Clone(a, b) => {
                let s = self.slot(*b).dup();
                self.slots[*a] = Some(s);
            }
            CloneFrom(a, b) => {
                let mut s = self.slots[*a].take().expect("harness: empty slot");
                let src = self.slot(*b);
                s.any.clone_from(&src.any);
                s.origin = src.origin.clone();
                s.home = src.home;
                s.bytes = src.bytes.clone();
                s.pattern = src.pattern;
                s.pos = src.pos;
                self.slots[*a] = Some(s);
            }
            Reclone(i) => {
                let s = self.slot(*i).dup();
                self.slots[*i] = Some(s);
            }
            CloneDrop(i) => {
                let c = self.slot(*i).any.clone();
                plat::lib(move || drop(c));
            }
            CloneFin(i) => {
                let (o, s) = (self.oracle, self.slot(*i));
                let w = s.want(o, F64 | F256);
                let c = s.any.clone();
                let d = s.any.clone();
                self.cmp("clone hash64", c.fin64(), w.o64);
                self.cmp("clone hash256", d.fin256(), w.o256);
            }
            Move(a, b) => {
                let s = self.slots[*b].take();
                self.slots[*a] = s.map(|s| *Box::new(s));
            }
            Drop(i) => {
                let s = self.slots[*i].take();
                plat::lib(move || core::mem::drop(s.map(|s| s.any)));
            }
            Hop(i, b) => {
                let s = self.slot(*i);
                let c = s.any.checkpoint();
                s.any = Any::restore(*b, &c);
            }
            Fin(i, w) => {
                let s = self.slots[*i].take().expect("harness: empty slot");
                match w {
                    64 => {
                        let e = s.want(self.oracle, F64).o64;
                        let g = s.any.fin64();
                        self.cmp("hash64", g, e)
                    }
                    128 => {
                        let e = s.want(self.oracle, F128).o128;
                        let g = s.any.fin128();
                        self.cmp("hash128", g, e)
                    }
                    _ => {
                        let e = s.want(self.oracle, F256).o256;
                        let g = s.any.fin256();
                        self.cmp("hash256", g, e)
                    }
                }
            }
            Shot(i, w, d) => {
                let v = self.data(*i, d);
                let mut s = self.slots[*i].take().expect("harness: empty slot");
                s.bytes.extend_from_slice(&v);
                // reference first: it reads only the ghost history
                match w {
                    64 => {
                        let e = s.want(self.oracle, F64).o64;
                        let g = s.any.hash64(&v);
                        self.cmp("one-shot hash64", g, e)
                    }
                    128 => {
                        let e = s.want(self.oracle, F128).o128;
                        let g = s.any.hash128(&v);
                        self.cmp("one-shot hash128", g, e)
                    }
                    _ => {
                        let e = s.want(self.oracle, F256).o256;
                        let g = s.any.hash256(&v);
                        self.cmp("one-shot hash256", g, e)
                    }
                }
            }
            Check(i) => {
                let o = self.oracle;
                let s = self.slots[*i].take().expect("harness: empty slot");
                let w = s.want(o, OUT | CK);
                let ck = s.any.checkpoint();
                self.cmp_ck(&ck, &w);
                let a = s.any.clone();
                let b = s.any.clone();
                self.cmp("hash64", a.fin64(), w.o64);
                self.cmp("hash128", b.fin128(), w.o128);
                self.cmp("hash256", s.any.fin256(), w.o256);
            }
        }
    }

    fn feed(&mut self, i: usize, how: How, v: Placed) {
        match how {
            How::Append => {
                self.slot(i).any.append(&v);
                self.slot(i).bytes.extend_from_slice(&v);
            }
            How::HWrite => {
                self.slot(i).any.hwrite(&v);
                self.slot(i).bytes.extend_from_slice(&v);
            }
            How::Typed(k) => {
                let mut r = Rec(Vec::new());
                typed(&mut r, k, &v);
                self.slot(i).any.with_hasher(&mut |h| typed(h, k, &v));
                self.slot(i).bytes.extend_from_slice(&r.0);
            }
            #[cfg(feature = "hstd")]
            How::IoWrite => {
                let r = self.slot(i).any.iowrite(&v);
                if r != Ok(v.len()) {
                    self.bad("io::Write::write", format!("{:?}", r), format!("Ok({})", v.len()));
                }
                self.slot(i).bytes.extend_from_slice(&v);
            }
            #[cfg(feature = "hstd")]
            How::IoWriteAll => {
                if self.slot(i).any.iowrite_all(&v).is_err() {
                    self.bad("io::Write::write_all", "error".into(), "ok".into());
                }
                self.slot(i).bytes.extend_from_slice(&v);
            }
            #[cfg(feature = "hstd")]
            How::IoWritev(k) => {
                let cut = v.len() / 3;
                let pieces: Vec<&[u8]> = match k {
                    0 => vec![&v[..cut], &[], &v[cut..]],
                    _ => (0..k).map(|j| &v[v.len() * j / k..v.len() * (j + 1) / k]).collect(),
                };
                let r = self.slot(i).any.iowritev(&pieces);
                match r {
                    // how much one vectored call takes is the implementation's choice, but a
                    // non-empty request must make progress
                    Ok(n) if n <= v.len() && (n > 0 || v.is_empty()) => {
                        self.slot(i).bytes.extend_from_slice(&v[..n]);
                    }
                    r => self.bad("write_vectored", format!("{:?}", r), "1..=len".into()),
                }
            }
            #[cfg(feature = "hstd")]
            How::IoCopy(k) => {
                let mut rd = Stepper { d: &v, k };
                let r = self.slot(i).any.iocopy(&mut rd);
                if r != Ok(v.len() as u64) {
                    self.bad("io::copy", format!("{:?}", r), format!("Ok({})", v.len()));
                }
                self.slot(i).bytes.extend_from_slice(&v);
            }
            #[cfg(feature = "hstd")]
            How::IoFmt => {
                let t = hex(&v);
                let r = self.slot(i).any.iofmt(format_args!("{}-{}", t, v.len()));
                if r.is_err() {
                    self.bad("write_fmt", "error".into(), "ok".into());
                }
                let full = format!("{}-{}", t, v.len());
                self.slot(i).bytes.extend_from_slice(full.as_bytes());
            }
            #[cfg(not(feature = "hstd"))]
            _ => {
                self.slot(i).any.append(&v);
                self.slot(i).bytes.extend_from_slice(&v);
            }
        }
    }
}

// small helper so `cmp` can print and hash each output type
pub trait Hx {
    fn hx(&self) -> String;
    fn fold(&self) -> u64;
}
impl Hx for u64 {
    fn hx(&self) -> String {
        format!("{:x}", self)
    }
    fn fold(&self) -> u64 {
        *self
    }
}
impl<const N: usize> Hx for [u64; N] {
    fn hx(&self) -> String {
        format!("{:x?}", self)
    }
    fn fold(&self) -> u64 {
        self.iter().fold(0, |h, x| fnv(h, *x))
    }
}

pub fn exec(cx: &mut Ctx, ops: &[Op], oracle: Oracle) {
    if !valid(ops) {
        return;
    }
    if oracle == Oracle::Alone {
        #[cfg(all(feature = "std", unix, not(miri)))]
        return crate::isol::exec(cx, ops);
        #[cfg(not(all(feature = "std", unix, not(miri))))]
        panic!("harness: no processes here");
    }
    let canon = cx.p.get("canon").is_some();
    let r: &[Op] = ops;
    unsafe {
        plat::CURRENT = Some((render_ptr, &r as *const &[Op] as *const ()));
    }
    let mut e = Exec::new(ops, oracle, canon);
    for i in 0..ops.len() {
        e.run(i);
    }
    unsafe { plat::CURRENT = None };
    cx.evals += 1;
    cx.outcomes.add(e.obs_hash);
    cx.digest = cx.digest.wrapping_add(fnv(e.obs_hash, 0x77));
    // the history itself, as a state of the unfolded transition system
    let mut h = 3;
    for s in e.slots.iter().flatten() {
        h = fnv(fnv_bytes(h, &s.bytes), s.any.id() as u64);
    }
    cx.states.add(fnv(h, e.obs_hash));
    if cx.samples.len() < 3 && cx.evals % 997 == 5 {
        let mut t = render(ops).replace('\n', "; ");
        t.truncate(400);
        cx.samples.push(t);
    }
}

// ---- enumeration ---------------------------------------------------------------------

/// All sequences over `alphabet` up to `depth` operations, each wrapped in `prefix` and every
/// `suffix`. Sequences that use an empty slot are not histories and are skipped.
pub fn sequences(
    cx: &mut Ctx,
    prefix: &[Op],
    alphabet: &[Op],
    depth: usize,
    exact: bool,
    suffixes: &[Vec<Op>],
    oracle: Oracle,
) {
    let mut idx: Vec<usize> = Vec::new();
    let mut ops: Vec<Op> = Vec::new();
    let depth = depth + cx.p.num("deeper", 0) as usize;
    let lo = if exact { depth } else { 0 };
    for d in lo..=depth {
        idx.clear();
        idx.resize(d, 0);
        loop {
            ops.clear();
            ops.extend_from_slice(prefix);
            ops.extend(idx.iter().map(|i| alphabet[*i].clone()));
            if d == 0 || idx[0] < alphabet.len() {
                let mine = cx.take();
                if mine && valid(&ops) {
                    let base = ops.len();
                    for s in suffixes {
                        ops.truncate(base);
                        ops.extend_from_slice(s);
                        if valid(&ops) {
                            exec(cx, &ops, oracle);
                        }
                    }
                }
            }
            // next index vector
            let mut k = d;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alphabet.len() {
                    break;
                }
                idx[k] = 0;
                if k == 0 {
                    k = usize::MAX;
                    break;
                }
            }
            if k == usize::MAX || d == 0 {
                break;
            }
        }
    }
}

pub fn valid(ops: &[Op]) -> bool {
    let mut full = [false; SLOTS];
    for o in ops {
        match o {
            New(i, ..) | Default(i, _) | Build(i, _) | BuildDefault(i, _) | Restore(i, ..) => {
                full[*i] = true
            }
            Clone(a, b) => {
                if !full[*b] || a == b {
                    return false;
                }
                full[*a] = true;
            }
            CloneFrom(a, b) => {
                if !full[*b] || !full[*a] || a == b {
                    return false;
                }
            }
            Move(a, b) => {
                if !full[*b] || a == b {
                    return false;
                }
                full[*b] = false;
                full[*a] = true;
            }
            Drop(i) | Fin(i, _) | Shot(i, ..) | Check(i) => {
                if !full[*i] {
                    return false;
                }
                full[*i] = false;
            }
            One(..) => {}
            Pattern(i, _) | Feed(i, ..) | Finish(i) | Ckpt(i) | Debug(i) | DebugAt(i, _) | Flush(i) | Reclone(i)
            | CloneDrop(i) | CloneFin(i) | Hop(i, _) => {
                if !full[*i] {
                    return false;
                }
            }
        }
    }
    true
}

fn f(i: usize, h: How, n: usize) -> Op {
    Feed(i, h, Data::Next(n))
}
fn lens(cx: &Ctx, small: &[usize], big: &[usize]) -> Vec<usize> {
    let mut v = small.to_vec();
    if cx.scale >= 2 {
        v.extend_from_slice(big);
        // lengths the sources single out
        // (many of them would multiply, not add: in combinations the first ones have to do)
        let few = cx.dict.iter().filter(|d| **d > 64 && **d <= 4096);
        v.extend(few.map(|d| *d as usize).take(if cx.scale >= 3 { 5 } else { 12 }));
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn fins(i: usize) -> Vec<Vec<Op>> {
    vec![vec![Fin(i, 64)], vec![Fin(i, 128)], vec![Fin(i, 256)]]
}
fn news(cx: &Ctx) -> Vec<Op> {
    let k = crate::lattice::KEY1;
    let mut v: Vec<Op> = cx.backends.iter().map(|b| New(0, *b, k)).collect();
    if cx.backends.contains(&1) {
        v.push(Build(0, k));
    }
    v
}
#[cfg(feature = "hstd")]
const IO: bool = true;
#[cfg(not(feature = "hstd"))]
const IO: bool = false;

/// C05: entry points and chunk lengths.
pub fn stream(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let mut hows = vec![How::Append, How::HWrite];
    if IO {
        hows.extend([How::IoWrite, How::IoWriteAll]);
    }
    let ls = lens(cx, &[0, 1, 16, 31, 32, 33], &[3, 4, 15, 17, 28, 63, 64, 65, 96, 97, 200]);
    let mut suf = fins(0);
    for w in [64u16, 128, 256] {
        for n in [0usize, 1, 31, 32, 40] {
            suf.push(vec![Shot(0, w, Data::Next(n))]);
        }
    }
    let mut al = Vec::new();
    for h in &hows {
        for n in &ls {
            al.push(f(0, *h, *n));
        }
    }
    let few: Vec<Op> = [0usize, 1, 2, 13, 16, 19, 31, 32, 33, 64]
        .iter()
        .map(|n| f(0, How::Append, *n))
        .collect();
    for n in news(cx) {
        let d = [1, 2, 2, 3][cx.scale.min(3) as usize];
        sequences(cx, &[n.clone()], &al, d, false, &suf, o);
        let d = [2, 3, 4, 5][cx.scale.min(3) as usize];
        sequences(cx, &[n.clone()], &few, d, true, &suf[..3], o);
        if IO && cx.scale >= 1 {
            let cp: Vec<Op> = [1usize, 7, 32, 40, 8192]
                .iter()
                .flat_map(|k| [0usize, 5, 33, 100, 300].map(|n| f(0, How::IoCopy(*k), n)))
                .chain([f(0, How::Append, 9)])
                .collect();
            sequences(cx, &[n.clone()], &cp, 2, false, &suf[..3], o);
        }
    }
    // long calls behind and before every pending count
    let big: &[usize] = match cx.scale {
        0 => &[],
        1 => &[1024],
        2 => &[127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 8192, 10007, 65535, 65536, 65537],
        _ => &[127, 128, 255, 256, 257, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 10007, 32768, 65535, 65536, 65537, 131072, 1000003, 1048576, 1048577],
    };
    let extra: Vec<usize> = cx.dict.iter().filter(|d| **d <= 1 << 20).flat_map(|d| [*d as usize, *d as usize + 1, (*d as usize).saturating_sub(1)]).collect();
    for n in news(cx) {
        for b in big.iter().chain(extra.iter()) {
            for pre in 0..32usize {
                if !cx.take() {
                    continue;
                }
                for post in [0usize, 1, 32 - pre, 31, 33] {
                    let ops = [
                        n.clone(),
                        f(0, How::Append, pre),
                        f(0, How::Append, *b),
                        f(0, How::Append, post),
                        Fin(0, 256),
                    ];
                    exec(cx, &ops, o);
                }
            }
        }
    }
    let fills = crate::lattice::fills(cx.scale);
    for n in news(cx) {
        for l in &fills {
            if !cx.take() {
                continue;
            }
            for pre in 1..32usize {
                exec(cx, &[n.clone(), f(0, How::Append, pre), f(0, How::Append, *l), Fin(0, 64)], o);
            }
        }
    }
    // many calls: counters of calls, not of bytes
    let calls: &[usize] = match cx.scale {
        0 => &[40],
        1 => &[300],
        2 => &[255, 256, 257, 300, 1023, 1024, 1025, 4096, 4097],
        _ => &[255, 256, 257, 300, 1023, 1024, 1025, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537],
    };
    for n in news(cx) {
        for c in calls {
            for l in [0usize, 1, 5, 32, 33] {
                if c * l > 300_000 || !cx.take() {
                    continue;
                }
                let mut ops = vec![n.clone(), f(0, How::Append, 3)];
                for _ in 0..*c {
                    ops.push(f(0, How::Append, l));
                }
                ops.push(Fin(0, 64));
                exec(cx, &ops, o);
            }
        }
    }
}

/// C06: hops between backends inserted everywhere in short histories.
pub fn hops(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let ls = lens(cx, &[0, 1, 17, 31, 32, 33], &[5, 16, 64, 70]);
    let mut al: Vec<Op> = ls.iter().map(|n| f(0, How::Append, *n)).collect();
    for b in cx.backends.clone() {
        al.push(Hop(0, b));
    }
    let mut suf = fins(0);
    for n in news(cx) {
        let d = [2, 3, 4, 5][cx.scale.min(3) as usize];
        sequences(cx, &[n.clone()], &al, d, false, &suf, o);
    }
    // cut at every position of one-shot prefixes, hop, then every short suffix
    suf.truncate(3);
    let (p, q) = [(33, 2), (66, 34), (140, 70), (300, 100)][cx.scale.min(3) as usize];
    for n in news(cx) {
        for b in cx.backends.clone() {
            for i in 0..=p {
                if !cx.take() {
                    continue;
                }
                for j in 0..=q {
                    for s in &suf {
                        let mut ops = vec![n.clone(), f(0, How::Append, i), Hop(0, b), f(0, How::Append, j)];
                        ops.extend_from_slice(s);
                        exec(cx, &ops, o);
                    }
                }
            }
            // the same for restores repeated many times
            for k in [2usize, 3, 16, 255, 256, 257] {
                if !cx.take() {
                    continue;
                }
                let mut ops = vec![n.clone(), f(0, How::Append, 45)];
                for t in 0..k {
                    ops.push(Hop(0, if t % 2 == 0 { b } else { 0 }));
                }
                ops.push(f(0, How::Append, 70));
                ops.push(Check(0));
                exec(cx, &ops, o);
            }
        }
    }
    // checkpoints at large counts
    let big: &[usize] = [&[][..], &[300], &[255, 256, 257, 8191, 65535, 65536, 65537, 1 << 20], &[255, 256, 257, 8191, 65535, 65536, 65537, 1 << 20, 1 << 24]][cx.scale.min(3) as usize];
    for n in news(cx) {
        for b in cx.backends.clone() {
            for l in big {
                for r in [0usize, 1, 15, 31] {
                    if !cx.take() {
                        continue;
                    }
                    let ops = [n.clone(), f(0, How::Append, *l + r), Hop(0, b), f(0, How::Append, 50), Check(0)];
                    exec(cx, &ops, o);
                }
            }
        }
    }
}

/// C07: default-constructed values, by every route, through histories.
pub fn default(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let mut al: Vec<Op> = lens(cx, &[0, 1, 16, 31, 32, 33], &[3, 15, 17, 64, 100])
        .iter()
        .map(|n| f(0, How::Append, *n))
        .collect();
    if IO {
        al.push(f(0, How::IoCopy(40), 77));
        al.push(f(0, How::IoWrite, 9));
    }
    al.push(f(0, How::HWrite, 11));
    al.push(Finish(0));
    al.push(Reclone(0));
    for b in cx.backends.clone() {
        al.push(Hop(0, b));
    }
    let mut suf = fins(0);
    for w in [64u16, 128, 256] {
        suf.push(vec![Shot(0, w, Data::Next(37))]);
    }
    suf.push(vec![Check(0)]);
    for b in cx.backends.clone() {
        for c in [Default(0, b), BuildDefault(0, b)] {
            let d = [1, 2, 3, 4][cx.scale.min(3) as usize];
            sequences(cx, &[c.clone()], &al, d, false, &suf, o);
            // a pad operation shifts BuildDefault to its other route (see `step`)
            sequences(cx, &[New(1, b, [1; 4]), c.clone()], &al, 1, false, &suf, o);
            // after another instance was used and dropped
            sequences(
                cx,
                &[New(1, b, [9; 4]), f(1, How::Append, 50), Fin(1, 64), c.clone()],
                &al,
                1,
                false,
                &suf,
                o,
            );
            let max = [40, 100, 400, 2000][cx.scale.min(3) as usize];
            for n in 0..=max {
                if cx.take() {
                    for s in &suf {
                        let mut ops = vec![c.clone(), f(0, How::Append, n)];
                        ops.extend_from_slice(s);
                        exec(cx, &ops, o);
                    }
                }
            }
        }
    }
}

/// C12: the std adapters.
pub fn adapters(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let mut al: Vec<Op> = Vec::new();
    for n in lens(cx, &[0, 1, 32, 33], &[7, 31, 64]) {
        al.push(f(0, How::HWrite, n));
        if IO {
            al.push(f(0, How::IoWrite, n));
        }
    }
    al.push(Finish(0));
    al.push(f(0, How::Typed(3), 8));
    al.push(f(0, How::Typed(14), 8));
    if IO {
        al.push(Flush(0));
        al.push(f(0, How::IoWritev(0), 40));
        al.push(f(0, How::IoCopy(13), 60));
    }
    let suf = vec![
        vec![Finish(0), Finish(0), f(0, How::HWrite, 5), Finish(0)],
        vec![Fin(0, 64)],
        vec![Fin(0, 256)],
    ];
    for n in news(cx) {
        let d = [1, 2, 3, 4][cx.scale.min(3) as usize];
        sequences(cx, &[n.clone()], &al, d, false, &suf, o);
        // every typed write, alone and in pairs, at every pending count
        let ty: Vec<Op> = (0..TYPED).map(|k| f(0, How::Typed(k), 16)).collect();
        let pres: &[usize] = if cx.scale >= 2 {
            &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]
        } else if cx.scale == 1 {
            &[0, 5, 16, 31]
        } else {
            &[9]
        };
        for p in pres {
            for pat in [0usize, 2, 4] {
                if cx.scale == 0 && pat > 0 {
                    continue;
                }
                let pre = [n.clone(), Pattern(0, pat), f(0, How::HWrite, *p)];
                sequences(cx, &pre, &ty, if cx.scale >= 2 { 2 } else { 1 }, false, &[vec![Finish(0), Fin(0, 128)]], o);
            }
        }
        if IO && cx.scale >= 1 {
            let io: Vec<Op> = [0usize, 1, 31, 32, 33, 8191, 8192, 8193, 20000]
                .iter()
                .flat_map(|n| {
                    vec![
                        f(0, How::IoWrite, *n),
                        f(0, How::IoWriteAll, *n),
                        f(0, How::IoWritev(0), *n),
                        f(0, How::IoCopy(8000), *n),
                    ]
                })
                .chain([f(0, How::IoFmt, 20), f(0, How::IoFmt, 0), Flush(0), Finish(0)])
                .collect();
            sequences(cx, &[n.clone()], &io, 2, false, &[vec![Finish(0), Fin(0, 64)]], o);
            // gathering writes of any number of pieces, empty ones among them
            let many = (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1026]);
            let most = if cx.scale >= 2 { usize::MAX } else { 65 };
            for k in many.filter(|k| *k <= most) {
                for (pend, len) in [(0, 3 * k), (5, 33 * k), (31, k / 2 + 20), (3, 1)] {
                    if cx.take() {
                        let w = f(0, How::IoWritev(k), len);
                        exec(cx, &[n.clone(), f(0, How::HWrite, pend), w.clone(), Finish(0), w, Fin(0, 128)], o);
                    }
                }
            }
        }
        // finish asked many times, between many writes
        for k in [40usize, 300, 1100] {
            if cx.scale == 0 || !cx.take() {
                continue;
            }
            let mut ops = vec![n.clone()];
            for i in 0..k {
                ops.push(f(0, How::HWrite, 1 + i % 3));
                ops.push(Finish(0));
            }
            exec(cx, &ops, o);
            let mut ops = vec![n.clone(), f(0, How::HWrite, 21)];
            for _ in 0..k {
                ops.push(Finish(0));
            }
            ops.push(Check(0));
            exec(cx, &ops, o);
        }
    }
    // one builder hands out independent hashers: see `builders`
    builders(cx, o);
    hash_ones(cx, o);
}

/// `hash_one` of values that feed the hasher in every short sequence of steps.
fn hash_ones(cx: &mut Ctx, o: Oracle) {
    if !cx.backends.contains(&1) {
        return;
    }
    let key = [1u64, 2, 3, 4];
    let run = |cx: &mut Ctx, slot: usize, k: [u64; 4], v: Vec<(bool, usize)>| {
        if cx.take() {
            exec(cx, &[One(slot, k, v)], o);
        }
    };
    let sc = cx.scale.min(3) as usize;
    // one write of every length, one write of each type, many of them
    for n in 0..=[70, 300, 1100, 4200][sc] {
        run(cx, 0, key, vec![(false, n)]);
        run(cx, 1, [0; 4], vec![(false, n)]);
        if n <= [40, 140, 300, 1100][sc] {
            run(cx, 2, [u64::MAX; 4], vec![(false, 1); n]);
            run(cx, 0, key, vec![(true, n % TYPED as usize); n]);
            for k in 0..TYPED as usize {
                run(cx, 0, key, vec![(true, k), (false, n)]);
                run(cx, 0, key, vec![(false, n), (true, k)]);
            }
        }
    }
    // two writes of any lengths
    let top = [12, 70, 150, 300][sc];
    for a in 0..=top {
        for b in 0..=top {
            run(cx, a % 3, key, vec![(false, a), (false, b)]);
        }
    }
    // sequences over the lengths at which something can change
    let ns: &[usize] = if sc == 0 { &[0, 1, 31, 32, 33, 100] } else { &[0, 1, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 256, 1025] };
    let mut al: Vec<(bool, usize)> = ns.iter().map(|n| (false, *n)).collect();
    al.extend((0..TYPED as usize).filter(|k| sc > 1 || [0, 3, 4, 12, 13, 14].contains(k)).map(|k| (true, k)));
    for d in 2..=[2, 3, 3, 4][sc] {
        let mut ix = vec![0usize; d];
        'all: loop {
            run(cx, 0, key, ix.iter().map(|i| al[*i]).collect());
            let mut k = d;
            loop {
                if k == 0 {
                    break 'all;
                }
                k -= 1;
                ix[k] += 1;
                if ix[k] < al.len() {
                    break;
                }
                ix[k] = 0;
            }
        }
    }
    // between other uses of the same builder
    let one = |v: &[(bool, usize)]| One(0, key, v.to_vec());
    let al = [
        one(&[]),
        one(&[(false, 5)]),
        one(&[(false, 70), (true, 0)]),
        one(&[(true, 12), (false, 33)]),
        Build(1, key),
        Build(2, key),
        f(1, How::HWrite, 21),
        f(2, How::HWrite, 40),
        Finish(1),
        Finish(2),
        One(0, [0; 4], vec![(true, 3)]),
    ];
    sequences(cx, &[Build(1, key)], &al, [1, 3, 3, 4][sc], false, &[vec![Finish(1), one(&[(true, 3)]), Fin(1, 128)]], o);
}

fn builders(cx: &mut Ctx, _o: Oracle) {
    use core::hash::{Hash, Hasher};
    if !cx.backends.contains(&1) {
        return;
    }
    let al = crate::lattice::alphabet(cx);
    let keys: Vec<[u64; 4]> = crate::lattice::keys()
        .iter()
        .copied()
        .chain((0..4).flat_map(|i| {
            al.iter().map(move |x| {
                let mut k = [0u64; 4];
                k[i] = *x;
                k
            })
        }))
        .collect();
    let nk = if cx.scale == 0 { 4 } else { keys.len() };
    for k in keys.iter().take(nk) {
        if !cx.take() {
            continue;
        }
        let b1 = plat::lib(|| HighwayBuildHasher::new(Key(*k)));
        let b2 = plat::lib(|| HighwayBuildHasher::new(Key(*k)));
        let mut live: Vec<(Vec<u8>, highway::HighwayHasher)> = Vec::new();
        for i in 0..40usize {
            // a value hashed by either instance, and by hand
            let v: (u32, &str, [u8; 5], Option<u64>) = (i as u32, "value", [i as u8; 5], Some(k[0]));
            let h1 = plat::lib(|| b1.hash_one(v));
            let h2 = plat::lib(|| b2.hash_one(v));
            let mut r = Rec(Vec::new());
            v.hash(&mut r);
            let want = {
                let mut h = Any::new(1, *k);
                h.append(&r.0);
                h.fin64()
            };
            cx.evals += 1;
            cx.outcomes.add(want);
            if h1 != want || h2 != want {
                plat::differs("BuildHasher::hash_one", || format!("0 build {}\n0 append hex:{}\n0 finish\n# hash_one gave {:x} and {:x}, want {:x}\n", keytext(k), hex(&r.0), h1, h2, want));
            }
            live.push((Vec::new(), plat::lib(|| if i % 2 == 0 { b1.build_hasher() } else { b2.build_hasher() })));
            // feed all live hashers a little; they must not disturb each other
            for (j, (bytes, h)) in live.iter_mut().enumerate() {
                let d = data::slice(j % data::PATTERNS, i, i + 3 + j % 5);
                plat::lib(|| h.write(d));
                bytes.extend_from_slice(d);
            }
        }
        for (j, (bytes, h)) in live.into_iter().enumerate() {
            let mut r = Any::new(1, *k);
            r.append(&bytes);
            let want = r.fin64();
            let got = plat::lib(|| h.finish());
            if got != want {
                plat::differs("hasher handed out by a BuildHasher", || format!("0 build {}\n0 append hex:{}\n0 finish\n# {}th hasher of two builders used in turn: got {:x} want {:x}\n", keytext(k), hex(&bytes), j, got, want));
            }
        }
    }
    #[cfg(feature = "hstd")]
    {
        // the collections themselves
        if cx.take() {
            let mut m = std::collections::HashMap::with_hasher(HighwayBuildHasher::new(Key([1, 2, 3, 4])));
            for i in 0..5000u32 {
                m.insert(i, i * 3);
            }
            for i in 0..5000u32 {
                if m.get(&i) != Some(&(i * 3)) {
                    plat::differs("HashMap lookup", || "# HashMap with HighwayBuildHasher lost a key\n".into());
                }
            }
            cx.evals += 10000;
        }
    }
}

/// C13: observers anywhere, clones kept, dropped, finalised, diverging.
pub fn observers(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let mut al: Vec<Op> = lens(cx, &[1, 31, 33], &[0, 16, 32])
        .iter()
        .map(|n| f(0, How::Append, *n))
        .collect();
    al.extend([
        Finish(0),
        Ckpt(0),
        Debug(0),
        CloneDrop(0),
        CloneFin(0),
        Reclone(0),
        Clone(1, 0),
        Move(0, 1),
        CloneFrom(1, 0),
        f(1, How::Append, 20),
        Drop(1),
    ]);
    let suf = vec![
        vec![Fin(0, 64)],
        vec![Fin(0, 128)],
        vec![Fin(0, 256)],
        vec![Check(0), Check(1)],
        vec![f(0, How::Append, 45), Fin(0, 128), f(1, How::Append, 12), Fin(1, 256)],
        vec![f(1, How::Append, 45), Fin(1, 64), Fin(0, 64)],
    ];
    for n in news(cx) {
        let d = [1, 2, 3, 4][cx.scale.min(3) as usize];
        sequences(cx, &[n.clone()], &al, d, false, &suf, o);
        // one observer at every pending count, several times
        let obs = [Finish(0), Ckpt(0), Debug(0), CloneDrop(0), CloneFin(0), Reclone(0), Clone(1, 0), Clone(2, 0), CloneFrom(1, 0), CloneFrom(0, 1)];
        let top = [34, 34, 100, 300][cx.scale.min(3) as usize];
        for p in 0..top {
            for a in &obs {
                for b in &obs {
                    if !cx.take() {
                        continue;
                    }
                    for reps in [1usize, 2, 3] {
                        if cx.scale < 2 && reps > 1 {
                            continue;
                        }
                        for post in [0usize, 1, 31, 40] {
                            for s in &suf[..3] {
                                let mut ops = vec![n.clone(), f(0, How::Append, p)];
                                if matches!((a, b), (CloneFrom(..), _) | (_, CloneFrom(..))) {
                                    // the hasher that is overwritten, or read
                                    ops.insert(0, f(1, How::Append, 19));
                                    ops.insert(0, match &n { New(_, b, _) => New(1, *b, [4, 3, 2, 1]), _ => Build(1, [4, 3, 2, 1]) });
                                }
                                for _ in 0..reps {
                                    ops.push(a.clone());
                                    ops.push(b.clone());
                                }
                                ops.push(f(0, How::Append, post));
                                ops.extend_from_slice(s);
                                exec(cx, &ops, o);
                            }
                        }
                    }
                }
            }
        }
        // formatted into a sink that fails
        for k in 0..60usize {
            if !cx.take() {
                continue;
            }
            for p in [0usize, 1, 16, 31, 32, 40] {
                for post in [0usize, 2, 40] {
                    let ops = [n.clone(), f(0, How::Append, p), DebugAt(0, k), Finish(0), DebugAt(0, k), f(0, How::Append, post), Check(0)];
                    exec(cx, &ops, o);
                }
            }
        }
        // observed very many times
        for a in &obs[..7] {
            for k in [100usize, 255, 256, 257, 1030] {
                if cx.scale == 0 || !cx.take() {
                    continue;
                }
                let mut ops = vec![n.clone(), f(0, How::Append, 21)];
                for _ in 0..k {
                    ops.push(a.clone());
                }
                ops.push(f(0, How::Append, 50));
                ops.push(Check(0));
                exec(cx, &ops, o);
            }
        }
        // observed objects that came from elsewhere: restores, defaults
        for b in cx.backends.clone() {
            for p in [0usize, 1, 15, 16, 31, 32, 45] {
                for a in &obs {
                    if !cx.take() {
                        continue;
                    }
                    for s in &suf[..4] {
                        let mut ops = vec![n.clone(), f(0, How::Append, p), Hop(0, b), a.clone(), a.clone(), f(0, How::Append, 20)];
                        if matches!(s[..], [Check(0), Check(1)]) {
                            ops.extend([Clone(1, 0), f(0, How::Append, 3), f(1, How::Append, 44)]);
                        }
                        ops.extend_from_slice(s);
                        exec(cx, &ops, o);
                    }
                }
            }
        }
    }
}

/// C15 on one thread: operations of several instances in every order.
pub fn interleave(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let k2 = [5u64, 6, 7, 8];
    let bs = cx.backends.clone();
    for a in bs.clone() {
        for b in bs.clone() {
            let mk: [Vec<Op>; 2] = [vec![New(0, a, crate::lattice::KEY1)], vec![New(1, b, k2)]];
            let mut al = Vec::new();
            for i in 0..2usize {
                for n in lens(cx, &[1, 33], &[0, 31, 32]) {
                    al.push(f(i, How::Append, n));
                }
                al.push(Finish(i));
                al.push(Ckpt(i));
                al.push(Hop(i, if i == 0 { a } else { b }));
            }
            al.push(New(2, b, [1, 1, 1, 1]));
            al.push(Default(2, a));
            al.push(Clone(2, 0));
            al.push(Drop(2));
            al.push(f(2, How::Append, 7));
            if b == 1 {
                al.push(Build(2, k2));
                al.push(One(2, k2, vec![(false, 5), (true, 3)]));
                al.push(One(0, k2, vec![(false, 40)]));
            }
            let mut suf = Vec::new();
            for w in [64u16, 128, 256] {
                suf.push(vec![Fin(0, w), Fin(1, w)]);
            }
            suf.push(vec![Fin(1, 256), Check(0)]);
            let pre: Vec<Op> = mk.concat();
            let mut d = [1, 2, 3, 4][cx.scale.min(3) as usize];
            if cx.p.get("threads") == Some("all") && d > 2 {
                d -= 1;
            }
            // the pair of equal backends carries most shared-state mechanisms; deeper there
            let d = if a == b || d < 3 { d } else { d - 1 };
            sequences(cx, &pre, &al, d, false, &suf, o);
            // construction interleaved with use
            for p in 0..34usize {
                if !cx.take() {
                    continue;
                }
                for q in [0usize, 1, 17, 32, 40] {
                    let ops = [
                        mk[0][0].clone(),
                        f(0, How::Append, p),
                        mk[1][0].clone(),
                        f(1, How::Append, q),
                        f(0, How::Append, q),
                        New(2, a, k2),
                        f(2, How::Append, 33),
                        f(1, How::Append, p),
                        Fin(2, 64),
                        f(0, How::Append, 1),
                        Check(0),
                        Check(1),
                    ];
                    exec(cx, &ops, o);
                }
            }
        }
    }
    pairs(cx, o);
    many(cx);
    churn(cx);
}

/// Two or three hashers whose keys, bytes or lengths nearly agree, used in turn and in each
/// other's midst: what a cache keyed on too little, or a scratch area shared, would mix up.
fn pairs(cx: &mut Ctx, o: Oracle) {
    let k = crate::lattice::KEY1;
    let mut others: Vec<[u64; 4]> = vec![k, [0; 4], [k[1], k[0], k[3], k[2]], [k[3], k[0], k[1], k[2]]];
    let bits: Vec<u32> = if cx.scale >= 2 { (0..64).collect() } else { vec![0, 31, 32, 63] };
    for w in 0..4 {
        for b in &bits {
            let mut x = k;
            x[w] ^= 1 << *b;
            others.push(x);
        }
        let mut x = k;
        x[w] = !x[w];
        others.push(x);
    }
    let bs = cx.backends.clone();
    let same = cx.p.get("threads").is_some();
    for a in bs.clone() {
        for b in bs.clone() {
            if (cx.scale < 2 || same) && a != b {
                continue;
            }
            for k2 in &others {
                if !cx.take() {
                    continue;
                }
                for p in [0usize, 5, 32, 45] {
                    for pat in [0usize, 1] {
                        for w in [64u16, 128, 256] {
                            let (x, y) = if w == 128 && a == 1 && b == 1 {
                                (Build(0, k), Build(1, *k2))
                            } else {
                                (New(0, a, k), New(1, b, *k2))
                            };
                            let z = if k2[0] == k[0] { Default(2, a) } else { New(2, b, k) };
                            let pt = Pattern(1, pat);
                            if a == 1 && b == 1 && w == 64 {
                                let v = vec![(false, p), (true, 3), (false, 70)];
                                exec(cx, &[One(pat, k, v.clone()), One(pat, *k2, v.clone()), One(pat, k, vec![(false, 9)]), One(pat, *k2, v)], o);
                            }
                            // one after the other
                            exec(cx, &[x.clone(), f(0, How::Append, p), Fin(0, w), y.clone(), pt.clone(), f(1, How::Append, p), Fin(1, w)], o);
                            // nested
                            exec(cx, &[x.clone(), f(0, How::Append, p), y.clone(), pt.clone(), f(1, How::Append, p), Fin(1, w), f(0, How::Append, 20), Fin(0, w)], o);
                            if p == 45 {
                                // all in each other's midst
                                exec(cx, &[x.clone(), y.clone(), z.clone(), pt.clone(), f(1, How::Append, 33), f(0, How::Append, p), f(2, How::Append, 33),
                                    Finish(1), f(0, How::Append, p), Hop(2, b), f(1, How::Append, p), Finish(0), Fin(2, w), Check(1), Fin(0, w)], o);
                            }
                        }
                    }
                }
            }
        }
        // bytes that nearly agree
        let base = data::slice(0, 0, 70).to_vec();
        for at in 0..base.len() {
            if !cx.take() {
                continue;
            }
            for bit in [0u8, 7] {
                for n in [at + 1, base.len()] {
                    let mut d = base.clone();
                    d[at] ^= 1 << bit;
                    for w in [64u16, 256] {
                        let (p, q) = (Data::Lit(base[..n].to_vec()), Data::Lit(d[..n].to_vec()));
                        exec(cx, &[New(0, a, k), Feed(0, How::Append, p.clone()), Fin(0, w), New(1, a, k), Feed(1, How::Append, q.clone()), Fin(1, w)], o);
                        exec(cx, &[New(0, a, k), New(1, a, k), Feed(0, How::Append, p.clone()), Feed(1, How::Append, q.clone()), Fin(0, w), Fin(1, w)], o);
                    }
                }
            }
        }
        // long inputs
        let mut long = vec![100usize, 1000, 5000];
        if cx.scale >= 2 {
            long.extend([64, 255, 256, 257, 512, 1023, 1024, 1025, 4096, 8192, 65536, 70001]);
            long.extend(cx.dict.iter().filter(|d| **d > 64 && **d < 200_000).map(|d| *d as usize));
        }
        for n in long {
            for b in bs.clone() {
                if !cx.take() {
                    continue;
                }
                for m in [5usize, n] {
                    for w in [64u16, 128, 256] {
                        exec(cx, &[New(0, a, k), New(1, b, [9; 4]), f(0, How::Append, 7), f(1, How::Append, m), f(0, How::Append, n), f(1, How::Append, n),
                            Finish(0), f(0, How::Append, 40), Fin(1, w), Fin(0, w)], o);
                        exec(cx, &[New(0, a, k), New(1, b, [9; 4]), f(0, How::HWrite, m), Shot(1, w, Data::Next(n)), Shot(0, w, Data::Next(n))], o);
                    }
                }
            }
        }
    }
}

/// Very many instances alive at once and one after another.
fn many(cx: &mut Ctx) {
    let n = [50usize, 700, 140_000, 1 << 20][cx.scale.min(3) as usize];
    const CLASSES: usize = 61;
    for b in cx.backends.clone() {
        if !cx.take() {
            continue;
        }
        let mut r = Rng(5);
        // what an instance of each class gives
        let mut class = Vec::new();
        for c in 0..CLASSES {
            let k = r.next();
            let key = [k, !k, k << 1, c as u64];
            let make = if b == 1 && c % 2 == 0 { Build(0, key) } else { New(0, b, key) };
            let d1 = Data::Lit(data::slice(0, c, c + c % 37).to_vec());
            let d2 = Data::Lit(data::slice(0, c + c % 37, 200).to_vec());
            let ops = vec![make, Feed(0, How::Append, d1), Feed(0, How::Append, d2), Fin(0, 64)];
            let want = match cx.p.get("oracle") {
                #[cfg(all(feature = "std", unix, not(miri)))]
                Some("alone") => match crate::isol::alone(&ops) {
                    Some(v) => v[0],
                    None => continue,
                },
                _ => {
                    let mut m = Spec::new(key);
                    m.absorb(data::slice(0, c, 200));
                    m.out64()
                }
            };
            class.push((key, c, want, ops));
        }
        if class.is_empty() {
            continue;
        }
        let mut live: Vec<(usize, Any)> = Vec::new();
        for i in 0..n {
            let (key, c, _, _) = &class[i % class.len()];
            let mut h = if b == 1 && c % 2 == 0 {
                let bh = plat::lib(|| HighwayBuildHasher::new(Key(*key)));
                Any::Auto(plat::lib(|| bh.build_hasher()))
            } else {
                Any::new(b, *key)
            };
            h.append(data::slice(0, *c, c + c % 37));
            live.push((i, h));
            cx.evals += 1;
        }
        for (i, mut h) in live {
            let (_, c, want, ops) = &class[i % class.len()];
            h.append(data::slice(0, c + c % 37, 200));
            let g = h.fin64();
            cx.outcomes.add(g);
            if g != *want {
                plat::differs("one of many live instances", || {
                    format!("{}# as instance {} of {} on {}: got {:x} want {:x}\n", render(ops), i, n, backends::name(b), g, want)
                });
            }
        }
    }
}

/// One use of instances of its own; what it observes depends on the key only.
fn churn_step(b: u8, kind: u8, key: [u64; 4]) -> u64 {
    let d = data::slice(3, 0, 97);
    match kind {
        0 => Any::new(b, key).fin64(),
        1 => Any::default(b).hash64(&d[..3]),
        2 => {
            let bh = plat::lib(|| HighwayBuildHasher::new(Key(key)));
            let mut h = plat::lib(|| bh.build_hasher());
            plat::lib(|| core::hash::Hasher::write(&mut h, &d[..9]));
            plat::lib(|| core::hash::Hasher::finish(&h))
        }
        3 => {
            let mut c = [0u8; 164];
            for (i, x) in c[..128].iter_mut().enumerate() {
                *x = (key[i % 4] >> (i % 8 * 8)) as u8;
            }
            c[160] = 0;
            Any::restore(b, &c).fin64()
        }
        4 => {
            let mut h = Any::new(b, key);
            h.append(&d[..33]);
            let g = h.clone();
            fnv(fnv_bytes(7, &h.checkpoint()), fnv(h.finish(), g.fin64()))
        }
        5 => Any::new(b, key).hash128(d).iter().fold(1, |a, x| fnv(a, *x)),
        6 => Any::new(b, key).hash256(&d[..41]).iter().fold(1, |a, x| fnv(a, *x)),
        _ => {
            let mut h = Any::new(b, key);
            h.hwrite(&d[..21]);
            h.append(&d[21..70]);
            h.fin64()
        }
    }
}

/// A process that has used a great many instances: every use still gives what the first gave,
/// and an instance as old as all of them is unchanged.
fn churn(cx: &mut Ctx) {
    let n = cx.p.num("churn", [300u64, 3000, 140_000, (1 << 24) + 300][cx.scale.min(3) as usize]);
    let keys = [[1u64, 2, 3, 4], [1, 2, 3, 4 | 1 << 40], [!0, 0, 5, 1]];
    for b in cx.backends.clone() {
        for kind in 0..8u8 {
            if (kind == 2 && b != 1) || !cx.take() {
                continue;
            }
            let want = keys.map(|k| churn_step(b, kind, k));
            let mut old = Any::new(b, keys[0]);
            old.append(data::slice(3, 0, 45));
            let before = old.clone().fin64();
            for i in 0..n {
                let k = (i % 3) as usize;
                let g = churn_step(b, kind, keys[k]);
                if g != want[k] {
                    plat::differs("the same use of a new instance gives something else later", || {
                        format!("# no script: use {} ({}) of key {:x?} on {}: {:x}, the first gave {:x}\n", i, kind, keys[k], backends::name(b), g, want[k])
                    });
                }
            }
            if old.clone().fin64() != before {
                plat::differs("an old instance changes", || {
                    format!("# no script: {} after {} uses ({}) of others\n", backends::name(b), n, kind)
                });
            }
            cx.evals += n;
            cx.states.add(fnv(fnv(fnv(9, kind as u64), b as u64), n));
            cx.outcomes.add(fnv(want[0], want[1]));
            cx.digest = cx.digest.wrapping_add(fnv(want[0], want[2]));
        }
    }
}

/// C08: everything above reaches; plus arbitrary restores inside histories.
pub fn totality(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Fresh);
    let mut al: Vec<Op> = lens(cx, &[0, 1, 31, 32, 33], &[16, 64, 100])
        .iter()
        .map(|n| f(0, How::Append, *n))
        .collect();
    for b in cx.backends.clone() {
        al.push(Hop(0, b));
    }
    al.extend([Finish(0), Reclone(0), Debug(0), f(0, How::HWrite, 3), f(0, How::Typed(4), 16)]);
    if IO {
        al.extend([f(0, How::IoWrite, 30), Flush(0), f(0, How::IoWritev(0), 34)]);
    }
    let suf = vec![vec![Fin(0, 64)], vec![Fin(0, 128)], vec![Fin(0, 256)], vec![Shot(0, 64, Data::Next(5))]];
    for n in news(cx) {
        let d = [1, 2, 3, 4][cx.scale.min(3) as usize];
        sequences(cx, &[n], &al, d, false, &suf, o);
    }
}
