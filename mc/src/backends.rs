//! One interface over the hasher types of the crate under test.
use crate::plat::lib;
use core::fmt::{Debug, Write as _};
use core::hash::Hasher;
use highway::{HighwayHash, HighwayHasher, Key, PortableHash};

pub trait H: HighwayHash + Clone + Debug + Default {
    const NAME: &'static str;
    const ID: u8;
    fn mk(key: Key) -> Self;
    fn rs(c: [u8; 164]) -> Self;
    fn h_write(&mut self, d: &[u8]);
    fn h_finish(&self) -> u64;
    fn h_with(&mut self, f: &mut dyn FnMut(&mut dyn Hasher));
    fn h_build_default() -> Self;
    #[cfg(feature = "hstd")]
    fn io<R>(&mut self, f: impl FnOnce(&mut dyn std::io::Write) -> R) -> R;
}

/// The std adapters of a type that has them.
macro_rules! adapters {
    () => {
        #[inline]
        fn h_write(&mut self, d: &[u8]) {
            Hasher::write(self, d)
        }
        #[inline]
        fn h_finish(&self) -> u64 {
            Hasher::finish(self)
        }
        fn h_with(&mut self, f: &mut dyn FnMut(&mut dyn Hasher)) {
            f(self)
        }
        fn h_build_default() -> Self {
            use core::hash::{BuildHasher, BuildHasherDefault};
            let b: BuildHasherDefault<Self> = Default::default();
            b.build_hasher()
        }
        #[cfg(feature = "hstd")]
        fn io<R>(&mut self, f: impl FnOnce(&mut dyn std::io::Write) -> R) -> R {
            f(self)
        }
    };
}

/// NeonHash implements neither Hasher nor io::Write; the explorers go through these instead.
#[cfg(target_arch = "aarch64")]
pub struct Shim<'a>(pub &'a mut highway::NeonHash);
#[cfg(target_arch = "aarch64")]
impl<'a> Hasher for Shim<'a> {
    fn write(&mut self, d: &[u8]) {
        HighwayHash::append(self.0, d)
    }
    fn finish(&self) -> u64 {
        HighwayHash::finalize64(self.0.clone())
    }
}
#[cfg(all(target_arch = "aarch64", feature = "hstd"))]
impl<'a> std::io::Write for Shim<'a> {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        HighwayHash::append(self.0, d);
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl H for PortableHash {
    const NAME: &'static str = "portable";
    const ID: u8 = 0;
    adapters!();
    #[inline]
    fn mk(key: Key) -> Self {
        PortableHash::new(key)
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        PortableHash::from_checkpoint(c)
    }
}
impl H for HighwayHasher {
    const NAME: &'static str = "auto";
    const ID: u8 = 1;
    adapters!();
    #[inline]
    fn mk(key: Key) -> Self {
        HighwayHasher::new(key)
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        HighwayHasher::from_checkpoint(c)
    }
}
#[cfg(target_arch = "x86_64")]
impl H for highway::SseHash {
    const NAME: &'static str = "sse";
    const ID: u8 = 2;
    adapters!();
    #[inline]
    fn mk(key: Key) -> Self {
        unsafe { highway::SseHash::force_new(key) }
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        unsafe { highway::SseHash::force_from_checkpoint(c) }
    }
}
#[cfg(target_arch = "x86_64")]
impl H for highway::AvxHash {
    const NAME: &'static str = "avx";
    const ID: u8 = 3;
    adapters!();
    #[inline]
    fn mk(key: Key) -> Self {
        unsafe { highway::AvxHash::force_new(key) }
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        unsafe { highway::AvxHash::force_from_checkpoint(c) }
    }
}
#[cfg(target_arch = "aarch64")]
impl H for highway::NeonHash {
    const NAME: &'static str = "neon";
    const ID: u8 = 4;
    fn h_write(&mut self, d: &[u8]) {
        HighwayHash::append(self, d)
    }
    fn h_finish(&self) -> u64 {
        HighwayHash::finalize64(self.clone())
    }
    fn h_with(&mut self, f: &mut dyn FnMut(&mut dyn Hasher)) {
        f(&mut Shim(self))
    }
    fn h_build_default() -> Self {
        Default::default()
    }
    #[cfg(feature = "hstd")]
    fn io<R>(&mut self, f: impl FnOnce(&mut dyn std::io::Write) -> R) -> R {
        f(&mut Shim(self))
    }
    #[inline]
    fn mk(key: Key) -> Self {
        unsafe { highway::NeonHash::force_new(key) }
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        unsafe { highway::NeonHash::force_from_checkpoint(c) }
    }
}
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
impl H for highway::WasmHash {
    const NAME: &'static str = "wasm";
    const ID: u8 = 5;
    adapters!();
    #[inline]
    fn mk(key: Key) -> Self {
        highway::WasmHash::new(key)
    }
    #[inline]
    fn rs(c: [u8; 164]) -> Self {
        highway::WasmHash::from_checkpoint(c)
    }
}

/// Backends that exist in this build and that this CPU can run.
pub fn available() -> alloc::vec::Vec<u8> {
    #[allow(unused_mut)]
    let mut v = alloc::vec![0u8, 1];
    #[cfg(target_arch = "x86_64")]
    {
        #[cfg(feature = "std")]
        {
            if std::is_x86_feature_detected!("sse4.1") {
                v.push(2);
            }
            if std::is_x86_feature_detected!("avx2") {
                v.push(3);
            }
        }
        #[cfg(not(feature = "std"))]
        {
            if cfg!(target_feature = "sse4.1") {
                v.push(2);
            }
            if cfg!(target_feature = "avx2") {
                v.push(3);
            }
        }
    }
    #[cfg(target_arch = "aarch64")]
    v.push(4);
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    v.push(5);
    v
}

pub fn name(id: u8) -> &'static str {
    ["portable", "auto", "sse", "avx", "neon", "wasm"][id as usize]
}

/// `with_backend!(id, B => expr)`: expr with B bound to the hasher type.
#[macro_export]
macro_rules! with_backend {
    ($id:expr, $b:ident => $e:expr) => {
        match $id {
            0 => {
                type $b = highway::PortableHash;
                $e
            }
            1 => {
                type $b = highway::HighwayHasher;
                $e
            }
            #[cfg(target_arch = "x86_64")]
            2 => {
                type $b = highway::SseHash;
                $e
            }
            #[cfg(target_arch = "x86_64")]
            3 => {
                type $b = highway::AvxHash;
                $e
            }
            #[cfg(target_arch = "aarch64")]
            4 => {
                type $b = highway::NeonHash;
                $e
            }
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            5 => {
                type $b = highway::WasmHash;
                $e
            }
            _ => panic!("harness: backend not in this build"),
        }
    };
}

/// A hasher of any type, every call monitored.
#[allow(clippy::large_enum_variant)]
pub enum Any {
    Portable(PortableHash),
    Auto(HighwayHasher),
    #[cfg(target_arch = "x86_64")]
    Sse(highway::SseHash),
    #[cfg(target_arch = "x86_64")]
    Avx(highway::AvxHash),
    #[cfg(target_arch = "aarch64")]
    Neon(highway::NeonHash),
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    Wasm(highway::WasmHash),
}

macro_rules! each {
    ($s:expr, $h:ident => $e:expr) => {
        match $s {
            Any::Portable($h) => $e,
            Any::Auto($h) => $e,
            #[cfg(target_arch = "x86_64")]
            Any::Sse($h) => $e,
            #[cfg(target_arch = "x86_64")]
            Any::Avx($h) => $e,
            #[cfg(target_arch = "aarch64")]
            Any::Neon($h) => $e,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            Any::Wasm($h) => $e,
        }
    };
}
macro_rules! build {
    ($id:expr, $b:ident => $e:expr) => {
        match $id {
            0 => Any::Portable({
                type $b = PortableHash;
                $e
            }),
            1 => Any::Auto({
                type $b = HighwayHasher;
                $e
            }),
            #[cfg(target_arch = "x86_64")]
            2 => Any::Sse({
                type $b = highway::SseHash;
                $e
            }),
            #[cfg(target_arch = "x86_64")]
            3 => Any::Avx({
                type $b = highway::AvxHash;
                $e
            }),
            #[cfg(target_arch = "aarch64")]
            4 => Any::Neon({
                type $b = highway::NeonHash;
                $e
            }),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            5 => Any::Wasm({
                type $b = highway::WasmHash;
                $e
            }),
            _ => panic!("harness: backend not in this build"),
        }
    };
}

/// A hasher of type `id` made by `BuildHasherDefault`.
pub fn build_default(id: u8) -> Any {
    lib(|| build!(id, B => B::h_build_default()))
}

/// A caller-supplied sink that allocates nothing and hashes what it is given.
pub struct Sink(pub u64);
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// A sink that takes k fragments and then fails.
struct Failing(usize);
impl core::fmt::Write for Failing {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        if self.0 == 0 {
            return Err(core::fmt::Error);
        }
        self.0 -= 1;
        Ok(())
    }
}

impl Any {
    pub fn new(id: u8, key: [u64; 4]) -> Any {
        lib(|| build!(id, B => B::mk(Key(key))))
    }
    pub fn default(id: u8) -> Any {
        lib(|| build!(id, B => <B as Default>::default()))
    }
    pub fn restore(id: u8, c: &[u8; 164]) -> Any {
        lib(|| build!(id, B => B::rs(*c)))
    }
    pub fn id(&self) -> u8 {
        fn f<T: H>(_: &T) -> u8 {
            T::ID
        }
        each!(self, h => f(h))
    }
    pub fn append(&mut self, d: &[u8]) {
        lib(|| each!(self, h => HighwayHash::append(h, d)))
    }
    pub fn hwrite(&mut self, d: &[u8]) {
        lib(|| each!(self, h => H::h_write(h, d)))
    }
    pub fn finish(&self) -> u64 {
        lib(|| each!(self, h => H::h_finish(h)))
    }
    pub fn checkpoint(&self) -> [u8; 164] {
        lib(|| each!(self, h => HighwayHash::checkpoint(h)))
    }
    pub fn fin64(self) -> u64 {
        lib(|| each!(self, h => HighwayHash::finalize64(h)))
    }
    pub fn fin128(self) -> [u64; 2] {
        lib(|| each!(self, h => HighwayHash::finalize128(h)))
    }
    pub fn fin256(self) -> [u64; 4] {
        lib(|| each!(self, h => HighwayHash::finalize256(h)))
    }
    pub fn hash64(self, d: &[u8]) -> u64 {
        lib(|| each!(self, h => HighwayHash::hash64(h, d)))
    }
    pub fn hash128(self, d: &[u8]) -> [u64; 2] {
        lib(|| each!(self, h => HighwayHash::hash128(h, d)))
    }
    pub fn hash256(self, d: &[u8]) -> [u64; 4] {
        lib(|| each!(self, h => HighwayHash::hash256(h, d)))
    }
    pub fn debug(&self) -> u64 {
        let mut s = Sink(0xcbf29ce484222325);
        let _ = lib(|| each!(self, h => write!(s, "{:?}", h)));
        let _ = lib(|| each!(self, h => write!(s, "{:#?}", h)));
        let _ = lib(|| each!(self, h => write!(s, "{:+#012.3X?}", h)));
        s.0
    }
    /// Formatting into a sink that fails after k fragments.
    pub fn debug_at(&self, k: usize) {
        let _ = lib(|| each!(self, h => write!(Failing(k), "{:?}", h)));
        let _ = lib(|| each!(self, h => write!(Failing(k), "{:#?}", h)));
        let _ = lib(|| each!(self, h => write!(Failing(k), "{:-<40x?}", h)));
    }
    /// As `debug`, but one plain rendering (used to fingerprint hidden state).
    pub fn debug1(&self) -> u64 {
        let mut s = Sink(0xcbf29ce484222325);
        let _ = lib(|| each!(self, h => write!(s, "{:?}", h)));
        s.0
    }
    /// Bytes of the object, for state fingerprints (padding included).
    pub fn raw(&self) -> &[u8] {
        fn f<T>(t: &T) -> &[u8] {
            unsafe {
                core::slice::from_raw_parts(t as *const T as *const u8, core::mem::size_of::<T>())
            }
        }
        each!(self, h => f(h))
    }
    #[cfg(feature = "hstd")]
    pub fn iowrite(&mut self, d: &[u8]) -> Result<usize, ()> {
        lib(|| each!(self, h => H::io(h, |w| w.write(d)))).map_err(|_| ())
    }
    #[cfg(feature = "hstd")]
    pub fn iowrite_all(&mut self, d: &[u8]) -> Result<(), ()> {
        lib(|| each!(self, h => H::io(h, |w| w.write_all(d)))).map_err(|_| ())
    }
    #[cfg(feature = "hstd")]
    pub fn flush(&mut self) -> Result<(), ()> {
        lib(|| each!(self, h => H::io(h, |w| w.flush()))).map_err(|_| ())
    }
    #[cfg(feature = "hstd")]
    pub fn iowritev(&mut self, d: &[&[u8]]) -> Result<usize, ()> {
        let v: alloc::vec::Vec<std::io::IoSlice> =
            d.iter().map(|x| std::io::IoSlice::new(x)).collect();
        lib(|| each!(self, h => H::io(h, |w| w.write_vectored(&v)))).map_err(|_| ())
    }
    /// `io::copy` from `r`; not monitored for allocation (the copy buffer is std's).
    #[cfg(feature = "hstd")]
    pub fn iocopy(&mut self, r: &mut dyn std::io::Read) -> Result<u64, ()> {
        each!(self, h => H::io(h, |mut w| std::io::copy(r, &mut w))).map_err(|_| ())
    }
    #[cfg(feature = "hstd")]
    pub fn iofmt(&mut self, a: core::fmt::Arguments) -> Result<(), ()> {
        lib(|| each!(self, h => H::io(h, |w| w.write_fmt(a)))).map_err(|_| ())
    }
    /// Run `f` on the hasher as a `core::hash::Hasher`.
    pub fn with_hasher(&mut self, f: &mut dyn FnMut(&mut dyn Hasher)) {
        lib(|| each!(self, h => H::h_with(h, f)))
    }
}
impl Clone for Any {
    fn clone_from(&mut self, o: &Any) {
        fn go<T: Clone>(a: &mut T, b: &T) {
            lib(|| a.clone_from(b))
        }
        match (&mut *self, o) {
            (Any::Portable(a), Any::Portable(b)) => go(a, b),
            (Any::Auto(a), Any::Auto(b)) => go(a, b),
            #[cfg(target_arch = "x86_64")]
            (Any::Sse(a), Any::Sse(b)) => go(a, b),
            #[cfg(target_arch = "x86_64")]
            (Any::Avx(a), Any::Avx(b)) => go(a, b),
            #[cfg(target_arch = "aarch64")]
            (Any::Neon(a), Any::Neon(b)) => go(a, b),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            (Any::Wasm(a), Any::Wasm(b)) => go(a, b),
            _ => *self = o.clone(),
        }
    }
    fn clone(&self) -> Any {
        lib(|| match self {
            Any::Portable(h) => Any::Portable(h.clone()),
            Any::Auto(h) => Any::Auto(h.clone()),
            #[cfg(target_arch = "x86_64")]
            Any::Sse(h) => Any::Sse(h.clone()),
            #[cfg(target_arch = "x86_64")]
            Any::Avx(h) => Any::Avx(h.clone()),
            #[cfg(target_arch = "aarch64")]
            Any::Neon(h) => Any::Neon(h.clone()),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            Any::Wasm(h) => Any::Wasm(h.clone()),
        })
    }
}
