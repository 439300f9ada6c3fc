//! One exported function per safe public operation, so that the compiled code of each can be
//! examined. Slices and out-pointers come from outside: nothing about them is known to the
//! optimiser beyond what the types say.
#![allow(improper_ctypes_definitions, clippy::missing_safety_doc)]
use core::hash::{BuildHasher, BuildHasherDefault, Hasher};
use highway::*;

macro_rules! ops {
    ($t:ty, $new:ident, $new_e:expr, $rs:ident, $rs_e:expr, $($op:ident)*) => {
        #[no_mangle] pub fn $new(k: Key) -> $t { let f: fn(Key) -> $t = $new_e; f(k) }
        #[no_mangle] pub fn $rs(c: [u8; 164]) -> $t { let f: fn([u8; 164]) -> $t = $rs_e; f(c) }
        ops!(@ $t, $($op)*);
    };
    (@ $t:ty, $def:ident $app:ident $ck:ident $f64:ident $f128:ident $f256:ident $h64:ident $h128:ident $h256:ident $cl:ident $clf:ident $drop:ident) => {
        #[no_mangle] pub fn $def() -> $t { Default::default() }
        #[no_mangle] pub fn $app(h: &mut $t, d: &[u8]) { HighwayHash::append(h, d) }
        #[no_mangle] pub fn $ck(h: &$t) -> [u8; 164] { HighwayHash::checkpoint(h) }
        #[no_mangle] pub fn $f64(h: $t) -> u64 { HighwayHash::finalize64(h) }
        #[no_mangle] pub fn $f128(h: $t) -> [u64; 2] { HighwayHash::finalize128(h) }
        #[no_mangle] pub fn $f256(h: $t) -> [u64; 4] { HighwayHash::finalize256(h) }
        #[no_mangle] pub fn $h64(h: $t, d: &[u8]) -> u64 { HighwayHash::hash64(h, d) }
        #[no_mangle] pub fn $h128(h: $t, d: &[u8]) -> [u64; 2] { HighwayHash::hash128(h, d) }
        #[no_mangle] pub fn $h256(h: $t, d: &[u8]) -> [u64; 4] { HighwayHash::hash256(h, d) }
        #[no_mangle] pub fn $cl(h: &$t) -> $t { h.clone() }
        #[no_mangle] pub fn $clf(h: &mut $t, o: &$t) { h.clone_from(o) }
        #[no_mangle] pub fn $drop(h: $t) { drop(h) }
    };
}
macro_rules! std_ops {
    ($t:ty, $w:ident $fin:ident $w8:ident $w16:ident $w32:ident $w64:ident $w128:ident $ws:ident $bd:ident $iw:ident $ifl:ident) => {
        #[no_mangle] pub fn $w(h: &mut $t, d: &[u8]) { Hasher::write(h, d) }
        #[no_mangle] pub fn $fin(h: &$t) -> u64 { Hasher::finish(h) }
        #[no_mangle] pub fn $w8(h: &mut $t, d: u8) { h.write_u8(d) }
        #[no_mangle] pub fn $w16(h: &mut $t, d: u16) { h.write_u16(d) }
        #[no_mangle] pub fn $w32(h: &mut $t, d: u32) { h.write_u32(d) }
        #[no_mangle] pub fn $w64(h: &mut $t, d: u64) { h.write_u64(d) }
        #[no_mangle] pub fn $w128(h: &mut $t, d: u128) { h.write_u128(d) }
        #[no_mangle] pub fn $ws(h: &mut $t, d: usize) { h.write_usize(d) }
        #[no_mangle] pub fn $bd(b: &BuildHasherDefault<$t>) -> $t { b.build_hasher() }
        #[cfg(feature = "hstd")]
        #[no_mangle] pub fn $iw(h: &mut $t, d: &[u8]) -> std::io::Result<usize> { std::io::Write::write(h, d) }
        #[cfg(feature = "hstd")]
        #[no_mangle] pub fn $ifl(h: &mut $t) -> std::io::Result<()> { std::io::Write::flush(h) }
    };
}

ops!(PortableHash, op_portable_new, PortableHash::new, op_portable_from_checkpoint, PortableHash::from_checkpoint,
    op_portable_default op_portable_append op_portable_checkpoint op_portable_finalize64 op_portable_finalize128 op_portable_finalize256
    op_portable_hash64 op_portable_hash128 op_portable_hash256 op_portable_clone op_portable_clone_from op_portable_drop);
#[no_mangle] pub fn od_portable_debug(h: &PortableHash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
std_ops!(PortableHash, op_portable_write op_portable_finish op_portable_write8 op_portable_write16 op_portable_write32 op_portable_write64
    op_portable_write128 op_portable_write_usize op_portable_builder_default op_portable_iowrite op_portable_flush);
ops!(HighwayHasher, op_auto_new, HighwayHasher::new, op_auto_from_checkpoint, HighwayHasher::from_checkpoint,
    op_auto_default op_auto_append op_auto_checkpoint op_auto_finalize64 op_auto_finalize128 op_auto_finalize256
    op_auto_hash64 op_auto_hash128 op_auto_hash256 op_auto_clone op_auto_clone_from op_auto_drop);
#[no_mangle] pub fn od_auto_debug(h: &HighwayHasher, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
std_ops!(HighwayHasher, op_auto_write op_auto_finish op_auto_write8 op_auto_write16 op_auto_write32 op_auto_write64
    op_auto_write128 op_auto_write_usize op_auto_builder_default op_auto_iowrite op_auto_flush);
#[no_mangle] pub fn op_build_hasher(b: &HighwayBuildHasher) -> HighwayHasher { b.build_hasher() }
#[no_mangle] pub fn od_builder_debug(b: &HighwayBuildHasher, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(b, f) }
#[no_mangle] pub fn op_builder_new(k: Key) -> HighwayBuildHasher { HighwayBuildHasher::new(k) }
#[no_mangle] pub fn op_builder_default() -> HighwayBuildHasher { Default::default() }

#[cfg(target_arch = "x86_64")]
mod x86 {
    use super::*;
    ops!(SseHash, op_sse_force_new, |k| unsafe { SseHash::force_new(k) }, op_sse_force_from_checkpoint, |c| unsafe { SseHash::force_from_checkpoint(c) },
        op_sse_default op_sse_append op_sse_checkpoint op_sse_finalize64 op_sse_finalize128 op_sse_finalize256
        op_sse_hash64 op_sse_hash128 op_sse_hash256 op_sse_clone op_sse_clone_from op_sse_drop);
    #[no_mangle] pub fn od_sse_debug(h: &SseHash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
    std_ops!(SseHash, op_sse_write op_sse_finish op_sse_write8 op_sse_write16 op_sse_write32 op_sse_write64
        op_sse_write128 op_sse_write_usize op_sse_builder_default op_sse_iowrite op_sse_flush);
    #[no_mangle] pub fn op_sse_new(k: Key) -> Option<SseHash> { SseHash::new(k) }
    #[no_mangle] pub fn op_sse_from_checkpoint(c: [u8; 164]) -> Option<SseHash> { SseHash::from_checkpoint(c) }
    ops!(AvxHash, op_avx_force_new, |k| unsafe { AvxHash::force_new(k) }, op_avx_force_from_checkpoint, |c| unsafe { AvxHash::force_from_checkpoint(c) },
        op_avx_default op_avx_append op_avx_checkpoint op_avx_finalize64 op_avx_finalize128 op_avx_finalize256
        op_avx_hash64 op_avx_hash128 op_avx_hash256 op_avx_clone op_avx_clone_from op_avx_drop);
    #[no_mangle] pub fn od_avx_debug(h: &AvxHash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
    std_ops!(AvxHash, op_avx_write op_avx_finish op_avx_write8 op_avx_write16 op_avx_write32 op_avx_write64
        op_avx_write128 op_avx_write_usize op_avx_builder_default op_avx_iowrite op_avx_flush);
    #[no_mangle] pub fn op_avx_new(k: Key) -> Option<AvxHash> { AvxHash::new(k) }
    #[no_mangle] pub fn op_avx_from_checkpoint(c: [u8; 164]) -> Option<AvxHash> { AvxHash::from_checkpoint(c) }
}
#[cfg(target_arch = "aarch64")]
mod arm {
    use super::*;
    ops!(NeonHash, op_neon_force_new, |k| unsafe { NeonHash::force_new(k) }, op_neon_force_from_checkpoint, |c| unsafe { NeonHash::force_from_checkpoint(c) },
        op_neon_default op_neon_append op_neon_checkpoint op_neon_finalize64 op_neon_finalize128 op_neon_finalize256
        op_neon_hash64 op_neon_hash128 op_neon_hash256 op_neon_clone op_neon_clone_from op_neon_drop);
    #[no_mangle] pub fn od_neon_debug(h: &NeonHash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
}
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
mod wasm {
    use super::*;
    ops!(WasmHash, op_wasm_new, WasmHash::new, op_wasm_from_checkpoint, WasmHash::from_checkpoint,
        op_wasm_default op_wasm_append op_wasm_checkpoint op_wasm_finalize64 op_wasm_finalize128 op_wasm_finalize256
        op_wasm_hash64 op_wasm_hash128 op_wasm_hash256 op_wasm_clone op_wasm_clone_from op_wasm_drop);
    #[no_mangle] pub fn od_wasm_debug(h: &WasmHash, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
    std_ops!(WasmHash, op_wasm_write op_wasm_finish op_wasm_write8 op_wasm_write16 op_wasm_write32 op_wasm_write64
        op_wasm_write128 op_wasm_write_usize op_wasm_builder_default op_wasm_iowrite op_wasm_flush);
}
