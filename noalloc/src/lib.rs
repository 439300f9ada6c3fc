//! Every public operation linked into an image without std and without a heap allocator.
#![no_std]
#[cfg(feature = "control")]
extern crate alloc;
use core::fmt::Write;
use core::hash::{BuildHasher, Hasher};
use highway::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0 = self.0.rotate_left(5) ^ u64::from(b);
        }
        Ok(())
    }
}

fn ops<H: HighwayHash + Clone + core::fmt::Debug>(mut h: H, d: &[u8], out: &mut [u64; 8], rs: fn([u8; 164]) -> H) {
    h.append(d);
    let mut s = Sink(0);
    let _ = write!(s, "{:?}", h);
    out[0] = s.0 ^ h.clone().finalize64();
    out[1] = h.clone().finalize128()[1];
    let c = h.checkpoint();
    out[2] = rs(c).hash64(d);
    out[3] = rs(c).hash128(d)[0];
    out[4] = rs(c).hash256(d)[3];
    out[5] = h.finalize256()[2];
}
fn std_ops<H: Hasher>(mut h: H, d: &[u8], out: &mut [u64; 8]) {
    h.write(d);
    h.write_u32(7);
    out[6] = h.finish();
}

#[no_mangle]
pub extern "C" fn noalloc_all(p: *const u8, n: usize, k: u64, out: &mut [u64; 8]) {
    let d = unsafe { core::slice::from_raw_parts(p, n) };
    let key = Key([k; 4]);
    ops(PortableHash::new(key), d, out, PortableHash::from_checkpoint);
    std_ops(PortableHash::default(), d, out);
    ops(HighwayHasher::new(key), d, out, HighwayHasher::from_checkpoint);
    std_ops(HighwayHasher::default(), d, out);
    std_ops(HighwayBuildHasher::new(key).build_hasher(), d, out);
    #[cfg(target_arch = "x86_64")]
    unsafe {
        ops(SseHash::force_new(key), d, out, |c| unsafe { SseHash::force_from_checkpoint(c) });
        std_ops(SseHash::default(), d, out);
        ops(AvxHash::force_new(key), d, out, |c| unsafe { AvxHash::force_from_checkpoint(c) });
        std_ops(AvxHash::default(), d, out);
    }
    #[cfg(target_arch = "aarch64")]
    ops(unsafe { NeonHash::force_new(key) }, d, out, |c| unsafe { NeonHash::force_from_checkpoint(c) });
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    ops(WasmHash::new(key), d, out, WasmHash::from_checkpoint);
}
