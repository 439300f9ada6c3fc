//! Deterministic byte streams. Pattern p, position i always give the same byte, so a script
//! needs only lengths.
use alloc::vec::Vec;

pub const PATTERNS: usize = 6;
static mut BUF: [Vec<u8>; PATTERNS] = [
    Vec::new(),
    Vec::new(),
    Vec::new(),
    Vec::new(),
    Vec::new(),
    Vec::new(),
];

fn byte(p: usize, i: usize) -> u8 {
    match p {
        0 => {
            let mut z = ((i / 8) as u64).wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            ((z ^ (z >> 31)) >> (8 * (i % 8))) as u8
        }
        1 => 0,
        2 => 0xff,
        3 => i as u8,
        4 => 0x80 | (i.wrapping_mul(37) as u8),
        _ => {
            // distinct high-bit-heavy bytes within any 128-byte window
            (i.wrapping_mul(0x6d) as u8) ^ 0xa5
        }
    }
}

/// Bytes [a, b) of pattern p.
pub fn slice(p: usize, a: usize, b: usize) -> &'static [u8] {
    unsafe {
        let v = &mut *(&raw mut BUF[p]);
        if v.len() < b {
            // Growing moves the buffer: earlier slices must not be held across calls that
            // need more data, so grow generously and leak the old one.
            let want = (b * 2).max(8192);
            let mut n: Vec<u8> = Vec::with_capacity(want);
            for i in 0..want {
                n.push(byte(p, i));
            }
            let old = core::mem::replace(v, n);
            core::mem::forget(old);
        }
        core::slice::from_raw_parts(v.as_ptr().add(a), b - a)
    }
}
