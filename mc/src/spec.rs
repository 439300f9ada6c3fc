//! Reference model: HighwayHash as specified by Google's reference, written for
//! obviousness and independently of /repo (byte tables, u128 arithmetic). It is bound to
//! the specification by the published vectors, replayed at every start (`selftest`).

pub const INIT0: [u64; 4] = [
    0xdbe6d5d5fe4cce2f,
    0xa4093822299f31d0,
    0x13198a2e03707344,
    0x243f6a8885a308d3,
];
pub const INIT1: [u64; 4] = [
    0x3bd39e10cb0ef593,
    0xc0acf169b5f18a8c,
    0xbe5466cf34e90c6c,
    0x452821e638d01377,
];

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Spec {
    pub v0: [u64; 4],
    pub v1: [u64; 4],
    pub mul0: [u64; 4],
    pub mul1: [u64; 4],
    /// bytes not yet absorbed; always fewer than 32 between calls; the rest is zero
    pub pend: [u8; 32],
    pub n: usize,
}

/// Zipper merge of a 128-bit pair of lanes as a byte permutation:
/// output byte i is input byte ZIP[i] (bytes 0..8 = even lane, 8..16 = odd lane).
const ZIP: [u8; 16] = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];

#[inline]
fn zipper(odd: u64, even: u64) -> (u64, u64) {
    let src: u128 = ((odd as u128) << 64) | even as u128;
    let mut out: u128 = 0;
    let mut i = 0;
    while i < 16 {
        let byte = (src >> (8 * ZIP[i] as u32)) & 0xff;
        out |= byte << (8 * i);
        i += 1;
    }
    ((out >> 64) as u64, out as u64)
}

#[inline]
fn lane(bytes: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..8 {
        x |= (bytes[i] as u64) << (8 * i);
    }
    x
}

impl Spec {
    pub fn new(key: [u64; 4]) -> Spec {
        let mut s = Spec {
            v0: INIT0,
            v1: INIT1,
            mul0: INIT0,
            mul1: INIT1,
            pend: [0; 32],
            n: 0,
        };
        for i in 0..4 {
            s.v0[i] ^= key[i];
            s.v1[i] ^= (key[i] >> 32) | (key[i] << 32);
        }
        s
    }

    /// A state with the given 16 lanes (v0, v1, mul0, mul1) and pending bytes (fewer than 32).
    pub fn from_parts(lanes: &[u64; 16], pending: &[u8]) -> Spec {
        let mut s = Spec::new([0; 4]);
        for i in 0..4 {
            s.v0[i] = lanes[i];
            s.v1[i] = lanes[4 + i];
            s.mul0[i] = lanes[8 + i];
            s.mul1[i] = lanes[12 + i];
        }
        s.pend[..pending.len()].copy_from_slice(pending);
        s.n = pending.len();
        s
    }

    pub fn lanes(&self) -> [u64; 16] {
        let mut r = [0; 16];
        r[..4].copy_from_slice(&self.v0);
        r[4..8].copy_from_slice(&self.v1);
        r[8..12].copy_from_slice(&self.mul0);
        r[12..].copy_from_slice(&self.mul1);
        r
    }

    pub fn update(&mut self, l: [u64; 4]) {
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(self.mul0[i]).wrapping_add(l[i]);
            self.mul0[i] ^= (self.v1[i] as u32 as u64) * (self.v0[i] >> 32);
            self.v0[i] = self.v0[i].wrapping_add(self.mul1[i]);
            self.mul1[i] ^= (self.v0[i] as u32 as u64) * (self.v1[i] >> 32);
        }
        for p in [0, 2] {
            let (o, e) = zipper(self.v1[p + 1], self.v1[p]);
            self.v0[p + 1] = self.v0[p + 1].wrapping_add(o);
            self.v0[p] = self.v0[p].wrapping_add(e);
        }
        for p in [0, 2] {
            let (o, e) = zipper(self.v0[p + 1], self.v0[p]);
            self.v1[p + 1] = self.v1[p + 1].wrapping_add(o);
            self.v1[p] = self.v1[p].wrapping_add(e);
        }
    }

    pub fn packet(&mut self, p: &[u8]) {
        self.update([lane(&p[..8]), lane(&p[8..16]), lane(&p[16..24]), lane(&p[24..32])]);
    }

    /// Absorb bytes one packet at a time.
    pub fn absorb(&mut self, mut data: &[u8]) {
        if self.n > 0 {
            while self.n < 32 && !data.is_empty() {
                self.pend[self.n] = data[0];
                self.n += 1;
                data = &data[1..];
            }
            if self.n < 32 {
                return;
            }
            let p = self.pend;
            self.packet(&p);
            self.pend = [0; 32];
            self.n = 0;
        }
        while data.len() >= 32 {
            self.packet(&data[..32]);
            data = &data[32..];
        }
        self.pend[..data.len()].copy_from_slice(data);
        self.n = data.len();
    }

    fn remainder(&mut self) {
        let n = self.n;
        if n == 0 {
            return;
        }
        for i in 0..4 {
            // the size is added to both 32-bit halves as one 64-bit addition
            self.v0[i] = self.v0[i].wrapping_add(((n as u64) << 32) | n as u64);
            // rotate each 32-bit half of v1 left by n (0 < n < 32)
            let lo = (self.v1[i] as u32).rotate_left(n as u32) as u64;
            let hi = ((self.v1[i] >> 32) as u32).rotate_left(n as u32) as u64;
            self.v1[i] = (hi << 32) | lo;
        }
        let packet = self.rempacket();
        self.packet(&packet);
    }

    fn rempacket(&self) -> [u8; 32] {
        let n = self.n;
        let whole = n - n % 4; // bytes in whole 4-byte groups
        let m = n % 4;
        let mut packet = [0u8; 32];
        packet[..whole].copy_from_slice(&self.pend[..whole]);
        if n >= 16 {
            // the last four input bytes end the packet
            packet[28..32].copy_from_slice(&self.pend[n - 4..n]);
        } else if m != 0 {
            packet[16] = self.pend[whole];
            packet[17] = self.pend[whole + m / 2];
            packet[18] = self.pend[whole + m - 1];
        }
        packet
    }

    // ---- inverses: every step is a bijection of the 1024-bit state, so the explorers can aim
    // at any intermediate state exactly ----

    fn unstep(&mut self, l: Option<[u64; 4]>) {
        for p in [0, 2] {
            let (o, e) = zipper(self.v0[p + 1], self.v0[p]);
            self.v1[p + 1] = self.v1[p + 1].wrapping_sub(o);
            self.v1[p] = self.v1[p].wrapping_sub(e);
        }
        for p in [0, 2] {
            let (o, e) = zipper(self.v1[p + 1], self.v1[p]);
            self.v0[p + 1] = self.v0[p + 1].wrapping_sub(o);
            self.v0[p] = self.v0[p].wrapping_sub(e);
        }
        for i in 0..4 {
            self.mul1[i] ^= (self.v0[i] as u32 as u64) * (self.v1[i] >> 32);
            self.v0[i] = self.v0[i].wrapping_sub(self.mul1[i]);
            self.mul0[i] ^= (self.v1[i] as u32 as u64) * (self.v0[i] >> 32);
        }
        let r = |x: u64| (x >> 32) | (x << 32);
        let l = l.unwrap_or([r(self.v0[2]), r(self.v0[3]), r(self.v0[0]), r(self.v0[1])]);
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_sub(self.mul0[i]).wrapping_sub(l[i]);
        }
    }

    /// The state with pending bytes `pend` whose remainder step plus `k` finalisation rounds
    /// end in the 16 given lanes.
    pub fn aim(lanes: &[u64; 16], pend: &[u8], k: usize) -> Spec {
        let mut s = Spec::from_parts(lanes, pend);
        for _ in 0..k {
            s.unstep(None);
        }
        let n = s.n;
        if n > 0 {
            let p = s.rempacket();
            s.unstep(Some([lane(&p[..8]), lane(&p[8..16]), lane(&p[16..24]), lane(&p[24..32])]));
            for i in 0..4 {
                let lo = (s.v1[i] as u32).rotate_right(n as u32) as u64;
                let hi = ((s.v1[i] >> 32) as u32).rotate_right(n as u32) as u64;
                s.v1[i] = (hi << 32) | lo;
                s.v0[i] = s.v0[i].wrapping_sub(((n as u64) << 32) | n as u64);
            }
        }
        s
    }

    pub fn rounds(&self, k: usize) -> Spec {
        let mut s = *self;
        s.remainder();
        for _ in 0..k {
            let r = |x: u64| (x >> 32) | (x << 32);
            s.update([r(s.v0[2]), r(s.v0[3]), r(s.v0[0]), r(s.v0[1])]);
        }
        s
    }

    pub fn out64(&self) -> u64 {
        let s = self.rounds(4);
        s.v0[0]
            .wrapping_add(s.v1[0])
            .wrapping_add(s.mul0[0])
            .wrapping_add(s.mul1[0])
    }

    pub fn out128(&self) -> [u64; 2] {
        let s = self.rounds(6);
        let f = |i: usize| {
            s.v0[i]
                .wrapping_add(s.mul0[i])
                .wrapping_add(s.v1[i + 2])
                .wrapping_add(s.mul1[i + 2])
        };
        [f(0), f(1)]
    }

    pub fn out256(&self) -> [u64; 4] {
        let s = self.rounds(10);
        let mut out = [0u64; 4];
        for p in [0, 2] {
            let hi = |a: u64, b: u64| a.wrapping_add(b);
            let a10 = ((hi(s.v0[p + 1], s.mul0[p + 1]) as u128) << 64)
                | hi(s.v0[p], s.mul0[p]) as u128;
            let a32 = ((hi(s.v1[p + 1], s.mul1[p + 1]) as u128) << 64)
                | hi(s.v1[p], s.mul1[p]) as u128;
            // reduction modulo x^128 + x^2 + x, the top two bits of a32 dropped
            let a = a32 & (u128::MAX >> 2);
            let m = a10 ^ (a << 1) ^ (a << 2);
            out[p] = m as u64;
            out[p + 1] = (m >> 64) as u64;
        }
        out
    }

    /// Canonical checkpoint: 16 lanes LE, pending bytes (zero padded), count u32 LE.
    pub fn ckpt(&self) -> [u8; 164] {
        let mut c = [0u8; 164];
        let l = self.lanes();
        for i in 0..16 {
            for b in 0..8 {
                c[8 * i + b] = (l[i] >> (8 * b)) as u8;
            }
        }
        c[128..128 + self.n].copy_from_slice(&self.pend[..self.n]);
        c[160] = self.n as u8;
        c
    }
}

/// Binds the model to the published vectors; returns the number of vectors replayed.
pub fn selftest() -> Result<usize, usize> {
    use crate::vectors::*;
    let key = [
        0x0706050403020100,
        0x0F0E0D0C0B0A0908,
        0x1716151413121110,
        0x1F1E1D1C1B1A1918,
    ];
    let mut n = 0;
    for len in 0..=64usize {
        let mut data = [0u8; 64];
        for (i, b) in data.iter_mut().enumerate() {
            *b = i as u8;
        }
        let mut s = Spec::new(key);
        s.absorb(&data[..len]);
        let j = |a: u64, b: u64| (a as u128) | ((b as u128) << 64);
        let o2 = s.out128();
        let o4 = s.out256();
        if s.out64() != V64[len]
            || j(o2[0], o2[1]) != V128[len]
            || (j(o4[0], o4[1]), j(o4[2], o4[3])) != V256[len]
        {
            return Err(len);
        }
        n += 3;
        // the inverses invert
        for k in [0, 4, 6, 10] {
            let t = s.rounds(k);
            let b = Spec::aim(&t.lanes(), &s.pend[..s.n], k);
            if b.lanes() != s.lanes() {
                return Err(1000 + len);
            }
        }
    }
    Ok(n)
}
