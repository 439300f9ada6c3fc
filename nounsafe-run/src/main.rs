//! Every short history of the portable hasher, and nothing else of the crate: built with coverage
//! instrumentation, so that what was executed can be compared with what was found reachable.
use core::fmt::Write as _;
use core::hash::{BuildHasher, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, Key, PortableHash};

fn finish(h: PortableHash, n: &mut u64) {
    let mut s = String::new();
    write!(s, "{:?} {:#?}", h, h).unwrap();
    let c = h.checkpoint();
    let r = PortableHash::from_checkpoint(c);
    *n = n.wrapping_add(h.clone().finalize64() ^ r.clone().finalize128()[0] ^ r.finalize256()[3] ^ Hasher::finish(&h) ^ s.len() as u64);
}

fn main() {
    let d: Vec<u8> = (0..255).collect();
    let mut n = 0;
    let mut runs = 0u64;
    let lens = [0usize, 1, 3, 4, 15, 16, 17, 20, 31, 32, 33, 47, 63, 64, 65, 96];
    for make in 0..4 {
        for a in lens {
            for b in lens {
                for c in [0usize, 1, 31, 32, 33] {
                    for how in 0..3 {
                        let mut h = match make {
                            0 => PortableHash::new(Key([a as u64, 2, 3, 4])),
                            1 => PortableHash::default(),
                            2 => PortableHash::new(Key::default()),
                            _ => {
                                let mut k = [0u8; 164];
                                for (i, x) in k.iter_mut().enumerate() {
                                    *x = (i * a + b) as u8;
                                }
                                PortableHash::from_checkpoint(k)
                            }
                        };
                        match how {
                            0 => h.append(&d[..a]),
                            1 => Hasher::write(&mut h, &d[..a]),
                            #[cfg(feature = "hstd")]
                            _ => {
                                std::io::Write::write_all(&mut h, &d[..a]).unwrap();
                                std::io::Write::flush(&mut h).unwrap();
                            }
                            #[cfg(not(feature = "hstd"))]
                            _ => h.write_u64(a as u64),
                        }
                        h.append(&d[a..a + b]);
                        n ^= h.clone().hash64(&d[..c]) ^ h.clone().hash128(&d[..c])[1] ^ h.clone().hash256(&d[..c])[2];
                        finish(h, &mut n);
                        runs += 1;
                    }
                }
            }
        }
    }
    let k = Key([1, 2, 3, 4]);
    let b = HighwayBuildHasher::new(k.clone());
    let _ = format!("{:?} {:?} {:?} {}", b, HighwayBuildHasher::default(), k, k[2]);
    // the one use of the auto-selecting hasher: what a builder hands out
    if std::env::args().nth(1).is_some() {
        n ^= b.build_hasher().finish();
    }
    println!("RUNS {} {:x}", runs, n);
}
