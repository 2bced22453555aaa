//! Offline search for names with special hashes (`mc --find-hashes`); the
//! results are committed in hashnames.rs and re-checked by every P05 run.

use crate::crypto::dirhash_raw;

pub const SEEDS: [[u32; 4]; 2] = [[0; 4], [0x1111_2222, 0x3333_4444, 0x5555_6666, 0x7777_8888]];

pub fn name(mut n: u64) -> [u8; 8] {
    let mut v = [b'c'; 8];
    for c in &mut v[1..] {
        *c = b"0123456789abcdefghijklmnopqrstuv"[(n & 31) as usize];
        n >>= 5;
    }
    v
}

pub fn run() {
    println!("// Generated by `mc --find-hashes`.\n");
    println!("pub struct Special {{\n    pub alg: u8,\n    pub seed: [u32; 4],\n    pub triples: [[&'static str; 3]; 2],\n    pub eof: [&'static str; 2],\n    pub before_eof: &'static str,\n    pub zero: &'static str,\n}}\n");
    println!("pub const SPECIAL: [Special; 4] = [");
    for alg in [1u8, 2] {
        for seed in SEEDS {
            let mut v: Vec<(u32, u32)> =
                (0..1u32 << 23).map(|i| (dirhash_raw(&name(i as u64), alg, seed, false), i)).collect();
            v.sort();
            let tri: Vec<[u32; 3]> = v
                .windows(3)
                .filter(|w| w[0].0 == w[1].0 && w[1].0 == w[2].0)
                .map(|w| [w[0].1, w[1].1, w[2].1])
                .take(2)
                .collect();
            let find = |target: u32, want: usize| -> Vec<u64> {
                let total = std::sync::atomic::AtomicUsize::new(0);
                let total = &total;
                let mut r: Vec<u64> = std::thread::scope(|s| {
                    let h: Vec<_> = (0..8u64)
                        .map(|t| {
                            s.spawn(move || {
                                let mut f = vec![];
                                let mut i = t;
                                use std::sync::atomic::Ordering::Relaxed;
                                while i < 32 << 30 && (i & 0xffff8 != 0 || total.load(Relaxed) < want) {
                                    if dirhash_raw(&name(i), alg, seed, false) == target {
                                        f.push(i);
                                        total.fetch_add(1, Relaxed);
                                    }
                                    i += 8;
                                }
                                f
                            })
                        })
                        .collect();
                    h.into_iter().flat_map(|h| h.join().unwrap()).collect()
                });
                r.sort();
                r
            };
            let eof = find(0xffff_fffe, 2);
            let be = find(0xffff_fffc, 1);
            let z = find(0, 1);
            let s = |i: u64| format!("{:?}", std::str::from_utf8(&name(i)).unwrap());
            println!("    Special {{ alg: {alg}, seed: {seed:?},");
            println!(
                "        triples: [{}],",
                tri.iter()
                    .map(|t| format!("[{}]", t.map(|i| s(i as u64)).join(", ")))
                    .collect::<Vec<_>>()
                    .join(", ")
            );
            println!("        eof: [{}, {}], before_eof: {}, zero: {} }},", s(eof[0]), s(eof[1]), s(be[0]), s(z[0]));
        }
    }
    println!("];");
}
