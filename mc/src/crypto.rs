//! Independent implementations of the on-disk hash functions, written from
//! the kernel's description (fs/ext4/hash.c, crc32c).

use std::sync::OnceLock;

fn table() -> &'static [[u32; 256]; 8] {
    static T: OnceLock<[[u32; 256]; 8]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[0u32; 256]; 8];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for i in 0..256 {
            let mut c = t[0][i];
            for k in 1..8 {
                c = t[0][(c & 0xff) as usize] ^ (c >> 8);
                t[k][i] = c;
            }
        }
        t
    })
}

/// Raw crc32c update (no pre/post inversion), as ext4_chksum does.
pub fn crc32c(mut c: u32, data: &[u8]) -> u32 {
    let t = table();
    let mut it = data.chunks_exact(8);
    for b in &mut it {
        let lo = c ^ u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let hi = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        c = t[7][(lo & 0xff) as usize]
            ^ t[6][(lo >> 8 & 0xff) as usize]
            ^ t[5][(lo >> 16 & 0xff) as usize]
            ^ t[4][(lo >> 24) as usize]
            ^ t[3][(hi & 0xff) as usize]
            ^ t[2][(hi >> 8 & 0xff) as usize]
            ^ t[1][(hi >> 16 & 0xff) as usize]
            ^ t[0][(hi >> 24) as usize];
    }
    for b in it.remainder() {
        c = t[0][((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    c
}

pub fn crc16(mut crc: u16, data: &[u8]) -> u16 {
    for b in data {
        crc ^= *b as u16;
        for _ in 0..8 {
            crc = if crc & 1 != 0 { (crc >> 1) ^ 0xA001 } else { crc >> 1 };
        }
    }
    crc
}

fn ch(b: u8, unsigned: bool) -> u32 {
    if unsigned { b as u32 } else { b as i8 as i32 as u32 }
}

/// str2hashbuf: `num` words.
fn hashbuf(msg: &[u8], num: usize, unsigned: bool) -> [u32; 8] {
    let len = msg.len() as u32;
    let mut pad = len | (len << 8);
    pad |= pad << 16;
    let mut val = pad;
    let m = msg.len().min(num * 4);
    let mut out = [pad; 8];
    let mut n = 0;
    for (i, b) in msg[..m].iter().enumerate() {
        val = ch(*b, unsigned).wrapping_add(val << 8);
        if i % 4 == 3 {
            out[n] = val;
            n += 1;
            val = pad;
        }
    }
    if n < num {
        out[n] = val;
    }
    out
}

fn half_md4(buf: &mut [u32; 4], inp: &[u32]) {
    let [mut a, mut b, mut c, mut d] = *buf;
    let f = |x: u32, y: u32, z: u32| z ^ (x & (y ^ z));
    let g = |x: u32, y: u32, z: u32| (x & y).wrapping_add((x ^ y) & z);
    let h = |x: u32, y: u32, z: u32| x ^ y ^ z;
    macro_rules! r {
        ($f:ident,$a:ident,$b:ident,$c:ident,$d:ident,$x:expr,$s:expr) => {
            $a = $a.wrapping_add($f($b, $c, $d)).wrapping_add($x).rotate_left($s)
        };
    }
    const K2: u32 = 0x5A827999;
    const K3: u32 = 0x6ED9EBA1;
    r!(f, a, b, c, d, inp[0], 3);
    r!(f, d, a, b, c, inp[1], 7);
    r!(f, c, d, a, b, inp[2], 11);
    r!(f, b, c, d, a, inp[3], 19);
    r!(f, a, b, c, d, inp[4], 3);
    r!(f, d, a, b, c, inp[5], 7);
    r!(f, c, d, a, b, inp[6], 11);
    r!(f, b, c, d, a, inp[7], 19);

    r!(g, a, b, c, d, inp[1].wrapping_add(K2), 3);
    r!(g, d, a, b, c, inp[3].wrapping_add(K2), 5);
    r!(g, c, d, a, b, inp[5].wrapping_add(K2), 9);
    r!(g, b, c, d, a, inp[7].wrapping_add(K2), 13);
    r!(g, a, b, c, d, inp[0].wrapping_add(K2), 3);
    r!(g, d, a, b, c, inp[2].wrapping_add(K2), 5);
    r!(g, c, d, a, b, inp[4].wrapping_add(K2), 9);
    r!(g, b, c, d, a, inp[6].wrapping_add(K2), 13);

    r!(h, a, b, c, d, inp[3].wrapping_add(K3), 3);
    r!(h, d, a, b, c, inp[7].wrapping_add(K3), 9);
    r!(h, c, d, a, b, inp[2].wrapping_add(K3), 11);
    r!(h, b, c, d, a, inp[6].wrapping_add(K3), 15);
    r!(h, a, b, c, d, inp[1].wrapping_add(K3), 3);
    r!(h, d, a, b, c, inp[5].wrapping_add(K3), 9);
    r!(h, c, d, a, b, inp[0].wrapping_add(K3), 11);
    r!(h, b, c, d, a, inp[4].wrapping_add(K3), 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
}

fn tea(buf: &mut [u32; 4], inp: &[u32]) {
    let mut sum = 0u32;
    let (mut b0, mut b1) = (buf[0], buf[1]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9E3779B9);
        b0 = b0.wrapping_add(
            (b1 << 4).wrapping_add(inp[0]) ^ b1.wrapping_add(sum) ^ (b1 >> 5).wrapping_add(inp[1]),
        );
        b1 = b1.wrapping_add(
            (b0 << 4).wrapping_add(inp[2]) ^ b0.wrapping_add(sum) ^ (b0 >> 5).wrapping_add(inp[3]),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}

fn legacy(name: &[u8], unsigned: bool) -> u32 {
    let (mut h0, mut h1) = (0x12a3fe2du32, 0x37abe8f9u32);
    for b in name {
        let mut h = h1.wrapping_add(h0 ^ ch(*b, unsigned).wrapping_mul(7152373));
        if h & 0x8000_0000 != 0 {
            h = h.wrapping_sub(0x7fff_ffff);
        }
        h1 = h0;
        h0 = h;
    }
    h0 << 1
}

/// alg: 0 legacy, 1 half-MD4, 2 TEA. Returns the major hash with its low
/// bit cleared, as stored in index entries.
pub fn dirhash(name: &[u8], alg: u8, seed: [u32; 4], unsigned: bool) -> u32 {
    let h = dirhash_raw(name, alg, seed, unsigned);
    // the largest value is reserved
    if h == 0xffff_fffe { 0xffff_fffc } else { h }
}

/// Without the treatment of the reserved value.
pub fn dirhash_raw(name: &[u8], alg: u8, seed: [u32; 4], unsigned: bool) -> u32 {
    let mut buf = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    if seed != [0; 4] {
        buf = seed;
    }
    (match alg {
        0 => legacy(name, unsigned),
        1 => {
            let mut p = name;
            loop {
                let inp = hashbuf(p, 8, unsigned);
                half_md4(&mut buf, &inp);
                if p.len() <= 32 {
                    break;
                }
                p = &p[32..];
            }
            buf[1]
        }
        2 => {
            let mut p = name;
            loop {
                let inp = hashbuf(p, 4, unsigned);
                tea(&mut buf, &inp);
                if p.len() <= 16 {
                    break;
                }
                p = &p[16..];
            }
            buf[0]
        }
        _ => unreachable!(),
    }) & !1
}
