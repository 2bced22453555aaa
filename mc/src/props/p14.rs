//! P14: loading accepts exactly the supported filesystems and reports their
//! identity.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::jbd::{self, Jnl};
use crate::ops;
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, Label, Uuid};

/// Incompatible features the library supports, and those it documents as
/// not supported.
const SUPPORTED: u32 = 0x2 | 0x4 | 0x40 | 0x80 | 0x200 | 0x2000 | 0x1_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Ok,
    Incompatible,
    Corrupt,
    /// either kind of refusal
    Refused,
    /// only a panic would be wrong
    Any,
}

fn incompat_want(bits: u32) -> Want {
    if bits & 2 != 0 && bits & !SUPPORTED == 0 { Want::Ok } else { Want::Incompatible }
}

const F_DATA: &[u8] = b"contents of the one file";

/// Root directory with the file /f; journal in inode 8, clean.
fn image(g: Geo) -> Img {
    image_at(g, 0)
}

fn image_at(g: Geo, next: u64) -> Img {
    let mut m = Img::new(g);
    m.next = m.next.max(next);
    m.dir(2, 2, &[(b"f", 12, FT_REG)]);
    m.file(12, F_DATA);
    let bs = m.bs();
    let p = m.alloc_n(4);
    let phys: Vec<u64> = (p..p + 4).collect();
    let mut i = Ino::file();
    i.size = 4 * bs as u64;
    m.set_inode(8, &i);
    if m.g.incompat & INCOMPAT_EXTENTS == 0 {
        let map = phys.iter().enumerate().map(|(l, p)| (l as u64, *p)).collect();
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(8, &i);
    } else {
        m.map_blocks(8, i, &phys);
    }
    let mut j = Jnl::new(bs, phys);
    j.start = 0;
    j.put_sb(&mut m);
    m.finish();
    m
}

fn geo(bs: usize, incompat: u32, csum: bool) -> Geo {
    let mut g = Geo::new(bs);
    g.csum = csum;
    g.incompat = incompat;
    g.blocks_count = 512;
    if incompat & INCOMPAT_64BIT != 0 {
        g = g.b64();
    }
    if incompat & INCOMPAT_CSUM_SEED != 0 {
        g.csum_seed = Some(0x1234_abcd);
    }
    g.journal_inum = 8;
    g
}

/// Changes the superblock in place; the checksum is kept right.
fn patch(m: &mut Img, f: impl FnOnce(&mut [u8])) {
    let (b, o) = if m.g.bs == 1024 { (1, 0) } else { (0, 1024) };
    let csum = m.g.csum;
    let s = &mut m.block_mut(b)[o..o + 1024];
    f(s);
    if csum {
        Img::csum_superblock(s);
    }
}

fn judge(cx: &mut Cx, m: &Img, want: Want) -> CaseResult {
    cx.step();
    let r = m.load();
    let name = match &r {
        Ok(_) => "Ok".to_string(),
        Err(e) => ops::err_name(e),
    };
    cx.outcome(hash_of(&name));
    match (want, &r) {
        (Want::Any, _) => {}
        (Want::Ok, Ok(fs)) => usable(m, fs)?,
        (Want::Ok, Err(e)) => bail!("a supported filesystem is refused: {e}"),
        (Want::Incompatible, Err(Ext4Error::Incompatible(_)))
        | (Want::Corrupt, Err(Ext4Error::Corrupt(_)))
        | (Want::Refused, Err(Ext4Error::Incompatible(_) | Ext4Error::Corrupt(_))) => {}
        (w, _) => bail!("loading gives {name}, expected {w:?}"),
    }
    Ok(())
}

fn usable(m: &Img, fs: &Ext4) -> CaseResult {
    ensure!(fs.label().as_bytes() == &m.g.label, "label {:?} instead of {:?}", fs.label(), m.g.label);
    ensure!(fs.uuid().as_bytes() == &m.g.uuid, "uuid {:?} instead of {:?}", fs.uuid(), m.g.uuid);
    let l: Vec<String> = fs
        .read_dir("/")
        .map_err(|e| format!("listing of /: {e}"))?
        .map(|e| e.map(|e| e.file_name().display().to_string()).unwrap_or_else(|e| format!("error {e}")))
        .collect();
    ensure!(l == [".", "..", "f"], "listing of /: {l:?}");
    let d = fs.read("/f").map_err(|e| format!("reading /f: {e}"))?;
    ensure!(d == F_DATA, "/f reads as {d:02x?}");
    Ok(())
}

thread_local! {
    /// Images by (block size, relevant incompat bits, checksums).
    static BASE: std::cell::RefCell<std::collections::HashMap<(usize, u32, bool), Img>> = Default::default();
}

fn base(bs: usize, incompat: u32, csum: bool) -> Img {
    let k = incompat & (INCOMPAT_64BIT | INCOMPAT_EXTENTS | INCOMPAT_CSUM_SEED);
    BASE.with(|b| b.borrow_mut().entry((bs, k, csum)).or_insert_with(|| image(geo(bs, 2 | k, csum))).clone())
}

fn with_incompat(cx: &mut Cx, bs: usize, bits: u32, csum: bool, journal: bool) -> CaseResult {
    let want = incompat_want(bits);
    cx.describe(|| format!("block size {bs}, incompatible features {bits:#x}, metadata checksums {csum}, journal {journal}: {want:?}"));
    cx.input(hash_of(&(bs, bits, csum, journal)));
    let mut m = base(bs, bits, csum);
    patch(&mut m, |s| {
        put32(s, 0x60, bits);
        put32(s, 0x5c, if journal { COMPAT_HAS_JOURNAL } else { 0 });
    });
    judge(cx, &m, want)
}

fn incompat_low(sizes: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(sizes);
        let csum = cx.flag();
        let journal = cx.flag();
        let bits = cx.pick(512) as u32 | (cx.pick(256) as u32) << 9;
        with_incompat(cx, bs, bits, csum, journal)
    }
}

/// Up to three bits flipped in a good combination.
fn incompat_flips(cx: &mut Cx) -> CaseResult {
    let b = *cx.of(&[2u32, 0x42, 0xc2, 0x246, 0x2c2, 0x22c6, 0x122c6]);
    let csum = cx.flag();
    let x = cx.pick(32);
    let y = x + cx.pick(32 - x);
    let z = y + cx.pick(32 - y);
    let bits = b ^ (1 << x) ^ (if y > x { 1 << y } else { 0 }) ^ (if z > y { 1 << z } else { 0 });
    with_incompat(cx, 1024, bits, csum, true)
}

/// Compatible and read-only-compatible features never matter.
fn ro_low(cx: &mut Cx) -> CaseResult {
    let bits = cx.pick(512) as u32 | (cx.pick(256) as u32) << 9;
    ro_case(cx, 0, bits)
}
fn compat_low(cx: &mut Cx) -> CaseResult {
    let bits = cx.pick(512) as u32 | (cx.pick(256) as u32) << 9;
    let csum = cx.flag();
    ro_case(cx, bits, if csum { RO_METADATA_CSUM } else { 0 })
}
fn compat_pairs(cx: &mut Cx) -> CaseResult {
    let b = *cx.of(&[0u64, 0x46b_0000_003c, !0, 0xffff_ffff, 0xffff_ffff_0000_0000]);
    let x = cx.pick(64);
    let y = x + cx.pick(64 - x);
    let v = b ^ (1 << x) ^ (if y > x { 1 << y } else { 0 });
    ro_case(cx, v as u32, (v >> 32) as u32)
}
fn ro_case(cx: &mut Cx, compat: u32, ro: u32) -> CaseResult {
    let csum = ro & RO_METADATA_CSUM != 0;
    cx.describe(|| format!("compatible features {compat:#x}, read-only compatible {ro:#x}"));
    cx.input(hash_of(&(compat, ro)));
    let mut m = base(1024, 0x42, csum);
    // descriptors carry the older checksum
    if !csum && ro & RO_GDT_CSUM != 0 {
        m.g.ro = RO_GDT_CSUM;
        m.finish();
    }
    patch(&mut m, |s| {
        put32(s, 0x5c, compat);
        put32(s, 0x64, ro);
    });
    judge(cx, &m, Want::Ok)
}

fn magic(cx: &mut Cx) -> CaseResult {
    let csum = cx.flag();
    let v = (cx.pick(256) << 8 | cx.pick(256)) as u16;
    cx.describe(|| format!("magic {v:#06x}, checksums {csum}"));
    cx.input(hash_of(&(csum, v)));
    let mut m = base(1024, 0xc2, csum);
    patch(&mut m, |s| put16(s, 0x38, v));
    judge(cx, &m, if v == 0xef53 { Want::Ok } else { Want::Corrupt })
}

/// Every value of a 16-bit field.
fn sizes16(cx: &mut Cx) -> CaseResult {
    let f = cx.pick(3);
    let csum = cx.flag();
    let v = (cx.pick(256) << 8 | cx.pick(256)) as u16;
    let bs = *cx.of(&[1024usize, 4096]);
    let b64 = f > 0;
    cx.describe(|| format!("block size {bs}, {} = {v}, checksums {csum}", ["inode size", "descriptor size (64bit)", "descriptor size (no 64bit)"][f]));
    cx.input(hash_of(&(f, csum, v, bs)));
    let pow2 = v.is_power_of_two();
    let want = match f {
        0 if v < 128 || v as usize > bs => Want::Corrupt,
        0 if pow2 => Want::Ok,
        1 if v < 64 => Want::Corrupt,
        1 if pow2 && v <= 1024 => Want::Ok,
        2 => Want::Ok,
        _ => Want::Any,
    };
    let m = if want == Want::Ok && f < 2 {
        let mut g = geo(bs, if b64 { 0xc2 } else { 0x42 }, csum);
        if f == 0 {
            g.inode_size = v;
            if v == 128 {
                g.extra_isize = 0;
            }
        } else {
            g.desc_size = v;
        }
        image(g)
    } else {
        let mut m = base(bs, if f == 1 { 0xc2 } else { 0x42 }, csum);
        patch(&mut m, |s| put16(s, if f == 0 { 0x58 } else { 0xfe }, v));
        m
    };
    judge(cx, &m, want)
}

fn values32() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=80).collect();
    for k in 3..32 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    v.extend([u32::MAX, u32::MAX - 1, u32::MAX - 9, u32::MAX - 10, u32::MAX - 11, 0xff00_0000]);
    v.sort();
    v.dedup();
    v
}

fn log_block_size(cx: &mut Cx) -> CaseResult {
    let vs = values32();
    let v = *cx.of(&vs);
    let csum = cx.flag();
    let bits = *cx.of(&[0x42u32, 0xc2, 0x22c6]);
    cx.describe(|| format!("s_log_block_size {v}, features {bits:#x}, checksums {csum}"));
    cx.input(hash_of(&(v, csum, bits)));
    if v <= 6 {
        let mut g = geo(1024 << v, bits, csum);
        g.compat = COMPAT_HAS_JOURNAL;
        let m = image(g);
        return judge(cx, &m, Want::Ok);
    }
    let mut m = base(4096, bits, csum);
    patch(&mut m, |s| put32(s, 0x18, v));
    judge(cx, &m, Want::Corrupt)
}

/// One 32-bit geometry field at a time.
fn geometry(cx: &mut Cx) -> CaseResult {
    let vs = values32();
    let f = cx.pick(5);
    let v = *cx.of(&vs);
    let csum = cx.flag();
    let bs = *cx.of(&[1024usize, 4096]);
    let b64 = cx.flag();
    let mut m = base(bs, if b64 { 0xc2 } else { 0x42 }, csum);
    let off = [0x4, 0x14, 0x20, 0x28, 0x150][f];
    patch(&mut m, |s| put32(s, off, v));
    let fdb = m.g.first_data_block as u64;
    let bpg = m.g.bpg as u64;
    let name = ["blocks count", "first data block", "blocks per group", "inodes per group", "blocks count (high)"][f];
    let want = match f {
        0 if (v as u64) < fdb => Want::Corrupt,
        1 if v as u64 > m.g.blocks_count => Want::Corrupt,
        2 | 3 if v == 0 => Want::Corrupt,
        4 if b64 && ((v as u64) << 32 | m.g.blocks_count).div_ceil(bpg) > 1 << 32 => Want::Corrupt,
        // still one group
        0 if v as u64 > fdb + 400 && v as u64 - fdb <= bpg => Want::Ok,
        2 if v as u64 >= m.g.blocks_count => Want::Ok,
        3 if (12..=32).contains(&v) => Want::Ok,
        _ => Want::Any,
    };
    if want == Want::Any && f != 1 {
        // millions of groups the image does not have: P11
        return Ok(());
    }
    cx.describe(|| format!("block size {bs}, {name} {v:#x}, 64bit {b64}, checksums {csum}: {want:?}"));
    cx.input(hash_of(&(f, v, csum, bs, b64)));
    judge(cx, &m, want)
}

/// Two faults at once: still refused.
fn two_faults(cx: &mut Cx) -> CaseResult {
    const N: usize = 14;
    let a = cx.pick(N);
    let b = cx.pick(N);
    let csum = cx.flag();
    let bs = *cx.of(&[1024usize, 4096, 65536]);
    let fault = |s: &mut [u8], k: usize| match k {
        0 => put16(s, 0x38, 0x53ef),
        1 => put32(s, 0x18, 7),
        2 => put32(s, 0x18, 22),
        3 => put32(s, 0x18, u32::MAX),
        4 => put32(s, 0x14, 0x1000),
        5 => put32(s, 0x20, 0),
        6 => put32(s, 0x28, 0),
        7 => put16(s, 0x58, 64),
        8 => put16(s, 0x58, 0),
        9 => {
            let v = get32(s, 0x60) | 0x4000;
            put32(s, 0x60, v)
        }
        10 => {
            let v = get32(s, 0x60) & !2;
            put32(s, 0x60, v)
        }
        11 => {
            let v = get32(s, 0x60) | 0x8000_0000;
            put32(s, 0x60, v)
        }
        12 => {
            // recovery needed, but no journal inode
            let v = get32(s, 0x60) | INCOMPAT_RECOVER;
            put32(s, 0x60, v);
            let v = get32(s, 0x5c) | COMPAT_HAS_JOURNAL;
            put32(s, 0x5c, v);
            put32(s, 0xe0, 0);
        }
        _ => put16(s, 0xfe, 63),
    };
    cx.describe(|| format!("block size {bs}, faults {a} and {b}, checksums {csum}"));
    cx.input(hash_of(&(a, b, csum, bs)));
    let mut m = base(bs, 0xc2, csum);
    patch(&mut m, |s| {
        fault(s, a);
        fault(s, b);
    });
    let inc = |k: usize| (9..=11).contains(&k);
    let want = match (inc(a), inc(b)) {
        (true, true) => Want::Incompatible,
        (false, false) => Want::Corrupt,
        _ => Want::Refused,
    };
    judge(cx, &m, want)
}

/// The stored checksum: matters exactly with metadata checksums.
fn checksum(cx: &mut Cx) -> CaseResult {
    let csum = cx.flag();
    let seed = cx.flag();
    let k = cx.pick(36);
    let bs = *cx.of(&[1024usize, 4096, 65536]);
    cx.describe(|| format!("block size {bs}, checksum variant {k}, checksums {csum}, seed in superblock {seed}"));
    cx.input(hash_of(&(csum, seed, k, bs)));
    let mut m = base(bs, if seed { 0x20c2 } else { 0xc2 }, csum);
    let (b, o) = if bs == 1024 { (1, 0) } else { (0, 1024) };
    let s = &mut m.block_mut(b)[o..o + 1024];
    let right = crate::crypto::crc32c(!0, &s[..0x3fc]);
    let v = match k {
        0..=31 => right ^ 1 << k,
        32 => 0,
        33 => !0,
        34 => !right,
        _ => right,
    };
    put32(s, 0x3fc, v);
    judge(cx, &m, if csum && v != right { Want::Corrupt } else { Want::Ok })
}

/// The journal is looked at exactly when the filesystem needs recovery.
fn journal(cx: &mut Cx) -> CaseResult {
    let csum = cx.flag();
    let has = cx.flag();
    let recover = cx.flag();
    let inum = *cx.of(&[0u32, 8, 1, 12, 33, u32::MAX]);
    let jbad = cx.pick(9);
    let bs = *cx.of(&[1024usize, 4096]);
    cx.describe(|| format!("block size {bs}, journal {has}, recovery {recover}, journal inode {inum}, journal superblock variant {jbad}, checksums {csum}"));
    cx.input(hash_of(&(csum, has, recover, inum, jbad, bs)));
    let bits = if recover { 0x46 } else { 0x42 };
    let mut m = base(bs, bits, csum);
    patch(&mut m, |s| {
        put32(s, 0x5c, if has { COMPAT_HAS_JOURNAL } else { 0 });
        put32(s, 0x60, bits);
        put32(s, 0xe0, inum);
    });
    let jsb = m.next - 4;
    let b = m.block_mut(jsb);
    ensure!(get32(b, 0).swap_bytes() == jbd::MAGIC, "harness: no journal there");
    match jbad {
        0 => {}
        1 => put32be(b, 0, 0),
        2 => put32be(b, 0xc, bs as u32 * 2),
        3 => put32be(b, 0x28, jbd::I_64BIT | jbd::I_CSUM_V3 | 0x20),
        4 => put32be(b, 0x28, jbd::I_CSUM_V3),
        5 => b[0x50] = 1,
        6 => put32be(b, 4, jbd::T_SB_V1),
        7 => b[0x33] ^= 1,
        _ => put32be(b, 4, jbd::T_COMMIT),
    }
    if jbad != 7 {
        Jnl::csum_sb(b);
    }
    let want = if !has || !recover {
        Want::Ok
    } else if inum == 0 {
        Want::Corrupt
    } else if inum != 8 {
        // not a journal: refused; numbers of no inode as well
        Want::Refused
    } else {
        match jbad {
            0 => Want::Ok,
            1 | 2 | 7 => Want::Corrupt,
            3..=6 => Want::Incompatible,
            _ => Want::Refused,
        }
    };
    judge(cx, &m, want)
}

/// Every combination of journal features, every checksum type, every kind
/// of journal superblock.
fn journal_features(cx: &mut Cx) -> CaseResult {
    let (mut feat, mut ty, mut sbt) = (jbd::I_REVOKE | jbd::I_64BIT | jbd::I_CSUM_V3, 4, jbd::T_SB_V2);
    let want = match cx.pick(4) {
        0 => {
            feat = cx.pick(256) as u32;
            None
        }
        1 => {
            let x = cx.pick(32);
            let y = x + cx.pick(32 - x);
            feat ^= (1 << x) | (1 << y);
            None
        }
        2 => {
            ty = cx.pick(256) as u8;
            Some(if ty == 4 { Want::Ok } else { Want::Incompatible })
        }
        _ => {
            sbt = *cx.of(&[0, 1, 2, 3, 4, 5, 6, 7, 0x0400_0000, u32::MAX]);
            Some(match sbt {
                4 => Want::Ok,
                3 => Want::Incompatible,
                _ => Want::Refused,
            })
        }
    };
    let need = jbd::I_64BIT | jbd::I_CSUM_V3;
    let want = want.unwrap_or(if feat & need == need && feat & !(need | jbd::I_REVOKE) == 0 {
        Want::Ok
    } else {
        Want::Incompatible
    });
    cx.describe(|| format!("journal features {feat:#x}, checksum type {ty}, superblock type {sbt}: {want:?}"));
    cx.input(hash_of(&(feat, ty, sbt)));
    let mut m = base(1024, 0x46, true);
    patch(&mut m, |s| {
        put32(s, 0x5c, COMPAT_HAS_JOURNAL);
        put32(s, 0x60, 0x46);
    });
    let jsb = m.next - 4;
    let b = m.block_mut(jsb);
    put32be(b, 0x28, feat);
    b[0x50] = ty;
    put32be(b, 4, sbt);
    Jnl::csum_sb(b);
    judge(cx, &m, want)
}

fn check_label(raw: [u8; 16], l: &Label) -> CaseResult {
    let n = raw.iter().position(|c| *c == 0).unwrap_or(16);
    let s = &raw[..n];
    ensure!(l.as_bytes() == &raw, "label bytes {:02x?} of {raw:02x?}", l.as_bytes());
    ensure!(l.to_str().ok() == std::str::from_utf8(s).ok(), "label {raw:02x?} as text: {:?}", l.to_str());
    let want = String::from_utf8_lossy(s);
    ensure!(l.display().to_string() == want, "label {raw:02x?} displayed as {:?}", l.display().to_string());
    let want = match std::str::from_utf8(s) {
        Ok(s) => format!("\"{}\"", s.escape_debug()),
        Err(_) => format!("\"{}\"", s.escape_ascii()),
    };
    ensure!(format!("{l:?}") == want, "label {raw:02x?} debugged as {l:?} instead of {want}");
    ensure!(*l == Label::new(raw), "label {raw:02x?} differs from itself");
    Ok(())
}

fn check_uuid(raw: [u8; 16], u: &Uuid) -> CaseResult {
    ensure!(u.as_bytes() == &raw, "uuid bytes {:02x?} of {raw:02x?}", u.as_bytes());
    let mut want = String::new();
    for (i, b) in raw.iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) {
            want.push('-');
        }
        want.push(char::from_digit(u32::from(b >> 4), 16).unwrap());
        want.push(char::from_digit(u32::from(b & 15), 16).unwrap());
    }
    ensure!(u.to_string() == want, "uuid {raw:02x?} displayed as {u}");
    ensure!(format!("{u:?}") == want, "uuid {raw:02x?} debugged as {u:?}");
    ensure!(*u == Uuid::new(raw), "uuid {raw:02x?} differs from itself");
    Ok(())
}

fn identity(cx: &mut Cx, label: [u8; 16], uuid: [u8; 16], bs: usize, csum: bool) -> CaseResult {
    cx.describe(|| format!("label {label:02x?} uuid {uuid:02x?}, block size {bs}, checksums {csum}"));
    cx.input(hash_of(&(label, uuid, bs, csum)));
    let mut m = base(bs, 0x20c2, csum);
    patch(&mut m, |s| {
        s[0x68..0x78].copy_from_slice(&uuid);
        s[0x78..0x88].copy_from_slice(&label);
    });
    cx.step();
    let fs = m.load().map_err(|e| format!("load: {e}"))?;
    check_label(label, fs.label())?;
    check_uuid(uuid, &fs.uuid())
}

const BACK: [[u8; 16]; 5] = [[0; 16], [b'a'; 16], [0xff; 16], *b"ab\0cd\0\0\xc3\xa9\0xyz\"\\\n", *b"0123456789abcdef"];

fn id_bytes(cx: &mut Cx) -> CaseResult {
    let back = *cx.of(&BACK);
    let pos = cx.pick(16);
    let v = cx.pick(256) as u8;
    let bs = *cx.of(&[1024usize, 4096]);
    let csum = cx.flag();
    let mut l = back;
    l[pos] = v;
    identity(cx, l, l, bs, csum)
}

fn id_pairs(cx: &mut Cx) -> CaseResult {
    const A: [u8; 12] = [0, b'a', b'"', b'\\', b'\n', 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0xf0, 0xff];
    let back = *cx.of(&BACK);
    let x = cx.pick(16);
    let y = cx.pick(16);
    let mut l = back;
    l[x] = *cx.of(&A);
    l[y] = *cx.of(&A);
    let mut u = back;
    u[y] = l[x];
    u[x] = l[y];
    identity(cx, l, u, 1024, false)
}

fn id_strings(n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        const A: [u8; 8] = [0, b'a', b'\'', b'\\', 0xc3, 0xa9, 0xf0, 0x9f];
        let mut l = *cx.of(&[[0u8; 16], [b'z'; 16]]);
        let at = *cx.of(&[0usize, 16 - n]);
        for k in 0..n {
            l[at + k] = *cx.of(&A);
        }
        identity(cx, l, BACK[4], 1024, false)
    }
}

/// Numbers of groups around every power of two.
fn many_groups(maxbit: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(&[1024usize, 4096]);
        let bit = 4 + cx.pick(maxbit - 3) as u32;
        let n = (1u64 << bit) + cx.pick(3) as u64 - 1;
        // blocks in the last group
        let tail = cx.pick(3);
        let mode = cx.pick(3);
        let mut g = geo(bs, [2 | 0x40, 2, 2 | 0x80 | 0x40][mode], mode == 2);
        g.bpg = if cx.flag() { 8 * bs as u32 } else { 1024 };
        g.ipg = 32;
        let part = [0, 1, g.bpg as u64 - 1][tail];
        g.blocks_count = g.first_data_block as u64 + n * g.bpg as u64 - part;
        if mode != 2 && g.blocks_count >> 32 != 0 {
            return Ok(());
        }
        let gdt = (n * g.desc_size as u64).div_ceil(bs as u64);
        let lo = g.first_data_block as u64 + 1 + gdt + 4;
        g.spread_tables(lo, lo + g.itb() + 60);
        if *g.itab.last().unwrap() + g.itb() > g.blocks_count {
            return Ok(());
        }
        cx.describe(|| format!("{n} groups of {}, {part} blocks missing in the last, block size {bs}, descriptors of {}, checksums {}", g.bpg, g.desc_size, g.csum));
        cx.input(hash_of(&format!("{:?}", (bs, n, tail, mode, g.bpg))));
        // room for the contents after the first table
        let mut m = image_at(g.clone(), lo + g.itb());
        patch(&mut m, |s| put32(s, 0x5c, 0));
        judge(cx, &m, Want::Ok)
    }
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P14",
        level: "model_checking",
        rule: "a case fails if loading accepts what it must refuse, refuses what it must accept, or reports another class of error, label or uuid than the superblock calls for",
        assumptions: &[
            "geometries that the kernel refuses for reasons of its own (inode or descriptor sizes that are no power of two, more groups than the device holds) may be accepted or refused; that they do no harm is P11",
            "with two faults in one superblock either error class is accepted",
        ],
        sections: vec![
            Section::new("incompat-low", "all 2^17 combinations of the 17 known incompatible feature bits x metadata checksums x journal", incompat_low(if t { &[1024, 2048, 4096, 65536] } else { &[1024] })),
            Section::new("incompat-flips", "up to 3 of all 32 incompatible bits flipped in 7 supported combinations x checksums", incompat_flips),
            Section::new("ro-low", "all 2^17 combinations of the low read-only-compatible bits", ro_low),
            Section::new("compat-low", "all 2^17 combinations of the low compatible bits x metadata checksums", compat_low),
            Section::new("compat-pairs", "all pairs of the 64 compatible and read-only-compatible bits on 5 backgrounds", compat_pairs),
            Section::new("magic", "all 65536 magic numbers x metadata checksums", magic),
            Section::new("sizes", "all 65536 inode sizes, descriptor sizes with and without the 64-bit feature x 2 block sizes x metadata checksums", sizes16),
            Section::new("log-block-size", "0..80, around every power of two, and the largest values x 3 feature sets x metadata checksums", log_block_size),
            Section::new("geometry", "5 geometry fields x about 170 values x 2 block sizes x 64-bit feature x metadata checksums", geometry),
            Section::new("two-faults", "14 x 14 pairs of superblock faults x 3 block sizes x metadata checksums", two_faults),
            Section::new("checksum", "every single-bit error of the stored checksum and 4 other values x 3 block sizes x seed x metadata checksums", checksum),
            Section::new("journal", "journal and recovery feature x 6 journal inode numbers x 9 journal superblocks x metadata checksums", journal),
            Section::new("journal-features", "all combinations of 8 journal features, all pairs of bits flipped, all checksum types, 10 superblock types", journal_features),
            Section::new("identity-bytes", "every byte value at every position of label and uuid on 5 backgrounds x block sizes x metadata checksums", id_bytes),
            Section::new("identity-pairs", "12 x 12 values at every two positions on 5 backgrounds", id_pairs),
            Section::new("identity-strings", if t { "all labels with 6 of 8 byte values at the start or end" } else { "all labels with 4 of 8 byte values at the start or end" }, id_strings(if t { 6 } else { 4 })),
            Section::new("many-groups", if t { "2^4..2^17 groups and one more or less x 3 feature sets x 2 block sizes x 2 group sizes x full or partial last group" } else { "2^4..2^16 groups and one more or less x 3 feature sets x 2 block sizes x 2 group sizes x full or partial last group" }, many_groups(if t { 17 } else { 16 })),
            super::mke::features(),
        ],
        validate: None,
    }
}
