//! P16: every inode is found where the group descriptors place it.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops;
use crate::Prop;
use ext4_view::{Ext4, Ext4Error};

/// What inode `i` holds; nothing else in the image looks like it.
fn marked(i: u32) -> Ino {
    let mut n = Ino::new([S_IFREG, S_IFIFO, S_IFSOCK, S_IFCHR][i as usize % 4] | (i as u16 & 0o7777));
    n.uid = i.wrapping_mul(0x9E37_79B1);
    n.gid = !i;
    n.size = if i % 4 == 0 { i as u64 } else { 0 };
    n
}

/// Inodes 3.. are all marked and listed in the root directory; lists them
/// and compares every one. `inos`: the inode numbers given entries.
fn check(cx: &mut Cx, mut m: Img, inos: &[u32], bad: &[u32]) -> CaseResult {
    let names: Vec<String> = inos.iter().map(|i| format!("i{i}")).collect();
    let mut ents: Vec<(&[u8], u32, u8)> =
        names.iter().zip(inos).map(|(n, i)| (n.as_bytes(), *i, 0)).collect();
    let bad_names: Vec<String> = bad.iter().map(|i| format!("bad{i}")).collect();
    ents.extend(bad_names.iter().zip(bad).map(|(n, i)| (n.as_bytes(), *i, 0u8)));
    for e in &mut ents {
        e.2 = FT_REG;
    }
    for i in inos {
        m.set_inode(*i, &marked(*i));
    }
    root(&mut m, &ents);
    m.finish();
    let fs = m.load().map_err(|e| format!("load: {e}"))?;
    check_fs(cx, &fs, inos, bad)
}

/// Root directory of any size.
fn root(m: &mut Img, ents: &[(&[u8], u32, u8)]) {
    let bs = m.bs();
    let end = if m.g.csum { bs - 12 } else { bs };
    let mut recs = vec![Rec::new(2, b".", FT_DIR), Rec::new(2, b"..", FT_DIR)];
    recs.extend(ents.iter().map(|(n, i, t)| Rec::new(*i, n, *t)));
    let (mut blocks, mut cur, mut used) = (vec![], vec![], 0);
    for r in recs {
        if used + r.min_len() > end {
            blocks.push(dir_block(&std::mem::take(&mut cur), bs, m.g.csum).unwrap());
            used = 0;
        }
        used += r.min_len();
        cur.push(r);
    }
    blocks.push(dir_block(&cur, bs, m.g.csum).unwrap());
    let n = blocks.len() as u64;
    let p = m.alloc_n(n);
    let mut i = Ino::dir();
    i.size = n * bs as u64;
    let phys: Vec<u64> = (p..p + n).collect();
    if m.g.incompat & INCOMPAT_EXTENTS == 0 {
        m.set_inode(2, &i);
        let map = phys.iter().enumerate().map(|(l, p)| (l as u64, *p)).collect();
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(2, &i);
    } else {
        m.map_blocks(2, i, &phys);
    }
    for (b, mut v) in phys.iter().zip(blocks) {
        m.csum_dir_block(2, &mut v);
        m.set_block(*b, v);
    }
}

fn check_fs(cx: &mut Cx, fs: &Ext4, inos: &[u32], bad: &[u32]) -> CaseResult {
    let mut found = 0;
    for e in fs.read_dir("/").map_err(|e| format!("read_dir: {e}"))? {
        let e = e.map_err(|e| format!("listing: {e}"))?;
        let name = String::from_utf8_lossy(e.file_name().as_ref()).to_string();
        cx.step();
        if let Some(n) = name.strip_prefix("bad") {
            match e.metadata() {
                Err(Ext4Error::Corrupt(_)) => {}
                r => bail!("inode {n}, which does not exist: {r:?}"),
            }
            found += 1;
            continue;
        }
        let Some(n) = name.strip_prefix('i') else { continue };
        let i: u32 = n.parse().unwrap();
        let w = marked(i);
        let md = e.metadata().map_err(|e| format!("inode {i}: {e}"))?;
        let got = ops::meta(&md);
        ensure!(
            (got.mode, got.uid, got.gid, got.len) == (w.mode & 0o7777, w.uid, w.gid, w.size),
            "inode {i}: {got:?} instead of mode {:o} uid {:#x} gid {:#x} size {}", w.mode, w.uid, w.gid, w.size
        );
        found += 1;
    }
    ensure!(found == inos.len() + bad.len(), "harness: {found} entries found");
    Ok(())
}

const BS: [usize; 7] = [1024, 2048, 4096, 8192, 16384, 32768, 65536];

/// Grid of small filesystems: all inodes.
fn grid(sizes: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(sizes);
        let mut g = Geo::new(bs).extents();
        g.inode_size = *cx.of(&[128, 256, 512, 1024, 2048, 4096]);
        if g.inode_size as usize > bs {
            return Ok(());
        }
        if g.inode_size == 128 {
            g.extra_isize = 0;
        }
        g.csum = cx.flag();
        let d = *cx.of(&[32u16, 64, 128, 256, 512, 1024]);
        if d > 32 {
            g = g.b64();
            g.desc_size = d;
        }
        let ipb = bs as u32 / g.inode_size as u32;
        g.ipg = match cx.pick(4) {
            0 => ipb.max(8),
            1 => ipb.max(8) + 8,
            2 => 2 * ipb.max(8) + 24,
            _ => 3 * ipb.max(8),
        };
        let groups = 1 + cx.pick(3) as u64;
        g.bpg = if cx.flag() { 8 * bs as u32 } else { 1024 };
        if bs == 1024 && cx.flag() {
            // as with bigalloc
            g.first_data_block = 0;
            g.ro |= RO_BIGALLOC;
        }
        let last = cx.pick(3) as u64;
        g.blocks_count = g.first_data_block as u64 + groups * g.bpg as u64 - [0, 1, g.bpg as u64 - 1][last as usize];
        if groups == 1 && last == 2 {
            return Ok(());
        }
        let place = cx.pick(4);
        cx.describe(|| format!("block size {bs}, inode size {}, {} inodes x {groups} groups of {}, descriptors {}, checksums {}, first data block {}, tables {}", g.inode_size, g.ipg, g.bpg, g.desc_size, g.csum, g.first_data_block, ["per group", "packed", "reversed", "interleaved with data"][place]));
        cx.input(hash_of(&format!("{g:?}{place}")));
        let itb = (g.ipg as u64 * g.inode_size as u64).div_ceil(bs as u64);
        if (itb + 5) * groups + 60 > g.blocks_count {
            return Ok(());
        }
        let gdt = (groups * g.desc_size as u64).div_ceil(bs as u64);
        let base = g.first_data_block as u64 + 1 + gdt + 1;
        g.itab = match place {
            0 => vec![],
            1 => (0..groups).map(|k| base + 2 + k * (itb + 2)).collect(),
            2 => (0..groups).map(|k| base + 2 + (groups - 1 - k) * (itb + 2)).collect(),
            _ => (0..groups).map(|k| base + 2 + k * (itb + 5)).collect(),
        };
        let mut m = Img::new(g.clone());
        if bs == 1024 && g.first_data_block == 0 {
            // superblock and descriptors stay where they are
            m = Img::new(Geo { first_data_block: 1, blocks_count: g.blocks_count + 1, ..g.clone() });
            m.g.first_data_block = 0;
            m.g.blocks_count = g.blocks_count;
        }
        m.next = m.next.max(m.g.itab.iter().max().unwrap() + itb);
        let n = m.g.ipg * groups as u32;
        let inos: Vec<u32> = (3..=n).collect();
        let bad = [n + 1, n + 2, n + m.g.ipg, u32::MAX, u32::MAX - 1, 1 << 31];
        if m.g.first_data_block == 0 && bs == 1024 {
            return check_shifted(cx, m, &inos, &bad);
        }
        check(cx, m, &inos, &bad)
    }
}

/// 1024-byte blocks with first data block 0: superblock in block 1 and the
/// descriptors in block 2 nevertheless.
fn check_shifted(cx: &mut Cx, m: Img, inos: &[u32], bad: &[u32]) -> CaseResult {
    let mut m = m;
    let names: Vec<String> = inos.iter().map(|i| format!("i{i}")).collect();
    let bad_names: Vec<String> = bad.iter().map(|i| format!("bad{i}")).collect();
    let mut ents: Vec<(&[u8], u32, u8)> =
        names.iter().zip(inos).map(|(n, i)| (n.as_bytes(), *i, FT_REG)).collect();
    ents.extend(bad_names.iter().zip(bad).map(|(n, i)| (n.as_bytes(), *i, FT_REG)));
    for i in inos {
        m.set_inode(*i, &marked(*i));
    }
    root(&mut m, &ents);
    let sb = m.superblock();
    let groups = m.g.groups();
    m.set_block(1, sb);
    m.block_mut(0);
    let ds = m.g.desc_size as usize;
    for gi in 0..groups {
        let d = m.group_desc(gi);
        for (k, x) in d.iter().enumerate() {
            let p = gi as usize * ds + k;
            m.block_mut(2 + (p / 1024) as u64)[p % 1024] = *x;
        }
    }
    let fs = m.load().map_err(|e| format!("load: {e}"))?;
    check_fs(cx, &fs, inos, bad)
}

/// Many groups: descriptor tables of several blocks, tables anywhere.
fn many(counts: &'static [u64]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(&[1024usize, 4096]);
        let groups = *cx.of(counts);
        let d = *cx.of(&[32u16, 64, 128, 1024]);
        let csum = cx.flag();
        let ipg = *cx.of(&[16u32, 24]);
        let stride = cx.pick(3);
        let mut g = Geo::new(bs).extents();
        g.csum = csum;
        if d > 32 {
            g = g.b64();
            g.desc_size = d;
        }
        g.ipg = ipg;
        g.bpg = 256;
        g.blocks_count = g.first_data_block as u64 + groups * 256;
        let gdt = (groups * d as u64).div_ceil(bs as u64);
        // with the bitmaps in between
        let itb = (ipg as u64 * 256).div_ceil(bs as u64) + 2;
        let lo = g.first_data_block as u64 + 1 + gdt + 40;
        if lo + groups * itb > g.blocks_count {
            return Ok(());
        }
        g.itab = (0..groups)
            .map(|k| match stride {
                0 => lo + k * itb,
                1 => lo + (groups - 1 - k) * itb,
                // a permutation mixing low and high groups
                _ => lo + (if k % 2 == 0 { k / 2 } else { groups - 1 - k / 2 }) * itb,
            })
            .collect();
        cx.describe(|| format!("{groups} groups of {ipg} inodes, descriptors of {d} bytes, block size {bs}, checksums {csum}, order {stride}"));
        cx.input(hash_of(&format!("{g:?}")));
        let mut m = Img::new(g.clone());
        m.next = g.first_data_block as u64 + 1 + gdt;
        // first, middle and last inode of every group
        let inos: Vec<u32> = (0..groups as u32)
            .flat_map(|k| [k * ipg + 1, k * ipg + 7, (k + 1) * ipg])
            .filter(|i| *i > 2)
            .collect();
        // the directory does not fit before the tables then
        if inos.len() * 16 / bs + 2 > 38 {
            m.next = lo + groups * itb;
            if m.next + (inos.len() * 17 / bs) as u64 + 2 > g.blocks_count {
                return Ok(());
            }
        }
        let n = groups as u32 * ipg;
        check(cx, m, &inos, &[n + 1, n + ipg, n + 8 * ipg])
    }
}

/// Tables at every power of two and around it.
fn placement(maxbit: u32) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(&[1024usize, 65536]);
        let bit = 4 + cx.pick(maxbit as usize - 3) as u32;
        let delta = cx.pick(3) as u64;
        let csum = cx.flag();
        let b64 = cx.flag();
        let mut g = Geo::new(bs).extents();
        g.csum = csum;
        if b64 {
            g = g.b64();
        } else if bit >= 32 {
            return Ok(());
        }
        if bs == 1024 && bit > 24 {
            return Ok(()); // too many groups
        }
        g.ipg = if bs == 1024 { 16 } else { 256 };
        g.bpg = 8 * bs as u32;
        let at = (1u64 << bit) + delta - 1;
        let itb = (g.ipg as u64 * g.inode_size as u64).div_ceil(bs as u64);
        g.blocks_count = (at + itb + 400).max(600);
        if !b64 && g.blocks_count >= 1 << 32 {
            g.blocks_count = (1 << 32) - 1;
        }
        let groups = g.groups();
        let gdt = (groups * g.desc_size as u64).div_ceil(bs as u64);
        let meta_end = g.first_data_block as u64 + 1 + gdt;
        // group 0 low, group 1 (or 0) at the position under test
        let safe = meta_end + 4;
        let t = if groups > 1 { 1 } else { 0 };
        let all = groups * (itb + 2);
        let rest = if at > safe + itb + 30 + all { safe + itb + 20 } else { at + itb };
        g.spread_tables(safe, rest);
        if at < meta_end || (t == 1 && at < safe + itb) {
            return Ok(());
        }
        g.itab[t] = at;
        cx.describe(|| format!("block size {bs}: table of group {t} at block {at:#x}, {groups} groups, 64-bit {b64}, checksums {csum}"));
        cx.input(hash_of(&(bs, at, csum, b64)));
        let mut m = Img::new(g.clone());
        m.next = if at < 100 { at + itb } else { safe + itb };
        let f = t as u32 * g.ipg;
        let inos: Vec<u32> = [f + 3, f + 4, f + 5, f + g.ipg - 1, f + g.ipg].to_vec();
        check(cx, m, &inos, &[])
    }
}

/// Without the 64-bit feature the descriptor size field means nothing.
fn desc_size_field(cx: &mut Cx) -> CaseResult {
    let bs = *cx.of(&[1024usize, 4096]);
    let csum = cx.flag();
    let v = *cx.of(&[0u16, 1, 31, 32, 33, 64, 128, 1024, 0x8000, 0xffff]);
    let mut g = Geo::new(bs).extents();
    g.csum = csum;
    g.bpg = 1024;
    g.blocks_count = 4097;
    cx.describe(|| format!("32-bit, block size {bs}, s_desc_size {v}"));
    cx.input(hash_of(&(bs, csum, v)));
    let mut m = Img::new(g);
    let inos: Vec<u32> = (3..=128).collect();
    for i in &inos {
        m.set_inode(*i, &marked(*i));
    }
    let names: Vec<String> = inos.iter().map(|i| format!("i{i}")).collect();
    let ents: Vec<(&[u8], u32, u8)> =
        names.iter().zip(&inos).map(|(n, i)| (n.as_bytes(), *i, FT_REG)).collect();
    root(&mut m, &ents);
    m.finish();
    let (b, o) = if bs == 1024 { (1, 0) } else { (0, 1024) };
    put16(m.block_mut(b), o + 0xfe, v);
    if csum {
        Img::csum_superblock(&mut m.block_mut(b)[o..o + 1024]);
    }
    let fs = m.load().map_err(|e| format!("load: {e}"))?;
    check_fs(cx, &fs, &inos, &[])
}

/// Inode numbers up to 2^32 in tables up to 2^48 blocks.
fn far(cx: &mut Cx) -> CaseResult {
    let kind = cx.pick(2);
    let mut m = super::p01::cached(30 + kind, || {
        let mut g = Geo::new(65536).extents().b64();
        g.csum = kind == 1;
        g.incompat |= INCOMPAT_FLEX_BG;
        g.ro |= RO_BIGALLOC;
        g.blocks_count = (1 << 48) - 1;
        g.bpg = 1 << 31;
        g.ipg = 32512;
        g.spread_tables(9000, 5 << 40);
        let mut m = Img::new(g);
        m.next = 9000 + m.g.itb();
        m.finish();
        m
    });
    let groups = m.g.groups();
    // one of the two takes few values only
    let few = cx.flag();
    let bit = if few { *cx.of(&[0, 8, 15, 16]) } else { cx.pick(17) as u32 };
    let grp = match cx.pick(4) {
        0 => 1u64 << bit,
        1 => (1 << bit) - 1,
        2 => groups - 1 - ((1 << bit) - 1),
        _ => groups - 1 ^ (1 << bit),
    };
    // place of that table: around powers of two and their complements
    let b = if few { 20 + cx.pick(28) as u32 } else { *cx.of(&[31, 47]) };
    let at = match cx.pick(4) {
        0 => 1u64 << b,
        1 => (1 << b) - 1,
        2 => (1 << b) - 100,
        _ => ((1 << 48) - 1 ^ (1 << b)) - 200,
    };
    if grp == 0 {
        return Ok(()); // the root directory's
    }
    cx.describe(|| format!("checksums {}: table of group {grp} at block {at:#x}", m.g.csum));
    cx.input(hash_of(&(kind, grp, at)));
    m.g.itab[grp as usize] = at;
    let d = m.group_desc(grp);
    let o = grp as usize * d.len();
    m.block_mut(1 + (o / 65536) as u64)[o % 65536..o % 65536 + d.len()].copy_from_slice(&d);
    let f = (grp * m.g.ipg as u64) as u32;
    let n = m.g.ipg;
    let inos = [f + 1, f + 2, f + 255, f + 256, f + 257, f + n / 2, f + n - 1, f + n];
    for i in &inos {
        m.set_inode(*i, &marked(*i));
    }
    let bad = [groups as u32 * n + 1, u32::MAX];
    let names: Vec<String> = inos.iter().map(|i| format!("i{i}")).chain(bad.iter().map(|i| format!("bad{i}"))).collect();
    let ents: Vec<(&[u8], u32, u8)> =
        names.iter().zip(inos.iter().chain(&bad)).map(|(n, i)| (n.as_bytes(), *i, FT_REG)).collect();
    root(&mut m, &ents);
    let fs = m.load().map_err(|e| format!("load: {e}"))?;
    check_fs(cx, &fs, &inos, &bad)
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P16",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "geometries are those the kernel accepts (inodes per group at least one block's worth, descriptors 32 bytes or a power of two from 64)",
        ],
        sections: vec![
            Section::new("grid", if t { "7 block sizes x 6 inode sizes x 6 descriptor sizes x 4 inodes-per-group x 1..3 groups x 2 group sizes x partial last groups x first data block x 4 table placements x checksums; every inode" } else { "block sizes 1 to 16 KiB x 6 inode sizes x 6 descriptor sizes x 4 inodes-per-group x 1..3 groups x 2 group sizes x partial last groups x first data block x 4 table placements x checksums; every inode" }, grid(if t { &BS } else { &BS[..5] })),
            Section::new("grid-large", "64 KiB blocks, one geometry per inode size, group count and placement", grid_large),
            Section::new("many", if t { "1..700 groups x 4 descriptor sizes x 2 block sizes x 3 table orders" } else { "1..130 groups x 4 descriptor sizes x 2 block sizes x 3 table orders" }, many(if t { &[1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 700] } else { &[1, 2, 7, 8, 9, 31, 32, 33, 64, 65, 129] })),
            Section::new("placement", if t { "table one before, at and after every power of two up to 2^36 blocks" } else { "table one before, at and after every power of two up to 2^33 blocks" }, placement(if t { 36 } else { 33 })),
            Section::new("desc-size-field", "10 values of s_desc_size without the 64-bit feature", desc_size_field),
            Section::new("far", "131072 groups of 32512 inodes on 2^48 - 1 blocks: groups at every power of two, one less and the complements x 8 table positions; 16 of the groups x table positions around every power of two from 2^20 to 2^47 and the complements; x checksums", far),
            super::mke::groups(),
        ],
        validate: None,
    }
}

fn grid_large(cx: &mut Cx) -> CaseResult {
    let bs = 65536;
    let mut g = Geo::new(bs).extents().b64();
    g.inode_size = *cx.of(&[128, 256, 512, 1024, 4096, 32768]);
    if g.inode_size == 128 {
        g.extra_isize = 0;
    }
    g.csum = cx.flag();
    g.desc_size = *cx.of(&[64, 1024]);
    g.ipg = (bs as u32 / g.inode_size as u32 * 2 + 8).next_multiple_of(8);
    let groups = 1 + cx.pick(2) as u64;
    g.bpg = 1024;
    g.blocks_count = groups * 1024;
    cx.describe(|| format!("{g:?}"));
    cx.input(hash_of(&format!("{g:?}")));
    let m = Img::new(g.clone());
    let n = g.ipg * groups as u32;
    let inos: Vec<u32> = (3..=n).collect();
    check(cx, m, &inos, &[n + 1, u32::MAX])
}
