//! P02: block-mapped files read back exactly their logical bytes.

use super::p01::{base, cached, check_reads};
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops::diff_at;
use crate::Prop;
use std::collections::BTreeMap;

const INO: u32 = 12;

fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024),
        1 => Geo::new(1024).with_csum(),
        2 => Geo::new(2048),
        3 => Geo::new(4096).with_csum().b64(),
        4 => {
            // 128-byte inodes, as ext2/ext3 has them
            let mut g = Geo::new(1024);
            g.inode_size = 128;
            g
        }
        _ => unreachable!(),
    }
}

/// Every dense or one-hole file of up to `max` blocks.
fn dense(cfgs: &'static [usize], max: usize, holes: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let k = *cx.of(cfgs);
        let mut m = cached(10 + k, || {
            let mut g = geo(k);
            g.blocks_count = 80_000;
            base(g)
        });
        let bs = m.bs();
        let p = bs / 4;
        // sizes around every boundary; all small ones
        let mut ns: Vec<usize> = (0..=30).collect();
        for b in [12 + p, 12 + 2 * p, 12 + 3 * p] {
            ns.extend(b - 2..=b + 2);
        }
        ns.retain(|n| *n <= max);
        let n = *cx.of(&ns);
        let cut = *cx.of(&[0u64, 1, 511, bs as u64 - 1]);
        if n == 0 && cut > 0 {
            return Ok(());
        }
        let hole = if holes && n > 0 { cx.pick(n + 1) } else { 0 };
        let mut map = BTreeMap::new();
        for l in 0..n as u64 {
            if l as usize + 1 != hole {
                map.insert(l, 5000 + 3 * (n as u64 - l));
            }
        }
        let size = (n * bs) as u64 - cut;
        cx.describe(|| format!("cfg {k}: {n} blocks, size {size}, hole at {}", hole as i64 - 1));
        cx.input(hash_of(&(k, n, size, hole)));
        let mut i = Ino::file();
        i.size = size;
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(INO, &i);
        let mut want = vec![0u8; size as usize];
        for (l, c) in want.chunks_mut(bs).enumerate() {
            if let Some(b) = map.get(&(l as u64)) {
                pat_fill(*b, 0, c);
            }
        }
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        check_reads(&fs, &want, bs)?;
        cx.outcome(hash_of(&want));
        Ok(())
    }
}

/// Every subset of boundary positions is data, everything else a hole.
fn sparse(cfgs: &'static [usize], triple: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let k = *cx.of(cfgs);
        let mut m = cached(10 + k, || {
            let mut g = geo(k);
            g.blocks_count = 80_000;
            base(g)
        });
        let bs = m.bs() as u64;
        let p = bs / 4;
        let d = 12 + p;
        let t = d + p * p;
        let mut pos = vec![0, 11, 12, 12 + p - 1, d, d + p - 1, d + p, t - 1];
        pos.extend([t, t + p - 1, t + p, t + p * p - 1, t + p * p].iter().take(triple));
        let mut map = BTreeMap::new();
        for (i, l) in pos.iter().enumerate() {
            if cx.flag() {
                map.insert(*l, 7000 + 5 * (40 - i as u64));
            }
        }
        // subtrees allocated although they hold no data
        let force: &[(u32, u64)] = match cx.pick(4) {
            0 => &[],
            1 => &[(1, 12)],
            2 => {
                if p == 256 {
                    &[(2, 12 + 256)]
                } else {
                    &[(1, 12)]
                }
            }
            _ => {
                if p == 256 {
                    &[(3, 12 + 256 + 65536), (1, 12 + 256 + 256)]
                } else {
                    &[(1, 12)]
                }
            }
        };
        let top = *map.keys().next_back().unwrap_or(&0);
        let size = *cx.of(&[(top + 1) * bs, (top + 1) * bs - 7, (top + 3) * bs]);
        cx.describe(|| format!("cfg {k}: data {map:?} force {force:?} size {size}"));
        cx.input(hash_of(&(k, format!("{map:?}{force:?}"), size)));
        let mut i = Ino::file();
        i.size = size;
        i.iblock = m.block_map(&map, force);
        m.set_inode(INO, &i);
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        if size <= 1 << 20 {
            let mut want = vec![0u8; size as usize];
            for (l, b) in &map {
                let o = (l * bs) as usize;
                let e = (o + bs as usize).min(want.len());
                if o < e {
                    pat_fill(*b, 0, &mut want[o..e]);
                }
            }
            cx.step();
            check_reads(&fs, &want, bs as usize)?;
            cx.outcome(hash_of(&want));
            return Ok(());
        }
        let mut probes: Vec<u64> = pos
            .iter()
            .flat_map(|l| [l.saturating_sub(1), *l, l + 1])
            .filter(|l| l * bs < size)
            .collect();
        probes.dedup();
        let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
        let mut oh = 0;
        let mut i = 0;
        while i < probes.len() {
            // one seek, then read forward over adjacent probes
            let l = probes[i];
            f.seek_to(l * bs).map_err(|e| format!("seek to block {l}: {e}"))?;
            let mut at = l;
            loop {
                let want_n = (size - at * bs).min(bs) as usize;
                let mut want = vec![0u8; want_n];
                if let Some(b) = map.get(&at) {
                    pat_fill(*b, 0, &mut want);
                }
                let mut got = vec![];
                while got.len() < want_n {
                    let mut buf = vec![0x55u8; want_n - got.len()];
                    let n =
                        f.read_bytes(&mut buf).map_err(|e| format!("read block {at}: {e}"))?;
                    cx.step();
                    ensure!(n > 0 && n <= buf.len(), "block {at}: read returned {n}");
                    got.extend_from_slice(&buf[..n]);
                }
                ensure!(got == want, "block {at}: {}", diff_at(&got, &want));
                oh = hash_of(&(oh, &got));
                i += 1;
                if i < probes.len() && probes[i] == at + 1 {
                    at += 1;
                } else {
                    break;
                }
            }
        }
        cx.outcome(oh);
        Ok(())
    }
}

/// The last blocks that a block map can address.
fn last(cx: &mut Cx) -> CaseResult {
    let mut m = cached(10, || {
        let mut g = geo(0);
        g.blocks_count = 80_000;
        base(g)
    });
    let p = 256u64;
    let cap = 12 + p + p * p + p * p * p;
    let at = cap - 1 - *cx.of(&[0, 1, 255, 256]);
    let full = cx.flag();
    let size = cap * 1024 - *cx.of(&[0, 1, 1023]);
    let mut map = BTreeMap::from([(at, 7000)]);
    if full {
        map.extend((at - 3..cap).map(|l| (l, 7001 + cap - l)));
    }
    cx.describe(|| format!("size {size}: data {map:?}"));
    cx.input(hash_of(&(size, at, full)));
    let mut i = Ino::file();
    i.size = size;
    i.iblock = m.block_map(&map, &[]);
    m.set_inode(INO, &i);
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
    let from = (at - 4) * 1024 + 3;
    f.seek_to(from).map_err(|e| format!("seek: {e}"))?;
    let mut want = vec![0u8; (size - from) as usize];
    for (l, b) in &map {
        let mut d = vec![0; 1024];
        pat_fill(*b, 0, &mut d);
        for (k, x) in d.iter().enumerate() {
            let o = (l * 1024 + k as u64).wrapping_sub(from);
            if o < want.len() as u64 {
                want[o as usize] = *x;
            }
        }
    }
    let mut got = vec![];
    loop {
        let mut buf = [0x55; 700];
        cx.step();
        let n = f.read_bytes(&mut buf).map_err(|e| format!("read: {e}"))?;
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
        ensure!(got.len() <= want.len(), "more than the file's size");
    }
    ensure!(got == want, "{}", diff_at(&got, &want));
    cx.outcome(hash_of(&got));
    Ok(())
}

/// Pointers of every level with any of the upper bits, on a filesystem of
/// 2^32 - 1 blocks.
fn far(cx: &mut Cx) -> CaseResult {
    let bs = 4096usize;
    let mut m = cached(20, || {
        let mut g = Geo::new(bs);
        g.bpg = 8 * bs as u32;
        g.blocks_count = (1 << 32) - 1;
        g.spread_tables(2000, 3000);
        base(g)
    });
    let q = bs as u64 / 4;
    let level = cx.pick(4);
    // the far pointer; one past the data block: all are far
    let at = cx.pick(level + 2);
    let bit = 23 + cx.pick(9) as u32;
    let delta = cx.pick(5) as u64;
    // also the complement: all upper bits but one
    let v = if cx.flag() { (1u64 << bit) + delta - 2 } else { (u32::MAX as u64 ^ (1 << bit)) - 8 + delta };
    let start = [0, 12, 12 + q, 12 + q + q * q][level];
    let at_end = cx.flag();
    let last = if at_end { if level == 0 { 11 } else { q - 1 } } else { 0 };
    let lb = start + last;
    cx.describe(|| format!("{level} levels of indirection, pointer {at} is {v:#x}, logical block {lb}"));
    cx.input(hash_of(&(level, at, v, lb)));
    let mut i = Ino::file();
    i.size = (lb + 1) * bs as u64 - 5;
    let p = m.alloc_n(4);
    let ptr: Vec<u64> = (0..4)
        .map(|j| match j {
            _ if j == at => v,
            // distinct and far as well
            _ if at == level + 1 => v ^ (16 << j),
            _ => p + j as u64,
        })
        .collect();
    put32(&mut i.iblock, 4 * if level == 0 { lb as usize } else { 11 + level }, ptr[0] as u32);
    for j in 0..level {
        let mut b = vec![0; bs];
        let idx = if j + 1 == level { last as usize } else { 0 };
        put32(&mut b, 4 * idx, ptr[j + 1] as u32);
        m.set_block(ptr[j], b);
    }
    m.set_inode(INO, &i);
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    let from = lb.saturating_sub(2) * bs as u64 + 9;
    let mut want = vec![0u8; (i.size - from) as usize];
    let o = (lb * bs as u64).saturating_sub(from) as usize;
    let skip = (from + o as u64 - lb * bs as u64) as usize;
    let mut d = vec![0; bs];
    pat_fill(ptr[level], 0, &mut d);
    let n = want.len() - o;
    want[o..].copy_from_slice(&d[skip..skip + n]);
    let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
    f.seek_to(from).map_err(|e| format!("seek: {e}"))?;
    let mut got = vec![];
    loop {
        let mut buf = [0x55; 3000];
        cx.step();
        let n = f.read_bytes(&mut buf).map_err(|e| format!("read: {e}"))?;
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
        ensure!(got.len() <= want.len(), "more than the file's size");
    }
    ensure!(got == want, "{}", diff_at(&got, &want));
    cx.outcome(hash_of(&got));
    Ok(())
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough;
    Prop {
        id: "P02",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the image builder produces valid block maps (validated with e2fsck/debugfs, `mc --validate-builder`)",
        ],
        sections: vec![
            Section::new(
                "dense",
                "every file of 0..=30 blocks and +-2 around each indirect boundary x 4 end offsets, 5 geometries",
                dense(&[0, 1, 2, 3, 4], 12 + 3 * 256 + 2, false),
            ),
            Section::new(
                "one-hole",
                "the same sizes with a hole at every single position, 1K blocks",
                dense(if t { &[0, 2, 4] } else { &[0] }, if t { 800 } else { 300 }, true),
            ),
            Section::new(
                "sparse-boundaries",
                "every subset of the 8 boundary positions of direct, single and double indirection (and 1..5 of triple) is data, all else holes; null or allocated-empty subtrees; 3 sizes",
                sparse(&[0], if t { 5 } else { 2 }),
            ),
            Section::new(
                "sparse-blocksizes",
                "the same for 4K blocks (thorough) or 2K blocks, up to the end of double indirection",
                sparse(if t { &[2, 3] } else { &[4] }, 0),
            ),
            Section::new("last-blocks", "files of the largest size a block map of 1K blocks can hold x 3 end offsets: reads up to the end with data in the last 260 blocks", last),
            Section::new("far", "2^32 - 1 blocks: each pointer of 0 to 3 levels of indirection, or all of them, around 2^23 to 2^31 and the complements; first and last slot", far),
            super::mke::files(false),
        ],
        validate: None,
    }
}
