//! P13: results do not depend on access history, and reads stay inside the
//! device.

use super::world::{self, World};
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops;
use crate::Prop;
use ext4_view::{Ext4, File};
use std::rc::Rc;

/// Every read so far lies inside the filesystem.
fn inside(m: &Img, p: &Probe) -> CaseResult {
    let end = m.g.blocks_count as u128 * m.g.bs as u128;
    for (s, n) in p.log.borrow_mut().drain(..) {
        ensure!(s as u128 + n as u128 <= end, "read of {n} bytes at {s}, the filesystem ends at {end}");
    }
    Ok(())
}

fn load(m: &Img) -> Result<(Ext4, Rc<Probe>), crate::explore::Fail> {
    let probe = Rc::new(Probe::default());
    probe.keep_log.set(true);
    // the device goes on after the filesystem
    let mut disk = m.freeze();
    disk.size += 1 << 20;
    let d = FaultDisk { disk, probe: probe.clone() };
    let fs = Ext4::load(Box::new(d)).map_err(|e| format!("load: {e}"))?;
    Ok((fs, probe))
}

/// Sequences of operations: each gives what it gives alone.
fn sequences(depth: usize, cfgs: &'static [(usize, bool)], stride: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let w = world::world(k, j)?;
        let n = world::count();
        let mut seq = vec![];
        for d in 0..depth {
            // the operations in the middle may be thinned out
            let s = if d > 0 && d + 1 < depth { stride } else { 1 };
            seq.push(cx.pick(n.div_ceil(s)) * s % n);
        }
        cx.describe(|| format!("geometry {k}, journal {j}: {}", seq.iter().map(|i| world::name(*i)).collect::<Vec<_>>().join("; ")));
        cx.input(hash_of(&(k, j, &seq)));
        run(cx, &w, &seq)
    }
}

fn run(cx: &mut Cx, w: &World, seq: &[usize]) -> CaseResult {
    let (fs, p) = load(&w.img)?;
    for (d, i) in seq.iter().enumerate() {
        cx.step();
        let o = world::observe(&fs, w, *i);
        ensure!(
            o == w.solo[*i],
            "operation {d} ({}) gives {}, on a fresh filesystem {}", world::name(*i), ops::show(&o), ops::show(&w.solo[*i])
        );
        cx.outcome(ops::obs_hash(&o));
    }
    inside(&w.img, &p)
}

/// After all operations have been run (in list order, rotated), every pair.
fn warmed(cfgs: &'static [(usize, bool)], stride: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let w = world::world(k, j)?;
        let n = world::count();
        let rot = cx.pick(n);
        let back = cx.flag();
        let last = cx.pick(n.div_ceil(stride)) * stride;
        let mut seq: Vec<usize> = (0..n).map(|i| (i + rot) % n).collect();
        if back {
            seq.reverse();
        }
        seq.push(last);
        cx.describe(|| format!("geometry {k}, journal {j}: all operations from {} on{}, then {}", world::name(seq[0]), if back { " backwards" } else { "" }, world::name(last)));
        cx.input(hash_of(&(k, j, &seq)));
        run(cx, &w, &seq)
    }
}

// ---- block access patterns ----

/// An image whose only file, /f, has its blocks at `phys`.
fn flat(bs: usize, phys: &[u64], blocks_count: u64) -> Img {
    let mut g = Geo::new(bs).extents();
    g.blocks_count = blocks_count;
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"f", 12, FT_REG)]);
    let mut i = Ino::file();
    i.size = phys.len() as u64 * bs as u64;
    m.map_blocks(12, i, phys);
    assert!(m.next <= *phys.iter().min().unwrap());
    m.finish();
    m
}

fn probe_block(f: &mut File, phys: &[u64], bs: usize, i: usize) -> CaseResult {
    // a few bytes from somewhere in the block
    let off = (i * 24) % (bs - 16);
    f.seek_to(i as u64 * bs as u64 + off as u64).map_err(|e| format!("seek: {e}"))?;
    let mut b = [0u8; 16];
    let n = f.read_bytes(&mut b).map_err(|e| format!("read of block {i}: {e}"))?;
    let mut w = [0u8; 16];
    pat_fill(phys[i], off, &mut w);
    ensure!(n == 16 && b == w, "block {i}: {:02x?} instead of {w:02x?}", &b[..n]);
    Ok(())
}

/// All access sequences of a length, up to renaming of the blocks.
fn patterns(len: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(&[32768usize, 65536]);
        let phys: Vec<u64> = (0..len as u64).map(|k| 2000 + 3 * k).collect();
        let m = super::p01::cached(130 + (bs == 65536) as usize * 8 + len / 12, || flat(bs, &phys, 4096));
        let (fs, p) = load(&m)?;
        let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
        let mut seen = 0;
        let mut seq = vec![];
        for _ in 0..len {
            let b = cx.pick(seen + 1);
            seen = seen.max(b + 1);
            seq.push(b);
            cx.step();
            if let Err(e) = probe_block(&mut f, &phys, bs, b) {
                cx.describe(|| format!("block size {bs}, blocks {seq:?}"));
                return Err(e);
            }
        }
        cx.describe(|| format!("block size {bs}, blocks {seq:?}"));
        cx.input(hash_of(&(bs, &seq)));
        inside(&m, &p)
    }
}

/// Read-ahead: sequences over neighbouring blocks after the cache has been
/// filled with some other windows.
fn windows(len: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let c = cx.pick(5);
        let bs = [1024usize, 2048, 4096, 8192, 16384][c];
        let w = 32768 / bs;
        // neighbouring blocks: window starts, inner blocks, window ends
        let n = 4 * w;
        let far = 9 * w;
        let phys: Vec<u64> = (0..n as u64).map(|k| 1000 + k).chain((0..far as u64).map(|k| 2000 + k)).collect();
        let m = super::p01::cached(150 + c, || flat(bs, &phys, 4096));
        let spots = [0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 3 * w - 1];
        let fill = cx.pick(10);
        let mut seq = vec![];
        for d in 0..len {
            let mut b = spots[cx.pick(spots.len())];
            // in the middle, fetch another window
            if d == len / 2 && cx.flag() {
                b = n + 4 * w;
            }
            seq.push(b);
        }
        cx.describe(|| format!("block size {bs}, {fill} other windows, then blocks {seq:?}"));
        cx.input(hash_of(&(bs, fill, &seq)));
        let (fs, p) = load(&m)?;
        let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
        for k in 0..fill.min(9) {
            cx.step();
            probe_block(&mut f, &phys, bs, n + k * w)?;
        }
        if fill == 9 {
            // the first windows again
            for b in &seq {
                probe_block(&mut f, &phys, bs, *b)?;
            }
        }
        for b in seq {
            cx.step();
            probe_block(&mut f, &phys, bs, b)?;
        }
        inside(&m, &p)
    }
}

/// After 8 windows have been read, one of their blocks (from whatever depth
/// of the cache), perhaps a new window, then all of them.
fn depths(two: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let c = cx.pick(7);
        let bs = 1024usize << c;
        let w = (32768 / bs).max(1);
        let n = 8 * w;
        let phys: Vec<u64> = (0..n as u64).map(|k| 2000 + k).chain((0..w as u64).map(|k| 1000 + k)).collect();
        let m = super::p01::cached(160 + c, || flat(bs, &phys, 4096));
        let x = cx.pick(n);
        let y = if two && cx.flag() { Some(cx.pick(n)) } else { None };
        let fetch = cx.flag();
        let back = cx.flag();
        cx.describe(|| format!("block size {bs}: {n} blocks, block {x}, {y:?}, another window: {fetch}, then all{}", if back { " backwards" } else { "" }));
        cx.input(hash_of(&(bs, x, y, fetch, back)));
        let (fs, p) = load(&m)?;
        let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
        for k in 0..8 {
            probe_block(&mut f, &phys, bs, k * w)?;
        }
        probe_block(&mut f, &phys, bs, x)?;
        if let Some(y) = y {
            probe_block(&mut f, &phys, bs, y)?;
        }
        if fetch {
            probe_block(&mut f, &phys, bs, n)?;
        }
        for i in 0..n + w {
            cx.step();
            probe_block(&mut f, &phys, bs, if back { n + w - 1 - i } else { i })?;
        }
        inside(&m, &p)
    }
}

/// Blocks whose numbers agree in their lower bits.
fn congruent(len: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let c = cx.pick(7);
        let bs = 1024usize << c;
        // (page cache and offset limits: below 2^63 bytes)
        let max = if c < 3 { 43 + c } else { 48 - c };
        let k = 4 + cx.pick(max - 3);
        let mut g = Geo::new(bs).extents().with_csum().b64();
        g.incompat |= INCOMPAT_FLEX_BG;
        g.ro |= RO_BIGALLOC;
        g.bpg = 1 << 31;
        g.ipg = 256;
        g.blocks_count = (1 << (k + 1)).max(1 << 13) + 5000;
        g.spread_tables(900, 1200);
        // inode tables of the other groups stay out of the way
        let b = 4000 + (1u64 << k.min(12));
        let phys: Vec<u64> = vec![b, b + (1 << k), b + 1, b + 1 + (1 << k)];
        let (m, _) = super::p01::cached2(20_000 + c * 64 + k, || {
            let mut m = Img::new(g);
            m.dir(2, 2, &[(b"f", 12, FT_REG)]);
            let mut i = Ino::file();
            i.size = phys.len() as u64 * bs as u64;
            m.map_blocks(12, i, &phys);
            m.finish();
            (m, 0)
        });
        let seq: Vec<usize> = (0..len).map(|_| cx.pick(4)).collect();
        cx.describe(|| format!("block size {bs}, accesses {seq:?} to blocks {phys:x?}"));
        cx.input(hash_of(&(bs, k, &seq)));
        let (fs, p) = load(&m)?;
        let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
        for i in seq {
            cx.step();
            probe_block(&mut f, &phys, bs, i)?;
        }
        inside(&m, &p)
    }
}

/// The last blocks of the device, for every remainder of its length.
fn device_end(cx: &mut Cx) -> CaseResult {
    let c = cx.pick(7);
    let bs = 1024usize << c;
    let w = (32768 / bs).max(1) as u64;
    let len = 1200 + cx.pick(w as usize + 1) as u64;
    let n = (w + 2).min(34);
    let phys: Vec<u64> = (0..n).map(|k| len - n + k).collect();
    let a = cx.pick(n as usize);
    let b = cx.pick(n as usize);
    let tight = cx.flag();
    cx.describe(|| format!("block size {bs}, device of {len} blocks, blocks {a} and {b} of the last {n}"));
    cx.input(hash_of(&(bs, len, a, b, tight)));
    let (m, _) = super::p01::cached2(16_000 + c * 64 + (len - 1200) as usize, || (flat(bs, &phys, len), 0));
    cx.step();
    if tight {
        // nothing after the filesystem
        let fs = m.load().map_err(|e| format!("load: {e}"))?;
        let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
        probe_block(&mut f, &phys, bs, a)?;
        probe_block(&mut f, &phys, bs, b)?;
        let mut all = fs.read("/f").map_err(|e| format!("read: {e}"))?;
        for (k, p) in phys.iter().enumerate().rev() {
            let t = all.split_off(k * bs);
            ensure!(t == pattern(*p, bs), "block {k} of /f");
        }
        return Ok(());
    }
    let (fs, p) = load(&m)?;
    let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
    probe_block(&mut f, &phys, bs, a)?;
    probe_block(&mut f, &phys, bs, b)?;
    probe_block(&mut f, &phys, bs, a)?;
    inside(&m, &p)
}

/// Reads at and around the end of a device that ends with metadata: the
/// root directory's block, an index block or the inode table come last.
fn last_block(cx: &mut Cx) -> CaseResult {
    let bs = 1024usize << cx.pick(7);
    let what = cx.pick(4);
    let slack = cx.pick(3) as u64;
    cx.describe(|| format!("block size {bs}, the last block is {}, {slack} blocks after it", ["the root directory", "an extent block", "the inode table", "a link target"][what]));
    cx.input(hash_of(&(bs, what, slack)));
    let mut g = Geo::new(bs).extents();
    g.blocks_count = 600;
    if what == 2 {
        let itb = (g.ipg as u64 * g.inode_size as u64).div_ceil(bs as u64);
        g.itab = vec![600 - itb - slack];
    }
    let mut m = Img::new(g);
    let last = 599 - slack;
    let ents: [(&[u8], u32, u8); 2] = [(b"f", 12, FT_REG), (b"l", 13, FT_LNK)];
    if what == 0 {
        let recs = [Rec::new(2, b".", FT_DIR), Rec::new(2, b"..", FT_DIR), Rec::new(12, b"f", FT_REG), Rec::new(13, b"l", FT_LNK)];
        let b = dir_block(&recs, bs, false).unwrap();
        m.dir_blocks_at(2, Ino::dir(), vec![b], last);
    } else {
        m.dir(2, 2, &ents);
    }
    let mut i = Ino::file();
    i.size = bs as u64;
    let p = m.alloc();
    if what == 1 {
        m.next = last;
    }
    m.set_inode_ext(12, i, &Node::Idx(vec![(0, Node::Leaf(vec![Ext { lb: 0, len: 1, pb: p }]))]));
    if what == 3 {
        m.next = last;
    } else if what == 1 {
        m.next = p + 2;
    }
    let t = [b"/".repeat(70), b"f".to_vec()].concat();
    m.symlink(13, &t);
    m.finish();
    let (fs, pr) = load(&m)?;
    for path in ["/f", "/l", "/f", "/l"] {
        cx.step();
        let d = fs.read(path).map_err(|e| format!("read {path}: {e}"))?;
        ensure!(d == pattern(p, bs), "{path}: {}", ops::diff_at(&d, &pattern(p, bs)));
    }
    ensure!(fs.read_dir("/").map_err(|e| format!("{e}"))?.count() == 4, "listing of /");
    inside(&m, &pr)
}

pub fn prop(t: bool) -> Prop {
    const ALL: &[(usize, bool)] = &[
        (0, false), (0, true), (1, false), (1, true), (2, false), (2, true), (3, false), (3, true), (4, false), (4, true), (5, false), (5, true),
    ];
    Prop {
        id: "P13",
        level: "model_checking",
        rule: "a case fails if an operation gives another result than on a freshly loaded filesystem, a block reads as anything but its contents, or the reader is asked for a range that is not inside the filesystem",
        assumptions: &["the image does not change while it is in use", "that the results on a fresh filesystem are the right ones is decided by the other properties"],
        sections: vec![
            Section::new("pairs", "every ordered pair of 69 operations x 6 geometries x journal", sequences(2, ALL, 1)),
            Section::new("triples", if t { "every ordered triple of operations, 64 KiB, 32 KiB and 1 KiB blocks, journal" } else { "every ordered triple (every eighth in the middle) of operations, 64 KiB blocks with journal" }, sequences(3, if t { &ALL[..10] } else { &ALL[1..2] }, if t { 1 } else { 8 })),
            Section::new("warmed", if t { "all operations in list order from every start, both directions, then every operation; 12 configurations" } else { "all operations in list order from every start, both directions, then every sixth operation; 64 KiB blocks with journal" }, warmed(if t { ALL } else { &ALL[1..2] }, if t { 1 } else { 6 })),
            Section::new("patterns", if t { "all sequences of 12 block accesses up to renaming of the blocks (cache of 8) x 2 block sizes" } else { "all sequences of 10 block accesses up to renaming of the blocks (cache of 8) x 2 block sizes" }, patterns(if t { 12 } else { 10 })),
            Section::new("windows", if t { "5 block sizes with read-ahead x 0..9 other windows x all sequences of 6 accesses at 8 window positions" } else { "5 block sizes with read-ahead x 0..9 other windows x all sequences of 4 accesses at 8 window positions" }, windows(if t { 6 } else { 4 })),
            Section::new("depths", if t { "7 block sizes x 8 windows read, then any one or two of their blocks, another window or not, then all blocks in both directions" } else { "7 block sizes x 8 windows read, then any one of their blocks, another window or not, then all blocks in both directions" }, depths(t)),
            Section::new("congruent", if t { "blocks whose numbers agree modulo 2^k, every k from 4 to 42..45, 7 block sizes, all sequences of 6 accesses to 4 blocks" } else { "blocks whose numbers agree modulo 2^k, every k from 4 to 42..45, 7 block sizes, all sequences of 4 accesses to 4 blocks" }, congruent(if t { 6 } else { 4 })),
            Section::new("device-end", "7 block sizes x every remainder of the device length x every two of the last blocks", device_end),
            Section::new("last-block", "7 block sizes x 4 kinds of metadata in the last block x 0..2 blocks after it", last_block),
        ],
        validate: None,
    }
}
