//! P20: structures that break the format's rules are reported as corrupt,
//! not read as something else. All checksums are right here.

use super::p01::cached;
use super::{p04, p09};
use crate::jbd::{Jnl, LAY, Txn};
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::htree;
use crate::img::*;
use crate::ops::{self, Kind, Val, err_name};
use crate::Prop;
use ext4_view::{Ext4, Path};

const F: u32 = 12;

fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024).extents(),
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => Geo::new(4096).extents(),
        3 => Geo::new(4096).extents().with_csum(),
        4 => Geo::new(1024),
        5 => Geo::new(2048).with_csum(),
        _ => unreachable!(),
    }
}

fn file_base(k: usize) -> Img {
    let mut m = Img::new(geo(k));
    m.dir(2, 2, &[(b"f", F, FT_REG)]);
    m.finish();
    m
}

fn load(m: &Img) -> Result<Ext4, String> {
    m.load().map_err(|e| format!("load failed: {e}"))
}

/// The file reads as `want`, or - if that is `None` - as corrupt.
fn file(m: &Img, want: Option<&[u8]>) -> CaseResult {
    let fs = load(m)?;
    let got = ops::run(&fs, Kind::Read, b"/f");
    match (&got, want) {
        (Ok(Val::Bytes(b)), Some(w)) => ensure!(b == w, "read: {}", ops::diff_at(b, w)),
        (_, Some(_)) => bail!("read of a valid file gives {}", ops::show(&got)),
        (Err(e), None) => ensure!(e == "Corrupt", "read gives Err({e}) instead of Corrupt"),
        (_, None) => bail!("read of a damaged file gives {}", ops::show(&got)),
    }
    // in pieces: correct bytes until the damage shows, and it has to show
    let mut f = match fs.open("/f") {
        Ok(f) => f,
        Err(e) => {
            ensure!(want.is_none() && err_name(&e) == "Corrupt", "open failed: {e}");
            return Ok(());
        }
    };
    let mut buf = vec![0; 3 * m.bs() / 2];
    let mut n = 0;
    loop {
        match f.read_bytes(&mut buf) {
            Ok(0) => {
                ensure!(want.is_some(), "File: end of a damaged file after {n} bytes without an error");
                break;
            }
            Ok(k) => {
                if let Some(w) = want {
                    ensure!(w.get(n..n + k) == Some(&buf[..k]), "File: wrong bytes at {n}");
                }
                n += k;
            }
            Err(e) => {
                ensure!(want.is_none(), "File: error {e} in a valid file");
                ensure!(err_name(&e) == "Corrupt", "File: {e} instead of Corrupt");
                break;
            }
        }
    }
    Ok(())
}

fn header(b: &mut [u8], magic: u16, entries: u16, max: u16, depth: u16) {
    for (i, v) in [magic, entries, max, depth].into_iter().enumerate() {
        put16(b, 2 * i, v);
    }
    put32(b, 8, 0);
}
fn leaf_entry(b: &mut [u8], slot: usize, lb: u32, len: u16, pb: u64) {
    let o = 12 + 12 * slot;
    put32(b, o, lb);
    put16(b, o + 4, len);
    put16(b, o + 6, (pb >> 32) as u16);
    put32(b, o + 8, pb as u32);
}
fn index_entry(b: &mut [u8], slot: usize, lb: u32, child: u64) {
    let o = 12 + 12 * slot;
    put32(b, o, lb);
    put32(b, o + 4, child as u32);
    put16(b, o + 8, (child >> 32) as u16);
    put16(b, o + 10, 0);
}

const MAGICS: [u16; 7] = [0xf30a, 0xf30b, 0x0af3, 0, 0xffff, 0x730a, 0xf300];

/// Header of the root: magic x entries x max x depth.
fn root_header(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1]);
    let magic = *cx.of(&MAGICS);
    let depth = *cx.of(&[0u16, 1, 2, 5, 6, 7, 0x100, 0xffff]);
    let entries = *cx.of(&[0u16, 1, 2, 3, 4, 5, 6, 84, 0x100, 0xffff]);
    let max = *cx.of(&[4u16, 0, 3, 5, 0xffff]);
    cx.describe(|| format!("cfg {k}: root header magic {magic:#x} entries {entries} max {max} depth {depth}"));
    cx.input(hash_of(&(k, magic, depth, entries, max)));
    let mut m = cached(k, || file_base(k));
    let bs = m.bs();
    let p = m.alloc_n(12);
    let mut i = Ino::file();
    i.flags |= FL_EXTENTS;
    i.size = 5 * bs as u64;
    header(&mut i.iblock, magic, entries, max, depth);
    for s in 0..4 {
        leaf_entry(&mut i.iblock, s, s as u32, 1, p + 2 * s as u64);
    }
    m.set_inode(F, &i);
    let bad = magic != 0xf30a || depth > 5 || entries > 4;
    if !bad && depth > 0 {
        // entries of an index root that are no index entries
        if entries == 0 {
            return Ok(());
        }
        cx.step();
        return file(&m, None);
    }
    // (the maximum of the root is not what its size depends on)
    if !bad && entries > max {
        return Ok(());
    }
    let mut want = vec![0; 5 * bs];
    for s in 0..entries.min(4) as usize {
        pat_fill(p + 2 * s as u64, 0, &mut want[s * bs..(s + 1) * bs]);
    }
    cx.step();
    cx.outcome(hash_of(&(bad, entries.min(5))));
    file(&m, if bad { None } else { Some(&want) })
}

/// Header of one of the nodes of a chain of `d` of them.
fn node_header(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1]);
    let d = 1 + cx.pick(5);
    // which node, counted from the leaf
    let at = cx.pick(d);
    let magic = *cx.of(&MAGICS);
    let depth = *cx.of(&[0u16, 1, 2, 3, 4, 5, 6, 0x100, 0xffff]);
    let cap = if k == 1 { 84u16 } else { 84 };
    let entries = if at == 0 { *cx.of(&[0u16, 1, 83, 84, 85, 340, 0xffff]) } else { *cx.of(&[1u16, 85, 0xffff]) };
    let max = *cx.of(&[84u16, 1, 83, 85, 86, 340, 0x7fff, 0xffff]);
    cx.describe(|| {
        format!("cfg {k}: {d} levels, {at} above the leaf: magic {magic:#x} entries {entries} max {max} depth {depth}")
    });
    cx.input(hash_of(&(k, d, at, magic, depth, entries, max)));
    let mut m = cached(k, || file_base(k));
    let bs = m.bs();
    let p = m.alloc_n(200);
    let n = 86;
    let mut i = Ino::file();
    i.flags |= FL_EXTENTS;
    i.size = (n * bs) as u64;
    m.set_inode(F, &i);
    let nodes = m.alloc_n(d as u64);
    for l in 0..d {
        let mut b = vec![0; bs];
        if l == 0 {
            for s in 0..84 {
                leaf_entry(&mut b, s, s as u32, 1, p + 2 * s as u64);
            }
            header(&mut b, 0xf30a, 84, 84, 0);
        } else {
            index_entry(&mut b, 0, 0, nodes + l as u64 - 1);
            header(&mut b, 0xf30a, 1, 84, l as u16);
        }
        if l == at {
            header(&mut b, magic, entries, max, depth);
        }
        if 12 + 12 * get16(&b, 4) as usize + 4 <= bs {
            m.csum_extent_block(F, &mut b);
        }
        m.set_block(nodes + l as u64, b);
    }
    header(&mut i.iblock, 0xf30a, 1, 4, d as u16);
    index_entry(&mut i.iblock, 0, 0, nodes + d as u64 - 1);
    m.set_inode(F, &i);
    let bad = magic != 0xf30a || depth != at as u16 || max > cap || entries > max;
    let mut want = vec![0; n * bs];
    let used = if at == 0 { entries.min(84) as usize } else { 84 };
    for s in 0..used {
        pat_fill(p + 2 * s as u64, 0, &mut want[s * bs..(s + 1) * bs]);
    }
    cx.step();
    cx.outcome(hash_of(&(bad, used)));
    file(&m, if bad { None } else { Some(&want) })
}

/// All magic numbers, depths and entry counts, one at a time, in the root,
/// an index node and a leaf.
fn header_fields(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1]);
    let at = cx.pick(3);
    let field = *cx.of(&[0usize, 2, 6]);
    let v = (cx.pick(256) << 8 | cx.pick(256)) as u16;
    cx.describe(|| format!("cfg {k}: {} header: {} = {v:#x}", ["root", "index node", "leaf"][at], ["magic", "entries", "", "depth"][field / 2]));
    cx.input(hash_of(&(k, at, field, v)));
    let mut m = cached(k, || file_base(k));
    let bs = m.bs();
    let p = m.alloc_n(4);
    let mut i = Ino::file();
    i.flags |= FL_EXTENTS;
    i.size = 3 * bs as u64;
    header(&mut i.iblock, 0xf30a, 1, 4, 2);
    index_entry(&mut i.iblock, 0, 0, p);
    let (mut x, mut l) = (vec![0; bs], vec![0; bs]);
    header(&mut x, 0xf30a, 1, 84, 1);
    index_entry(&mut x, 0, 0, p + 1);
    header(&mut l, 0xf30a, 1, 84, 0);
    leaf_entry(&mut l, 0, 0, 2, p + 2);
    put16([&mut i.iblock[..], &mut x[..], &mut l[..]][at], field, v);
    m.set_inode(F, &i);
    m.csum_extent_block(F, &mut x);
    m.csum_extent_block(F, &mut l);
    m.set_block(p, x);
    m.set_block(p + 1, l);
    let right = [0xf30a, 1, 0, [2, 1, 0][at]][field / 2];
    // entries that are all zero: in the root and index nodes they lead to
    // block 0, in leaves they are empty extents; no entries at all are a
    // hole in the root and in a leaf
    let empty = field == 2 && v == 0;
    let mut want = vec![0; 3 * bs];
    if !empty {
        for b in 0..2 {
            pat_fill(p + 2 + b, 0, &mut want[b as usize * bs..(b as usize + 1) * bs]);
        }
    }
    let bad = v != right && !(empty && at == 2);
    if at == 0 && v == 0 && field > 0 {
        // an index root without entries is open; with depth zero it is a
        // leaf, and as such it may be valid
        return Ok(());
    }
    cx.step();
    cx.outcome(hash_of(&(bad, empty)));
    file(&m, if bad { None } else { Some(&want) })
}

/// Starts and lengths of up to four extents, in the root or in two leaves.
fn extent_order(count: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(&[0usize, 1]);
        let n = 1 + cx.pick(count);
        let mut e = vec![];
        for _ in 0..n {
            let s = *cx.of(&[0u32, 1, 2, 3, 4, 0xffff_fffe]);
            let l = *cx.of(&[1u16, 2, 3, 0, 32768, 32769, 32770, 65535]);
            e.push((s, l));
        }
        // extents in the first of two leaves; n: in the root
        let cut = 1 + cx.pick(n);
        let size = *cx.of(&[6usize, 3]);
        cx.describe(|| format!("cfg {k}: extents {e:?} cut {cut}, {size} blocks"));
        cx.input(hash_of(&(k, &e, cut, size)));
        let mut m = cached(k, || file_base(k));
        let bs = m.bs();
        let p = m.alloc_n(10 * 4);
        let phys = |j: usize| p + 10 * j as u64;
        let mut want = vec![0; size * bs];
        let mut end = 0u64;
        let (mut bad, mut beyond) = (false, false);
        for (j, (s, l)) in e.iter().enumerate() {
            let (len, init) = if *l > 32768 { (*l - 32768, false) } else { (*l, true) };
            if len == 0 || (*s as u64) < end {
                // (whether an extent behind the file is looked at is open)
                beyond = end >= size as u64;
                bad = !beyond;
                break;
            }
            for b in 0..len as u64 {
                let lb = *s as u64 + b;
                if init && lb < size as u64 {
                    let lb = lb as usize;
                    pat_fill(phys(j) + b, 0, &mut want[lb * bs..(lb + 1) * bs]);
                }
            }
            end = *s as u64 + len as u64;
        }
        let mut i = Ino::file();
        i.flags |= FL_EXTENTS;
        i.size = (size * bs) as u64;
        m.set_inode(F, &i);
        if cut == n {
            header(&mut i.iblock, 0xf30a, n as u16, 4, 0);
            for (j, (s, l)) in e.iter().enumerate() {
                leaf_entry(&mut i.iblock, j, *s, *l, phys(j));
            }
        } else {
            let nodes = m.alloc_n(2);
            header(&mut i.iblock, 0xf30a, 2, 4, 1);
            for (h, r) in [0..cut, cut..n].into_iter().enumerate() {
                index_entry(&mut i.iblock, h, e[r.start].0, nodes + h as u64);
                let mut b = vec![0; bs];
                header(&mut b, 0xf30a, r.len() as u16, 84, 0);
                for (slot, j) in r.enumerate() {
                    leaf_entry(&mut b, slot, e[j].0, e[j].1, phys(j));
                }
                m.csum_extent_block(F, &mut b);
                m.set_block(nodes + h as u64, b);
            }
        }
        m.set_inode(F, &i);
        cx.step();
        cx.outcome(hash_of(&(bad, &want)));
        if beyond && ops::run(&load(&m)?, Kind::Read, b"/f") == Err("Corrupt".into()) {
            return Ok(());
        }
        file(&m, if bad { None } else { Some(&want) })
    }
}

/// A data extent or an extent node at the end of the filesystem and behind
/// it.
fn extent_outside(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1, 2, 3]);
    let mut m = cached(k, || file_base(k));
    let (bs, bc) = (m.bs(), m.g.blocks_count);
    let role = cx.pick(3);
    let at = *cx.of(&[
        bc - 3,
        bc - 2,
        bc - 1,
        bc,
        bc + 1,
        2 * bc,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 50,
        1 << 47,
        (1 << 48) - 1,
    ]);
    let len = if role == 0 { 1 + cx.pick(3) as u64 } else { 1 };
    cx.describe(|| format!("cfg {k}: {} at {at} of {bc}, length {len}", ["extent", "leaf", "index node"][role]));
    cx.input(hash_of(&(k, role, at, len)));
    let bad = at + len > bc;
    let p = m.alloc_n(4);
    let mut i = Ino::file();
    i.flags |= FL_EXTENTS;
    i.size = 5 * bs as u64;
    m.set_inode(F, &i);
    let mut want = vec![0; 5 * bs];
    pat_fill(p, 0, &mut want[..bs]);
    let data = if role == 0 { at } else { p + 1 };
    for b in 0..len {
        let o = (1 + b as usize) * bs;
        pat_fill(data + b, 0, &mut want[o..o + bs]);
    }
    // the root always maps block 0
    let mut leaf = vec![0; bs];
    header(&mut leaf, 0xf30a, 2, 84, 0);
    leaf_entry(&mut leaf, 0, 0, 1, p);
    leaf_entry(&mut leaf, 1, 1, len as u16, data);
    if role == 0 {
        i.iblock.copy_from_slice(&leaf[..60]);
        put16(&mut i.iblock, 4, 4);
    } else {
        let la = if role == 1 { at } else { p + 2 };
        m.csum_extent_block(F, &mut leaf);
        if la < bc {
            m.set_block(la, leaf);
        }
        header(&mut i.iblock, 0xf30a, 1, 4, role as u16);
        if role == 1 {
            index_entry(&mut i.iblock, 0, 0, la);
        } else {
            let mut b = vec![0; bs];
            header(&mut b, 0xf30a, 1, 84, 1);
            index_entry(&mut b, 0, 0, la);
            m.csum_extent_block(F, &mut b);
            if at < bc {
                m.set_block(at, b);
            }
            index_entry(&mut i.iblock, 0, 0, at);
        }
    }
    m.set_inode(F, &i);
    cx.step();
    cx.outcome(hash_of(&(bad, at)));
    file(&m, if bad { None } else { Some(&want) })
}

/// Each kind of pointer of a block map, inside and outside the filesystem.
fn map_outside(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[4usize, 5]);
    let mut m = cached(k, || file_base(k));
    let (bs, bc) = (m.bs(), m.g.blocks_count);
    let q = bs as u64 / 4;
    let level = cx.pick(4);
    // which of the pointers on the way down is the one to change
    let at = cx.pick(level + 1);
    let last = cx.flag();
    let v = *cx.of(&[bc - 1, bc, bc + 1, 1 << 31, (1 << 32) - 1]);
    cx.describe(|| format!("cfg {k}: {level} levels of indirection, pointer {at} is {v} of {bc}, last {last}"));
    cx.input(hash_of(&(k, level, at, last, v)));
    if level == 3 && (last || k == 5) {
        return Ok(()); // same code, long reads
    }
    let start = match level {
        0 => 0,
        1 => 12,
        2 => 12 + q,
        _ => 12 + q + q * q,
    };
    let span = if level == 0 { 12 } else { q.pow(level as u32) };
    // the first or last block under that pointer
    let lb = if last && level < 3 { start + span - 1 } else { start };
    let mut i = Ino::file();
    i.size = (lb + 1) * bs as u64 - 5;
    let p = m.alloc_n(4);
    let idx = |depth: usize| -> usize {
        // index within the block `depth` levels above the data
        ((lb - start) / q.pow(depth as u32) % q) as usize
    };
    let mut ptr = [0u64; 4];
    for (j, x) in ptr.iter_mut().enumerate() {
        *x = if j == at { v } else { p + j as u64 };
    }
    // ptr[0] is in the inode, ptr[level] is the data block
    let slot = if level == 0 { lb as usize } else { 11 + level };
    put32(&mut i.iblock, 4 * slot, ptr[0] as u32);
    for j in 0..level {
        let mut b = vec![0; bs];
        put32(&mut b, 4 * idx(level - 1 - j), ptr[j + 1] as u32);
        if ptr[j] < bc {
            m.set_block(ptr[j], b);
        }
    }
    m.set_inode(F, &i);
    let bad = v >= bc;
    cx.step();
    cx.outcome(hash_of(&(bad, level, at)));
    let fs = load(&m)?;
    if level < 3 {
        let mut want = vec![0; i.size as usize];
        let o = lb as usize * bs;
        pat_fill(ptr[level], 0, &mut want[o..]);
        file(&m, if bad { None } else { Some(&want) })?;
    }
    // straight to the block
    let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
    let mut buf = vec![0; bs];
    let r = f.seek_to(lb * bs as u64).and_then(|_| f.read_bytes(&mut buf));
    match r {
        Ok(n) => {
            ensure!(!bad, "read of block {lb} gives {n} bytes");
            let mut w = vec![0; bs - 5];
            pat_fill(ptr[level], 0, &mut w);
            ensure!(buf[..n] == w[..], "wrong data in block {lb}");
        }
        Err(e) => ensure!(bad && err_name(&e) == "Corrupt", "read of block {lb}: {e}"),
    }
    Ok(())
}

/// What a directory block says, by the rules of the format.
enum Walk {
    Valid(Vec<(usize, u32, Vec<u8>)>),
    /// wrong from this offset on
    Bad(usize),
    /// not ruled out, but nothing to expect
    Odd,
}
fn walk(b: &[u8], tail: bool) -> Walk {
    let bs = b.len();
    let mut o = 0;
    let mut v: Vec<(usize, u32, Vec<u8>)> = vec![];
    while o < bs {
        if bs - o < 8 {
            return Walk::Bad(o);
        }
        let (ino, rl, nl, ft) = (get32(b, o), get16(b, o + 4) as usize, b[o + 6] as usize, b[o + 7]);
        let rl = if bs == 65536 && (rl == 0 || rl == 65535) { bs } else { rl };
        if rl < 8 || o + rl > bs {
            return Walk::Bad(o);
        }
        if ino != 0 {
            if 8 + nl > rl || !(1..=7).contains(&ft) || nl == 0 {
                return Walk::Bad(o);
            }
            let name = &b[o + 8..o + 8 + nl];
            if name.iter().any(|c| *c == 0 || *c == b'/') {
                return Walk::Bad(o);
            }
            if v.iter().any(|x| x.2 == name) {
                return Walk::Odd;
            }
            v.push((o, ino, name.to_vec()));
        }
        if rl % 4 != 0 || rl < 12 || (tail && o + rl > bs - 12 && o != bs - 12) {
            return Walk::Odd;
        }
        o += rl;
    }
    Walk::Valid(v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Linear,
    /// second block of a linear directory
    Second,
    /// leaf of an index
    Leaf,
}

const CFG: [usize; 4] = [4, 1, 5, 2];
const NAMES: [&[u8]; 5] = [b"abcd", b"e", b"fghijklmnopqrstu", b"v", b"wxyz0"];

/// A directory block, its records and their offsets; the number of those
/// before the five under test.
fn five(k: usize, form: Form) -> (Vec<u8>, Vec<Rec>, Vec<usize>, usize) {
    let g = geo(k);
    let (bs, tail) = (g.bs, g.csum);
    let mut recs = if form == Form::Linear { vec![Rec::new(p04::D, b".", FT_DIR), Rec::new(2, b"..", FT_DIR)] } else { vec![] };
    let first = recs.len();
    for (i, n) in NAMES.iter().enumerate() {
        let t = 1 + i as u8 % 7;
        recs.push(Rec::new(if i == 1 { 0 } else { p04::typed_ino(t).0 }, n, t));
    }
    let b = dir_block(&recs, bs, tail).unwrap();
    let mut offs = vec![];
    let mut o = 0;
    let end = bs - if tail { 12 } else { 0 };
    while o < end {
        offs.push(o);
        o += get16(&b, o + 4) as usize;
    }
    (b, recs, offs, first)
}

fn records(form: Form, cfgs: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = CFG[*cx.of(cfgs)];
        let (mut b, recs, offs, first) = five(k, form);
        let bs = b.len();
        let at = first + cx.pick(5);
        let o = offs[at];
        let field = cx.pick(4);
        match field {
            0 => {
                // every length up to the block, and some more
                let n = bs / 4 + 3;
                let x = cx.pick(n + 24);
                let l = if x < n {
                    4 * x
                } else {
                    [1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15, bs - o - 1, bs - o + 1, bs - o + 2, bs - o + 3, 2 * bs, 0x8000, 0x8001, 0xfffc, 0xfffd, 0xfffe, 0xffff, bs - 11][x - n]
                };
                put16(&mut b, o + 4, l as u16);
            }
            1 => b[o + 6] = cx.pick(256) as u8,
            2 => b[o + 7] = cx.pick(256) as u8,
            _ => {
                let n = recs[at].name.len();
                let i = cx.pick(n);
                b[o + 8 + i] = *cx.of(&[0u8, b'/', 1, 0xff]);
            }
        }
        judge_records(cx, k, form, b, &recs, &offs, at)
    }
}

/// Unused records that are too short, where what follows would do as one.
fn short_records(cx: &mut Cx) -> CaseResult {
    let form = *cx.of(&[Form::Linear, Form::Second, Form::Leaf]);
    let k = CFG[cx.pick(4)];
    let (mut b, mut recs, offs, first) = five(k, form);
    let at = first + cx.pick(5);
    let o = offs[at];
    // (the record gets no longer, so that it can be followed by another)
    let len = get16(&b, o + 4) as usize;
    let l = cx.pick(8);
    let name = *cx.of(b"ve");
    put32(&mut b, o, 0);
    if l > 1 && len >= l + 9 {
        put32(&mut b, o + l, p04::typed_ino(1).0);
        put16(&mut b, o + l + 4, (len - l) as u16);
        b[o + l + 6] = 1;
        b[o + l + 7] = 1;
        b[o + l + 8] = name;
        // the overlap
        for x in o + l.min(4)..o + 4 {
            b[x] = 0;
        }
    }
    put16(&mut b, o + 4, l as u16);
    recs[at].ino = 0;
    judge_records(cx, k, form, b, &recs, &offs, at)
}

fn judge_records(cx: &mut Cx, k: usize, form: Form, mut b: Vec<u8>, recs: &[Rec], offs: &[usize], at: usize) -> CaseResult {
    let o = offs[at];
    let names = NAMES;
    let mut m = cached(20 + k, || p04::base(geo(k)));
    let (bs, tail) = (m.bs(), m.g.csum);
    cx.describe(|| format!("cfg {k} {form:?}: record {at} at {o}: {:?}", &b[o..o + 12.min(bs - o)]));
    cx.input(hash_of(&(k, form as u8, &b)));
    let w = walk(&b, tail);
    let mut i = Ino::dir();
    let dots = dir_block(&[Rec::new(p04::D, b".", FT_DIR), Rec::new(2, b"..", FT_DIR)], bs, tail).unwrap();
    match form {
        Form::Linear => {
            m.dir_blocks(p04::D, i, vec![b]);
        }
        Form::Second => {
            m.dir_blocks(p04::D, i, vec![dots, b]);
        }
        Form::Leaf => {
            i.flags |= FL_INDEX;
            i.size = 2 * bs as u64;
            let p = m.alloc_n(2);
            m.map_contig(p04::D, i, p, 2);
            let mut r = htree::root_block(bs, p04::D, 2, 1, tail, &[(0, 1)]);
            m.csum_dx_block(p04::D, &mut r, 0x20);
            m.csum_dir_block(p04::D, &mut b);
            m.set_block(p, r);
            m.set_block(p + 1, b);
        }
    }
    let fs = load(&m)?;
    let list = || -> (Vec<Vec<u8>>, Option<String>) {
        let rd = match fs.read_dir("/d") {
            Ok(rd) => rd,
            Err(e) => return (vec![], Some(err_name(&e))),
        };
        let mut v = vec![];
        for e in rd {
            match e {
                Ok(e) => v.push(e.file_name().as_ref().to_vec()),
                Err(e) => return (v, Some(err_name(&e))),
            }
            if v.len() > 10_000 {
                break;
            }
        }
        (v, None)
    };
    cx.step();
    let (mut seen, err) = list();
    let mut path = b"/d/".to_vec();
    let mut look = |n: &[u8]| {
        path.truncate(3);
        path.extend_from_slice(n);
        ops::run(&fs, Kind::SymMeta, &path)
    };
    match w {
        Walk::Odd => {
            for n in names {
                let _ = look(n);
            }
        }
        Walk::Valid(v) => {
            cx.outcome(1);
            let mut want: Vec<Vec<u8>> = v.iter().map(|x| x.2.clone()).collect();
            if form != Form::Linear {
                want.extend([b".".to_vec(), b"..".to_vec()]);
            }
            want.sort();
            seen.sort();
            ensure!(err.is_none() && seen == want, "listing of a valid directory: {} entries instead of {}, then {err:?}", seen.len(), want.len());
            for n in names {
                let got = look(n);
                match v.iter().find(|x| x.2 == n) {
                    Some(x) => {
                        let uid = 100_000 + x.1;
                        ensure!(matches!(&got, Ok(Val::Meta(mt)) if mt.uid == uid), "{:?}: {}", String::from_utf8_lossy(n), ops::show(&got))
                    }
                    None => ensure!(got == Err("NotFound".into()), "{:?}: {}", String::from_utf8_lossy(n), ops::show(&got)),
                }
            }
        }
        Walk::Bad(from) => {
            cx.outcome(2);
            ensure!(err.as_deref() == Some("Corrupt"), "listing of a directory with a wrong record at {from}: {} entries, then {err:?}", seen.len());
            // whatever was listed is from before the damage
            for n in seen {
                if n == b"." || n == b".." {
                    continue;
                }
                let i = recs.iter().position(|r| r.name == n);
                ensure!(i.is_some_and(|i| offs[i] < from), "entry {:?} behind or in the damage is listed", String::from_utf8_lossy(&n));
            }
            for n in names {
                let got = look(n);
                let i = recs.iter().position(|r| r.name == n).unwrap();
                if offs[i] < from && recs[i].ino != 0 {
                    let uid = 100_000 + recs[i].ino;
                    ensure!(
                        matches!(&got, Ok(Val::Meta(mt)) if mt.uid == uid) || got == Err("Corrupt".into()),
                        "{:?}: {}",
                        String::from_utf8_lossy(n),
                        ops::show(&got)
                    );
                } else {
                    ensure!(got == Err("Corrupt".into()), "{:?}, in or behind the damage at {from}: {}", String::from_utf8_lossy(n), ops::show(&got));
                }
            }
            let got = look(b"absent");
            ensure!(got == Err("Corrupt".into()), "absent name in a damaged block: {}", ops::show(&got));
        }
    }
    Ok(())
}

/// Root and one interior node of an index: counts and child blocks.
fn index_nodes(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[4usize, 1, 5]);
    let mut m = cached(40 + k, || {
        let mut g = geo(k);
        g.compat |= COMPAT_DIR_INDEX;
        p04::base(g)
    });
    let (bs, tail) = (m.bs(), m.g.csum);
    let interior = cx.flag();
    let (rl, nl) = htree::limits(bs, tail);
    let fit = if interior { (bs - 8) / 8 } else { (bs - 0x20) / 8 };
    let limit = if interior { nl } else { rl };
    // blocks: root, [node], leaf, leaf
    let nb = if interior { 4 } else { 3 };
    let p = m.alloc_n(nb);
    let leaf = (nb - 2) as u32;
    let mut i = Ino::dir();
    i.flags |= FL_INDEX;
    i.size = nb * bs as u64;
    m.map_contig(p04::D, i, p, nb as u32);
    let mk = |n: &[u8], t: u8| dir_block(&[Rec::new(p04::typed_ino(t).0, n, t)], bs, tail).unwrap();
    // one name below the split, one above
    let split = 0x8000_0000u32;
    let h = |n: &[u8]| crate::crypto::dirhash(n, 1, m.g.hash_seed, false);
    let mut lo = None;
    let mut hi = None;
    for c in 0..100u8 {
        let n = vec![b'a' + c % 26, b'a' + c / 26];
        if h(&n) < split { lo.get_or_insert(n) } else { hi.get_or_insert(n) };
    }
    let names = [lo.unwrap(), hi.unwrap()];
    for (j, n) in names.iter().enumerate() {
        let mut b = mk(n, 1 + j as u8);
        m.csum_dir_block(p04::D, &mut b);
        m.set_block(p + leaf as u64 + j as u64, b);
    }
    let ent = [(0, leaf), (split, leaf + 1)];
    let top = if interior { vec![(0, 1)] } else { ent.to_vec() };
    let mut root = htree::root_block(bs, p04::D, 2, 1, tail, &top);
    let mut node = vec![0; bs];
    let off = if interior {
        root[0x1e] = 1;
        put16(&mut node, 4, enc_rec_len(bs, bs));
        put16(&mut node, 8, limit as u16);
        put16(&mut node, 10, 2);
        for (j, (h, b)) in ent.iter().enumerate() {
            if j > 0 {
                put32(&mut node, 8 + 8 * j, *h);
            }
            put32(&mut node, 12 + 8 * j, *b);
        }
        8
    } else {
        0x20
    };
    // (what a lookup of each name has to give)
    let mut want: [Option<bool>; 2] = [Some(true); 2];
    let field = cx.pick(4);
    let b = if interior { &mut node } else { &mut root };
    let what;
    match field {
        0 => {
            let c = *cx.of(&[0usize, 1, 2, fit + 1, fit + 2, 0x7fff, 0xffff]);
            put16(b, off + 2, c as u16);
            what = format!("count {c}");
            if c == 0 || c > fit {
                want = [Some(false); 2];
            } else if c == 1 {
                want[1] = None;
            }
        }
        1 | 2 => {
            let j = field - 1;
            let v = *cx.of(&[nb as u32, nb as u32 + 1, 0x0fff_ffff, 0xffff_ffff]);
            put32(b, off + 8 * j + 4, v);
            what = format!("block of entry {j} {v}");
            want[j] = Some(false);
        }
        _ => {
            // an interior entry that leads back to its own node
            if !interior {
                return Ok(());
            }
            let j = cx.pick(2);
            put32(b, off + 8 * j + 4, 1);
            what = format!("entry {j} leads to its own node");
            want[j] = Some(false);
        }
    }
    cx.describe(|| format!("cfg {k}, interior node {interior}: {what}"));
    cx.input(hash_of(&(k, interior, &what)));
    // (the count must not move the checksum out of the block)
    if tail {
        let b = if interior { &mut node } else { &mut root };
        let count = get16(b, off + 2) as usize;
        if count > limit {
            // no valid checksum exists for such a node: it is wrong anyway
            put32(b, bs - 4, 0);
            let fixed = if interior { &mut root } else { &mut node };
            if interior {
                m.csum_dx_block(p04::D, fixed, 0x20);
            }
        } else {
            m.csum_dx_block(p04::D, &mut root, 0x20);
            if interior {
                m.csum_dx_block(p04::D, &mut node, 8);
            }
        }
    }
    m.set_block(p, root);
    if interior {
        m.set_block(p + 1, node);
    }
    let fs = load(&m)?;
    cx.step();
    for (j, n) in names.iter().enumerate() {
        let mut path = b"/d/".to_vec();
        path.extend_from_slice(n);
        let got = ops::run(&fs, Kind::SymMeta, &path);
        cx.outcome(hash_of(&format!("{:?}", got.as_ref().err())));
        match want[j] {
            Some(true) => {
                let uid = 100_000 + p04::typed_ino(1 + j as u8).0;
                ensure!(matches!(&got, Ok(Val::Meta(mt)) if mt.uid == uid), "lookup of {:?}: {}", String::from_utf8_lossy(n), ops::show(&got));
            }
            Some(false) => ensure!(got == Err("Corrupt".into()), "lookup of {:?} through the damage: {}", String::from_utf8_lossy(n), ops::show(&got)),
            None => {}
        }
    }
    Ok(())
}

/// Records that name an inode that does not exist, inodes that cannot be,
/// and index roots of an unknown kind: every operation.
fn inodes(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1, 4, 5]);
    let kind = *cx.of(&ops::KINDS);
    let mut m = cached(60 + k, || p04::base(geo(k)));
    let last = m.g.ipg * m.g.groups() as u32;
    let what;
    let mut want = Some("Corrupt");
    match cx.pick(4) {
        0 => {
            let ino = *cx.of(&[last, last + 1, last + m.g.ipg, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]);
            if ino == last {
                m.pat_file(last, 7);
                want = None;
            }
            m.dir(2, 2, &[(b"f", ino, FT_REG)]);
            what = format!("inode {ino} of {last}");
        }
        1 => {
            let mode = (cx.pick(16) as u16) << 12;
            let mut i = Ino::new(mode | 0o644);
            i.flags |= if m.g.incompat & INCOMPAT_EXTENTS != 0 { FL_EXTENTS } else { 0 };
            if i.flags != 0 {
                header(&mut i.iblock, 0xf30a, 0, 4, 0);
            }
            m.set_inode(30, &i);
            m.dir(2, 2, &[(b"f", 30, FT_REG)]);
            what = format!("mode {mode:#o}");
            if [S_IFIFO, S_IFCHR, S_IFDIR, S_IFBLK, S_IFREG, S_IFLNK, S_IFSOCK].contains(&mode) {
                want = None;
            }
        }
        2 => {
            // less than 2^32 blocks
            let bs = m.bs() as u64;
            let lim = bs << 32;
            let size = *cx.of(&[lim - bs, lim - bs + 1, lim, lim + 1, lim * 2, 1 << 63, u64::MAX]);
            let mut i = Ino::file();
            i.size = size;
            i.flags |= if m.g.incompat & INCOMPAT_EXTENTS != 0 { FL_EXTENTS } else { 0 };
            if i.flags != 0 {
                header(&mut i.iblock, 0xf30a, 0, 4, 0);
            }
            m.set_inode(30, &i);
            m.dir(2, 2, &[(b"f", 30, FT_REG)]);
            what = format!("size {size}");
            if size <= lim - bs {
                want = None;
            }
        }
        _ => {
            // the inode table
            let bc = m.g.blocks_count;
            let v = *cx.of(&[bc, bc + 1, (1 << 32) - 1]);
            let fdb = m.g.first_data_block as u64;
            // (group 1 only, the root has to stay)
            let g = 1u64;
            if m.g.groups() < 2 {
                return Ok(());
            }
            m.dir(2, 2, &[(b"f", m.g.ipg + 3, FT_REG)]);
            m.g.itab[g as usize] = v;
            let ds = m.g.desc_size as u64;
            let d = m.group_desc(g);
            let bs = m.bs() as u64;
            let pos = g * ds;
            let b = m.block_mut(fdb + 1 + pos / bs);
            b[(pos % bs) as usize..][..d.len()].copy_from_slice(&d);
            what = format!("inode table at {v} of {bc}");
        }
    }
    cx.describe(|| format!("cfg {k}: {kind:?} of /f, {what}"));
    cx.input(hash_of(&(k, kind, &what)));
    let fs = load(&m)?;
    cx.step();
    match want {
        Some(w) => {
            let got = ops::run(&fs, kind, b"/f");
            cx.outcome(hash_of(&format!("{:?}", got.as_ref().err())));
            ensure!(got == Err(w.into()), "{}", ops::show(&got));
            // through the entry of a listing, and as a directory on the way
            let got = ops::run(&fs, kind, b"/f/x");
            ensure!(got == Err(w.into()), "below it: {}", ops::show(&got));
            for e in fs.read_dir(Path::new("/")).map_err(|e| e.to_string())? {
                let e = e.map_err(|e| e.to_string())?;
                if e.file_name() == "f" {
                    let r = e.metadata().map_err(|e| err_name(&e));
                    ensure!(r.is_err() && r.as_ref().err().unwrap() == w, "DirEntry::metadata: {r:?}");
                }
            }
        }
        None => {
            let got = ops::run(&fs, Kind::SymMeta, b"/f");
            ensure!(got.is_ok(), "valid inode: {}", ops::show(&got));
        }
    }
    Ok(())
}

/// Inode numbers past the last inode, whatever their distance.
fn inode_numbers(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1, 4, 5]);
    let mut m = cached(70 + k, || p04::base(geo(k)));
    let ipg = m.g.ipg;
    let last = ipg * m.g.groups() as u32;
    let ino = match cx.pick(3) {
        // all of the next ones
        0 => last + 1 + 256 * cx.pick(64) as u32 + cx.pick(256) as u32,
        // a number of groups behind an inode that is in use
        1 => {
            let base = *cx.of(&[1u32, 2, 11, last]);
            let g = (1 + cx.pick(64) as u32).wrapping_shl(cx.pick(32) as u32);
            base.wrapping_add(ipg.wrapping_mul(g))
        }
        // up to three bits away from an inode that is in use
        _ => {
            let base = *cx.of(&[2u32, 11, last]);
            let (a, b, c) = (cx.pick(32), cx.pick(33), cx.pick(34));
            if (b < 32 && b <= a) || (b == 32 && c < 33) || (c < 32 && c <= b) || c == 32 {
                return Ok(());
            }
            let bit = |n: usize| if n < 32 { 1u32 << n } else { 0 };
            base ^ bit(a) ^ bit(b) ^ bit(c)
        }
    };
    if ino <= last {
        return Ok(());
    }
    m.dir(2, 2, &[(b"f", ino, FT_REG)]);
    cx.describe(|| format!("cfg {k}: inode {ino} of {last}, {ipg} per group"));
    cx.input(hash_of(&(k, ino)));
    let fs = load(&m)?;
    cx.step();
    for (kind, path) in [(Kind::Read, &b"/f"[..]), (Kind::SymMeta, b"/f"), (Kind::ReadDir, b"/f"), (Kind::Meta, b"/f/x")] {
        let got = ops::run(&fs, kind, path);
        ensure!(got == Err("Corrupt".into()), "{kind:?}: {}", ops::show(&got));
    }
    Ok(())
}

/// Journal superblocks whose log range makes no sense, journals with holes,
/// and revocation tables larger than their block.
fn journal(cx: &mut Cx) -> CaseResult {
    let ext = cx.flag();
    let (mut m, targets, mut j) = cached_journal(ext);
    let bs = j.bs;
    let (n, bc) = (j.maxlen, m.g.blocks_count as u32);
    let t = Txn { logs: vec![(targets[0], p09::data(bs, 0, 0)), (targets[1], p09::data(bs, 0, 1))], revokes: vec![targets[2]] };
    let seq = j.seq;
    let mut blocks = j.txn(seq, &t, LAY);
    let what;
    // None: not judged
    let want;
    let mut unapplied = false;
    match cx.pick(3) {
        0 => {
            j.first = *cx.of(&[1u32, 0, 2, 500, n - 1, n, u32::MAX]);
            j.start = *cx.of(&[1u32, 2, 500, n - 1, n, n + 1, 1 << 31, u32::MAX]);
            j.maxlen = *cx.of(&[n, 0, 1, 2, 500, n - 1, bc, bc + 1, 1 << 31, u32::MAX]);
            what = format!("first {} start {} length {}", j.first, j.start, j.maxlen);
            want = if j.first == 0 || j.start < j.first || j.start >= j.maxlen || j.maxlen > bc {
                Some(false)
            } else if j.maxlen <= n && j.start + (blocks.len() as u32) < j.maxlen {
                Some(true)
            } else {
                None
            };
        }
        1 => {
            // blocks of the journal file that are not mapped
            let at = cx.pick(7) as u32;
            j.start = 3;
            let mut i = Ino::file();
            i.size = n as u64 * bs as u64;
            what = format!("journal block {at} not mapped");
            if ext {
                let mut v = vec![];
                if at > 0 {
                    v.push(Ext { lb: 0, len: at as u16, pb: j.phys[0] });
                }
                v.push(Ext { lb: at + 1, len: (n - at - 1) as u16, pb: j.phys[0] + at as u64 + 1 });
                m.set_inode_ext(8, i, &Node::Leaf(v));
            } else {
                let map = (0..n).filter(|l| *l != at).map(|l| (l as u64, j.phys[l as usize])).collect();
                m.set_inode(8, &i);
                i.iblock = m.block_map(&map, &[]);
                m.set_inode(8, &i);
            }
            // (1 and 2 are not needed; damage in the log ends it)
            want = if at == 0 { Some(false) } else { None };
            unapplied = at >= 3;
        }
        _ => {
            let c = *cx.of(&[24usize, bs - 3, bs - 2, bs, bs + 4, bs + 8, 1 << 16, 0x7fff_fff8, 0xffff_fff8, 0xffff_ffff]);
            put32be(&mut blocks[0], 12, c as u32);
            j.csum_tail(&mut blocks[0]);
            what = format!("revocation table of {c} bytes");
            want = if c == 24 { Some(true) } else { None };
            unapplied = c != 24;
        }
    }
    cx.describe(|| format!("{what}, extents {ext}"));
    cx.input(hash_of(&(ext, &what)));
    j.put_sb(&mut m);
    if j.start < n {
        for (k, b) in blocks.iter().enumerate() {
            let at = j.start as usize + k;
            if at < n as usize {
                m.set_block(j.phys[at], b.clone());
            }
        }
    }
    cx.step();
    match (m.load(), want) {
        (Ok(fs), None) if unapplied => {
            for (i, t) in targets.iter().enumerate() {
                let got = fs.read(format!("/{i}").as_str()).map_err(|e| format!("read: {e}"))?;
                ensure!(got == pattern(*t, bs), "a damaged transaction was applied to block {t}");
            }
            cx.outcome(3);
        }
        (Err(e), None) if unapplied => ensure!(err_name(&e) == "Corrupt", "{e} instead of Corrupt"),
        (_, None) => {}
        (Ok(fs), Some(true)) => {
            let got = fs.read("/0").map_err(|e| format!("read: {e}"))?;
            ensure!(got == t.logs[0].1, "valid journal not applied");
            cx.outcome(1);
        }
        (Ok(_), Some(false)) => bail!("loaded: {what}"),
        (Err(e), Some(ok)) => {
            ensure!(!ok, "valid journal: {e}");
            ensure!(err_name(&e) == "Corrupt", "{e} instead of Corrupt");
            cx.outcome(2);
        }
    }
    Ok(())
}
fn cached_journal(ext: bool) -> (Img, Vec<u64>, Jnl) {
    thread_local! {
        static C: std::cell::RefCell<[Option<(Img, Vec<u64>, Jnl)>; 2]> = const { std::cell::RefCell::new([None, None]) };
    }
    C.with(|c| {
        c.borrow_mut()[ext as usize]
            .get_or_insert_with(|| {
                let mut g = p09::geo(0);
                g.incompat = if ext { g.incompat | INCOMPAT_EXTENTS } else { g.incompat & !INCOMPAT_EXTENTS };
                p09::image(g, 3, 0)
            })
            .clone()
    })
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P20",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the oracle is the list of format rules in the property's statement, written down independently of the library; combinations which those rules neither require nor forbid (records that are not a multiple of four bytes long, a damaged structure behind the end of the file, ...) are executed but not judged",
            "every checksum in these images is right, so that only the rules can catch the damage",
        ],
        sections: vec![
            Section::new("root-header", "extent root: 7 magic numbers x 8 depths x 10 entry counts x 5 maxima; 1K without/with checksums", root_header),
            Section::new("node-header", "each node of chains of 1..5 levels: 7 magic numbers x 9 depths x 7 entry counts x 8 maxima", node_header),
            Section::new(
                "extent-order",
                if t { "all sequences of <=4 extents over 6 starts x 8 lengths, in the root and cut into two leaves in every way, two file sizes" } else { "all sequences of <=3 extents over 6 starts x 8 lengths, in the root and cut into two leaves in every way, two file sizes" },
                extent_order(if t { 4 } else { 3 }),
            ),
            Section::new("header-fields", "all values of magic, entries and depth, one at a time, in the root, an index node and a leaf; 1K without/with checksums", header_fields),
            Section::new("extent-outside", "data extents, leaves and index nodes at 12 places around and beyond the end of the filesystem, 4 geometries", extent_outside),
            Section::new("map-outside", "each pointer on the way to the first and last block of each level of a block map x 5 values", map_outside),
            Section::new("records-linear", "each of five records: every length, name length, type byte; NUL and '/' at each byte of the name; listing and lookups", records(Form::Linear, &[0, 1, 2, 3])),
            Section::new("records-second", "the same in the second block of a linear directory", records(Form::Second, &[0, 1])),
            Section::new("records-leaf", "the same in the leaf of an index", records(Form::Leaf, &[0, 1])),
            Section::new("records-short", "unused records of 0..7 bytes at each of five records, the bytes behind them formed like a record; linear, second block, leaf; 4 geometries", short_records),
            Section::new("index-nodes", "count and child blocks of the root and of an interior node", index_nodes),
            Section::new("inodes", "inode numbers, modes, sizes and inode tables out of range x every operation", inodes),
            Section::new("inode-numbers", "entries with inode numbers past the last: the next 16384, 64 x 32 distances in groups from four inodes, 1..3 bits away from three inodes; 4 geometries", inode_numbers),
            Section::new("journal", "log ranges (7 beginnings x 8 starts x 10 lengths), unmapped journal blocks and oversized revocation tables, journals with extents and block maps", journal),
        ],
        validate: None,
    }
}
