//! P17: symbolic link targets are returned exactly.

use super::p01::cached;
use crate::explore::{CaseResult, Cx, Fail, Section, hash_of};
use crate::img::*;
use crate::ops;
use crate::Prop;
use ext4_view::{Ext4, Ext4Error};

const L: u32 = 12;
const A: u32 = 13;
const AB: u32 = 14;
const D: u32 = 15;

fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024),
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => Geo::new(4096).extents(),
        3 => {
            let mut g = Geo::new(4096).with_csum();
            g.inode_size = 128;
            g
        }
        4 => Geo::new(2048).extents().with_csum(),
        5 => Geo::new(65536).extents().with_csum().b64(),
        6 => {
            let mut g = Geo::new(1024).extents().with_csum();
            g.inode_size = 1024;
            g
        }
        _ => unreachable!(),
    }
}

/// /l is the link; "a" and "ab" differ in one trailing byte, and so do the
/// names "d" (a directory with another "a", "ab").
fn base(k: usize) -> Img {
    let mut m = Img::new(geo(k));
    m.dir(2, 2, &[(b"l", L, FT_LNK), (b"a", A, FT_REG), (b"ab", AB, FT_REG), (b"d", D, FT_DIR)]);
    m.dir(D, 2, &[(b"l", L, FT_LNK), (b"a", AB, FT_REG)]);
    m.file(A, b"file a");
    m.file(AB, b"file ab");
    m.finish();
    m
}

/// How a target is stored.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Store {
    Inline,
    /// blocks contiguous
    Contig,
    /// blocks in reverse order with gaps
    Scattered,
    /// one more level of extent nodes, or single-block extents
    Deep,
    /// with preallocated blocks behind
    Prealloc,
}

/// Stores the target in the link inode; whatever follows it is garbage.
fn put(m: &mut Img, t: &[u8], st: Store) {
    let bs = m.bs();
    let mut i = Ino::new(S_IFLNK | 0o777);
    i.size = t.len() as u64;
    if st == Store::Inline {
        for (k, b) in i.iblock.iter_mut().enumerate() {
            *b = b'A' + (k % 26) as u8;
        }
        i.iblock[..t.len()].copy_from_slice(t);
        return m.set_inode(L, &i);
    }
    let n = t.len().div_ceil(bs);
    let mut p: Vec<u64> = (0..n as u64).map(|k| m.next + k).collect();
    if st == Store::Scattered || st == Store::Deep {
        p = (0..n as u64).map(|k| m.next + 2 * (n as u64 - 1 - k) + 1).collect();
    }
    m.next += 2 * n as u64 + 4;
    for (c, b) in t.chunks(bs).zip(&p) {
        let mut v = vec![b'G'; bs];
        v[..c.len()].copy_from_slice(c);
        m.set_block(*b, v);
    }
    let ext = m.g.incompat & INCOMPAT_EXTENTS != 0;
    match st {
        Store::Deep if ext => {
            let kids: Vec<(u32, Node)> = p
                .iter()
                .enumerate()
                .map(|(l, p)| (l as u32, Node::Leaf(vec![Ext { lb: l as u32, len: 1, pb: *p }])))
                .collect();
            let tree = Node::Idx(vec![(0, Node::Idx(kids))]);
            m.set_inode_ext(L, i, &tree);
        }
        Store::Prealloc if ext => {
            let mut v: Vec<Ext> = p
                .iter()
                .enumerate()
                .map(|(l, p)| Ext { lb: l as u32, len: 1, pb: *p })
                .collect();
            if v.len() >= 4 {
                return m.map_blocks(L, i, &p);
            }
            v.push(Ext { lb: n as u32, len: 32768 + 3, pb: m.next });
            m.set_inode_ext(L, i, &Node::Leaf(v));
        }
        _ => m.map_blocks(L, i, &p),
    }
}

fn load(m: &Img) -> Result<Ext4, Fail> {
    m.load().map_err(|e| format!("load: {e}").into())
}

fn valid(t: &[u8]) -> bool {
    !t.is_empty() && !t.contains(&0) && t.split(|b| *b == b'/').all(|c| c.len() <= 255)
}

fn check_link(fs: &Ext4, t: &[u8]) -> CaseResult {
    let r = fs.read_link("/l");
    if !valid(t) {
        return match r {
            Err(Ext4Error::Corrupt(_)) => {
                // followed: an error as well
                match fs.metadata("/l") {
                    Err(Ext4Error::Corrupt(_)) => Ok(()),
                    x => bail!("invalid target followed: {x:?}"),
                }
            }
            Err(e) => bail!("invalid target: {e}"),
            Ok(p) => bail!("invalid target returned as {p:?}"),
        };
    }
    let p = r.map_err(|e| format!("read_link: {e}"))?;
    ensure!(p.as_ref() == t, "target: {}", ops::diff_at(p.as_ref(), t));
    let meta = fs.symlink_metadata("/l").map_err(|e| format!("symlink_metadata: {e}"))?;
    ensure!(meta.len() == t.len() as u64, "length {} instead of {}", meta.len(), t.len());
    Ok(())
}

/// A target of exactly `n` bytes leading to "a", "ab" or a missing file.
fn target(kind: usize, n: usize) -> Option<(Vec<u8>, &'static [u8])> {
    let (head, tail, want): (&[u8], &[u8], &'static [u8]) = match kind {
        // relative: dots and slashes, then the name
        0 => (b".", b"/ab", b"file ab"),
        1 => (b"/", b"/a", b"file a"),
        2 => (b"d", b"/a", b"file ab"),
        3 => (b"d/..", b"/a", b"file a"),
        _ => unreachable!(),
    };
    if n < head.len() + tail.len() {
        return match (kind, n) {
            (1, 2) => Some((b"/a".to_vec(), b"file a")),
            (0, 2) => Some((b"ab".to_vec(), b"file ab")),
            (0, 1) => Some((b"a".to_vec(), b"file a")),
            _ => None,
        };
    }
    let mut v = head.to_vec();
    let mut i = 0;
    while v.len() + tail.len() < n {
        v.push(if i % 2 == 0 { b'/' } else { b'.' });
        i += 1;
    }
    v.extend(tail);
    // "/." followed by the tail's slash is fine; ".//ab" too
    Some((v, want))
}

fn lengths(geos: &'static [usize], stores: &'static [Store]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let n = 1 + cx.pick(4095);
        let st = if n <= 59 { Store::Inline } else { *cx.of(stores) };
        let kind = cx.pick(4);
        let Some((t, want)) = target(kind, n) else { return Ok(()) };
        cx.describe(|| format!("geometry {k}: target of {n} bytes, kind {kind}, {st:?}"));
        cx.input(hash_of(&(k, &t, st)));
        let mut m = cached(1700 + k, || base(k));
        put(&mut m, &t, st);
        let fs = load(&m)?;
        cx.step();
        check_link(&fs, &t)?;
        let got = fs.read("/l").map_err(|e| format!("following the link: {e}"))?;
        ensure!(got == want, "the link leads to {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(want));
        // (a path of more than 4096 bytes after expansion is refused)
        if kind != 1 && n + 3 <= 4096 {
            // same link in /d: relative to that directory
            let got = fs.read("/d/l");
            match (kind, got) {
                (0, r) if t.ends_with(b"ab") => ensure!(matches!(r, Err(Ext4Error::NotFound)), "/d/l: {r:?}"),
                (0, r) => ensure!(r.is_ok_and(|v| v == b"file ab"), "/d/l leads elsewhere"),
                (_, r) => ensure!(matches!(r, Err(Ext4Error::NotFound)), "/d/l: {r:?}"),
            }
        }
        cx.outcome(hash_of(&(got, st)));
        Ok(())
    }
}

/// Every byte value at every position of targets around the inline limit.
fn bytes(lens: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(&[0, 1, 6]);
        let n = *cx.of(lens);
        let st = if n <= 59 { Store::Inline } else { Store::Contig };
        let pos = cx.pick(n);
        let v = cx.pick(256) as u8;
        let mut t: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        t[pos] = v;
        cx.describe(|| format!("geometry {k}: byte {v:#x} at {pos} of {n}"));
        cx.input(hash_of(&(k, &t)));
        let mut m = cached(1700 + k, || base(k));
        put(&mut m, &t, st);
        cx.step();
        cx.outcome(valid(&t) as u64);
        check_link(&load(&m)?, &t)
    }
}

/// Targets that are not valid paths, and the limits of those that are.
fn invalid(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0, 1, 2, 3]);
    let mut m = cached(1700 + k, || base(k));
    let (t, st) = match cx.pick(4) {
        // a component of 254..258 bytes at the start, middle, end
        0 => {
            let c = 253 + cx.pick(6);
            let pre = *cx.of(&[0, 1, 2, 60, 255, 700]);
            let post = *cx.of(&[0, 1, 2, 60, 255]);
            let mut t = vec![b'/'; pre];
            for i in 0..pre {
                if i % 200 != 0 {
                    t[i] = b'p';
                }
            }
            if pre > 0 {
                t[pre - 1] = b'/';
            }
            t.extend(vec![b'c'; c]);
            if post > 0 {
                t.push(b'/');
                t.extend(vec![b'q'; post - 1]);
            }
            (t, Store::Contig)
        }
        // NUL at any position
        1 => {
            let n = *cx.of(&[1usize, 2, 30, 58, 59, 60, 61, 100, 200, 1023, 1024, 1025]);
            let mut t: Vec<u8> = (0..n).map(|i| if i % 100 == 99 { b'/' } else { b'n' }).collect();
            let p = cx.pick(n.min(70));
            let p = if cx.flag() { n - 1 - p } else { p };
            t[p] = 0;
            (t, if n <= 59 { Store::Inline } else { Store::Contig })
        }
        // empty
        2 => (vec![], Store::Inline),
        // many components, only slashes, only dots
        _ => {
            let n = *cx.of(&[1usize, 2, 59, 60, 1024, 4095]);
            let unit: &[u8] = cx.of(&[&b"/"[..], b".", b"..", b"../", b"./", b"a/"]);
            let t: Vec<u8> = unit.iter().cycle().take(n).cloned().collect();
            (t, if n <= 59 { Store::Inline } else { Store::Scattered })
        }
    };
    cx.describe(|| format!("geometry {k}: {} bytes, {:?}...", t.len(), String::from_utf8_lossy(&t[..t.len().min(40)])));
    cx.input(hash_of(&(k, &t)));
    put(&mut m, &t, st);
    cx.step();
    cx.outcome(valid(&t) as u64);
    check_link(&load(&m)?, &t)
}

/// Four-block targets with every subset of the blocks missing (hole or
/// unwritten): zeros, so never a valid target.
fn holes(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0, 1, 6]);
    let mut m = cached(1700 + k, || base(k));
    let bs = m.bs();
    let n = *cx.of(&[1025usize, 2048, 2049, 3073, 4095]);
    let nb = n.div_ceil(bs);
    let missing = cx.pick(1 << nb);
    let order = cx.pick(4);
    let unwritten = cx.flag();
    let ext = m.g.incompat & INCOMPAT_EXTENTS != 0;
    if unwritten && !ext {
        return Ok(());
    }
    let t: Vec<u8> = (0..n).map(|i| if i % 128 == 127 { b'/' } else { b'a' + (i / 128 % 26) as u8 }).collect();
    let p = m.alloc_n(2 * nb as u64);
    let phys: Vec<u64> = (0..nb as u64)
        .map(|l| match order {
            0 => p + l,
            1 => p + nb as u64 - 1 - l,
            2 => p + (l ^ 1),
            _ => p + 2 * l,
        })
        .collect();
    for (c, b) in t.chunks(bs).zip(&phys) {
        let mut v = vec![b'G'; bs];
        v[..c.len()].copy_from_slice(c);
        m.set_block(*b, v);
    }
    let mut i = Ino::new(S_IFLNK | 0o777);
    i.size = n as u64;
    if ext {
        let v: Vec<Ext> = (0..nb)
            .filter(|l| unwritten || missing >> l & 1 == 0)
            .map(|l| Ext {
                lb: l as u32,
                len: if missing >> l & 1 != 0 { 32769 } else { 1 },
                pb: phys[l],
            })
            .collect();
        m.set_inode_ext(L, i, &Node::Leaf(v));
    } else {
        for l in 0..nb {
            if missing >> l & 1 == 0 {
                put32(&mut i.iblock, 4 * l, phys[l] as u32);
            }
        }
        m.set_inode(L, &i);
    }
    cx.describe(|| format!("geometry {k}: {n} bytes, missing blocks {missing:#b}, order {order}, unwritten {unwritten}"));
    cx.input(hash_of(&(k, n, missing, order, unwritten)));
    let mut want = t;
    for (l, c) in want.chunks_mut(bs).enumerate() {
        if missing >> l & 1 != 0 {
            c.fill(0);
        }
    }
    cx.step();
    cx.outcome(valid(&want) as u64);
    check_link(&load(&m)?, &want)
}

pub fn prop(t: bool) -> Prop {
    use Store::*;
    Prop {
        id: "P17",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "targets of up to 59 bytes are inline, longer ones in data blocks, as in fs/ext4 since 4.15",
            "targets are at most 4095 bytes (PATH_MAX - 1), the most any ext4 writer stores",
        ],
        sections: vec![
            Section::new(
                "lengths",
                if t { "every target length 1..4095 x 4 target kinds x 4 block arrangements, 7 geometries; read and followed from two directories" } else { "every target length 1..4095 x 4 target kinds x 2 block arrangements, 3 geometries; read and followed from two directories" },
                lengths(if t { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 2] }, if t { &[Contig, Scattered, Deep, Prealloc] } else { &[Scattered, Deep] }),
            ),
            Section::new("bytes", if t { "every byte value at every position of targets of 1..64 bytes" } else { "every byte value at every position of targets of 1, 2, 3, 58..62 bytes" }, bytes(if t { &[1,2,3,4,5,8,12,16,20,24,28,32,36,40,44,48,52,55,56,57,58,59,60,61,62,63,64] } else { &[1, 2, 3, 58, 59, 60, 61, 62] })),
            Section::new("invalid", "component lengths 253..258 at every kind of place, NUL at every position, empty, separators only, dots only", invalid),
            Section::new("holes", "targets of 2..4 blocks x every subset of missing blocks (hole or unwritten) x 4 block orders", holes),
            super::mke::links(),
        ],
        validate: None,
    }
}
