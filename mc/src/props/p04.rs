//! P04: directory listing yields exactly the live entries.

use super::p01::cached;
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::htree::{self, Dx, Place};
use crate::img::*;
use crate::ops::{self, Meta};
use crate::Prop;
use ext4_view::{Ext4, Path};

pub const D: u32 = 13;

pub fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024),
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => Geo::new(4096).extents(),
        3 => Geo::new(65536).extents().with_csum().b64(),
        4 => Geo::new(65536).extents(),
        5 => Geo::new(4096).extents().with_csum(),
        6 => {
            let mut g = Geo::new(2048);
            g.csum = true;
            g.csum_seed = Some(0x1234_5678);
            g
        }
        _ => unreachable!(),
    }
}

const MODES: [u16; 8] =
    [0, S_IFREG, S_IFDIR, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK, S_IFLNK];
pub const FT_NAMES: [&str; 8] = ["", "reg", "dir", "chr", "blk", "fifo", "sock", "lnk"];

/// Inode of type `t` (1..=7) and its metadata.
pub fn typed_ino(t: u8) -> (u32, Meta) {
    let ino = 14 + t as u32;
    let len = if t == 7 { 3 } else { 0 };
    (
        ino,
        Meta {
            ft: FT_NAMES[t as usize],
            mode: 0o600 + t as u16,
            uid: 100_000 + ino,
            gid: 200_000 + ino,
            len,
        },
    )
}

/// Root with "d" (inode 13), "l" -> "d", and one inode of every type.
pub fn base(g: Geo) -> Img {
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"d", D, FT_DIR), (b"l", 12, FT_LNK)]);
    m.symlink(12, b"d");
    for t in 1..=7u8 {
        let (ino, mt) = typed_ino(t);
        let mut i = Ino::new(MODES[t as usize] | mt.mode);
        i.uid = mt.uid;
        i.gid = mt.gid;
        i.size = mt.len;
        if t == 7 {
            i.iblock[..3].copy_from_slice(b"abc");
        }
        m.set_inode(ino, &i);
    }
    m.finish();
    m
}

pub fn dir_meta(m: &Img, ino: u32, blocks: usize) -> Meta {
    let _ = ino;
    Meta { ft: "dir", mode: 0o755, uid: 0, gid: 0, len: (blocks * m.g.bs) as u64 }
}

type Row = (Vec<u8>, Vec<u8>, Result<&'static str, String>, Result<Meta, String>);

pub fn row(query: &[u8], name: &[u8], ft: u8, mt: &Meta) -> Row {
    let mut p = query.to_vec();
    if p.last() != Some(&b'/') {
        p.push(b'/');
    }
    p.extend_from_slice(name);
    (name.to_vec(), p, Ok(FT_NAMES[ft as usize]), Ok(mt.clone()))
}

pub fn expect_rows(query: &[u8], recs: &[Rec], dm: &Meta, rm: &Meta) -> Vec<Row> {
    let mut v: Vec<Row> = recs
        .iter()
        .filter(|r| r.ino != 0)
        .map(|r| {
            let mt = match r.ino {
                D => dm.clone(),
                2 => rm.clone(),
                i => typed_ino((i - 14) as u8).1,
            };
            row(query, &r.name, r.ft, &mt)
        })
        .collect();
    v.sort();
    v
}

pub fn check_list(fs: &Ext4, query: &[u8], want: &[Row]) -> CaseResult {
    let mut got = ops::list(fs, Path::try_from(query).unwrap())
        .map_err(|e| format!("listing failed: {e}"))?;
    got.sort();
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "{} entries instead of {}; first difference: {:?} instead of {:?}",
            got.len(),
            want.len(),
            got.get(i),
            want.get(i)
        )
        .into());
    }
    Ok(())
}

fn dots() -> Vec<Rec> {
    vec![Rec::new(D, b".", FT_DIR), Rec::new(2, b"..", FT_DIR)]
}

/// One record of the alphabet; `i` makes names unique.
fn record(cx: &mut Cx, i: usize) -> Rec {
    let t = (i % 7 + 1) as u8;
    let ino = typed_ino(t).0;
    let c = b'a' + (i % 20) as u8;
    let long = |n: usize| {
        let mut v = vec![c; n];
        v[n - 1] = b'0' + (i % 10) as u8;
        v
    };
    match cx.pick(8) {
        0 => Rec::new(ino, &[c], t),
        1 => Rec::new(ino, &long(4), t),
        2 => Rec::new(ino, &long(5), t),
        3 => Rec::new(ino, &long(255), t),
        4 => {
            let mut r = Rec::new(ino, &[c], t);
            r.slack = 36;
            r
        }
        // unused: name left behind
        5 => Rec::new(0, &long(9), t),
        // unused: cleared
        6 => Rec { slack: 4, ..Rec::new(0, &[], 0) },
        // unused, minimal name that would be invalid
        _ => Rec::new(0, b"/", 9),
    }
}

fn record_sequences(cfgs: &'static [usize], n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(cfgs);
        let len = cx.pick(n + 1);
        let mut recs = dots();
        for i in 0..len {
            recs.push(record(cx, i));
        }
        let mut m = cached(k, || base(geo(k)));
        let tail = m.g.csum;
        let Some(b) = dir_block(&recs, m.bs(), tail) else { return Ok(()) };
        cx.describe(|| format!("cfg {k}: {recs:?}"));
        cx.input(hash_of(&(k, &b)));
        m.dir_blocks(D, Ino::dir(), vec![b]);
        let dm = dir_meta(&m, D, 1);
        let want = expect_rows(b"/d", &recs, &dm, &dir_meta(&m, 2, 1));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        cx.outcome(hash_of(&want));
        check_list(&fs, b"/d", &want)
    }
}

/// One leaf block of the palette, with unique names.
pub fn palette_block(which: usize, i: usize, bs: usize, tail: bool) -> Vec<Rec> {
    let t = (i % 7 + 1) as u8;
    let ino = typed_ino(t).0;
    let nm = |s: &str| format!("{i}{s}").into_bytes();
    let end = bs - if tail { 12 } else { 0 };
    match which {
        // a removed block
        0 => vec![],
        1 => vec![Rec::new(ino, &nm("x"), t)],
        // completely full of small entries
        2 => {
            let n = (end / 16).min(100);
            (0..n).map(|k| Rec::new(ino, &nm(&format!("-{k:03}ab"))[..7].to_vec(), t)).collect()
        }
        // unused first record, then entries, then an unused last one
        3 => vec![
            Rec::new(0, b"removed", 1),
            Rec::new(ino, &nm("p"), t),
            Rec::new(0, b"gone", 2),
            Rec::new(ino, &nm("q"), t),
            Rec::new(0, b"tail", 2),
        ],
        // longest names
        _ => {
            let n = (end / 264).min(3);
            (0..n)
                .map(|k| {
                    let mut v = vec![b'L'; 255];
                    v[0] = b'A' + i as u8;
                    v[254] = b'a' + k as u8;
                    Rec::new(ino, &v, t)
                })
                .collect()
        }
    }
}

fn multi_block(cfgs: &'static [usize], n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(cfgs);
        let len = 1 + cx.pick(n);
        let mut m = cached(k, || base(geo(k)));
        let (bs, tail) = (m.bs(), m.g.csum);
        let mut all = dots();
        let mut blocks = vec![dir_block(&dots(), bs, tail).unwrap()];
        let mut sig = vec![];
        for i in 0..len {
            let w = cx.pick(5);
            sig.push(w);
            let recs = palette_block(w, i, bs, tail);
            blocks.push(dir_block(&recs, bs, tail).unwrap());
            all.extend(recs);
        }
        // contiguous, or descending with gaps
        let scattered = cx.flag();
        cx.describe(|| format!("cfg {k}: blocks {sig:?} scattered {scattered}"));
        cx.input(hash_of(&(k, &sig, scattered)));
        let nb = blocks.len();
        if scattered {
            let b = m.alloc_n(2 * nb as u64);
            let phys: Vec<u64> = (0..nb as u64).map(|i| b + 2 * (nb as u64 - 1 - i)).collect();
            let mut i = Ino::dir();
            i.size = (nb * bs) as u64;
            m.map_blocks(D, i, &phys);
            for (mut b, p) in blocks.into_iter().zip(phys) {
                m.csum_dir_block(D, &mut b);
                m.set_block(p, b);
            }
        } else {
            m.dir_blocks(D, Ino::dir(), blocks);
        }
        let want = expect_rows(b"/d", &all, &dir_meta(&m, D, nb), &dir_meta(&m, 2, 1));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        cx.outcome(hash_of(&want));
        check_list(&fs, b"/d", &want)
    }
}

/// Chooses an index over leaves 0..n: every grouping into index nodes.
pub fn grouping(cx: &mut Cx, leaves: Vec<(u32, Dx)>, max_depth: usize) -> Vec<(u32, Dx)> {
    let depth = cx.pick(max_depth + 1);
    let mut level = leaves;
    for _ in 0..depth {
        let mut groups: Vec<Vec<(u32, Dx)>> = vec![];
        for (i, l) in level.into_iter().enumerate() {
            if i == 0 || cx.flag() {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(l);
        }
        level = groups.into_iter().map(|g| (g[0].0, Dx::Node(g))).collect();
    }
    level
}

fn htrees(cfgs: &'static [usize], n: usize, depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(cfgs);
        let len = 1 + cx.pick(n);
        let mut m = cached(k, || base(geo(k)));
        let (bs, tail) = (m.bs(), m.g.csum);
        let mut all = dots();
        let mut sig = vec![];
        let mut leaves = vec![];
        for i in 0..len {
            // removed, one entry, full, unused records
            let w = cx.pick(4);
            sig.push(w);
            let recs = palette_block(w, i, bs, tail);
            leaves.push(((i as u32) << 20, Dx::Leaf(dir_block(&recs, bs, tail).unwrap())));
            all.extend(recs);
        }
        let place = *cx.of(&htree::PLACES);
        let tree = grouping(cx, leaves, depth);
        cx.describe(|| {
            format!("cfg {k}: leaves {sig:?} depth {} {place:?}", tree[0].1.depth())
        });
        let phys = htree::write(&mut m, D, 2, 1, &tree, place);
        let nb = phys.len();
        cx.input(hash_of(&(k, &sig, place, phys.iter().map(|p| m.get_block(*p)).collect::<Vec<_>>())));
        let want = expect_rows(b"/d", &all, &dir_meta(&m, D, nb), &dir_meta(&m, 2, 1));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        cx.outcome(hash_of(&want));
        check_list(&fs, b"/d", &want)
    }
}

/// Every name length, every byte value, every pair of bytes.
fn names() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let k = *cx.of(&[0usize, 5]);
        let ok = |b: &u8| *b != 0 && *b != b'/';
        let bytes: Vec<u8> = (0..=255u8).filter(ok).collect();
        let mut recs = dots();
        let (ino, t) = (typed_ino(1).0, 1);
        match cx.pick(3) {
            0 => {
                let len = 1 + cx.pick(255);
                let b = *cx.of(&[b'a', 0x01, 0x7f, 0x80, 0xff]);
                recs.push(Rec::new(ino, &vec![b; len], t));
                recs.push(Rec::new(ino, b"zz", t));
            }
            1 => {
                for b in &bytes {
                    if *b != b'.' {
                        recs.push(Rec::new(ino, &[*b], t));
                    }
                }
            }
            _ => {
                let a = *cx.of(&bytes);
                for b in &bytes {
                    if [a, *b] != *b".." {
                        recs.push(Rec::new(ino, &[a, *b], t));
                    }
                }
            }
        }
        let mut m = cached(k, || base(geo(k)));
        let (bs, tail) = (m.bs(), m.g.csum);
        let end = bs - if tail { 12 } else { 0 };
        let mut blocks = vec![];
        let mut cur = vec![];
        let mut used = 0;
        for r in &recs {
            if used + r.min_len() > end {
                blocks.push(dir_block(&cur, bs, tail).unwrap());
                cur.clear();
                used = 0;
            }
            used += r.min_len();
            cur.push(r.clone());
        }
        blocks.push(dir_block(&cur, bs, tail).unwrap());
        let nb = blocks.len();
        cx.describe(|| format!("cfg {k}: {} names, like {:?}", recs.len(), recs[2].name));
        cx.input(hash_of(&(k, recs.iter().map(|r| r.name.clone()).collect::<Vec<_>>())));
        m.dir_blocks(D, Ino::dir(), blocks);
        let want = expect_rows(b"/d", &recs, &dir_meta(&m, D, nb), &dir_meta(&m, 2, 1));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        cx.outcome(hash_of(&want));
        check_list(&fs, b"/d", &want)
    }
}

/// Recorded type x type of the inode x how the directory is addressed.
fn types_and_paths() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let k = *cx.of(&[0usize, 1]);
        const Q: [&[u8]; 9] =
            [b"/d", b"/d/", b"//d", b"/./d", b"/d/.", b"/d/../d//", b"/l", b"/l/", b"/"];
        let q = *cx.of(&Q);
        let n = 1 + cx.pick(2);
        let mut recs = dots();
        let root = q == b"/";
        if root {
            recs = vec![
                Rec::new(2, b".", FT_DIR),
                Rec::new(2, b"..", FT_DIR),
                Rec::new(D, b"d", FT_DIR),
            ];
        }
        for i in 0..n {
            let rt = 1 + cx.pick(7) as u8;
            let it = 1 + cx.pick(7) as u8;
            recs.push(Rec::new(typed_ino(it).0, &[b'e' + i as u8], rt));
        }
        cx.describe(|| format!("cfg {k}: list {:?} with {recs:?}", String::from_utf8_lossy(q)));
        cx.input(hash_of(&(k, q, recs.iter().map(|r| (r.ino, r.ft)).collect::<Vec<_>>())));
        let mut m = cached(k, || base(geo(k)));
        let b = dir_block(&recs, m.bs(), m.g.csum).unwrap();
        m.dir_blocks(if root { 2 } else { D }, Ino::dir(), vec![b]);
        if root {
            m.dir(D, 2, &[]);
        }
        let want = expect_rows(q, &recs, &dir_meta(&m, D, 1), &dir_meta(&m, 2, 1));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        cx.outcome(hash_of(&want));
        check_list(&fs, q, &want)
    }
}

/// A type byte that is no type (0, 8..255): the entry is never listed with a
/// type other than that of its inode, and the entries before it are right.
fn bad_types(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0usize, 1]);
    let it = 1 + cx.pick(7) as u8;
    let v = cx.pick(249);
    let bad = if v == 0 { 0 } else { v as u8 + 7 };
    let at = cx.pick(3);
    let mut recs = dots();
    for i in 0..3 {
        let t = if i == at { it } else { 1 + i as u8 };
        recs.push(Rec::new(typed_ino(t).0, &[b'e' + i as u8], if i == at { bad } else { t }));
    }
    cx.describe(|| format!("cfg {k}: {recs:?}"));
    cx.input(hash_of(&(k, it, bad, at)));
    let mut m = cached(k, || base(geo(k)));
    let b = dir_block(&recs, m.bs(), m.g.csum).unwrap();
    m.dir_blocks(D, Ino::dir(), vec![b]);
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    cx.step();
    let Ok(rd) = fs.read_dir("/d") else { return Ok(()) };
    let mut seen = vec![];
    for e in rd {
        cx.step();
        let Ok(e) = e else {
            cx.outcome(hash_of(&seen));
            return Ok(());
        };
        let n = e.file_name();
        let Some(i) = recs.iter().position(|r| n.as_ref() == &r.name[..]) else { bail!("entry {n:?}") };
        ensure!(!seen.contains(&i), "entry {n:?} twice");
        let got = e.file_type();
        if i == 2 + at {
            if let Ok(t) = got {
                ensure!(ops::ft_name(t) == FT_NAMES[it as usize], "type byte {bad} reported as {t:?}, the inode has type {it}");
            }
        } else {
            let w = FT_NAMES[recs[i].ft as usize];
            ensure!(got.as_ref().ok().map(|t| ops::ft_name(*t)) == Some(w), "entry {n:?} has type {got:?}");
        }
        seen.push(i);
    }
    cx.outcome(hash_of(&seen));
    ensure!(seen.len() == recs.len(), "only entries {seen:?}");
    Ok(())
}

pub fn prop(t: bool) -> Prop {
    let _ = Place::Natural;
    Prop {
        id: "P04",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the image builder produces valid directories (e2fsck accepts them, see `mc --validate-builder`)",
            "whether an entry whose recorded type is none of 1 to 7 is listed is left open, but not with a wrong type",
        ],
        sections: vec![
            Section::new(
                "record-sequences",
                if t { "all sequences of <=6 records over 8 record kinds behind '.' and '..'; 1K without/with checksums" } else { "all sequences of <=5 records over 8 record kinds behind '.' and '..'; 1K without/with checksums" },
                record_sequences(&[0, 1], if t { 6 } else { 5 }),
            ),
            Section::new(
                "record-sequences-blocksizes",
                "all sequences of <=3 records; 2K, 4K and 64K blocks, without and with checksums",
                record_sequences(&[2, 3, 4, 5, 6], 3),
            ),
            Section::new(
                "multi-block",
                if t { "all sequences of <=6 blocks over 5 block kinds, contiguous and scattered, 5 geometries" } else { "all sequences of <=4 blocks over 5 block kinds, contiguous and scattered, 5 geometries" },
                multi_block(&[0, 1, 2, 3, 4], if t { 6 } else { 4 }),
            ),
            Section::new(
                "htree",
                if t { "all sequences of <=5 leaves over 4 leaf kinds, all groupings into <=2 levels of index nodes, 3 block placements, 4 geometries" } else { "all sequences of <=3 leaves over 4 leaf kinds, all groupings into <=2 levels of index nodes, 3 block placements, 4 geometries" },
                htrees(&[0, 1, 3, 4], if t { 5 } else { 3 }, 2),
            ),
            Section::new("names", "all name lengths 1..255 x 5 byte values; all one-byte and two-byte names", names()),
            Section::new(
                "types-and-paths",
                "recorded type x inode type for 1 and 2 entries, 9 ways to address the directory",
                types_and_paths(),
            ),
            Section::new("bad-types", "recorded types 0 and 8..255 at each of three entries x type of the inode", bad_types),
            super::mke::directories(false),
        ],
        validate: None,
    }
}
