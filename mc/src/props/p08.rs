//! P08: metadata reports exactly the stored inode attributes.

use super::p01::cached;
use super::p04::FT_NAMES;
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops::{self, Meta};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, FileType, Metadata};

const X: u32 = 12;

fn geo(k: usize) -> Geo {
    match k {
        0 => {
            let mut g = Geo::new(1024);
            g.inode_size = 128;
            g
        }
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => {
            let mut g = Geo::new(4096).extents().with_csum();
            g.inode_size = 512;
            g
        }
        3 => Geo::new(4096),
        _ => unreachable!(),
    }
}
const NGEO: usize = 4;

/// Root with x and y (hard links to inode 12), l -> x, ll -> l, dir d with
/// z (same inode), file t. The recorded type of x is `ft`.
fn image(g: Geo, ft: u8) -> Img {
    let mut m = Img::new(g);
    m.dir(
        2,
        2,
        &[
            (b"x", X, ft),
            (b"y", X, ft),
            (b"l", 14, FT_LNK),
            (b"ll", 15, FT_LNK),
            (b"d", 16, FT_DIR),
            (b"t", 17, FT_REG),
        ],
    );
    m.symlink(14, b"x");
    m.symlink(15, b"d/../l");
    m.dir(16, 2, &[(b"z", X, ft)]);
    m.file(17, b"tt");
    m.finish();
    m
}

/// Decodes the attributes from the raw inode.
fn decode(b: &[u8]) -> Option<Meta> {
    let mode = get16(b, 0);
    let ft = match mode >> 12 {
        1 => "fifo",
        2 => "chr",
        4 => "dir",
        6 => "blk",
        8 => "reg",
        10 => "lnk",
        12 => "sock",
        _ => return None,
    };
    Some(Meta {
        ft,
        mode: mode % 4096,
        uid: get16(b, 2) as u32 + get16(b, 0x78) as u32 * 65536,
        gid: get16(b, 0x18) as u32 + get16(b, 0x7a) as u32 * 65536,
        len: get32(b, 4) as u64 + ((get32(b, 0x6c) as u64) << 32),
    })
}

fn predicates(m: &Metadata, want: &Meta) -> CaseResult {
    let f = m.file_type();
    let got = [
        f.is_regular_file(),
        f.is_dir(),
        f.is_char_dev(),
        f.is_block_dev(),
        f.is_fifo(),
        f.is_socket(),
        f.is_symlink(),
    ];
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == (FT_NAMES[i + 1] == want.ft), "predicate for {} is {g} on a {}", FT_NAMES[i + 1], want.ft);
    }
    ensure!(m.is_dir() == (want.ft == "dir"), "Metadata::is_dir on a {}", want.ft);
    ensure!(m.is_symlink() == (want.ft == "lnk"), "Metadata::is_symlink on a {}", want.ft);
    let t = match want.ft {
        "reg" => FileType::Regular,
        "dir" => FileType::Directory,
        "chr" => FileType::CharacterDevice,
        "blk" => FileType::BlockDevice,
        "fifo" => FileType::Fifo,
        "sock" => FileType::Socket,
        _ => FileType::Symlink,
    };
    ensure!(f == t, "file type {f:?} of a {}", want.ft);
    Ok(())
}

/// Compares every way of obtaining the metadata of inode 12.
fn check(fs: &Ext4, raw: &[u8], bs: u64, recorded: u8) -> Result<u64, crate::explore::Fail> {
    let want = decode(raw);
    let too_big = want.as_ref().is_some_and(|w| w.len.div_ceil(bs) > u32::MAX as u64);
    let want = if too_big { None } else { want };
    let same = |how: &str, r: Result<Metadata, Ext4Error>| -> CaseResult {
        match (&want, r) {
            (Some(w), Ok(m)) => {
                let g = ops::meta(&m);
                ensure!(g == *w, "{how}: {g:?} instead of {w:?}");
                predicates(&m, w)
            }
            (None, Err(Ext4Error::Corrupt(_))) => Ok(()),
            (w, Ok(m)) => bail!("{how}: {:?} instead of {w:?}", ops::meta(&m)),
            (w, Err(e)) => bail!("{how}: {} instead of {w:?}", ops::err_name(&e)),
        }
    };
    for p in ["/x", "/y", "/d/z", "/d/../x"] {
        same(p, fs.symlink_metadata(p))?;
    }
    let link = want.as_ref().is_some_and(|w| w.ft == "lnk");
    if link {
        // its target is "t"
        let m = fs.metadata("/x").map_err(|e| ops::err_name(&e))?;
        ensure!(m.len() == 2 && m.file_type() == FileType::Regular, "metadata through the link x");
    } else {
        for p in ["/x", "/l", "/ll", "/d/../ll"] {
            same(p, fs.metadata(p))?;
        }
        let l = fs.symlink_metadata("/l").map_err(|e| ops::err_name(&e))?;
        ensure!(l.is_symlink() && l.len() == 1, "symlink_metadata of the link");
    }
    for (dir, n) in [("/", &b"x"[..]), ("/", b"y"), ("/d", b"z")] {
        let mut seen = 0;
        for e in fs.read_dir(dir).map_err(|e| ops::err_name(&e))? {
            let e = e.map_err(|e| ops::err_name(&e))?;
            if e.file_name() == n {
                seen += 1;
                same("directory entry", e.metadata())?;
                let t = e.file_type().map_err(|e| ops::err_name(&e))?;
                ensure!(
                    ops::ft_name(t) == FT_NAMES[recorded as usize],
                    "recorded type is {} instead of {}",
                    ops::ft_name(t),
                    FT_NAMES[recorded as usize]
                );
            }
        }
        ensure!(seen == 1, "{dir}: entry seen {seen} times");
    }
    if let Some(w) = &want {
        if w.ft == "reg" {
            for p in ["/x", "/ll"] {
                let f = fs.open(p).map_err(|e| ops::err_name(&e))?;
                same("open file", Ok(f.metadata().clone()))?;
            }
        }
    }
    Ok(hash_of(&want))
}

fn raw_case(cx: &mut Cx, g: usize, recorded: u8, edit: impl FnOnce(&mut [u8])) -> CaseResult {
    let mut m = cached(g * 8 + recorded as usize, || image(geo(g), recorded));
    let mut i = Ino::file();
    i.size = 1;
    i.iblock[0] = b't';
    m.set_inode(X, &i);
    let b = m.inode_bytes(X);
    edit(b);
    let raw = b.to_vec();
    let is_file = get16(&raw, 0) >> 12 == 8;
    if !is_file || get32(&raw, 0x20) & FL_EXTENTS != 0 {
        // keep the object openable whatever it is
    }
    m.csum_inode(X);
    cx.describe(|| format!("geometry {g}, recorded type {recorded}, inode {:02x?}", &raw[..128.min(raw.len())]));
    cx.input(hash_of(&(g, recorded, &raw)));
    let fs = m.load().map_err(|e| format!("load: {e:?}"))?;
    cx.step();
    let o = check(&fs, &raw, m.g.bs as u64, recorded)?;
    cx.outcome(o);
    Ok(())
}

fn modes() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let g = cx.pick(NGEO);
        let hi = cx.pick(256) as u16;
        let lo = cx.pick(256) as u16;
        let mode = hi << 8 | lo;
        let rec = if cx.tier_thorough { cx.pick(7) as u8 + 1 } else { (mode % 7 + 1) as u8 };
        raw_case(cx, g, rec, |b| {
            put16(b, 0, mode);
            if mode & 0o170000 == S_IFLNK {
                put32(b, 0x20, 0);
            }
        })
    }
}

const W16: [u16; 7] = [0, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff];
const W32: [u32; 9] = [0, 1, 0xff, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_0000, 0xffff_ffff];

fn owners() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let g = cx.pick(NGEO);
        let v: Vec<u16> = (0..4).map(|_| *cx.of(&W16)).collect();
        raw_case(cx, g, FT_REG, |b| {
            put16(b, 2, v[0]);
            put16(b, 0x78, v[1]);
            put16(b, 0x18, v[2]);
            put16(b, 0x7a, v[3]);
        })
    }
}

fn sizes() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let g = cx.pick(NGEO);
        let bs = geo(g).bs as u64;
        let lo = *cx.of(&W32);
        // at most 2^32 blocks, give or take one
        let mut his = vec![0u32, 1, 2, 0xff, (bs - 1) as u32, bs as u32, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
        his.dedup();
        let hi = *cx.of(&his);
        let lo2 = *cx.of(&[0u64, bs - 1, bs]);
        let lo = lo.wrapping_sub(lo2 as u32);
        // every type but links, whose sizes are limited
        let mode = [S_IFREG, S_IFDIR, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK][cx.pick(6)];
        raw_case(cx, g, FT_REG, |b| {
            put16(b, 0, mode | 0o644);
            put32(b, 4, lo);
            put32(b, 0x6c, hi);
        })
    }
}

/// Every bit of the inode, on a typical and on an all-ones background.
fn bits() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let g = cx.pick(NGEO);
        let n = geo(g).inode_size as usize * 8;
        let ones = cx.flag();
        let bit = cx.pick(n);
        let (byte, mask) = (bit / 8, 1u8 << (bit % 8));
        let csum = geo(g).csum;
        raw_case(cx, g, FT_REG, |b| {
            if ones {
                // everything the attributes do not depend on
                let len = b.len();
                for (o, n) in [(0x8, 16), (0x1a, 6), (0x64, 4), (0x68, 4), (0x70, 8), (0x7e, 2)] {
                    b[o..o + n].fill(0xff);
                }
                for x in b[128.min(len)..].iter_mut() {
                    *x = 0xff;
                }
                if len > 128 {
                    put16(b, 0x80, 32);
                }
                put16(b, 2, 0xffff);
                put16(b, 0x18, 0xffff);
                put16(b, 0x78, 0xffff);
                put16(b, 0x7a, 0xffff);
            }
            // the inode flags, and the size of the extra part (which says
            // whether there is a whole checksum), are not plain attributes
            let skip = (0x20..0x24).contains(&byte) || csum && (0x80..0x82).contains(&byte);
            if !skip {
                b[byte] ^= mask;
            }
        })
    }
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P08",
        level: "model_checking",
        rule: "",
        assumptions: &["inodes whose size needs more than 2^32 blocks, or whose type is none of the seven, must be reported as corrupt"],
        sections: vec![
            Section::new(
                "modes",
                if t { "all 65536 mode values x 7 recorded types x 4 inode formats, through 14 access ways" } else { "all 65536 mode values x 4 inode formats, through 14 access ways" },
                modes(),
            ),
            Section::new("owners", "uid and gid halves over 7 boundary values each (7^4) x 4 inode formats", owners()),
            Section::new("sizes", "size halves over boundary values incl. the 2^32-block limit x 6 types x 4 inode formats", sizes()),
            Section::new("bits", "every single bit of the inode, two backgrounds, 4 inode formats", bits()),
            super::mke::attributes(),
        ],
        validate: None,
    }
}
