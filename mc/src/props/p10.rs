//! P10: no checksummed structure with a wrong checksum is ever accepted.

use crate::crypto::{crc32c, dirhash};
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::htree::{self, Dx, Place};
use crate::img::*;
use crate::jbd::*;
use crate::ops::{self, Kind, KINDS, Obs, Val};
use crate::Prop;
use ext4_view::Ext4;
use std::io::{Read, Seek, SeekFrom};
use std::sync::Mutex;

pub(super) const LIN: u32 = 12;
pub(super) const HT: u32 = 13;
pub(super) const EXT: u32 = 14;
pub(super) const SLOW: u32 = 15;
const FAST: u32 = 16;
pub(super) const F: u32 = 17;
const G: u32 = 18;
const EXT2: u32 = 19;
const LIN2: u32 = 20;
const HT2: u32 = 21;

/// Variants of the image everything happens on.
pub(super) fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024).extents().with_csum().b64(),
        1 => {
            let mut g = Geo::new(2048).extents().with_csum();
            g.inode_size = 128;
            g.csum_seed = Some(0xdead_beef);
            g
        }
        2 => {
            let mut g = Geo::new(1024).with_csum().b64();
            g.desc_size = 128;
            g.inode_size = 512;
            g.extra_isize = 28;
            g.blocks_count = 3 * 8192 + 100;
            g
        }
        3 => {
            let mut g = Geo::new(1024).extents().with_csum();
            g.extra_isize = 0;
            g.csum_seed = Some(0);
            g
        }
        4 => Geo::new(4096).extents().with_csum().b64(),
        _ => unreachable!(),
    }
}

/// Positions of the structures of the image.
#[derive(Clone)]
pub(super) struct Lay10 {
    pub img: Img,
    pub root: u64,
    pub lin: Vec<u64>,
    pub lin2: Vec<u64>,
    /// root, internal nodes, leaves (in file order)
    pub ht: Vec<u64>,
    pub ht2: Vec<u64>,
    /// index blocks and leaf blocks of /ext, in allocation order
    pub ext: Vec<u64>,
    pub ext2: Vec<u64>,
}

/// Four names per leaf, with increasing hashes.
pub(super) fn ht_names(g: &Geo) -> Vec<Vec<u8>> {
    let mut v: Vec<(u32, Vec<u8>)> = (0..16)
        .map(|i| {
            let n = format!("name{i}").into_bytes();
            (dirhash(&n, g.hash_alg, g.hash_seed, false), n)
        })
        .collect();
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}

fn ht_write(m: &mut Img, ino: u32) -> Vec<u64> {
    let g = m.g.clone();
    let names = ht_names(&g);
    let h = |n: &[u8]| dirhash(n, g.hash_alg, g.hash_seed, false);
    let leaf = |k: usize| {
        let recs: Vec<Rec> =
            names[4 * k..4 * k + 4].iter().map(|n| Rec::new(F, n, FT_REG)).collect();
        (h(&names[4 * k]), Dx::Leaf(dir_block(&recs, g.bs, g.csum).unwrap()))
    };
    let (l0, l1, l2, l3) = (leaf(0), leaf(1), leaf(2), leaf(3));
    let tree = vec![(0, Dx::Node(vec![(0, l0.1), l1])), (l2.0, Dx::Node(vec![l2, l3]))];
    htree::write(m, ino, 2, g.hash_alg, &tree, Place::Natural)
}

fn lin_write(m: &mut Img, ino: u32) -> Vec<u64> {
    let (bs, t) = (m.g.bs, m.g.csum);
    let b0 = [
        Rec::new(ino, b".", FT_DIR),
        Rec::new(2, b"..", FT_DIR),
        Rec::new(F, b"a", FT_REG),
        Rec::new(G, b"b", FT_REG),
    ];
    let b1 = [Rec::new(F, b"y", FT_REG), Rec::new(G, b"zz", FT_REG)];
    let b = vec![dir_block(&b0, bs, t).unwrap(), dir_block(&b1, bs, t).unwrap()];
    m.dir_blocks(ino, Ino::dir(), b)
}

/// File of 6 blocks with a two-level extent tree (one level of index blocks
/// below the root, leaves below them), or a contiguous one without extents.
fn ext_write(m: &mut Img, ino: u32) -> Vec<u64> {
    let bs = m.g.bs as u64;
    let mut i = Ino::file();
    i.size = 6 * bs - 5;
    if m.g.incompat & INCOMPAT_EXTENTS == 0 {
        let p = m.alloc_n(6);
        m.map_contig(ino, i, p, 6);
        return vec![];
    }
    let p = m.alloc_n(20);
    let e = |l: u32, k: u64| Ext { lb: l, len: 1, pb: p + 3 * k };
    let tree = Node::Idx(vec![
        (0, Node::Idx(vec![(0, Node::Leaf(vec![e(0, 5), e(1, 1)])), (2, Node::Leaf(vec![e(2, 3)]))])),
        (3, Node::Idx(vec![(3, Node::Leaf(vec![e(3, 0), e(4, 4), e(5, 2)]))])),
    ]);
    let first = m.next;
    m.set_inode_ext(ino, i, &tree);
    (first..m.next).collect()
}

pub(super) fn build(g: Geo) -> Lay10 {
    let mut m = Img::new(g);
    let root = m.dir(
        2,
        2,
        &[
            (b"lin", LIN, FT_DIR),
            (b"ht", HT, FT_DIR),
            (b"ext", EXT, FT_REG),
            (b"slow", SLOW, FT_LNK),
            (b"fast", FAST, FT_LNK),
            (b"f", F, FT_REG),
            (b"g", G, FT_REG),
            (b"ext2", EXT2, FT_REG),
            (b"lin2", LIN2, FT_DIR),
            (b"ht2", HT2, FT_DIR),
        ],
    )[0];
    let lin = lin_write(&mut m, LIN);
    let lin2 = lin_write(&mut m, LIN2);
    let ht = ht_write(&mut m, HT);
    let ht2 = ht_write(&mut m, HT2);
    let ext = ext_write(&mut m, EXT);
    let ext2 = ext_write(&mut m, EXT2);
    let mut t = b"/".to_vec();
    while t.len() < 70 {
        t.extend(b"./");
    }
    t.extend(b"lin");
    m.symlink(SLOW, &t);
    m.symlink(FAST, b"lin");
    m.file(F, b"contents of f");
    let bs = m.g.bs as u64;
    m.pat_file(G, bs + 3);
    m.finish();
    Lay10 { img: m, root, lin, lin2, ht, ht2, ext, ext2 }
}

const PATHS: [&str; 18] = [
    "/", "/lin", "/lin/a", "/lin/zz", "/lin/none", "/ht", "/ht/N0", "/ht/N5", "/ht/N10", "/ht/N15",
    "/ht/none", "/ext", "/slow", "/fast", "/f", "/fast/a", "/slow/zz", "/lin/../ht/N7",
];

/// The operations, the last one reading the end of /ext through a handle.
pub(super) fn op_count() -> usize {
    op_list().len() + 1
}
pub(super) fn op_list() -> Vec<(Kind, &'static str)> {
    let mut v = vec![];
    for p in PATHS {
        for k in KINDS {
            let keep = match k {
                Kind::Meta | Kind::SymMeta => true,
                Kind::ReadDir => ["/", "/lin", "/ht", "/slow", "/fast"].contains(&p),
                Kind::ReadLink | Kind::Canon => ["/slow", "/fast", "/slow/zz"].contains(&p),
                Kind::Read => ["/ext", "/f", "/lin/a", "/slow/zz", "/ht/N5"].contains(&p),
                Kind::Exists => ["/lin/none", "/ht/none", "/lin/zz", "/ht/N10"].contains(&p),
                Kind::Open => ["/ext", "/fast/a"].contains(&p),
                Kind::ReadStr => p == "/f",
            };
            if keep {
                v.push((k, p));
            }
        }
    }
    v
}

fn tail_read(fs: &Ext4, path: &str, bs: usize) -> Obs {
    let e = |e: std::io::Error| format!("{e}");
    let mut f = fs.open(path).map_err(|e| ops::err_name(&e))?;
    f.seek(SeekFrom::Start(4 * bs as u64 + 7)).map_err(e)?;
    let mut v = vec![];
    f.read_to_end(&mut v).map_err(e)?;
    Ok(Val::Bytes(v))
}

pub(super) fn observe(fs: &Ext4, g: &Geo, names: &[Vec<u8>], i: usize) -> Obs {
    let l = op_list();
    if i == l.len() {
        return tail_read(fs, "/ext", g.bs);
    }
    let (k, p) = l[i];
    match p.rsplit_once("/N") {
        Some((d, n)) => {
            let mut v = d.as_bytes().to_vec();
            v.push(b'/');
            v.extend(&names[n.parse::<usize>().unwrap()]);
            ops::run(fs, k, &v)
        }
        None => ops::run(fs, k, p.as_bytes()),
    }
}

/// The result is the clean one, or an error, possibly per listed entry.
fn clean_or_error(clean: &Obs, got: &Obs) -> bool {
    match (clean, got) {
        (_, Err(_)) => true,
        (Ok(Val::List(a)), Ok(Val::List(b))) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| {
                    x.0 == y.0
                        && x.1 == y.1
                        && (y.2.is_err() || x.2 == y.2)
                        && (y.3.is_err() || x.3 == y.3)
                })
        }
        (c, g) => c == g,
    }
}

/// Kinds of structures, with the operations that cannot do without them.
#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum S {
    Super,
    Desc(u32),
    Inode(u32),
    Root,
    Lin(usize),
    HtRoot,
    HtNode(usize),
    HtLeaf(usize),
    ExtBlock(usize),
}

fn kids(p: &str, of: &str) -> bool {
    p.starts_with(of) && p.as_bytes().get(of.len()) == Some(&b'/')
}

pub(super) fn needs(s: S, k: Kind, p: &str) -> bool {
    let follow = !matches!(k, Kind::SymMeta | Kind::ReadLink);
    // resolves through the directory /lin, or ends at it
    let via_lin = kids(p, "/lin")
        || p == "/lin"
        || kids(p, "/fast")
        || kids(p, "/slow")
        || (follow && (p == "/fast" || p == "/slow"));
    let in_lin = kids(p, "/lin") || kids(p, "/fast") || kids(p, "/slow");
    let lists_lin = k == Kind::ReadDir && via_lin && !in_lin;
    let ht_name = p.rsplit_once("/N").map(|x| x.1.parse::<usize>().unwrap());
    let content = matches!(k, Kind::Read | Kind::ReadStr);
    match s {
        S::Super | S::Desc(0) => true,
        S::Desc(_) => false,
        S::Inode(2) => true,
        S::Root => p != "/" || k == Kind::ReadDir,
        S::Inode(LIN) => via_lin,
        S::Inode(HT) => p == "/ht" || p.contains("ht/"),
        S::Inode(EXT) => p == "/ext",
        S::Inode(SLOW) => p == "/slow" || kids(p, "/slow"),
        S::Inode(FAST) => p == "/fast" || kids(p, "/fast"),
        S::Inode(F) => {
            p == "/f" || p.ends_with("/a") || (ht_name.is_some())
        }
        S::Inode(G) => p.ends_with("/zz"),
        S::Inode(_) => false,
        // "lin/.." needs only the first block of /lin
        S::Lin(0) => in_lin || lists_lin,
        S::Lin(_) => {
            lists_lin || p.ends_with("/zz") || p == "/lin/none"
        }
        S::HtRoot => ht_name.is_some() || p == "/ht/none",
        S::HtNode(i) => ht_name.is_some_and(|n| n / 8 == i),
        S::HtLeaf(i) => ht_name.is_some_and(|n| n / 4 == i) || (k == Kind::ReadDir && p == "/ht"),
        S::ExtBlock(_) => p == "/ext" && content,
    }
}

/// A structure: where it is, and which of its bytes are covered by the
/// checksum or are the checksum.
#[derive(Clone)]
pub(super) struct Site {
    pub s: S,
    pub blk: u64,
    pub off: usize,
    pub covered: Vec<std::ops::Range<usize>>,
    /// offset and length of the pieces of the checksum field
    pub stored: Vec<(usize, usize)>,
}

pub(super) fn sites(l: &mut Lay10) -> Vec<Site> {
    let g = l.img.g.clone();
    let (bs, isz, ds) = (g.bs, g.inode_size as usize, g.desc_size as usize);
    let mut v = vec![];
    let (sb, so) = if bs == 1024 { (1, 0) } else { (0, 1024) };
    v.push(Site { s: S::Super, blk: sb, off: so, covered: vec![0..1024], stored: vec![(0x3fc, 4)] });
    let gdt = g.first_data_block as u64 + 1;
    for i in 0..g.groups() as usize {
        let o = i * ds;
        v.push(Site {
            s: S::Desc(i as u32),
            blk: gdt + (o / bs) as u64,
            off: o % bs,
            covered: vec![0..ds],
            stored: vec![(0x1e, 2)],
        });
    }
    for ino in [2, LIN, HT, EXT, SLOW, FAST, F, G] {
        let (b, o) = l.img.inode_loc(ino);
        let hi = isz > 128 && g.extra_isize >= 4;
        let mut stored = vec![(0x7c, 2)];
        if hi {
            stored.push((0x82, 2));
        }
        v.push(Site { s: S::Inode(ino), blk: b, off: o, covered: vec![0..isz], stored });
    }
    let leaf = |s, blk| Site {
        s,
        blk,
        off: 0,
        covered: vec![0..bs - 12, bs - 4..bs],
        stored: vec![(bs - 4, 4)],
    };
    v.push(leaf(S::Root, l.root));
    for (i, b) in l.lin.iter().enumerate() {
        v.push(leaf(S::Lin(i), *b));
    }
    for (i, b) in l.ht.iter().enumerate() {
        if i >= 3 {
            v.push(leaf(S::HtLeaf(i - 3), *b));
            continue;
        }
        let off = if i == 0 { 0x20 } else { 8 };
        let blk = l.img.get_block(*b);
        let (limit, count) = (get16(&blk, off) as usize, get16(&blk, off + 2) as usize);
        let t = off + 8 * limit;
        v.push(Site {
            s: if i == 0 { S::HtRoot } else { S::HtNode(i - 1) },
            blk: *b,
            off: 0,
            covered: vec![0..off + 8 * count, t..t + 8],
            stored: vec![(t + 4, 4)],
        });
    }
    for (i, b) in l.ext.iter().enumerate() {
        let blk = l.img.get_block(*b);
        let t = 12 + 12 * get16(&blk, 4) as usize;
        v.push(Site { s: S::ExtBlock(i), blk: *b, off: 0, covered: vec![0..t + 4], stored: vec![(t, 4)] });
    }
    v
}

struct Env {
    lay: Lay10,
    sites: Vec<Site>,
    clean: Vec<Obs>,
    names: Vec<Vec<u8>>,
}
static ENVS: Mutex<Vec<Option<std::sync::Arc<Env>>>> = Mutex::new(Vec::new());

fn env(k: usize) -> Result<std::sync::Arc<Env>, crate::explore::Fail> {
    let mut v = ENVS.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() <= k {
        v.resize(k + 1, None);
    }
    if v[k].is_none() {
        let mut lay = build(geo(k));
        let sites = sites(&mut lay);
        let names = ht_names(&lay.img.g);
        let fs = lay.img.load().map_err(|e| format!("clean image, geometry {k}: {e}"))?;
        // the clean results are those of the same contents without checksums
        let mut g2 = geo(k);
        g2.csum = false;
        g2.csum_seed = None;
        let l2 = build(g2.clone());
        let fs2 = l2.img.load().map_err(|e| format!("image without checksums, geometry {k}: {e}"))?;
        let mut clean = vec![];
        for i in 0..op_count() {
            let a = observe(&fs, &lay.img.g, &names, i);
            let b = observe(&fs2, &g2, &names, i);
            if a != b {
                bail!("geometry {k}, {}: {} with valid checksums, {} without", op_name(i), ops::show(&a), ops::show(&b));
            }
            clean.push(a);
        }
        v[k] = Some(std::sync::Arc::new(Env { lay, sites, clean, names }));
    }
    Ok(v[k].clone().unwrap())
}

pub(super) fn op_name(i: usize) -> String {
    match op_list().get(i) {
        Some((k, p)) => format!("{k:?} {p}"),
        None => "tail of /ext".into(),
    }
}

fn judge(cx: &mut Cx, e: &Env, m: &Img, s: S, full: bool) -> CaseResult {
    cx.step();
    let fs = match m.load() {
        Err(x) => {
            // a broken inode or directory does not matter for loading, but
            // an early error is not a wrong result
            cx.outcome(hash_of(&ops::err_name(&x)));
            return Ok(());
        }
        Ok(fs) => fs,
    };
    if matches!(s, S::Super | S::Desc(_)) {
        bail!("the filesystem loads");
    }
    let l = op_list();
    for i in 0..op_count() {
        let must = match l.get(i) {
            Some((k, p)) => needs(s, *k, p),
            None => match s {
                S::Inode(2) | S::Root | S::Inode(EXT) => true,
                S::ExtBlock(b) => b >= 3,
                _ => false,
            },
        };
        if !full && !must && !l.get(i).is_some_and(|x| x.0 == Kind::ReadDir && x.1.len() == 3) {
            continue;
        }
        cx.step();
        let got = observe(&fs, &m.g, &e.names, i);
        if !clean_or_error(&e.clean[i], &got) {
            bail!("{}: {} instead of {} or an error", op_name(i), ops::show(&got), ops::show(&e.clean[i]));
        }
        if must && got.is_ok() {
            bail!("{}: succeeds with {}", op_name(i), ops::show(&got));
        }
        cx.outcome(ops::obs_hash(&got));
    }
    Ok(())
}

fn mutate(e: &Env, site: &Site, f: impl FnOnce(&mut [u8])) -> Img {
    let mut m = e.lay.img.clone();
    f(&mut m.block_mut(site.blk)[site.off..]);
    m
}

fn undetectable(site: &Site, off: usize, bit: usize) -> bool {
    // clearing the feature bit turns checksums off
    site.s == S::Super && off == 0x65 && bit == 2
}

/// Every bit of every structure.
fn bits(geos: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let e = env(k)?;
        let site = &e.sites[cx.pick(e.sites.len())];
        let n: usize = site.covered.iter().map(|r| r.len()).sum();
        let i = cx.pick(n);
        let off = site.covered.iter().cloned().flatten().nth(i).unwrap();
        let bit = cx.pick(8);
        cx.describe(|| format!("geometry {k}, {:?}: bit {bit} of byte {off:#x} flipped", site.s));
        if undetectable(site, off, bit) {
            return Ok(());
        }
        let m = mutate(&e, site, |b| b[off] ^= 1 << bit);
        cx.input(hash_of(&(k, format!("{:?}", site.s), off, bit)));
        let full = cx.tier_thorough || (off * 8 + bit) % 16 == 0;
        judge(cx, &e, &m, site.s, full)
    }
}

fn covered_not_stored(site: &Site) -> Vec<usize> {
    let st = |o: usize| site.stored.iter().any(|s| (s.0..s.0 + s.1).contains(&o));
    site.covered.iter().cloned().flatten().filter(|o| !st(*o)).collect()
}

/// Whole words overwritten: everything a torn or misdirected write leaves.
fn words(geos: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let e = env(k)?;
        let site = &e.sites[cx.pick(e.sites.len())];
        let cov = covered_not_stored(site);
        let i = cx.pick(cov.len().div_ceil(8));
        let what = cx.pick(4);
        let len = *cx.of(&[8, 64, 512, 1 << 20]);
        cx.describe(|| format!("geometry {k}, {:?}: {len} bytes at covered byte {} overwritten with kind {what}", site.s, 8 * i));
        let end = (8 * i + len).min(cov.len());
        let mut same = true;
        let m = mutate(&e, site, |b| {
            for (x, o) in cov[8 * i..end].iter().enumerate() {
                let old = b[*o];
                b[*o] = match what {
                    0 => 0,
                    1 => 0xff,
                    2 => !old,
                    _ => pat_word(77, (x / 8) as u64).to_le_bytes()[x % 8],
                };
                same &= b[*o] == old;
            }
        });
        if same {
            return Ok(());
        }
        // 16-bit checksums miss one change in 65536; decide by computing
        let mut probe = m.clone();
        if still_valid(&mut probe, site) {
            return Ok(());
        }
        // whatever turns checksums off
        if site.s == S::Super && probe.block_mut(site.blk)[site.off + 0x65] & 4 == 0 {
            return Ok(());
        }
        cx.input(hash_of(&(k, format!("{:?}", site.s), i, what, len)));
        let full = cx.tier_thorough;
        judge(cx, &e, &m, site.s, full)
    }
}

/// Recomputes the checksum of the structure; true if it was already right.
fn still_valid(m: &mut Img, site: &Site) -> bool {
    let g = m.g.clone();
    let before: Vec<u8> = m.block_mut(site.blk).clone();
    resum(m, site);
    let after: Vec<u8> = m.block_mut(site.blk).clone();
    let _ = g;
    before == after
}

fn owner(s: S) -> u32 {
    match s {
        S::Root => 2,
        S::Lin(_) => LIN,
        S::HtRoot | S::HtNode(_) | S::HtLeaf(_) => HT,
        S::ExtBlock(_) => EXT,
        _ => unreachable!(),
    }
}

pub(super) fn resum(m: &mut Img, site: &Site) {
    let mut b = m.get_block(site.blk);
    match site.s {
        S::Super => Img::csum_superblock(&mut b[site.off..]),
        S::Desc(i) => {
            let n = m.g.desc_size as usize;
            m.csum_desc(i, &mut b[site.off..site.off + n]);
        }
        S::Inode(i) => return m.csum_inode(i),
        S::Root | S::Lin(_) | S::HtLeaf(_) => m.csum_dir_block(owner(site.s), &mut b),
        S::HtRoot | S::HtNode(_) => {
            let off = if site.s == S::HtRoot { 0x20 } else { 8 };
            let (t, c) = (get16(&b, off) as usize, get16(&b, off + 2) as usize);
            if off + 8 * t + 8 > b.len() || off + 8 * c > b.len() {
                return;
            }
            m.csum_dx_block(owner(site.s), &mut b, off)
        }
        S::ExtBlock(_) => {
            if 12 + 12 * get16(&b, 4) as usize + 4 > b.len() {
                return;
            }
            m.csum_extent_block(owner(site.s), &mut b)
        }
    }
    m.set_block(site.blk, b);
}

/// Wrong stored checksums.
fn stored(all16: bool, geos: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let e = env(k)?;
        let site = &e.sites[cx.pick(e.sites.len())];
        let b = e.lay.img.get_block(site.blk);
        let b = &b[site.off..];
        let right: Vec<u8> =
            site.stored.iter().flat_map(|(o, n)| b[*o..o + n].to_vec()).collect();
        let w = right.len();
        let r = right.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32);
        let mask = if w == 2 { 0xffff } else { !0u32 };
        let c = cx.pick(4);
        let v = match c {
            // special values
            0 => *cx.of(&[
                0,
                !0,
                !r,
                r.swap_bytes(),
                r.rotate_left(16),
                r.reverse_bits(),
                r.wrapping_add(1),
                r.wrapping_sub(1),
                r & 0xffff,
                r & 0xffff_0000,
                r & 0xff,
                (!r).swap_bytes(),
            ]),
            // pairs of bits
            1 => {
                let i = cx.pick(32);
                let j = cx.pick(32);
                if i == j { return Ok(()) }
                r ^ (1 << i) ^ (1 << j)
            }
            // all values of the lower or upper half
            2 if all16 || w == 2 => {
                let x = cx.pick(65536) as u32;
                (r & 0xffff_0000) | x
            }
            3 if all16 => {
                let x = cx.pick(65536) as u32;
                (r & 0xffff) | x << 16
            }
            _ => return Ok(()),
        } & mask;
        if v == r {
            return Ok(());
        }
        cx.describe(|| format!("geometry {k}, {:?}: stored checksum {v:#x} instead of {r:#x}", site.s));
        let m = mutate(&e, site, |b| {
            let mut i = 0;
            for (o, n) in &site.stored {
                for o in *o..o + n {
                    b[o] = v.to_le_bytes()[i];
                    i += 1;
                }
            }
        });
        cx.input(hash_of(&(k, format!("{:?}", site.s), v)));
        // one dependent operation is enough here
        cx.step();
        let Ok(fs) = m.load() else { return Ok(()) };
        let l = op_list();
        for (i, (k, p)) in l.iter().enumerate() {
            if needs(site.s, *k, p) || matches!(site.s, S::Super | S::Desc(_)) {
                if matches!(site.s, S::Super | S::Desc(_)) {
                    bail!("the filesystem loads");
                }
                let got = observe(&fs, &m.g, &e.names, i);
                if got.is_ok() {
                    bail!("{k:?} {p}: succeeds with {}", ops::show(&got));
                }
                return Ok(());
            }
        }
        bail!("harness: nothing depends on {:?}", site.s)
    }
}

/// Correct structures in the wrong place: same kind, other owner.
fn transplant(cx: &mut Cx) -> CaseResult {
    let k = cx.pick(5);
    let e = env(k)?;
    let mut m = e.lay.img.clone();
    let l = &e.lay;
    let g = m.g.clone();
    let cp = |m: &mut Img, from: u64, to: u64| {
        let b = m.get_block(from);
        m.set_block(to, b);
    };
    let c = cx.pick(9);
    let s = match c {
        // directory leaves of a twin directory
        0 => {
            let i = cx.pick(2);
            cp(&mut m, l.lin2[i], l.lin[i]);
            S::Lin(i)
        }
        1 => {
            let i = cx.pick(7);
            cp(&mut m, l.ht2[i], l.ht[i]);
            match i {
                0 => S::HtRoot,
                1 | 2 => S::HtNode(i - 1),
                _ => S::HtLeaf(i - 3),
            }
        }
        2 => {
            if l.ext.is_empty() {
                return Ok(());
            }
            let i = cx.pick(l.ext.len());
            cp(&mut m, l.ext2[i], l.ext[i]);
            S::ExtBlock(i)
        }
        // an inode's bytes in another inode's slot
        3 => {
            let a = *cx.of(&[2, LIN, HT, EXT, SLOW, FAST, F, G]);
            let b = *cx.of(&[2, LIN, HT, EXT, SLOW, FAST, F, G, LIN2, EXT2]);
            if a == b {
                return Ok(());
            }
            let src = m.inode_bytes(b).to_vec();
            m.inode_bytes(a).copy_from_slice(&src);
            S::Inode(a)
        }
        // the inode changed its generation; its blocks did not
        4 => {
            let (ino, s) = *cx.of(&[
                (2, S::Root),
                (LIN, S::Lin(0)),
                (HT, S::HtRoot),
                (HT, S::HtNode(0)),
                (HT, S::HtLeaf(0)),
                (EXT, S::ExtBlock(0)),
            ]);
            if l.ext.is_empty() && ino == EXT {
                return Ok(());
            }
            let x = 1u32 << cx.pick(32);
            let b = m.inode_bytes(ino);
            let old = get32(b, 0x64);
            put32(b, 0x64, old ^ x);
            m.csum_inode(ino);
            s
        }
        // descriptors exchanged between groups
        5 => {
            let n = g.groups();
            if n < 2 {
                return Ok(());
            }
            let i = cx.pick(n as usize);
            let j = cx.pick(n as usize);
            if i == j {
                return Ok(());
            }
            let ds = g.desc_size as usize;
            let gdt = g.first_data_block as u64 + 1;
            let b = m.block_mut(gdt);
            b.copy_within(i * ds..(i + 1) * ds, j * ds);
            S::Desc(j as u32)
        }
        // the same structures with the checksums of another filesystem
        6 => {
            let site = e.sites[cx.pick(e.sites.len())].clone();
            if site.s == S::Super {
                return Ok(());
            }
            let which = cx.pick(34);
            let mut o = m.clone();
            match which {
                32 => o.g.csum_seed = Some(!0),
                33 => {
                    o.g.csum_seed = None;
                    o.g.uuid = [0; 16];
                }
                n => o.g.csum_seed = Some(g.seed() ^ 1 << n),
            }
            resum(&mut o, &site);
            m.blocks = o.blocks;
            site.s
        }
        // uuid in use as seed, although a seed is stored, and vice versa
        7 => {
            let site = e.sites[cx.pick(e.sites.len())].clone();
            if site.s == S::Super {
                return Ok(());
            }
            let mut o = m.clone();
            o.g.csum_seed = match g.csum_seed {
                Some(_) => None,
                None => Some(0),
            };
            resum(&mut o, &site);
            m.blocks = o.blocks;
            site.s
        }
        // checksum forgetting the inode number or the generation, or that
        // includes the stored value
        _ => {
            let site = e.sites[cx.pick(e.sites.len())].clone();
            let how = cx.pick(3);
            let (blk, n) = match site.s {
                S::Root | S::Lin(_) | S::HtLeaf(_) => (site.blk, g.bs - 12),
                S::ExtBlock(_) => (site.blk, site.stored[0].0),
                _ => return Ok(()),
            };
            let ino = owner(site.s);
            let gen_ = m.generation(ino);
            let seed = match how {
                0 => crc32c(g.seed(), &gen_.to_le_bytes()),
                1 => crc32c(g.seed(), &ino.to_le_bytes()),
                _ => g.seed(),
            };
            let b = m.block_mut(blk);
            let c = crc32c(seed, &b[..n]);
            put32(b, site.stored[0].0, c);
            site.s
        }
    };
    cx.describe(|| format!("geometry {k}, transplant {c} into {s:?}"));
    let site = e.sites.iter().find(|x| x.s == s).unwrap().clone();
    let mut probe = m.clone();
    // 16-bit checksums can collide
    if c != 4 && still_valid(&mut probe, &site) {
        return Ok(());
    }
    cx.input(hash_of(&(k, c, format!("{s:?}"), m.get_block(site.blk))));
    judge(cx, &e, &m, s, true)
}

fn accept64(cx: &mut Cx) -> CaseResult {
    let mut g = Geo::new(65536).with_csum().b64();
    g.inode_size = *cx.of(&[128, 256, 1024]);
    if cx.flag() {
        g = g.extents();
    }
    accept_geo(cx, g, 7)
}

/// Correct checksums are accepted for every layout of the structures.
fn accept(thorough: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let sizes: &[usize] =
            if thorough { &[1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[1024, 4096] };
        let bs = *cx.of(sizes);
        let mut g = Geo::new(bs).with_csum();
        if cx.flag() {
            g = g.extents();
        }
        g.inode_size = *cx.of(&[128u16, 256, 512, 1024]);
        g.extra_isize = if g.inode_size > 128 { *cx.of(&[0u16, 4, 28, 32, 96, 128]) } else { 0 };
        if g.extra_isize > g.inode_size - 128 {
            return Ok(());
        }
        let d = *cx.of(&[32u16, 64, 128, 256]);
        if d > 32 {
            g = g.b64();
            g.desc_size = d;
        }
        g.csum_seed = *cx.of(&[None, Some(0u32), Some(!0), Some(0x8000_0001)]);
        if thorough && cx.flag() {
            g.uuid = [0; 16];
        }
        let gen_ = *cx.of(&[0u32, 0x5eed_0001, !0]);
        if thorough {
            g.hash_alg = cx.pick(3) as u8;
        }
        accept_geo(cx, g, gen_)
    }
}

fn accept_geo(cx: &mut Cx, g: Geo, gen_: u32) -> CaseResult {
    {
        cx.describe(|| format!("{g:?}, generation {gen_:#x}"));
        cx.input(hash_of(&format!("{g:?}{gen_}")));
        let mut l = build(g.clone());
        // give everything the generation
        let st = sites(&mut l);
        for ino in [2, LIN, HT, EXT, SLOW, FAST, F, G, LIN2, HT2, EXT2] {
            put32(l.img.inode_bytes(ino), 0x64, gen_);
            // something in the space for attributes
            let n = l.img.inode_bytes(ino).len();
            for x in 132..n {
                l.img.inode_bytes(ino)[x] = (x * 7) as u8;
            }
            l.img.csum_inode(ino);
        }
        for s in &st {
            resum(&mut l.img, s);
        }
        cx.step();
        let fs = l.img.load().map_err(|e| format!("load: {e}"))?;
        let mut g2 = g.clone();
        g2.csum = false;
        g2.csum_seed = None;
        let l2 = build(g2.clone());
        let fs2 = l2.img.load().map_err(|e| format!("load without checksums: {e}"))?;
        let names = ht_names(&g);
        for i in 0..op_count() {
            if i < op_list().len() && op_list()[i].1 == "/" && op_list()[i].0 == Kind::ReadDir {
                continue; // lists the twins as well
            }
            cx.step();
            let a = observe(&fs, &g, &names, i);
            let b = observe(&fs2, &g2, &names, i);
            ensure!(a == b, "{}: {} with valid checksums, {} without", op_name(i), ops::show(&a), ops::show(&b));
            cx.outcome(ops::obs_hash(&a));
        }
        Ok(())
    }
}

pub(super) const JINO: u32 = 8;

/// A log of three transactions on an image with files /0../3.
pub(super) struct JEnv {
    pub img: Img,
    pub j: Jnl,
    pub targets: Vec<u64>,
    pub txns: Vec<Txn>,
    /// transaction of every log block
    pub of: Vec<usize>,
}

pub(super) fn jenv(bs: usize) -> JEnv {
    let mut g = Geo::new(bs).extents().with_csum().b64();
    g.compat |= COMPAT_HAS_JOURNAL;
    g.incompat |= INCOMPAT_RECOVER;
    g.journal_inum = JINO;
    let mut m = Img::new(g);
    let names: Vec<String> = (0..4).map(|i| i.to_string()).collect();
    let ents: Vec<(&[u8], u32, u8)> =
        names.iter().enumerate().map(|(i, n)| (n.as_bytes(), 12 + i as u32, FT_REG)).collect();
    m.dir(2, 2, &ents);
    let mut t = vec![];
    for i in 0..4 {
        t.push(m.pat_file(12 + i, bs as u64));
    }
    let jl = 24;
    let p = m.alloc_n(jl);
    let mut i = Ino::file();
    i.size = jl * bs as u64;
    m.map_contig(JINO, i, p, jl as u32);
    for b in p..p + jl {
        m.set_block(b, vec![0; bs]);
    }
    m.finish();
    let j = Jnl::new(bs, (p..p + jl).collect());
    let d = |t: usize, i: usize| pattern(0x5000_0000 + 100 * t as u64 + i as u64, bs);
    let txns = vec![
        Txn { logs: vec![(t[0], d(0, 0)), (t[1], d(0, 1))], revokes: vec![] },
        Txn { logs: vec![(t[1], d(1, 1)), (t[2], d(1, 2))], revokes: vec![t[0]] },
        Txn { logs: vec![(t[0], d(2, 0)), (t[3], d(2, 3))], revokes: vec![t[1]] },
    ];
    let mut of = vec![];
    j.put_sb(&mut m);
    for (n, x) in txns.iter().enumerate() {
        for b in j.txn(j.seq + n as u32, x, LAY) {
            j.put(&mut m, of.len(), &b);
            of.push(n);
        }
    }
    JEnv { img: m, j, targets: t, txns, of }
}

fn jcheck(cx: &mut Cx, m: &Img, e: &JEnv, upto: usize) -> CaseResult {
    cx.step();
    // refusing the filesystem is fine as well
    let Ok(fs) = m.load() else { return Ok(()) };
    let want = replayed(&e.txns[..upto]);
    for (i, t) in e.targets.iter().enumerate() {
        cx.step();
        let got = fs.read(format!("/{i}").as_str()).map_err(|e| format!("read /{i}: {e}"))?;
        let home = pattern(*t, e.j.bs);
        let w = want.get(t).unwrap_or(&home);
        ensure!(got == *w, "/{i}: {}", ops::diff_at(&got, w));
    }
    Ok(())
}

static JENV: Mutex<Vec<(usize, std::sync::Arc<JEnv>)>> = Mutex::new(Vec::new());

/// Every bit of every block of the log, and of the journal superblock.
fn journal_bits(sizes: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let bs = *cx.of(sizes);
        let e = jenv_cached(bs);
        let k = cx.pick(e.of.len() + 1);
        let off = cx.pick(if k == 0 { 1024 } else { bs });
        let bit = cx.pick(8);
        let mut m = e.img.clone();
        cx.input(hash_of(&(bs, k, off, bit)));
        if k == 0 {
            cx.describe(|| format!("{bs}-byte blocks: journal superblock, bit {bit} of byte {off:#x} flipped"));
            m.block_mut(e.j.phys[0])[off] ^= 1 << bit;
            cx.step();
            ensure!(m.load().is_err(), "the filesystem loads");
            return Ok(());
        }
        let t = e.of[k - 1];
        cx.describe(|| format!("{bs}-byte blocks: log block {} (transaction {t}), bit {bit} of byte {off:#x} flipped", k - 1));
        m.block_mut(e.j.phys[e.j.pos(k - 1)])[off] ^= 1 << bit;
        jcheck(cx, &m, &e, t)
    }
}

/// Log blocks that are right for another place.
fn journal_transplant(cx: &mut Cx) -> CaseResult {
    let e = jenv_cached(1024);
    let mut m = e.img.clone();
    let k = cx.pick(e.of.len());
    let t = e.of[k];
    let pos = e.j.phys[e.j.pos(k)];
    let old = m.get_block(pos);
    let c = cx.pick(5);
    match c {
        // another block of the log
        0 => {
            let o = cx.pick(e.of.len());
            let b = m.get_block(e.j.phys[e.j.pos(o)]);
            // a commit or descriptor block of the same transaction is valid
            // in the place of another one
            if e.of[o] == t && get_type(&b).is_some() && get_type(&old).is_some() {
                return Ok(());
            }
            m.set_block(pos, b);
        }
        // checksum of another journal
        1 => {
            let mut j2 = e.j.clone();
            j2.uuid[cx.pick(16)] ^= 1 << cx.pick(8);
            let mut b = old.clone();
            match get_type(&b) {
                Some(T_COMMIT) => j2.csum_commit(&mut b),
                Some(T_DESC) | Some(T_REVOKE) => j2.csum_tail(&mut b),
                _ => return Ok(()),
            }
            m.set_block(pos, b);
        }
        // sequence number changed, checksum right
        2 => {
            let x = 1u32 << cx.pick(32);
            let mut b = old.clone();
            let Some(ty) = get_type(&b) else { return Ok(()) };
            let s = u32::from_be_bytes(b[8..12].try_into().unwrap());
            put32be(&mut b, 8, s ^ x);
            if ty == T_COMMIT { e.j.csum_commit(&mut b) } else { e.j.csum_tail(&mut b) }
            m.set_block(pos, b);
        }
        // zeroed, all ones
        3 => m.set_block(pos, vec![0; 1024]),
        _ => m.set_block(pos, vec![0xff; 1024]),
    }
    if m.get_block(pos) == old {
        return Ok(());
    }
    cx.describe(|| format!("log block {k} (transaction {t}) replaced, kind {c}"));
    cx.input(hash_of(&m.get_block(pos)));
    jcheck(cx, &m, &e, t)
}

/// Stored checksums of the journal with special values, pairs of bits
/// flipped, and all values of either half.
fn journal_stored(all16: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let e = jenv_cached(1024);
        let mut sites: Vec<(usize, u64, usize)> = vec![(0, e.j.phys[0], 0xfc)];
        for (k, t) in e.of.iter().enumerate() {
            let p = e.j.phys[e.j.pos(k)];
            let b = e.img.get_block(p);
            match get_type(&b) {
                Some(T_COMMIT) => sites.push((*t, p, 16)),
                Some(T_DESC) => {
                    sites.push((*t, p, 1020));
                    // checksums of the logged blocks
                    let mut o = 12;
                    for _ in &e.txns[*t].logs {
                        sites.push((*t, p, o + 12));
                        o += if b[o + 7] as u32 & F_SAME_UUID == 0 { 32 } else { 16 };
                    }
                }
                Some(T_REVOKE) => sites.push((*t, p, 1020)),
                _ => {}
            }
        }
        let s = cx.pick(sites.len());
        let (t, p, o) = sites[s];
        let mut b = e.img.get_block(p);
        let r = u32::from_be_bytes(b[o..o + 4].try_into().unwrap());
        let v = match cx.pick(4) {
            0 => *cx.of(&[
                0,
                !0,
                !r,
                r.swap_bytes(),
                r.rotate_left(16),
                r.reverse_bits(),
                r.wrapping_add(1),
                r.wrapping_sub(1),
                r & 0xffff,
                r & 0xffff_0000,
                r & 0xff,
                (!r).swap_bytes(),
                r ^ e.j.seed(),
                e.j.seed(),
            ]),
            1 => {
                let (i, j) = (cx.pick(32), cx.pick(32));
                if i == j {
                    return Ok(());
                }
                r ^ (1 << i) ^ (1 << j)
            }
            c => {
                let x = cx.pick(if all16 { 65536 } else { 256 }) as u32;
                match (c, all16) {
                    (2, true) => (r & 0xffff_0000) | x,
                    (_, true) => (r & 0xffff) | x << 16,
                    (2, _) => (r & 0xffff_ff00) | x,
                    _ => (r & 0xff_ffff) | x << 24,
                }
            }
        };
        if v == r {
            return Ok(());
        }
        cx.describe(|| format!("stored checksum {s} (block {p}, offset {o:#x}, transaction {t}): {v:#x} instead of {r:#x}"));
        cx.input(hash_of(&(s, v)));
        put32be(&mut b, o, v);
        if o >= 24 && o != 1020 && s > 0 {
            e.j.csum_tail(&mut b);
        }
        let mut m = e.img.clone();
        m.set_block(p, b);
        if s == 0 {
            cx.step();
            ensure!(m.load().is_err(), "the filesystem loads");
            return Ok(());
        }
        jcheck(cx, &m, &e, t)
    }
}

fn jenv_cached(bs: usize) -> std::sync::Arc<JEnv> {
    let mut v = JENV.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = v.iter().find(|x| x.0 == bs) {
        return x.1.clone();
    }
    let e = std::sync::Arc::new(jenv(bs));
    v.push((bs, e.clone()));
    e
}

fn get_type(b: &[u8]) -> Option<u32> {
    let be = |o: usize| u32::from_be_bytes(b[o..o + 4].try_into().unwrap());
    (be(0) == MAGIC).then(|| be(4))
}

pub fn prop(t: bool) -> Prop {
    const Q: &[usize] = &[0, 1, 2, 3];
    const A: &[usize] = &[0, 1, 2, 3, 4];
    const Q1: &[usize] = &[0, 1];
    Prop {
        id: "P10",
        level: "fault_enumeration",
        rule: "",
        assumptions: &[
            "the covered bytes of each structure are those of fs/ext4 and fs/jbd2 (e.g. entries of index nodes above the count and the header of a leaf's checksum tail are not covered)",
            "turning off the metadata checksum feature itself is undetectable",
            "damage that a 16-bit checksum cannot see is excluded by computing it",
            "the clean results are those of a twin image without checksums",
        ],
        sections: vec![
            Section::new("bits", if t { "every bit of superblock, group descriptors, inodes, directory leaves, index root and nodes, extent blocks; 5 geometries; all operations" } else { "every bit of superblock, group descriptors, inodes, directory leaves, index root and nodes, extent blocks; 4 geometries; all dependent operations and the listings (all others for every 16th bit)" }, bits(if t { A } else { Q })),
            Section::new("overwrite", "every 8-byte aligned start x 8/64/512/all covered bytes x zeros/ones/complement/other data, each structure", words(if t { A } else { Q1 })),
            Section::new("stored", if t { "stored checksums: 12 special values, all pairs of bits, all 2^16 values of each half" } else { "stored checksums: 12 special values, all pairs of bits, all values of 16-bit ones" }, stored(t, if t { A } else { Q })),
            Section::new("transplant", "structures valid elsewhere (other directory, file, inode, group, generation, filesystem seed, seed source), every structure x 5 geometries", transplant),
            Section::new("accept", if t { "7 block sizes x 4 inode sizes x 6 extra sizes x 4 descriptor sizes x 4 seeds x 2 uuids x 3 generations x extents or not x 3 hash algorithms" } else { "2 block sizes x 4 inode sizes x 6 extra sizes x 4 descriptor sizes x 4 seeds x 3 generations x extents or not" }, accept(t)),
            Section::new("accept-64k", "64 KiB blocks: 3 inode sizes x extents or not", accept64),
            Section::new("journal-bits", if t { "every bit of the journal superblock and of every log block of 3 transactions, 1024- and 4096-byte blocks" } else { "every bit of the journal superblock and of every log block of 3 transactions, 1024-byte blocks" }, journal_bits(if t { &[1024, 4096] } else { &[1024] })),
            Section::new("journal-transplant", "every log block replaced by every other, by other journals' or sequences' (every bit), zeros, ones", journal_transplant),
            Section::new("journal-stored", if t { "every stored checksum of the journal (superblock, descriptor, data, revoke, commit): 14 special values, all pairs of bits, all values of each half" } else { "every stored checksum of the journal (superblock, descriptor, data, revoke, commit): 14 special values, all pairs of bits, all values of the first and last byte" }, journal_stored(t)),
        ],
        validate: None,
    }
}
