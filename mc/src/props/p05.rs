//! P05: name lookup agrees with the directory listing.

use super::p01::cached;
use super::p04::{self, D, check_list, dir_meta, expect_rows, typed_ino};
use crate::crypto::dirhash;
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::hashnames::{SPECIAL, Special};
use crate::htree::{self, Dx, Place};
use crate::img::*;
use crate::ops::{self, Kind, Val};
use crate::Prop;
use ext4_view::Ext4;

#[derive(Clone, Copy, Debug, Hash)]
pub struct HashCfg {
    pub alg: u8,
    pub seed: [u32; 4],
    pub unsigned: bool,
}
pub const S: [u32; 4] = [0x1111_2222, 0x3333_4444, 0x5555_6666, 0x7777_8888];

fn hash_cfg(cx: &mut Cx) -> HashCfg {
    let alg = 1 + cx.pick(2) as u8;
    let seed = *cx.of(&[[0; 4], S]);
    let unsigned = cx.flag();
    HashCfg { alg, seed, unsigned }
}

fn image(k: usize, h: &HashCfg) -> Img {
    let slot = 1 + k * 4 + (h.seed[0] != 0) as usize * 2 + h.unsigned as usize;
    cached(slot, || {
        let mut g = p04::geo(k);
        g.hash_seed = h.seed;
        g.hash_unsigned = Some(h.unsigned);
        g.compat |= COMPAT_DIR_INDEX;
        p04::base(g)
    })
}

fn path(name: &[u8]) -> Vec<u8> {
    let mut p = b"/d/".to_vec();
    p.extend_from_slice(name);
    p
}

/// Looks up `name`; `want` is the inode it must resolve to.
pub fn lookup(fs: &Ext4, name: &[u8], want: Option<u32>) -> CaseResult {
    let p = path(name);
    let got = ops::run(fs, Kind::SymMeta, &p);
    match want {
        Some(ino) => {
            let mt = typed_ino((ino - 14) as u8).1;
            ensure!(
                got == Ok(Val::Meta(mt.clone())),
                "lookup of {:?} gives {} instead of inode {ino}",
                String::from_utf8_lossy(name),
                ops::show(&got)
            );
        }
        None => {
            ensure!(
                got == Err("NotFound".into()),
                "lookup of absent {:?} gives {}",
                String::from_utf8_lossy(name),
                ops::show(&got)
            );
            let e = ops::run(fs, Kind::Exists, &p);
            ensure!(e == Ok(Val::Bool(false)), "exists of absent name gives {}", ops::show(&e));
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub name: Vec<u8>,
    pub hash: u32,
    pub t: u8,
    pub live: bool,
}
impl Ent {
    fn rec(&self) -> Rec {
        let ino = if self.live { typed_ino(self.t).0 } else { 0 };
        Rec::new(ino, &self.name, self.t)
    }
}

pub fn sorted(names: &[Vec<u8>], h: &HashCfg) -> Vec<Ent> {
    let mut v: Vec<Ent> = names
        .iter()
        .enumerate()
        .map(|(i, n)| Ent {
            name: n.clone(),
            hash: dirhash(n, h.alg, h.seed, h.unsigned),
            t: (i % 7 + 1) as u8,
            live: true,
        })
        .collect();
    v.sort_by(|a, b| (a.hash, &a.name).cmp(&(b.hash, &b.name)));
    v
}

fn dot_recs() -> Vec<Rec> {
    vec![Rec::new(D, b".", FT_DIR), Rec::new(2, b"..", FT_DIR)]
}

fn absent(names: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> =
        vec![b"?".to_vec(), b"...".to_vec(), vec![b'a'; 255], vec![0xff; 3], b"..x".to_vec()];
    for n in names.iter().take(12) {
        let mut x = n.clone();
        x.pop();
        v.push(x);
        let mut y = n.clone();
        if y.len() < 255 {
            y.push(b'x');
            v.push(y.clone());
        }
        let mut z = n.clone();
        *z.last_mut().unwrap() ^= 0x20;
        v.push(z);
    }
    v.retain(|x| {
        !x.is_empty()
            && x != b"."
            && x != b".."
            && !names.contains(x)
            && !x.contains(&0)
            && !x.contains(&b'/')
    });
    v.sort();
    v.dedup();
    v
}

fn check_all(m: &Img, ents: &[Ent], nblocks: usize) -> CaseResult {
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    let mut all = dot_recs();
    all.extend(ents.iter().map(|e| e.rec()));
    let want = expect_rows(b"/d", &all, &dir_meta(m, D, nblocks), &dir_meta(m, 2, 1));
    check_list(&fs, b"/d", &want)?;
    for e in ents {
        lookup(&fs, &e.name, e.live.then(|| typed_ino(e.t).0))?;
    }
    let names: Vec<Vec<u8>> = ents.iter().map(|e| e.name.clone()).collect();
    for a in absent(&names) {
        lookup(&fs, &a, None)?;
    }
    for (n, ino) in [(&b"."[..], D), (b"..", 2)] {
        let got = ops::run(&fs, Kind::Meta, &path(n));
        let w = dir_meta(m, ino, if ino == D { nblocks } else { 1 });
        ensure!(got == Ok(Val::Meta(w)), "lookup of {n:?} gives {}", ops::show(&got));
    }
    Ok(())
}

/// Chooses every way to cut the sorted entries into leaves. Keys are exact
/// or as low as the previous leaf allows; empty leaves may be inserted.
fn cut(cx: &mut Cx, ents: &[Ent], m: &Img) -> Option<Vec<(u32, Dx)>> {
    let (bs, tail) = (m.bs(), m.g.csum);
    let mut leaves: Vec<(u32, Vec<Rec>)> = vec![(0, vec![])];
    for (i, e) in ents.iter().enumerate() {
        // in front of the first entry only an empty leaf may be put
        let c = cx.pick(4);
        let prev = if i == 0 { None } else { Some(ents[i - 1].hash) };
        if i == 0 && c != 3 {
            if c > 0 {
                return None;
            }
            leaves[0].1.push(e.rec());
            continue;
        }
        let cont = prev == Some(e.hash);
        let exact = if cont { e.hash | 1 } else { e.hash };
        let low = match prev {
            Some(p) if !cont => p + 2,
            Some(_) => exact,
            None => e.hash & !0xff,
        };
        match c {
            0 => {}
            1 => leaves.push((exact, vec![])),
            2 => {
                if low == exact {
                    return None;
                }
                leaves.push((low, vec![]))
            }
            _ => {
                if i > 0 && low == exact && !cont {
                    return None;
                }
                if i > 0 {
                    leaves.push((low, vec![]));
                }
                leaves.push((exact, vec![]));
            }
        }
        leaves.last_mut().unwrap().1.push(e.rec());
    }
    let mut out = vec![];
    for (k, r) in leaves {
        out.push((k, Dx::Leaf(dir_block(&r, bs, tail)?)));
    }
    Some(out)
}

fn sig(tree: &[(u32, Dx)]) -> Vec<(u32, usize)> {
    tree.iter()
        .map(|(k, d)| match d {
            Dx::Leaf(b) => (*k, hash_of(b) as usize),
            Dx::Node(v) => (*k, hash_of(&sig(v)) as usize),
        })
        .collect()
}

fn partitions(cfgs: &'static [usize], n: usize, depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let h = hash_cfg(cx);
        let k = *cx.of(cfgs);
        let names: Vec<Vec<u8>> = [
            "a".as_bytes(),
            "gr\u{fc}n".as_bytes(),
            b"readme.txt",
            b"\xff\xfe\x80",
            "\u{65e5}\u{672c}\u{8a9e}-0123456789-0123456789-0123456789".as_bytes(),
            b"abcdefghijklmnop",
            b"x\x81y",
        ][..n]
            .iter()
            .map(|x| x.to_vec())
            .collect();
        let mut m = image(k, &h);
        let ents = sorted(&names, &h);
        let Some(leaves) = cut(cx, &ents, &m) else { return Ok(()) };
        let nl = leaves.len();
        let tree = p04::grouping(cx, leaves, if nl > 6 { 0 } else { depth });
        let place = *cx.of(if nl > 4 { &htree::PLACES[..1] } else { &htree::PLACES[..] });
        cx.describe(|| format!("cfg {k} {h:?} {place:?} depth {} keys {:x?}", tree[0].1.depth(), tree.iter().map(|t| t.0).collect::<Vec<_>>()));
        cx.input(hash_of(&(k, h, place, sig(&tree))));
        let nb = htree::write(&mut m, D, 2, h.alg, &tree, place).len();
        cx.step();
        cx.outcome(hash_of(&(nb, tree[0].1.depth())));
        check_all(&m, &ents, nb)
    }
}

fn special(h: &HashCfg) -> &'static Special {
    SPECIAL.iter().find(|s| s.alg == h.alg && s.seed == h.seed).unwrap()
}

/// Three names with the same hash plus neighbours, spread over leaves in
/// every way, each live or removed.
fn collisions(cfgs: &'static [usize], two: bool, depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let h = hash_cfg(cx);
        let k = *cx.of(cfgs);
        let sp = special(&h);
        let mut names: Vec<Vec<u8>> =
            sp.triples[0].iter().map(|s| s.as_bytes().to_vec()).collect();
        if two {
            names.extend(sp.triples[1].iter().take(2).map(|s| s.as_bytes().to_vec()));
        } else {
            names.push(b"a".to_vec());
        }
        let mut ents = sorted(&names, &h);
        for i in 0..3 {
            let n = sp.triples[0][i].as_bytes();
            let e = ents.iter_mut().find(|e| e.name == n).unwrap();
            e.live = !cx.flag();
        }
        ensure!(
            ents.windows(3).any(|w| w[0].hash == w[1].hash && w[1].hash == w[2].hash),
            "harness: no collision"
        );
        let mut m = image(k, &h);
        let Some(leaves) = cut(cx, &ents, &m) else { return Ok(()) };
        let tree = p04::grouping(cx, leaves, depth);
        cx.describe(|| format!("cfg {k} {h:?} depth {} {ents:?}", tree[0].1.depth()));
        cx.input(hash_of(&(k, h, sig(&tree))));
        let nb = htree::write(&mut m, D, 2, h.alg, &tree, Place::Natural).len();
        cx.step();
        cx.outcome(hash_of(&(nb, tree[0].1.depth())));
        check_all(&m, &ents, nb)
    }
}

/// Names at both ends of the hash space (0, and the reserved last value).
fn extremes(cfgs: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let h = hash_cfg(cx);
        let k = *cx.of(cfgs);
        let sp = special(&h);
        let names: Vec<Vec<u8>> = [sp.zero, sp.before_eof, sp.eof[0], sp.eof[1], "a"]
            .iter()
            .map(|s| s.as_bytes().to_vec())
            .collect();
        let ents = sorted(&names, &h);
        ensure!(ents[0].hash == 0 && ents[4].hash == 0xffff_fffc, "harness: hashes");
        let mut m = image(k, &h);
        let Some(leaves) = cut(cx, &ents, &m) else { return Ok(()) };
        let tree = p04::grouping(cx, leaves, 1);
        cx.describe(|| format!("cfg {k} {h:?} depth {} {ents:x?}", tree[0].1.depth()));
        cx.input(hash_of(&(k, h, sig(&tree))));
        let nb = htree::write(&mut m, D, 2, h.alg, &tree, Place::Natural).len();
        cx.step();
        cx.outcome(hash_of(&(nb, tree[0].1.depth())));
        check_all(&m, &ents, nb)
    }
}

/// Packs sorted entries into leaves of at most `fill` bytes and builds as
/// many index levels as needed, with nodes of at most `width` entries.
fn pack(m: &Img, ents: &[Ent], fill: usize, width: usize) -> Vec<(u32, Dx)> {
    let (bs, tail) = (m.bs(), m.g.csum);
    let mut leaves: Vec<(u32, Vec<Rec>)> = vec![(0, vec![])];
    let mut used = 0;
    for (i, e) in ents.iter().enumerate() {
        let r = e.rec();
        if used + r.min_len() > fill {
            let cont = i > 0 && ents[i - 1].hash == e.hash;
            leaves.push((e.hash | cont as u32, vec![]));
            used = 0;
        }
        used += r.min_len();
        leaves.last_mut().unwrap().1.push(r);
    }
    let mut level: Vec<(u32, Dx)> = leaves
        .into_iter()
        .map(|(k, r)| (k, Dx::Leaf(dir_block(&r, bs, tail).unwrap())))
        .collect();
    let (lr, ln) = htree::limits(bs, tail);
    let w = width.min(ln);
    while level.len() > lr.min(width) {
        level = level.chunks(w).map(|c| (c[0].0, Dx::Node(c.to_vec()))).collect();
    }
    level
}

fn name_sets(many: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let h = hash_cfg(cx);
        let k = *cx.of(&[0usize, 5]);
        let ok = |b: u8| b != 0 && b != b'/';
        let bytes: Vec<u8> = (0..=255u8).filter(|b| ok(*b)).collect();
        let (names, what): (Vec<Vec<u8>>, String) = match cx.pick(4) {
            0 => {
                let p = *cx.of(&[
                    &b"a"[..],
                    b"\x80",
                    b"\xff",
                    b"\x7f\x80",
                    b"ab\xc3\xa9",
                    b"\x01\xfe\x42",
                ]);
                (
                    (1..=255).map(|n| p.iter().copied().cycle().take(n).collect()).collect(),
                    format!("all lengths of {p:x?}"),
                )
            }
            1 => (
                bytes.iter().filter(|b| **b != b'.').map(|b| vec![*b]).collect(),
                "one byte".into(),
            ),
            2 => {
                let a = *cx.of(&bytes);
                (
                    bytes.iter().map(|b| vec![a, *b]).filter(|n| n != b"..").collect(),
                    format!("{a:#x} and a byte"),
                )
            }
            _ => {
                let n = *cx.of(many);
                (
                    (0..n).map(|i| format!("IMG_{i:06}.jpeg").into_bytes()).collect(),
                    format!("{n} files"),
                )
            }
        };
        let mut m = image(k, &h);
        let (bs, tail) = (m.bs(), m.g.csum);
        let end = bs - if tail { 12 } else { 0 };
        let fill = *cx.of(&[end, end / 2]);
        let width = *cx.of(&[1000usize, 20]);
        if names.len() > 300 && fill != end {
            return Ok(());
        }
        let ents = sorted(&names, &h);
        let tree = pack(&m, &ents, fill, width);
        if tree[0].1.depth() > 2 {
            return Ok(());
        }
        cx.describe(|| format!("cfg {k} {h:?}: {what}, fill {fill}, width {width}, depth {}", tree[0].1.depth()));
        cx.input(hash_of(&(k, h, sig(&tree))));
        m.g.blocks_count = m.g.blocks_count.max(m.next + 5000);
        let rest = m.next + 4000;
        m.g.spread_tables(m.g.itab[0], rest);
        m.finish();
        let nb = htree::write(&mut m, D, 2, h.alg, &tree, Place::Natural).len();
        cx.step();
        cx.outcome(hash_of(&(nb, tree[0].1.depth())));
        check_all(&m, &ents, nb)
    }
}

/// Index nodes of every width up to the largest possible: the root, a node
/// below it, or the second of two nodes.
fn wide_index(all: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(&[5usize, 2, 0, 1]);
        let mut h = HashCfg { alg: 1, seed: S, unsigned: false };
        let mut m = image(k, &h);
        let bs = *cx.of(if k == 5 || k == 2 { &[0usize, 16384][..] } else { &[0][..] });
        if bs > 0 {
            h.unsigned = true;
            m = cached(302 + k, || {
                let mut g = Geo::new(bs).extents();
                g.csum = k == 5;
                g.hash_seed = h.seed;
                g.hash_unsigned = Some(true);
                g.compat |= COMPAT_DIR_INDEX;
                g.blocks_count = 8000;
                p04::base(g)
            });
        }
        let (bs, tail) = (m.bs(), m.g.csum);
        let (lr, ln) = htree::limits(bs, tail);
        let shape = cx.pick(3);
        let max = if shape == 0 { lr } else { ln };
        let n = if bs <= 4096 {
            1 + cx.pick(max)
        } else {
            let mut v: Vec<usize> = vec![];
            for e in 0..12 {
                v.extend([(1usize << e) - 1, 1 << e, (1 << e) + 1]);
            }
            v.extend((1..max).step_by(if all { 37 } else { 311 }));
            v.extend([max - 2, max - 1, max]);
            v.retain(|n| (1..=max).contains(n));
            v.sort();
            v.dedup();
            *cx.of(&v)
        };
        let names: Vec<Vec<u8>> = (0..n + 1).map(|i| format!("IMG_{i:06}.jpeg").into_bytes()).collect();
        let ents = sorted(&names, &h);
        ensure!(ents.windows(2).all(|w| w[0].hash != w[1].hash), "harness: colliding names");
        // one entry in each leaf, two in the first
        let mut leaves = vec![];
        for i in 0..n {
            let r: Vec<Rec> = if i == 0 { vec![ents[0].rec(), ents[1].rec()] } else { vec![ents[i + 1].rec()] };
            let key = if i == 0 { 0 } else { ents[i + 1].hash };
            leaves.push((key, Dx::Leaf(dir_block(&r, bs, tail).unwrap())));
        }
        let tree = match shape {
            0 => leaves,
            1 => vec![(0, Dx::Node(leaves))],
            _ => {
                if n < 2 {
                    return Ok(());
                }
                let rest = leaves.split_off(1);
                vec![(0, Dx::Node(leaves)), (rest[0].0, Dx::Node(rest))]
            }
        };
        cx.describe(|| format!("block size {bs}, checksums {tail}, {n} leaves, {}", ["in the root", "in one node", "in the second node, less one"][shape]));
        cx.input(hash_of(&(bs, tail, n, shape)));
        m.g.blocks_count = m.g.blocks_count.max(m.next + 5000);
        let rest = m.next + 4000;
        m.g.spread_tables(m.g.itab[0], rest);
        m.finish();
        let nb = htree::write(&mut m, D, 2, h.alg, &tree, Place::Natural).len();
        cx.step();
        cx.outcome(hash_of(&(nb, shape)));
        check_all(&m, &ents, nb)
    }
}

/// Directories of up to 2^17 blocks: leaves around every power of two.
fn far_blocks(list: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let ext = cx.flag();
        let k = 2 + cx.pick(16);
        let h = HashCfg { alg: 2, seed: [0; 4], unsigned: false };
        let n = (1usize << k) + 3;
        let bs = 1024;
        // (the block of the first leaf)
        let mut m = cached(500 + 2 * k + ext as usize, || {
            let mut g = Geo::new(bs);
            if ext {
                g = g.extents();
            }
            g.hash_unsigned = Some(false);
            g.hash_seed = h.seed;
            g.compat |= COMPAT_DIR_INDEX;
            g.blocks_count = 280_000;
            g.spread_tables(200, 800);
            let mut m = p04::base(g);
            m.next = 140_000;
            let p = m.alloc_n(n as u64);
            let mut i = Ino::dir();
            i.flags |= FL_INDEX;
            i.size = (n * bs) as u64;
            m.map_blocks(D, i, &(p..p + n as u64).collect::<Vec<_>>());
            let empty = std::sync::Arc::new(dir_block(&[], bs, false).unwrap());
            for b in p..p + n as u64 {
                m.blocks.insert(b, empty.clone());
            }
            m.finish();
            m
        });
        let p = 140_000u64;
        let names: Vec<Vec<u8>> = (0..4).map(|i| format!("name{i}").into_bytes()).collect();
        let ents = sorted(&names, &h);
        // the four leaves are at 2^k-1, 2^k, 2^k+1 and 2^k+2, in some order
        let mut left: Vec<u32> = (0..4).map(|i| (1u32 << k) - 1 + i).collect();
        let mut idx = vec![];
        for (i, e) in ents.iter().enumerate() {
            let b = left.remove(cx.pick(left.len()));
            idx.push((if i == 0 { 0 } else { e.hash }, b));
            m.set_block(p + b as u64, dir_block(&[e.rec()], bs, false).unwrap());
        }
        m.set_block(p, htree::root_block(bs, D, 2, h.alg, false, &idx));
        cx.describe(|| format!("directory of {n} blocks, leaves at {:?}, extents {ext}", idx.iter().map(|x| x.1).collect::<Vec<_>>()));
        cx.input(hash_of(&(ext, k, &idx)));
        cx.step();
        if list || k < 9 {
            return check_all(&m, &ents, n);
        }
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        for e in &ents {
            lookup(&fs, &e.name, Some(typed_ino(e.t).0))?;
        }
        for a in absent(&names).iter().take(4) {
            lookup(&fs, a, None)?;
        }
        cx.outcome(hash_of(&k));
        Ok(())
    }
}

/// Every combination of words of the hash seed, on a directory of many
/// leaves.
fn seeds(cx: &mut Cx) -> CaseResult {
    let alg = 1 + cx.pick(2) as u8;
    let unsigned = cx.flag();
    let mut seed = [0; 4];
    for (i, w) in seed.iter_mut().enumerate() {
        *w = *cx.of(&[0, 1, 0x8000_0000, S[i], 0xffff_ffff]);
    }
    let h = HashCfg { alg, seed, unsigned };
    let names: Vec<Vec<u8>> =
        (0..60usize).map(|i| format!("{}{i}\u{e9}", "n".repeat(i % 37)).into_bytes()).collect();
    let mut m = cached(300, || {
        let mut g = p04::geo(0);
        g.compat |= COMPAT_DIR_INDEX;
        p04::base(g)
    });
    m.g.hash_seed = seed;
    m.g.hash_unsigned = Some(unsigned);
    m.finish();
    let ents = sorted(&names, &h);
    let tree = pack(&m, &ents, 200, 1000);
    cx.describe(|| format!("{h:?}"));
    cx.input(hash_of(&h));
    let nb = htree::write(&mut m, D, 2, h.alg, &tree, Place::Natural).len();
    cx.step();
    cx.outcome(hash_of(&sig(&tree)));
    check_all(&m, &ents, nb)
}

/// Linear directories of one or two blocks.
fn linear(cfgs: &'static [usize], n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(cfgs);
        let mut m = cached(400 + k, || p04::base(p04::geo(k)));
        let (bs, tail) = (m.bs(), m.g.csum);
        // names that are prefixes of each other or differ late
        let pal: [Vec<u8>; 6] = [
            b"a".to_vec(),
            b"ab".to_vec(),
            b"abc".to_vec(),
            b"\xe4".to_vec(),
            vec![b'L'; 255],
            [vec![b'L'; 254], vec![b'M']].concat(),
        ];
        let len = 1 + cx.pick(n);
        let mut left: Vec<usize> = (0..pal.len()).collect();
        let mut ents = vec![];
        let mut blocks: Vec<Vec<Rec>> = vec![dot_recs()];
        for i in 0..len {
            let c = left.remove(cx.pick(left.len()));
            let e = Ent {
                name: pal[c].clone(),
                hash: 0,
                t: (i % 7 + 1) as u8,
                live: !cx.flag(),
            };
            if cx.flag() {
                blocks.push(vec![]);
            }
            blocks.last_mut().unwrap().push(e.rec());
            ents.push(e);
        }
        let mut raw = vec![];
        for b in &blocks {
            let Some(b) = dir_block(b, bs, tail) else { return Ok(()) };
            raw.push(b);
        }
        cx.describe(|| format!("cfg {k}: {blocks:?}"));
        cx.input(hash_of(&(k, &raw)));
        let nb = raw.len();
        m.dir_blocks(D, Ino::dir(), raw);
        cx.step();
        cx.outcome(hash_of(&(nb, ents.iter().filter(|e| e.live).count())));
        for p in pal.iter().skip(len) {
            if !ents.iter().any(|e| e.name == *p) {
                let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
                lookup(&fs, p, None)?;
            }
        }
        check_all(&m, &ents, nb)
    }
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P05",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the image builder produces valid directories (see `mc --validate-builder`); its hash functions agree with debugfs dx_hash",
            "hash algorithms half-MD4 and TEA (the library supports no others)",
        ],
        sections: vec![
            Section::new(
                "linear",
                if t { "all ordered selections of <=5 names of 6 (prefixes, long names), each live or removed, cut into blocks in every way; 4 geometries" } else { "all ordered selections of <=4 names of 6 (prefixes, long names), each live or removed, cut into blocks in every way; 2 geometries" },
                linear(if t { &[0, 1, 2, 6] } else { &[0, 1] }, if t { 5 } else { 4 }),
            ),
            Section::new(
                "linear-64k",
                if t { "the same with <=3 names, 64 KiB blocks" } else { "the same with <=2 names, 64 KiB blocks" },
                linear(&[3], if t { 3 } else { 2 }),
            ),
            Section::new(
                "partitions",
                if t { "6 names cut into leaves in every way (exact or low keys, empty leaves), all groupings into <=2 index levels, 3 placements; 2 algorithms x 2 seeds x 2 signs; 4 geometries" } else { "4 names cut into leaves in every way (exact or low keys, empty leaves), all groupings into <=2 index levels, 3 placements; 2 algorithms x 2 seeds x 2 signs; 2 geometries" },
                partitions(if t { &[0, 1, 3, 5] } else { &[0, 1] }, if t { 6 } else { 4 }, 2),
            ),
            Section::new(
                "collisions",
                "three colliding names (each live or removed) and a neighbour cut into leaves in every way incl. empty continuation leaves, all groupings into <=1 (thorough 2) index levels; 2 algorithms x 2 seeds x 2 signs",
                collisions(&[0, 1], false, if t { 2 } else { 1 }),
            ),
            Section::new(
                "two-collisions",
                "a colliding triple and a colliding pair, every cut, all groupings into <=1 index level",
                collisions(if t { &[0, 5] } else { &[1] }, true, if t { 1 } else { 0 }),
            ),
            Section::new(
                "extremes",
                "names with hash 0 and with the reserved last hash value, every cut, all groupings into <=1 index level",
                extremes(if t { &[0, 1] } else { &[1] }),
            ),
            Section::new(
                "seeds",
                "every hash seed with words from {0, 1, the top bit, mixed, all ones}, 60 names in many leaves; 2 algorithms x 2 signs",
                seeds,
            ),
            Section::new(
                "name-sets",
                "all name lengths x 6 byte patterns, all 1- and 2-byte names, directories of up to thousands of files with up to 2 index levels; 2 algorithms x 2 seeds x 2 signs, 2 geometries, 2 fill rates, 2 node widths",
                name_sets(if t { &[500, 3000, 9000, 20000] } else { &[500, 3000] }),
            ),
            Section::new(
                "wide-index",
                "index nodes with every number of entries up to the largest possible (1 and 4 KiB blocks; 16 KiB: around powers of two, every 311th, thorough every 37th), at the root, below it, or second below it",
                wide_index(t),
            ),
            Section::new(
                "far-blocks",
                if t { "index entries pointing around every power of two up to 2^17, in every order, extents and block map; with listings" } else { "index entries pointing around every power of two up to 2^17, in every order, extents and block map" },
                far_blocks(t),
            ),
            super::mke::directories(true),
        ],
        validate: None,
    }
}
