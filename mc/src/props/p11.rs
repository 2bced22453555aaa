//! P11: no input image makes the library panic, hang or exhaust memory.

use super::p10::{self, EXT, F, HT, JINO, LIN, S, SLOW, Site};
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::guard;
use crate::img::*;
use crate::jbd::*;
use crate::ops::{self, Kind, Obs, Val};
use crate::Prop;
use ext4_view::{Ext4, Ext4Read};
use std::io::{Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// How checksums of a structure are brought in line with its contents.
#[derive(Clone)]
enum Fix {
    None,
    P10(Site),
    JSb,
    JTail,
    JCommit,
}
/// A metadata structure.
#[derive(Clone)]
struct St {
    label: String,
    /// kind of structure, if it is one of P10's
    s: Option<S>,
    blk: u64,
    off: usize,
    len: usize,
    fix: Fix,
    /// fields combined pairwise: offset, width
    hot: Vec<(usize, usize)>,
}
struct Env {
    img: Img,
    sts: Vec<St>,
    names: Vec<Vec<u8>>,
    j: Option<Jnl>,
    used: u64,
}
static ENVS: Mutex<Vec<Option<Arc<Env>>>> = Mutex::new(Vec::new());

const ENV_NAMES: [&str; 7] = [
    "1K blocks, extents",
    "1K blocks, block maps, 4 groups",
    "4K blocks, extents",
    "1K blocks, extents, checksums",
    "2K blocks, extents, 128-byte inodes, checksums",
    "1K blocks, block maps, 4 groups, checksums",
    "journal",
];
const JENV: usize = 6;

/// 527 blocks through direct, indirect and double indirect blocks.
fn remap_big(m: &mut Img) -> Vec<(String, u64)> {
    let bs = m.bs();
    let n = 12 + bs / 4 + bs / 4 + 3;
    let p = m.alloc_n(7);
    let phys: Vec<u64> = (0..n as u64).map(|k| p + k % 7).collect();
    let mut i = Ino::file();
    i.size = (n * bs) as u64 - 5;
    m.map_blocks(EXT, i, &phys);
    let ib = m.inode_bytes(EXT)[0x28..0x28 + 60].to_vec();
    let (ind, dind) = (get32(&ib, 48) as u64, get32(&ib, 52) as u64);
    let d = m.get_block(dind);
    vec![
        ("indirect block".into(), ind),
        ("double indirect block".into(), dind),
        ("block below the double indirect one".into(), get32(&d, 0) as u64),
    ]
}

fn mk_env(k: usize) -> Env {
    if k == JENV {
        return mk_jenv();
    }
    let mut g = p10::geo([0, 2, 4, 0, 1, 2][k]);
    let csum = k >= 3;
    if !csum {
        g.csum = false;
        g.csum_seed = None;
    }
    let mut lay = p10::build(g.clone());
    let mut extra = vec![];
    if g.incompat & INCOMPAT_EXTENTS == 0 {
        extra = remap_big(&mut lay.img);
        lay.img.finish();
    }
    let bs = g.bs;
    let mut sts = vec![];
    for s in p10::sites(&mut lay) {
        let (len, hot): (usize, Vec<(usize, usize)>) = match s.s {
            S::Super => (
                1024,
                vec![(0, 4), (4, 4), (0x14, 4), (0x18, 4), (0x1c, 4), (0x20, 4), (0x28, 4), (0x4c, 4), (0x58, 2), (0x5c, 4), (0x60, 4), (0x64, 4), (0xe0, 4), (0xfe, 2), (0x150, 4), (0x175, 1)],
            ),
            S::Desc(_) => (g.desc_size as usize, vec![(8, 4), (0x28, 4)]),
            S::Inode(_) => {
                let mut h = vec![(0, 2), (4, 4), (0x20, 4), (0x6c, 4)];
                h.extend((0..6).map(|i| (0x28 + 4 * i, 4)));
                h.extend([(0x2a, 2), (0x2c, 2), (0x2e, 2), (0x38, 2), (0x58, 4), (0x5c, 4), (0x60, 4)]);
                if g.inode_size > 128 {
                    h.push((0x80, 2));
                }
                (g.inode_size as usize, h)
            }
            S::Root | S::Lin(_) | S::HtLeaf(_) => {
                let mut h = vec![];
                let b = lay.img.get_block(s.blk);
                let mut o = 0;
                while o + 8 <= bs && h.len() < 12 {
                    h.extend([(o, 4), (o + 4, 2), (o + 6, 1)]);
                    o += (get16(&b, o + 4) as usize).max(8);
                }
                (bs, h)
            }
            S::HtRoot => (bs, vec![(4, 2), (0x10, 2), (0x1c, 1), (0x1d, 1), (0x1e, 1), (0x20, 2), (0x22, 2), (0x24, 4), (0x28, 4), (0x2c, 4)]),
            S::HtNode(_) => (bs, vec![(0, 4), (4, 2), (8, 2), (10, 2), (12, 4), (16, 4), (20, 4)]),
            S::ExtBlock(_) => (bs, vec![(0, 2), (2, 2), (4, 2), (6, 2), (12, 4), (16, 2), (16, 4), (18, 2), (20, 4), (24, 4), (28, 4)]),
        };
        sts.push(St {
            label: format!("{:?}", s.s),
            s: Some(s.s),
            blk: s.blk,
            off: s.off,
            len,
            fix: if csum { Fix::P10(s.clone()) } else { Fix::None },
            hot,
        });
    }
    for (label, blk) in extra {
        sts.push(St { label, s: None, blk, off: 0, len: bs, fix: Fix::None, hot: vec![(0, 4), (4, 4), (bs - 4, 4)] });
    }
    let names = p10::ht_names(&g);
    let used = lay.img.next;
    Env { img: lay.img, sts, names, j: None, used }
}

fn mk_jenv() -> Env {
    let e = p10::jenv(1024);
    let bs = 1024;
    let m = e.img.clone();
    let mut sts = vec![];
    sts.push(St {
        label: "journal superblock".into(),
        s: None,
        blk: e.j.phys[0],
        off: 0,
        len: 1024,
        fix: Fix::JSb,
        hot: vec![(4, 4), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4), (0x28, 4), (0x50, 4)],
    });
    for k in 0..e.of.len() {
        let b = e.img.get_block(e.j.phys[e.j.pos(k)]);
        if get32(&b, 0).swap_bytes() != MAGIC {
            continue;
        }
        let ty = get32(&b, 4).swap_bytes();
        let (fix, hot): (Fix, Vec<(usize, usize)>) = match ty {
            T_DESC => (Fix::JTail, vec![(4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4), (44, 4), (48, 4)]),
            T_REVOKE => (Fix::JTail, vec![(4, 4), (12, 4), (16, 4), (20, 4)]),
            _ => (Fix::JCommit, vec![(4, 4), (8, 4)]),
        };
        sts.push(St { label: format!("log block {k} (type {ty})"), s: None, blk: e.j.phys[e.j.pos(k)], off: 0, len: bs, fix, hot });
    }
    // the journal inode and the superblock again, on this image
    let (blk, off) = m.inode_loc(JINO);
    let mut hot = vec![(0, 2), (4, 4), (0x20, 4), (0x6c, 4)];
    hot.extend((0..6).map(|i| (0x28 + 4 * i, 4)));
    let site = Site { s: S::Inode(JINO), blk, off, covered: vec![], stored: vec![] };
    sts.push(St { label: "journal inode".into(), s: None, blk, off, len: 160, fix: Fix::P10(site), hot });
    let site = Site { s: S::Super, blk: 1, off: 0, covered: vec![], stored: vec![] };
    sts.push(St {
        label: "superblock".into(),
        s: None,
        blk: 1,
        off: 0,
        len: 1024,
        fix: Fix::P10(site),
        hot: vec![(4, 4), (0x14, 4), (0x18, 4), (0x20, 4), (0x28, 4), (0x58, 2), (0x5c, 4), (0x60, 4), (0x64, 4), (0xe0, 4), (0xfe, 2), (0x150, 4)],
    });
    let used = m.next;
    Env { img: e.img, sts, names: vec![], j: Some(e.j), used }
}

fn env(k: usize) -> Arc<Env> {
    let mut v = ENVS.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() <= k {
        v.resize(k + 1, None);
    }
    if v[k].is_none() {
        v[k] = Some(Arc::new(mk_env(k)));
    }
    v[k].clone().unwrap()
}

fn refix(m: &mut Img, e: &Env, st: &St) {
    match &st.fix {
        Fix::None => {}
        Fix::P10(s) => p10::resum(m, s),
        Fix::JSb => Jnl::csum_sb(m.block_mut(st.blk)),
        Fix::JTail => e.j.as_ref().unwrap().csum_tail(m.block_mut(st.blk)),
        Fix::JCommit => e.j.as_ref().unwrap().csum_commit(m.block_mut(st.blk)),
    }
}

fn result_size(o: &Obs) -> usize {
    match o {
        Ok(Val::Bytes(b)) => b.len(),
        Ok(Val::List(l)) => l.iter().map(|x| 1024 + x.0.len() + x.1.len()).sum(),
        // The harness itself collected this many entries.
        Err(e) if e.contains("listing too long") => ops::LIST_CAP * 1024,
        _ => 0,
    }
}

/// Memory beyond what is proportionate is a failure.
fn metered<T>(what: &dyn Fn() -> String, allow: impl Fn(&T) -> usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let mark = guard::mem_mark();
    let r = f();
    let peak = guard::mem_peak(mark);
    let max = allow(&r);
    if peak > max {
        return Err(format!("{}: uses {peak} bytes of memory, expected at most {max}", what()));
    }
    Ok(r)
}

fn run_op(cx: &mut Cx, fs: &Ext4, bs: usize, what: &dyn Fn() -> String, f: impl Fn() -> Obs) -> CaseResult {
    let _ = fs;
    cx.step();
    let o = metered(what, |o: &Obs| (512 << 10) + 64 * bs + 4 * result_size(o), f)?;
    cx.outcome(match &o {
        Ok(_) => 1,
        Err(e) => hash_of(e),
    });
    Ok(())
}

/// Reading this much is legitimate but slow.
fn slow_read(fs: &Ext4, p: &str) -> bool {
    matches!(fs.metadata(p), Ok(m) if (1 << 20..=1 << 30).contains(&m.len()))
}

fn handle(cx: &mut Cx, fs: &Ext4, bs: usize, p: &str) -> CaseResult {
    cx.step();
    metered(&|| format!("handle of {p}"), |_| (512 << 10) + 64 * bs, || {
        let Ok(mut f) = fs.open(p) else { return };
        let len = f.metadata().len();
        let b = bs as u64;
        let mut buf = [0; 100];
        for pos in [0, b - 1, b, len / 2, len.wrapping_sub(1), len, len.wrapping_add(1), 1 << 44, u64::MAX] {
            if pos < len && pos / b > 1 << 10 {
                continue;
            }
            let _ = f.seek_to(pos);
            let _ = f.read_bytes(&mut buf);
            let _ = f.read(&mut buf);
            let _ = f.seek(SeekFrom::Current(i64::MIN));
        }
    })?;
    Ok(())
}

/// Loads the image and uses all of it.
fn walk(cx: &mut Cx, e: &Env, m: &Img) -> CaseResult {
    walk_of(cx, e, m, &[])
}
/// Same; with `of`, only the operations that depend on these structures.
fn walk_of(cx: &mut Cx, e: &Env, m: &Img, of: &[&St]) -> CaseResult {
    let bs = m.bs();
    let dev = e.img.g.blocks_count as usize * bs;
    cx.step();
    let d = m.freeze();
    let r = metered(&|| "load".into(), |_| (1 << 20) + 64 * bs + 2 * dev, || d.load())?;
    cx.outcome(match &r {
        Ok(_) => 2,
        Err(x) => hash_of(&format!("{x}")),
    });
    let Ok(fs) = r else { return Ok(()) };
    use_fs(cx, e, &fs, bs, of)
}

fn use_fs(cx: &mut Cx, e: &Env, fs: &Ext4, bs: usize, of: &[&St]) -> CaseResult {
    let _ = format!("{} {:?} {}", fs.label().display(), fs.label(), fs.uuid());
    if e.j.is_some() {
        for i in 0..4 {
            let p = format!("/{i}");
            if !slow_read(fs, &p) {
                run_op(cx, fs, bs, &|| format!("read {p}"), || ops::run(fs, Kind::Read, p.as_bytes()))?;
            }
        }
        return run_op(cx, fs, bs, &|| "read_dir /".into(), || ops::run(fs, Kind::ReadDir, b"/"));
    }
    let ops = p10::op_list();
    let mut sel: Vec<usize> = (0..ops.len()).collect();
    let mut handles = true;
    if !of.is_empty() {
        let needs = |st: &St, i: usize| match st.s {
            Some(s) => p10::needs(s, ops[i].0, ops[i].1),
            None => ops[i].1 == "/ext",
        };
        sel.retain(|i| of.iter().any(|s| needs(s, *i)));
        handles = of.iter().any(|s| {
            matches!(s.s, None | Some(S::Super | S::Desc(_) | S::Inode(EXT) | S::ExtBlock(_)))
        });
        let max = if cx.tier_thorough { 16 } else { 8 };
        if sel.len() > max {
            // the last ones, which are specific, and some of the others
            let n = sel.len();
            sel = (0..max).map(|i| sel[i * (n - 1) / (max - 1)]).collect();
        }
    }
    for i in sel {
        let (k, p) = ops[i];
        if matches!(k, Kind::Read | Kind::ReadStr) && slow_read(fs, p) {
            continue;
        }
        run_op(cx, fs, bs, &|| p10::op_name(i), || p10::observe(fs, &e.img.g, &e.names, i))?;
    }
    if !handles {
        return Ok(());
    }
    handle(cx, fs, bs, "/ext")?;
    if !of.is_empty() {
        return Ok(());
    }
    handle(cx, fs, bs, "/g")?;
    handle(cx, fs, bs, "/slow/zz")
}

const SOME: [u8; 12] = [0, 1, 2, 3, 4, 7, 8, 12, 0x7f, 0x80, 0xfe, 0xff];

/// Every byte of every structure.
fn bytes(envs: &'static [usize], all: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let st = &e.sts[cx.pick(e.sts.len())];
        let o = cx.pick(st.len);
        let mut m = e.img.clone();
        let b = &mut m.block_mut(st.blk)[st.off + o];
        let old = *b;
        *b = if all {
            cx.pick(256) as u8
        } else {
            match cx.pick(SOME.len() + 3) {
                i if i < SOME.len() => SOME[i],
                12 => old.wrapping_add(1),
                13 => old.wrapping_sub(1),
                _ => old ^ 0x40,
            }
        };
        let new = *b;
        if new == old {
            return Ok(());
        }
        cx.describe(|| format!("{}: {} byte {o:#x} = {new:#x} (was {old:#x})", ENV_NAMES[k], st.label));
        refix(&mut m, &e, st);
        cx.input(hash_of(&(k, &st.label, o, new)));
        walk_of(cx, &e, &m, &[st])
    }
}

/// Interesting values of a field of `w` bytes.
fn values(e: &Env, st: &St, o: usize, w: usize) -> Vec<u32> {
    let bs = e.img.bs() as u32;
    let raw = e.img.get_block(st.blk);
    let be = matches!(st.fix, Fix::JSb | Fix::JTail | Fix::JCommit);
    let rd = |i: usize| raw.get(st.off + o + i).copied().unwrap_or(0) as u32;
    let mut old = (0..w).map(|i| rd(i) << (8 * i)).sum::<u32>();
    if be {
        old = old.swap_bytes() >> (32 - 8 * w);
    }
    let mut v = vec![
        0, 1, 2, 3, 4, 7, 8, 11, 12, 15, 16, 31, 127, 128, 255, 256, bs / 8, bs - 12, bs - 8, bs - 1, bs, bs + 1,
        0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, old.wrapping_add(1), old.wrapping_sub(1), !old,
        old ^ 0x10, old ^ 0x80, old ^ 0x1000,
    ];
    if w == 4 {
        v.extend([
            0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x0200_0000, 0x0100_0000,
            st.blk as u32, e.img.g.blocks_count as u32, e.img.g.blocks_count as u32 - 1, e.img.g.blocks_count as u32 + 1,
            e.used as u32 - 1, old.wrapping_add(0x1_0000), old ^ 0x8_0000, old ^ 0x8_1000, old ^ 0x800,
        ]);
    }
    if w < 4 {
        for x in &mut v {
            *x &= (1 << (8 * w)) - 1;
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x != old);
    if be {
        for x in &mut v {
            *x = (*x << (32 - 8 * w)).swap_bytes();
        }
    }
    v
}
fn put_w(b: &mut [u8], o: usize, w: usize, v: u32) {
    b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
}

/// Every aligned 2- and 4-byte field of every structure.
fn fields(envs: &'static [usize], dense: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let st = &e.sts[cx.pick(e.sts.len())];
        let w = *cx.of(&[2, 4]);
        let step = if dense { 2 } else { w };
        let o = step * cx.pick((st.len - w) / step + 1);
        let vs = values(&e, st, o, w);
        let v = *cx.of(&vs);
        cx.describe(|| format!("{}: {} {w}-byte field {o:#x} = {v:#x}", ENV_NAMES[k], st.label));
        let mut m = e.img.clone();
        put_w(&mut m.block_mut(st.blk)[st.off..], o, w, v);
        refix(&mut m, &e, st);
        cx.input(hash_of(&(k, &st.label, o, w, v)));
        walk_of(cx, &e, &m, &[st])
    }
}

/// Values that pairs of fields take.
fn few(e: &Env, st: &St, o: usize, w: usize) -> Vec<u32> {
    let v = values(e, st, o, w);
    if v.len() <= 10 {
        return v;
    }
    // evenly spread, with both ends
    (0..10).map(|i| v[i * (v.len() - 1) / 9]).collect()
}

/// Pairs of fields of one structure.
fn pairs(envs: &'static [usize], full: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let st = &e.sts[cx.pick(e.sts.len())];
        if st.hot.len() < 2 {
            return Ok(());
        }
        let i = cx.pick(st.hot.len() - 1);
        let j = i + 1 + cx.pick(st.hot.len() - 1 - i);
        let ((o1, w1), (o2, w2)) = (st.hot[i], st.hot[j]);
        let f = |o, w| if full { values(&e, st, o, w) } else { few(&e, st, o, w) };
        let (v1, v2) = (f(o1, w1), f(o2, w2));
        let (a, b) = (*cx.of(&v1), *cx.of(&v2));
        cx.describe(|| format!("{}: {} field {o1:#x} = {a:#x} and {o2:#x} = {b:#x}", ENV_NAMES[k], st.label));
        let mut m = e.img.clone();
        let blk = &mut m.block_mut(st.blk)[st.off..];
        put_w(blk, o1, w1, a);
        put_w(blk, o2, w2, b);
        refix(&mut m, &e, st);
        cx.input(hash_of(&(k, &st.label, o1, a, o2, b)));
        walk_of(cx, &e, &m, &[st])
    }
}

/// Pairs of fields in different structures.
fn cross(envs: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let n = e.sts.len();
        let i = cx.pick(n - 1);
        let j = i + 1 + cx.pick(n - 1 - i);
        let (s1, s2) = (&e.sts[i], &e.sts[j]);
        let (o1, w1) = *cx.of(&s1.hot);
        let (o2, w2) = *cx.of(&s2.hot);
        let f = |s: &St, o, w| {
            let v = values(&e, s, o, w);
            let n = v.len() - 1;
            [v[0], v[n / 3], v[2 * n / 3], v[n]]
        };
        let (v1, v2) = (f(s1, o1, w1), f(s2, o2, w2));
        let (a, b) = (*cx.of(&v1), *cx.of(&v2));
        cx.describe(|| format!("{}: {} field {o1:#x} = {a:#x} and {} field {o2:#x} = {b:#x}", ENV_NAMES[k], s1.label, s2.label));
        let mut m = e.img.clone();
        put_w(&mut m.block_mut(s1.blk)[s1.off..], o1, w1, a);
        refix(&mut m, &e, s1);
        put_w(&mut m.block_mut(s2.blk)[s2.off..], o2, w2, b);
        refix(&mut m, &e, s2);
        cx.input(hash_of(&(k, &s1.label, &s2.label, o1, a, o2, b)));
        walk_of(cx, &e, &m, &[s1, s2])
    }
}

/// A structure replaced by something else entirely.
fn replaced(envs: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let st = &e.sts[cx.pick(e.sts.len())];
        let from = cx.pick(e.sts.len() + 6);
        let start = 4 * cx.pick(8);
        let mut m = e.img.clone();
        let n = st.len;
        let new: Vec<u8> = match from.checked_sub(6) {
            Some(i) => {
                let o = &e.sts[i];
                let b = m.get_block(o.blk);
                (0..n).map(|x| b[(o.off + x) % b.len()]).collect()
            }
            None => (0..n)
                .map(|x| match from {
                    0 => 0,
                    1 => 0xff,
                    2 => x as u8,
                    3 => [1, 0, 0, 0][x % 4],
                    4 => pat_word(9, x as u64 / 8).to_le_bytes()[x % 8],
                    _ => (st.blk as u32).to_le_bytes()[x % 4],
                })
                .collect(),
        };
        let b = &mut m.block_mut(st.blk)[st.off..];
        b[start..n].copy_from_slice(&new[start..]);
        if let Fix::P10(Site { s: S::Super, .. }) = st.fix {
            // stays a superblock
            put16(b, 0x38, 0xef53);
        }
        refix(&mut m, &e, st);
        cx.describe(|| format!("{}: {} from byte {start:#x} replaced with {from}", ENV_NAMES[k], st.label));
        cx.input(hash_of(&(k, &st.label, from, start)));
        walk_of(cx, &e, &m, &[st])
    }
}

/// A device that ends early.
struct Short {
    d: Disk,
    end: u64,
}
impl Ext4Read for Short {
    fn read(&mut self, p: u64, dst: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        if p.checked_add(dst.len() as u64).is_none_or(|e| e > self.end) {
            return Err(Box::new(OutOfDevice));
        }
        self.d.read_at(p, dst);
        Ok(())
    }
}

fn truncated(envs: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let bs = e.img.bs() as u64;
        let n = match cx.pick(3) {
            // every length near the beginning
            0 => cx.pick(4 * bs as usize + 3) as u64,
            // around every block boundary
            1 => (cx.pick(e.used as usize + 40) as u64 * bs + 4).saturating_sub(cx.pick(9) as u64),
            _ => e.img.g.blocks_count * bs - cx.pick(3 * bs as usize) as u64,
        };
        cx.describe(|| format!("{}: device of {n} bytes", ENV_NAMES[k]));
        cx.input(hash_of(&(k, n)));
        let d = e.img.freeze();
        cx.step();
        let Ok(fs) = Ext4::load(Box::new(Short { d, end: n })) else { return Ok(()) };
        use_fs(cx, &e, &fs, bs as usize, &[])
    }
}

/// Files with a role in which their blocks are used.
const ROLES: [(u32, &str); 4] = [(EXT, "file"), (LIN, "directory"), (HT, "indexed directory"), (SLOW, "link")];

fn set_size(m: &mut Img, ino: u32, size: u64) {
    let b = m.inode_bytes(ino);
    put32(b, 4, size as u32);
    put32(b, 0x6c, (size >> 32) as u32);
}

const SIZES: [u64; 6] = [1000, 6 << 10, 300 << 10, 3 << 20, (1 << 30) + 1, 1 << 41];

/// Extent trees whose nodes are reachable over and over, or form cycles.
fn extent_graphs(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0, 3]);
    let e = env(k);
    let (ino, role) = *cx.of(&ROLES);
    let mut m = e.img.clone();
    let bs = m.bs();
    let csum = k == 3;
    let max = (bs - 12 - 4) / 12;
    // depth the root claims, and what every node below claims
    let root = 1 + cx.pick(5) as u16;
    let shape = cx.pick(4);
    let n = *cx.of(&[1, 2, max]);
    let increasing = cx.flag();
    let leaf = cx.pick(4);
    let size = *cx.of(&SIZES);
    cx.describe(|| format!("{role}: root of depth {root}, shape {shape}, {n} entries per node, logical blocks increasing: {increasing}, leaf {leaf}, size {size}, checksums {csum}"));
    let fill = |b: &mut [u8], depth: u16, n: usize, max: usize, child: u64, lb: u32| {
        b.fill(0);
        put16(b, 0, 0xf30a);
        put16(b, 2, n as u16);
        put16(b, 4, max as u16);
        put16(b, 6, depth);
        for i in 0..n {
            let o = 12 + 12 * i;
            put32(b, o, lb + if increasing { i as u32 } else { 0 });
            if depth == 0 {
                put16(b, o + 4, if leaf == 2 { 0 } else { 1 });
            }
            let p = if depth == 0 { o + 8 } else { o + 4 };
            put32(b, p, child as u32);
        }
    };
    let p = m.alloc_n(8);
    let dir_blk = p10_dir_block(&e);
    let mut blocks: Vec<Vec<u8>> = vec![];
    match shape {
        // one node that is its own child, of the root's depth or one less
        0 | 1 => {
            let mut b = vec![0; bs];
            fill(&mut b, root - (shape as u16), n, max, p, 0);
            blocks.push(b);
        }
        // two nodes pointing to each other
        2 => {
            for i in 0..2 {
                let mut b = vec![0; bs];
                fill(&mut b, root - 1 - (i as u16).min(root - 1), n, max, p + 1 - i, 0);
                blocks.push(b);
            }
        }
        // a chain of proper depths, every node n times the parent of the next
        _ => {
            for d in (0..root).rev() {
                let mut b = vec![0; bs];
                let i = (root - 1 - d) as u64;
                match (d, leaf) {
                    (0, 0) => fill(&mut b, 0, 0, max, 0, 0),
                    (0, _) => fill(&mut b, 0, if leaf == 3 { n } else { 1 }, max, dir_blk, 0),
                    _ => fill(&mut b, d, n, max, p + i + 1, 0),
                }
                blocks.push(b);
            }
        }
    }
    for (i, mut b) in blocks.into_iter().enumerate() {
        if csum {
            m.csum_extent_block(ino, &mut b);
        }
        m.set_block(p + i as u64, b);
    }
    let ib = &mut m.inode_bytes(ino)[0x28..0x28 + 60];
    fill(ib, root, n.min(4), 4, p, 0);
    set_size(&mut m, ino, size);
    m.csum_inode(ino);
    cx.input(hash_of(&(k, ino, root, shape, n, increasing, leaf, size)));
    walk(cx, &e, &m)
}

/// A block that is a valid directory block of any directory (without
/// checksums).
fn p10_dir_block(e: &Env) -> u64 {
    e.sts.iter().find(|s| s.label == "Root").unwrap().blk
}

/// Block maps that use the same blocks over and over.
fn map_graphs(cx: &mut Cx) -> CaseResult {
    let e = env(1);
    let (ino, role) = *cx.of(&ROLES);
    let mut m = e.img.clone();
    let bs = m.bs();
    let p = m.alloc_n(4);
    let target = match cx.pick(4) {
        0 => p,
        1 => p10_dir_block(&e),
        2 => 0,
        _ => m.g.blocks_count + 7,
    };
    let cyclic = cx.flag();
    let b: Vec<u8> = (0..bs).map(|i| ((if cyclic { p } else { target }) as u32).to_le_bytes()[i % 4]).collect();
    let c: Vec<u8> = (0..bs).map(|i| (p as u32).to_le_bytes()[i % 4]).collect();
    let d: Vec<u8> = (0..bs).map(|i| (p as u32 + 1).to_le_bytes()[i % 4]).collect();
    m.set_block(p, b);
    m.set_block(p + 1, c);
    m.set_block(p + 2, d);
    let direct = *cx.of(&[0, p10_dir_block(&e)]);
    let size = *cx.of(&[1000, 13 << 10, 270 << 10, 70 << 20, (1 << 30) + 1, 16 << 30, 1 << 41, 1 << 44]);
    let deep = cx.flag();
    cx.describe(|| format!("{role} of size {size}: direct blocks {direct}, {} of blocks all {}", if deep { "trees" } else { "single blocks" }, if cyclic { p } else { target }));
    let ib = &mut m.inode_bytes(ino)[0x28..0x28 + 60];
    for i in 0..12 {
        put32(ib, 4 * i, direct as u32);
    }
    for i in 12..15 {
        put32(ib, 4 * i, p as u32 + if deep { i as u32 - 12 } else { 0 });
    }
    set_size(&mut m, ino, size);
    cx.input(hash_of(&(ino, target, cyclic, direct, size, deep)));
    walk(cx, &e, &m)
}

/// Files larger than what their block map can address.
fn map_end(cx: &mut Cx) -> CaseResult {
    let e = env(1);
    let mut m = e.img.clone();
    let cap = 12 + 256 + 65536 + (1u64 << 24);
    let size = *cx.of(&[cap * 1024 + 1, (cap + 5) * 1024, 1 << 40, ((1u64 << 32) - 1) * 1024]);
    let at = match cx.pick(6) {
        0 => (cap - 1) * 1024,
        1 => cap * 1024 - 1,
        2 => cap * 1024,
        3 => (cap + 1) * 1024,
        // (a seek steps through the file block by block)
        4 => (size - 1).min((cap + (1 << 22)) * 1024),
        _ => 1 << 33,
    };
    let leaf = cx.flag();
    cx.describe(|| format!("file of size {size}, {}: reads from {at}", if leaf { "the triple-indirect tree is a cycle" } else { "all holes" }));
    for b in &mut m.inode_bytes(EXT)[0x28..0x28 + 60] {
        *b = 0;
    }
    if leaf {
        let p = m.alloc_n(1);
        m.set_block(p, (0..256).flat_map(|_| (p as u32).to_le_bytes()).collect());
        put32(&mut m.inode_bytes(EXT)[0x28..], 4 * 14, p as u32);
    }
    set_size(&mut m, EXT, size);
    cx.input(hash_of(&(size, at, leaf)));
    let fs = m.load().map_err(|e| format!("harness: load: {e}"))?;
    let mut f = fs.open("/ext").map_err(|e| format!("harness: open: {e}"))?;
    ensure!(f.metadata().len() == size, "harness: size");
    cx.step();
    if f.seek_to(at).is_err() {
        cx.outcome(1);
        return Ok(());
    }
    for _ in 0..12 {
        let mut buf = [0; 600];
        cx.step();
        match f.read_bytes(&mut buf) {
            Ok(0) => break,
            Ok(_) => cx.outcome(2),
            Err(_) => cx.outcome(3),
        }
    }
    Ok(())
}

/// Indexes whose nodes are reachable over and over.
fn index_graphs(cx: &mut Cx) -> CaseResult {
    let k = *cx.of(&[0, 1, 3, 4]);
    let e = env(k);
    let mut m = e.img.clone();
    let bs = m.bs();
    let levels = *cx.of(&[0u8, 1, 2, 3, 4, 100, 255]);
    // children of all nodes, as file blocks: root, the two nodes, the leaves
    let child = *cx.of(&[0u32, 1, 2, 3, 4, 100, u32::MAX]);
    let spread = cx.pick(3);
    let count = *cx.of(&[0usize, 1, 2, 100]);
    let hash = cx.pick(3);
    let alg = *cx.of(&[0u8, 1, 2, 3, 4, 5, 255]);
    cx.describe(|| format!("{}: {levels} levels, every node with {count} entries for file block {child} (+{spread} per entry), hashes {hash}, algorithm {alg}", ENV_NAMES[k]));
    for st in &e.sts {
        let off = match st.label.as_str() {
            "HtRoot" => 0x20,
            l if l.starts_with("HtNode") => 8,
            _ => continue,
        };
        let b = m.block_mut(st.blk);
        let limit = get16(b, off) as usize;
        let n = if count == 100 { limit } else { count };
        put16(b, off + 2, n as u16);
        for i in 0..n.max(1) {
            if i > 0 {
                put32(b, off + 8 * i, match hash {
                    0 => 0,
                    1 => 1,
                    _ => (i as u32) << 24,
                });
            }
            put32(b, off + 8 * i + 4, child.wrapping_add((spread * i) as u32));
        }
        if off == 0x20 {
            b[0x1e] = levels;
            b[0x1c] = alg;
        }
        refix(&mut m, &e, st);
    }
    let _ = bs;
    cx.input(hash_of(&(k, levels, child, spread, count, hash, alg)));
    walk(cx, &e, &m)
}

/// One record of a directory block with every length and name length.
fn records(envs: &'static [usize], dense: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(envs);
        let e = env(k);
        let sts: Vec<&St> =
            e.sts.iter().filter(|s| s.label == "Root" || s.label == "Lin(1)" || s.label == "HtLeaf(1)" || s.label == "HtRoot").collect();
        let st = *cx.of(&sts);
        let b = e.img.get_block(st.blk);
        let bs = b.len();
        let mut offs = vec![];
        let mut o = 0;
        while o + 8 < bs {
            offs.push(o);
            o += (get16(&b, o + 4) as usize).max(8);
            if st.label == "HtRoot" && offs.len() == 2 {
                break;
            }
        }
        let o = *cx.of(&offs);
        let rec_len = if dense {
            cx.pick(bs + 5)
        } else {
            match cx.pick(3) {
                0 => cx.pick(48),
                1 => bs - o + 4 - cx.pick(32.min(bs - o)),
                _ => *cx.of(&[0x7ffc, 0x8000, 0xfffc, 0xfffd, 0xfffe, 0xffff, bs, bs - 1, bs + 4]),
            }
        };
        let name_len = *cx.of(&[0u8, 1, 3, 4, 5, 8, 12, 24, 127, 250, 254, 255]);
        let ino = *cx.of(&[0u32, 1, F, 0x7fff_ffff, u32::MAX]);
        let mut m = e.img.clone();
        let b = m.block_mut(st.blk);
        put32(b, o, ino);
        put16(b, o + 4, rec_len as u16);
        b[o + 6] = name_len;
        refix(&mut m, &e, st);
        cx.describe(|| format!("{}: {} record at {o:#x}: inode {ino}, length {rec_len}, name length {name_len}", ENV_NAMES[k], st.label));
        cx.input(hash_of(&(k, &st.label, o, ino, rec_len, name_len)));
        walk_of(cx, &e, &m, &[st])
    }
}

/// Journals mapped to the same blocks over and over.
fn journal_graphs(cx: &mut Cx) -> CaseResult {
    let e = env(JENV);
    let j = e.j.clone().unwrap();
    let mut m = e.img.clone();
    let bs = m.bs();
    // what the log consists of
    let seq = j.seq;
    let what = cx.pick(5);
    let home = j.phys[20];
    let blk = match what {
        0 => j.revoke(seq, &vec![home; j.revoke_cap()]),
        1 => j.revoke(seq, &[]),
        2 => {
            // descriptor whose data block is the descriptor
            let mut b = j.desc(seq, &[(home, vec![0; bs])], false, 0);
            put32be(&mut b, 16, 8);
            b
        }
        3 => j.commit(seq),
        _ => vec![0; bs],
    };
    let p = m.alloc_n(6);
    m.set_block(p, blk);
    let maxlen = *cx.of(&[24u32, 1000, 1 << 20, 1 << 24, 0x7fff_ffff, u32::MAX]);
    let first = *cx.of(&[0u32, 1, 2, 1 << 20, u32::MAX]);
    let start = *cx.of(&[0u32, 1, 2, 23, 1 << 20, u32::MAX - 1]);
    let mut j2 = j.clone();
    (j2.maxlen, j2.first, j2.start) = (maxlen, first, start);
    m.set_block(j.phys[0], j2.superblock());
    let size = *cx.of(&[24u64 << 10, 1 << 30, 16 << 30, 4 << 40]);
    let by_map = cx.flag();
    let tree = *cx.of(&[0u64, 1]);
    // the journal inode: superblock first, then the log block everywhere
    let sb = j.phys[0];
    if by_map {
        let w = |x: u64| -> Vec<u8> { (0..bs).map(|i| (x as u32).to_le_bytes()[i % 4]).collect() };
        m.set_block(p + 1, w(p));
        m.set_block(p + 2, w(p + 1));
        m.set_block(p + 3, w(p + 2));
        let b = m.inode_bytes(JINO);
        let f = get32(b, 0x20) & !0x80000;
        put32(b, 0x20, f);
        for i in 0..12 {
            put32(b, 0x28 + 4 * i, if i == 0 { sb as u32 } else { p as u32 });
        }
        for i in 12..15 {
            put32(b, 0x28 + 4 * i, p as u32 + if tree == 1 { i as u32 - 11 } else { 1 });
        }
    } else {
        let v: Vec<u64> = std::iter::once(sb).chain(std::iter::repeat_n(p, 60)).collect();
        let mut i = Ino::file();
        i.size = size;
        m.map_blocks(JINO, i, &v);
    }
    set_size(&mut m, JINO, size);
    m.csum_inode(JINO);
    cx.describe(|| format!("log of blocks {what}, maxlen {maxlen}, first {first}, start {start}, journal size {size}, block map {by_map} {tree}"));
    cx.input(hash_of(&(what, maxlen, first, start, size, by_map, tree)));
    walk(cx, &e, &m)
}

pub fn prop(t: bool) -> Prop {
    const Q: &[usize] = &[0, 1, 3, 6];
    const QB: &[usize] = &[0, 1, 6];
    const A: &[usize] = &[0, 1, 2, 3, 4, 5, 6];
    const R: &[usize] = &[0, 3];
    const C: &[usize] = &[0];
    const RA: &[usize] = &[0, 1, 2, 3, 4, 5];
    Prop {
        id: "P11",
        level: "fault_enumeration",
        rule: "loading and every operation end with a result or an error: no panic, overflow, abort, endless loop (20 s of CPU time) or memory out of proportion (64 blocks plus 4x the result; for loading, twice the device)",
        assumptions: &[
            "reading a regular file of 1 MiB to 1 GiB in one call is legitimate and skipped for time",
            "a device is as large as the image says unless it is truncated",
        ],
        sections: vec![
            Section::new("bytes", if t { "every byte of every metadata structure x 255 values, 7 images, checksums recomputed where present" } else { "every byte of every metadata structure x 15 values, 4 images, checksums recomputed where present" }, bytes(if t { A } else { Q }, t)),
            Section::new("fields", "every aligned 2- and 4-byte field of every structure x up to 49 boundary values", fields(if t { A } else { QB }, t)),
            Section::new("pairs", if t { "all pairs of important fields of a structure x all boundary values of each" } else { "all pairs of important fields of a structure x 10 boundary values of each" }, pairs(if t { A } else { Q }, t)),
            Section::new("cross", "all pairs of important fields of two structures x 4 extreme values of each", cross(if t { RA } else { C })),
            Section::new("replaced", "every structure replaced with constants, patterns or any other structure, from 8 offsets on", replaced(if t { A } else { Q })),
            Section::new("truncated", "every device length in the first four blocks, +-4 around every block boundary, the last three blocks", truncated(if t { A } else { Q })),
            Section::new("extent-graphs", "extent trees with cycles or shared nodes: depth x shape x fan-out x leaf kind x size x role of the file, with and without checksums", extent_graphs),
            Section::new("map-graphs", "block maps with cycles or shared blocks: target x size up to 2^44 x role of the file", map_graphs),
            Section::new("map-end", "block-mapped files larger than what the map can address: all holes or a cycle x size x position", map_end),
            Section::new("index-graphs", "directory indexes with cycles or shared nodes: levels x child x count x hashes x algorithm", index_graphs),
            Section::new("records", "every record of directory blocks x length x name length x inode", records(if t { RA } else { R }, t)),
            Section::new("journal-graphs", "journals mapped to the same block over and over: block type x geometry x size", journal_graphs),
        ],
        validate: None,
    }
}
