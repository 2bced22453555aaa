//! P09: journal replay shows exactly the committed transactions.

use super::p01::cached;
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::jbd::*;
use crate::ops::{self, KINDS, diff_at};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error};
use std::collections::BTreeMap;

const JINO: u32 = 8;
const F0: u32 = 12;

pub(super) fn geo(k: usize) -> Geo {
    let mut g = match k {
        0 => Geo::new(1024).extents().with_csum().b64(),
        1 => Geo::new(4096),
        2 => Geo::new(2048).extents().b64(),
        3 => Geo::new(65536).extents().with_csum().b64(),
        4 => {
            // beyond 2^32 blocks
            let mut g = Geo::new(65536).extents().with_csum().b64();
            g.incompat |= INCOMPAT_FLEX_BG;
            g.blocks_count = (1 << 32) + (1 << 20);
            g.bpg = 65536 * 8;
            g.spread_tables(3000, 4000);
            g
        }
        _ => unreachable!(),
    };
    g.compat |= COMPAT_HAS_JOURNAL;
    g.incompat |= INCOMPAT_RECOVER;
    g.journal_inum = JINO;
    g
}

/// Root with single-block files /0, /1, ... whose data blocks are the
/// journal's targets, and a journal of the least length (1024 blocks).
/// `shape` 1 scatters the journal's blocks in reverse order.
pub(super) fn image(g: Geo, files: usize, shape: usize) -> (Img, Vec<u64>, Jnl) {
    let bs = g.bs;
    let jlen = 1024;
    let mut m = Img::new(g);
    let names: Vec<String> = (0..files).map(|i| i.to_string()).collect();
    let ents: Vec<(&[u8], u32, u8)> =
        names.iter().enumerate().map(|(i, n)| (n.as_bytes(), F0 + i as u32, FT_REG)).collect();
    m.dir(2, 2, &ents);
    let mut t = vec![];
    for i in 0..files {
        t.push(m.pat_file(F0 + i as u32, bs as u64));
    }
    let mut i = Ino::file();
    i.size = jlen as u64 * bs as u64;
    let p = m.alloc_n(2 * jlen as u64);
    let phys: Vec<u64> = (0..jlen as u64)
        .map(|k| if shape == 0 { p + k } else { p + 2 * (jlen as u64 - 1 - k) })
        .collect();
    m.map_blocks(JINO, i, &phys);
    // zeros where the log is short; stale data elsewhere
    let zero = std::sync::Arc::new(vec![0; bs]);
    for b in phys[..40].iter().chain(&phys[984..]) {
        m.blocks.insert(*b, zero.clone());
    }
    m.finish();
    let j = Jnl::new(bs, phys);
    (m, t, j)
}

/// The contents of target `i` as logged by transaction `t`.
pub(super) fn data(bs: usize, t: usize, i: usize) -> Vec<u8> {
    pattern(0x4000_0000 + (t as u64) * 1000 + i as u64, bs)
}

/// Every file's contents must be that of the expected block.
fn check(fs: &Ext4, targets: &[u64], bs: usize, want: &BTreeMap<u64, Vec<u8>>) -> CaseResult {
    for (i, t) in targets.iter().enumerate() {
        let p = format!("/{i}");
        let got = fs.read(p.as_str()).map_err(|e| format!("read {p}: {e}"))?;
        let home = pattern(*t, bs);
        let w = want.get(t).unwrap_or(&home);
        if got != *w {
            let what = if got == home { " (the home contents)" } else { "" };
            bail!("{p} (block {t}): {}{what}", diff_at(&got, w));
        }
    }
    Ok(())
}

fn load(m: &Img) -> Result<Ext4, crate::explore::Fail> {
    m.load().map_err(|e| format!("load: {e}").into())
}

fn pick_txn(cx: &mut Cx, n: usize, t: usize, targets: &[u64], bs: usize) -> Txn {
    let mut x = Txn::default();
    for (i, b) in targets.iter().take(n).enumerate() {
        let c = cx.pick(4);
        if c & 1 != 0 {
            x.logs.push((*b, data(bs, t, i)));
        }
        if c & 2 != 0 {
            x.revokes.push(*b);
        }
    }
    x
}

fn show(ts: &[Txn]) -> String {
    ts.iter()
        .map(|t| {
            let l: Vec<String> = t.logs.iter().map(|x| format!("log {}", x.0)).collect();
            let r: Vec<String> = t.revokes.iter().map(|x| format!("revoke {x}")).collect();
            format!("{{{}}}", [l, r].concat().join(", "))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

const LAYS: [Lay; 4] = [
    LAY,
    Lay { revoke_first: false, ..LAY },
    Lay { per_desc: 1, per_revoke: 1, ..LAY },
    Lay { long_tags: true, revoke_first: false, per_revoke: 1, ..LAY },
];

/// What the log holds after the last commit.
fn tail(cx: &mut Cx, m: &mut Img, j: &Jnl, mut k: usize, seq: u32, targets: &[u64]) {
    let bs = j.bs;
    let junk = Txn { logs: vec![(targets[0], data(bs, 90, 0)), (targets[1], data(bs, 90, 1))], revokes: vec![] };
    let blocks: Vec<Vec<u8>> = match cx.pick(6) {
        0 => vec![],
        // uncommitted transaction
        1 => {
            let mut v = j.txn(seq, &junk, LAY);
            v.pop();
            v
        }
        // revoke records of an uncommitted transaction
        2 => vec![j.revoke(seq, targets)],
        // complete transactions of an earlier lap
        3 => j.txn(seq.wrapping_sub(5), &junk, LAY),
        // complete transaction from the future
        4 => j.txn(seq.wrapping_add(1), &junk, LAY),
        // stale data blocks
        _ => vec![data(bs, 91, 0); 3],
    };
    for b in blocks {
        j.put(m, k, &b);
        k += 1;
    }
}

fn histories(ntxn: usize, ntgt: usize, cfgs: &'static [(usize, usize)]) -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let c = cx.pick(cfgs.len());
        let (g, shape) = cfgs[c];
        let lay = *cx.of(&LAYS);
        let slot = g * 2 + shape;
        let mut tj = None;
        let mut m = cached(slot, || image(geo(g), 3, shape).0);
        if tj.is_none() {
            tj = Some(parts(g, shape));
        }
        let (targets, j) = tj.unwrap();
        let bs = j.bs;
        let ts: Vec<Txn> = (0..ntxn).map(|t| pick_txn(cx, ntgt, t, &targets, bs)).collect();
        j.put_sb(&mut m);
        let mut k = 0;
        let mut seq = j.seq;
        for t in &ts {
            for b in j.txn(seq, t, lay) {
                j.put(&mut m, k, &b);
                k += 1;
            }
            seq += 1;
        }
        tail(cx, &mut m, &j, k, seq, &targets);
        cx.describe(|| format!("geometry {g}, journal shape {shape}, {lay:?}: {}", show(&ts)));
        cx.input(hash_of(&(g, shape, &lay, &ts)));
        let want = replayed(&ts);
        cx.state(hash_of(&want.keys().collect::<Vec<_>>()));
        let fs = load(&m)?;
        cx.step();
        cx.outcome(hash_of(&want));
        check(&fs, &targets, bs, &want)
    }
}

thread_local! {
    static PARTS: std::cell::RefCell<BTreeMap<(usize, usize), (Vec<u64>, Jnl)>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}
fn parts(g: usize, shape: usize) -> (Vec<u64>, Jnl) {
    PARTS.with(|p| {
        p.borrow_mut()
            .entry((g, shape))
            .or_insert_with(|| {
                let (_, t, j) = image(geo(g), 3, shape);
                (t, j)
            })
            .clone()
    })
}

/// A few histories at every position of a small circular log.
fn wrap(quick: bool) -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let (g, shape) = *cx.of(if quick { &[(0, 0), (1, 1)][..] } else { &[(0, 0), (0, 1), (1, 0), (1, 1), (2, 1)] });
        let mut m = cached(g * 2 + shape, || image(geo(g), 3, shape).0);
        let (targets, mut j) = parts(g, shape);
        let bs = j.bs;
        let lay = *cx.of(&LAYS);
        let t0 = Txn { logs: vec![(targets[0], data(bs, 0, 0)), (targets[1], data(bs, 0, 1))], revokes: vec![] };
        let t1 = Txn { logs: vec![(targets[1], data(bs, 1, 1)), (targets[2], data(bs, 1, 2))], revokes: vec![targets[0]] };
        let t2 = Txn { logs: vec![(targets[0], data(bs, 2, 0))], revokes: vec![targets[2]] };
        let ts: Vec<Txn> = match cx.pick(4) {
            0 => vec![t0],
            1 => vec![t0, t1],
            2 => vec![t0, t1, t2],
            _ => vec![t1, t2],
        };
        j.seq = *cx.of(&[1, 0, u32::MAX, u32::MAX - 1, 0x7fff_ffff]);
        let mut blocks = vec![];
        let mut seq = j.seq;
        for t in &ts {
            blocks.extend(j.txn(seq, t, lay));
            seq = seq.wrapping_add(1);
        }
        // length of the log: exactly full, or some slack
        let slack = cx.pick(5);
        j.first = 1 + cx.pick(3) as u32;
        j.maxlen = j.first + (blocks.len() + slack) as u32;
        j.start = j.first + cx.pick((j.maxlen - j.first) as usize) as u32;
        // blocks behind the end of the log, and before its start, hold
        // a complete transaction that is not part of it
        let junk = Txn { logs: targets.iter().map(|t| (*t, data(bs, 80, 0))).collect(), revokes: vec![] };
        for (i, b) in j.txn(j.seq, &junk, LAY).iter().enumerate() {
            let p = j.maxlen as usize + i;
            if p < j.phys.len() {
                m.set_block(j.phys[p], b.clone());
            }
        }
        j.put_sb(&mut m);
        for (k, b) in blocks.iter().enumerate() {
            j.put(&mut m, k, b);
        }
        if slack > 0 {
            // oldest block of the previous lap
            let b = match cx.pick(3) {
                0 => vec![0; bs],
                1 => j.commit(seq.wrapping_sub(1)),
                _ => j.desc(seq.wrapping_add(1), &[(targets[0], data(bs, 80, 0))], false, 0),
            };
            j.put(&mut m, blocks.len(), &b);
        }
        cx.describe(|| {
            format!("geometry {g}, log blocks {}..{}, start {}, sequence {:#x}, {} blocks: {}", j.first, j.maxlen, j.start, j.seq, blocks.len(), show(&ts))
        });
        cx.input(hash_of(&(g, shape, &lay, &ts, j.seq, j.first, j.maxlen, j.start)));
        let fs = load(&m)?;
        cx.step();
        check(&fs, &targets, bs, &replayed(&ts))
    }
}

/// Crash while transaction `crash` was written: each of its blocks is on
/// disk completely, not at all, or only one half; a later transaction may
/// have reached the disk completely.
fn crash(quick: bool) -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let (g, shape) = *cx.of(if quick { &[(0, 0), (1, 1)][..] } else { &[(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)] });
        let mut m = cached(g * 2 + shape, || image(geo(g), 3, shape).0);
        let (targets, mut j) = parts(g, shape);
        let bs = j.bs;
        j.start = *cx.of(&[1, 1019, 1021]);
        let lay = *cx.of(&LAYS[..2]);
        let all = [
            Txn { logs: vec![(targets[0], data(bs, 0, 0)), (targets[2], data(bs, 0, 2))], revokes: vec![] },
            Txn { logs: vec![(targets[0], data(bs, 1, 0)), (targets[1], data(bs, 1, 1))], revokes: vec![targets[2]] },
            Txn { logs: vec![(targets[1], data(bs, 2, 1)), (targets[2], data(bs, 2, 2))], revokes: vec![targets[0]] },
        ];
        let crash = cx.pick(3);
        let later = crash < 2 && cx.flag();
        let stale_kind = cx.pick(4);
        let mut k = 0;
        let mut seq = j.seq;
        let mut intact = true;
        j.put_sb(&mut m);
        let mut what = vec![];
        for (i, t) in all.iter().enumerate() {
            if i > crash && !later {
                break;
            }
            for (n, b) in j.txn(seq, t, lay).iter().enumerate() {
                if i == crash {
                    let stale = match stale_kind {
                        0 => vec![0; bs],
                        // the same block of an earlier lap
                        1 => {
                            let mut s = j.txn(seq.wrapping_sub(9), t, lay)[n].clone();
                            if get32(&s, 0) != MAGIC.swap_bytes() {
                                s = data(bs, 70, n);
                            }
                            s
                        }
                        // a commit block of an earlier lap
                        2 => j.commit(seq.wrapping_sub(9)),
                        // old data
                        _ => data(bs, 71, n),
                    };
                    let mut d = b.clone();
                    let c = cx.pick(4);
                    match c {
                        0 => {}
                        1 => d = stale,
                        2 => d[bs / 2..].copy_from_slice(&stale[bs / 2..]),
                        _ => d[..bs / 2].copy_from_slice(&stale[..bs / 2]),
                    }
                    what.push(["written", "old", "first half written", "second half written"][c]);
                    intact &= d == *b;
                    j.put(&mut m, k, &d);
                } else {
                    j.put(&mut m, k, b);
                }
                k += 1;
            }
            seq += 1;
        }
        cx.describe(|| format!("geometry {g}, start {}, crash in transaction {crash}: {what:?}, stale {stale_kind}, later transaction on disk: {later}", j.start));
        cx.input(hash_of(&(g, shape, j.start, &lay, crash, later, stale_kind, &what)));
        let n = if !intact {
            crash
        } else if later {
            3
        } else {
            crash + 1
        };
        let fs = load(&m)?;
        cx.step();
        cx.outcome(n as u64);
        check(&fs, &targets, bs, &replayed(&all[..n]))
    }
}

/// Transactions of every size, spanning several descriptor, revoke blocks.
fn sizes(quick: bool) -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let long = cx.flag();
        let revoke_first = cx.flag();
        let per = *cx.of(&[usize::MAX, 7]);
        let nfiles = 140;
        let mut m = cached(20, || image(big(), nfiles, 0).0);
        let (targets, mut j) = PARTS.with(|p| {
            p.borrow_mut()
                .entry((100, 0))
                .or_insert_with(|| {
                    let (_, t, j) = image(big(), nfiles, 0);
                    (t, j)
                })
                .clone()
        });
        let bs = j.bs;
        let lay = Lay { revoke_first, per_desc: per, per_revoke: usize::MAX, long_tags: long };
        let n = *cx.of(&if quick {
            vec![0, 1, 2, 6, 7, 8, 30, 31, 32, 33, 61, 62, 63, 64, 93, 94, 124, 125, 126, 127, 140]
        } else {
            (0..=nfiles).collect()
        });
        let rev = *cx.of(&if quick {
            vec![0, 1, 2, 62, 123, 124, 125, 126, 127, 140]
        } else {
            (0..=nfiles).collect()
        });
        j.start = *cx.of(&[1, 904]);
        // log n blocks, then log n again while revoking the last `rev`
        let t0 = Txn { logs: (0..nfiles).map(|i| (targets[i], data(bs, 0, i))).collect(), revokes: vec![] };
        let t1 = Txn {
            logs: (0..n).rev().map(|i| (targets[i], data(bs, 1, i))).collect(),
            revokes: targets[nfiles - rev..].iter().rev().copied().collect(),
        };
        let ts = [t0, t1];
        j.put_sb(&mut m);
        let mut k = 0;
        for (i, t) in ts.iter().enumerate() {
            for b in j.txn(j.seq + i as u32, t, lay) {
                j.put(&mut m, k, &b);
                k += 1;
            }
        }
        ensure!(k < 1000, "harness: journal too small");
        cx.describe(|| format!("{n} logged blocks, {rev} revoked, {lay:?}, start {}", j.start));
        cx.input(hash_of(&(n, rev, &lay, j.start)));
        let fs = load(&m)?;
        cx.step();
        check(&fs, &targets, bs, &replayed(&ts))
    }
}
fn big() -> Geo {
    let mut g = geo(0);
    g.ipg = 160;
    g
}

/// One descriptor or revoke block with up to as many entries as fit, one of
/// which is about a block that is looked at.
fn full_blocks(cx: &mut Cx) -> CaseResult {
    let c = cx.pick(3);
    let bs = [4096usize, 16384, 65536][c];
    let mk = || {
        let mut g = Geo::new(bs).extents().with_csum().b64();
        g.blocks_count = 30000;
        g.compat |= COMPAT_HAS_JOURNAL;
        g.incompat |= INCOMPAT_RECOVER;
        g.journal_inum = JINO;
        image(g, 3, 0)
    };
    let mut m = cached(30 + c, || mk().0);
    let (targets, j) = PARTS.with(|p| {
        p.borrow_mut()
            .entry((200 + c, 0))
            .or_insert_with(|| {
                let (_, t, j) = mk();
                (t, j)
            })
            .clone()
    });
    let revoke = cx.flag();
    let long = !revoke && cx.flag();
    let cap = if revoke { j.revoke_cap() } else { j.desc_cap(long) };
    // (the log has 1023 blocks)
    let max = if revoke { cap + 1 } else { (cap + 1).min(if bs > 16384 { 300 } else { 900 }) };
    let mut ns: Vec<usize> = (0..14).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([max - 1, max - 2, max]).filter(|n| (1..=max).contains(n)).collect();
    ns.sort();
    ns.dedup();
    let at = *cx.of(&ns) - 1;
    // entries behind it
    let n = (at + 1 + *cx.of(&[0usize, 1, usize::MAX / 2])).min(max);
    let list: Vec<u64> = (0..n).map(|i| if i == at { targets[1] } else { 20000 + i as u64 }).collect();
    let filler = data(bs, 60, 0);
    let t0 = Txn { logs: (0..3).map(|i| (targets[i], data(bs, 0, i))).collect(), revokes: vec![] };
    let t1 = if revoke {
        Txn { logs: vec![(targets[2], data(bs, 1, 2))], revokes: list }
    } else {
        Txn { logs: list.iter().enumerate().map(|(i, b)| (*b, if i == at { data(bs, 1, 1) } else { filler.clone() })).collect(), revokes: vec![targets[0]] }
    };
    let ts = [t0, t1];
    j.put_sb(&mut m);
    let mut k = 0;
    for (i, t) in ts.iter().enumerate() {
        for b in j.txn(j.seq + i as u32, t, Lay { long_tags: long, ..LAY }) {
            j.put(&mut m, k, &b);
            k += 1;
        }
    }
    ensure!(k < 1000, "harness: journal too small");
    j.put(&mut m, k, &vec![0; bs]);
    cx.describe(|| format!("block size {bs}, {n} entries, {}, the one looked at is number {at}", if revoke { "revoked" } else { "logged" }));
    cx.input(hash_of(&(bs, revoke, long, at, n)));
    let fs = load(&m)?;
    cx.step();
    check(&fs, &targets, bs, &replayed(&ts))
}

/// Block numbers that differ only in the upper 32 bits.
fn high(cx: &mut Cx) -> CaseResult {
    let (mut m, targets, j) = {
        let mk = || {
            let (mut m, mut t, j) = image(geo(4), 3, 0);
            for (i, p) in [(0u32, 3500u64), (1, (1 << 32) + 3500), (2, (1 << 32) + 3501)] {
                let mut ino = Ino::file();
                ino.size = 65536;
                m.map_contig(F0 + i, ino, p, 1);
                t[i as usize] = p;
            }
            (m, t, j)
        };
        let m = cached(21, || mk().0);
        let (t, j) = PARTS.with(|p| {
            p.borrow_mut()
                .entry((101, 0))
                .or_insert_with(|| {
                    let x = mk();
                    (x.1, x.2)
                })
                .clone()
        });
        (m, t, j)
    };
    let bs = j.bs;
    let ts: Vec<Txn> = (0..2).map(|t| pick_txn(cx, 2, t, &targets, bs)).collect();
    j.put_sb(&mut m);
    let mut k = 0;
    for (i, t) in ts.iter().enumerate() {
        for b in j.txn(j.seq + i as u32, t, LAY) {
            j.put(&mut m, k, &b);
            k += 1;
        }
    }
    cx.describe(|| show(&ts));
    cx.input(hash_of(&ts));
    let fs = load_small(&m)?;
    cx.step();
    check(&fs, &targets, bs, &replayed(&ts))
}

/// Loading reads all group descriptors; keep that within reason.
fn load_small(m: &Img) -> Result<Ext4, crate::explore::Fail> {
    load(m)
}

// ---------------------------------------------------------------------

/// Two versions of a filesystem that differ in every kind of metadata,
/// including its size and number of groups.
fn version(new: bool, csum: bool) -> Img {
    let mut g = Geo::new(1024).extents().b64();
    if csum {
        g = g.with_csum();
        g.csum_seed = Some(0x1234_5678);
    }
    g.compat |= COMPAT_HAS_JOURNAL | COMPAT_DIR_INDEX;
    g.incompat |= INCOMPAT_RECOVER | INCOMPAT_FLEX_BG;
    g.journal_inum = JINO;
    g.bpg = 512;
    g.ipg = 16;
    // inode tables at fixed places; that of group 1 moves (group 0's holds
    // the journal's inode, which has to be found before replay)
    g.blocks_count = if new { 4097 } else { 3585 };
    g.itab = (0..7).map(|k| 50 + 10 * k).collect();
    if new {
        g.itab[1] = 900;
        g.itab.push(1100);
        g.label = *b"renamed\0\0\0\0\0\0\0\0\0";
        g.uuid[3] ^= 0xff;
    }
    let mut m = Img::new(g);
    // same places in both versions
    m.next = 200;
    let bs = m.bs();
    let jphys: Vec<u64> = (2000..3024).collect();
    let mut i = Ino::file();
    i.size = 1024 * bs as u64;
    m.map_blocks(JINO, i, &jphys);
    let mut ents: Vec<(&[u8], u32, u8)> = vec![(b"f", 12, FT_REG), (b"l", 13, FT_LNK), (b"d", 20, FT_DIR)];
    if new {
        ents.push((b"n", 120, FT_REG));
    }
    m.dir(2, 2, &ents);
    // extent tree with a leaf block; its last extent changes
    let mut f = Ino::file();
    f.size = 6 * bs as u64;
    let last = if new { 1300 } else { 310 };
    let v: Vec<Ext> = (0..6)
        .map(|k| Ext { lb: k, len: 1, pb: if k == 5 { last } else { 300 + 2 * k as u64 } })
        .collect();
    m.next = 220;
    m.set_inode_ext(12, f, &Node::Idx(vec![(0, Node::Leaf(v))]));
    m.next = 230;
    m.symlink(13, if new { b"d/new" } else { b"f" });
    m.next = 240;
    if new {
        m.dir(20, 2, &[(b"new", 12, FT_REG), (b"old", 12, FT_REG)]);
        m.next = 250;
        m.file(120, b"content of the new file");
    } else {
        m.dir(20, 2, &[(b"old", 12, FT_REG)]);
    }
    let mut j = Jnl::new(bs, jphys);
    j.start = 0;
    j.put_sb(&mut m);
    m.finish();
    m
}

fn observe(fs: &Ext4) -> Vec<String> {
    let mut v = vec![format!("{:?} {}", fs.label().as_bytes(), fs.uuid())];
    for p in ["/", "/f", "/l", "/d", "/n", "/d/new", "/d/old"] {
        for k in KINDS {
            v.push(format!("{p} {k:?} {}", ops::show(&ops::run(fs, k, p.as_bytes()))));
        }
    }
    v
}

/// Any subset of the changed blocks was already written home before the
/// crash; the journal holds all of them, in one or several transactions.
fn metadata(cx: &mut Cx) -> CaseResult {
    let csum = cx.flag();
    let new = cached(30 + csum as usize, || version(true, csum));
    let old = cached(32 + csum as usize, || version(false, csum));
    let bs = 1024;
    let mut changed: Vec<u64> = new
        .blocks
        .keys()
        .filter(|b| old.blocks.get(b) != new.blocks.get(b))
        .copied()
        .collect();
    changed.sort();
    let j = Jnl::new(bs, (2000..3024).collect());
    let mut m = old.clone();
    // the device has the size of the new version
    m.g.blocks_count = new.g.blocks_count;
    for b in 2000..2080 {
        m.set_block(b, vec![0; bs]);
    }
    j.put_sb(&mut m);
    let committed = cx.pick(4) != 0;
    let split = cx.pick(changed.len() + 1);
    // an uncommitted transaction must not be visible, so nothing of it
    // has been written home either
    let mut home = vec![];
    if committed {
        // which prefix and which single other block were written home
        let n = cx.pick(changed.len() + 1);
        home.extend(&changed[..n]);
        let x = cx.pick(changed.len() - n + 1);
        if x > 0 {
            home.push(changed[n + x - 1]);
        }
    }
    // Superblock and descriptors have to be consistent to find the journal
    // (kernels need this, too).
    if home.contains(&1) != home.contains(&2) {
        return Ok(());
    }
    for b in &home {
        m.set_block(*b, new.get_block(*b));
    }
    let logs: Vec<(u64, Vec<u8>)> = changed.iter().map(|b| (*b, new.get_block(*b))).collect();
    let mut k = 0;
    let mut seq = j.seq;
    let (a, b) = logs.split_at(split);
    if split == 0 || split == logs.len() || committed {
        for part in [a, b] {
            if part.is_empty() {
                continue;
            }
            let mut v = j.txn(seq, &Txn { logs: part.to_vec(), revokes: vec![] }, LAY);
            if !committed {
                v.pop();
            }
            for x in v {
                j.put(&mut m, k, &x);
                k += 1;
            }
            seq += 1;
        }
    }
    cx.describe(|| format!("checksums {csum}, committed {committed}, changed {changed:?}, split {split}, at home {home:?}"));
    cx.input(hash_of(&(csum, committed, split, &home)));
    let fs = load(&m)?;
    cx.step();
    let want = observe(&load(&clean(if committed { &new } else { &old }))?);
    let got = observe(&fs);
    for (g, w) in got.iter().zip(&want) {
        ensure!(g == w, "got {g}\ninstead of {w}");
    }
    Ok(())
}

/// Without the need to recover.
fn clean(m: &Img) -> Img {
    let mut m = m.clone();
    m.g.incompat &= !INCOMPAT_RECOVER;
    m.finish();
    m
}

// ---------------------------------------------------------------------

/// When the journal is to be ignored.
fn ignored(cx: &mut Cx) -> CaseResult {
    let k = cx.pick(4);
    let mut g = geo(k);
    let has = cx.flag();
    let rec = cx.flag();
    let empty = cx.flag();
    if !has {
        g.compat &= !COMPAT_HAS_JOURNAL;
    }
    if !rec {
        g.incompat &= !INCOMPAT_RECOVER;
    }
    let broken = cx.pick(5);
    let (mut m, targets, mut j) = image(g, 3, 0);
    let bs = j.bs;
    let t = Txn { logs: vec![(targets[0], data(bs, 0, 0))], revokes: vec![] };
    for (k, b) in j.txn(j.seq, &t, LAY).iter().enumerate() {
        j.put(&mut m, k, b);
    }
    if empty {
        j.start = 0;
    }
    j.put_sb(&mut m);
    match broken {
        0 => {}
        1 => m.set_block(j.phys[0], vec![0; bs]),
        2 => {
            m.g.journal_inum = 0;
            m.finish();
        }
        3 => m.inode_bytes(JINO).fill(0xff),
        _ => m.block_mut(j.phys[0])[0x35] ^= 4,
    }
    cx.describe(|| format!("geometry {k}, has journal {has}, recovery {rec}, empty {empty}, damage {broken}"));
    cx.input(hash_of(&(k, has, rec, empty, broken)));
    let used = has && rec;
    let r = m.load();
    cx.step();
    if used && broken > 0 {
        ensure!(r.is_err(), "loads although the journal that has to be replayed is broken");
        return Ok(());
    }
    let fs = r.map_err(|e| format!("load: {e}"))?;
    let want = if used && !empty { replayed(&[t]) } else { BTreeMap::new() };
    check(&fs, &targets, bs, &want)
}

/// Features and formats the library does not support are refused.
fn unsupported(cx: &mut Cx) -> CaseResult {
    let (mut m, targets, mut j) = image(geo(0), 3, 0);
    let bs = j.bs;
    let t = Txn { logs: vec![(targets[0], data(bs, 0, 0))], revokes: vec![targets[1]] };
    let ok;
    let mut any_error = false;
    match cx.pick(5) {
        0 => {
            // every single feature bit toggled
            let b = cx.pick(32);
            j.incompat ^= 1 << b;
            cx.describe(|| format!("incompat {:#x}", j.incompat));
            ok = b == 0;
        }
        1 => {
            let a = cx.pick(32);
            let b = cx.pick(32);
            j.incompat |= 1 << a | 1 << b;
            ok = 0x13 & (1 << a) != 0 && 0x13 & (1 << b) != 0;
            cx.describe(|| format!("incompat {:#x}", j.incompat));
        }
        2 => {
            j.csum_type = cx.pick(256) as u8;
            ok = j.csum_type == 4;
            cx.describe(|| format!("checksum type {}", j.csum_type));
        }
        3 => {
            j.sb_type = *cx.of(&[0, 1, 2, 3, 4, 5, 6, 0x0400_0000, u32::MAX]);
            ok = j.sb_type == 4;
            any_error = j.sb_type != 3;
            cx.describe(|| format!("superblock type {}", j.sb_type));
        }
        _ => {
            j.blocksize = *cx.of(&[0, 1, 512, 1023, 1024, 1025, 2048, 4096, 0x0004_0000, u32::MAX]);
            ok = j.blocksize == 1024;
            any_error = true;
            cx.describe(|| format!("journal block size {}", j.blocksize));
        }
    }
    j.put_sb(&mut m);
    for (k, b) in j.txn(j.seq, &t, LAY).iter().enumerate() {
        j.put(&mut m, k, b);
    }
    cx.input(hash_of(&j.superblock()));
    cx.step();
    match (m.load(), ok) {
        (Ok(fs), true) => check(&fs, &targets, bs, &replayed(&[t])),
        (Ok(_), false) => bail!("loaded"),
        (Err(e), true) => bail!("refused: {e}"),
        (Err(Ext4Error::Incompatible(_)), false) => Ok(()),
        (Err(e), false) => {
            ensure!(any_error, "error is not Incompatible: {e}");
            Ok(())
        }
    }
}

/// Blocks that needed escaping are not supported: never presented wrongly.
fn escaped(cx: &mut Cx) -> CaseResult {
    let (mut m, targets, j) = image(geo(0), 3, 0);
    let bs = j.bs;
    let mut k = 0;
    let n = cx.pick(3);
    for s in 0..n {
        let t = Txn { logs: vec![(targets[0], data(bs, s, 0))], revokes: vec![] };
        for b in j.txn(j.seq + s as u32, &t, LAY) {
            j.put(&mut m, k, &b);
            k += 1;
        }
    }
    let seq = j.seq + n as u32;
    // tags, of which one is escaped
    let ntags = 1 + cx.pick(3);
    let which = cx.pick(ntags);
    let mut tags = vec![];
    for i in 0..ntags {
        tags.push((targets[i], data(bs, 9, i)));
    }
    tags[which].1[..4].fill(0);
    let mut d = j.desc(seq, &tags, false, 0);
    let o = if which == 0 { 12 } else { 12 + 32 + 16 * (which - 1) };
    d[o + 7] |= F_ESCAPED as u8;
    j.csum_tail(&mut d);
    j.put_sb(&mut m);
    j.put(&mut m, k, &d);
    for (i, t) in tags.iter().enumerate() {
        j.put(&mut m, k + 1 + i, &t.1);
    }
    j.put(&mut m, k + 1 + ntags, &j.commit(seq));
    cx.describe(|| format!("{n} transactions, then tag {which} of {ntags} escaped"));
    cx.input(hash_of(&(n, ntags, which)));
    cx.step();
    match m.load() {
        Err(Ext4Error::Incompatible(_)) => Ok(()),
        Err(e) => bail!("error is not Incompatible: {e}"),
        Ok(fs) => {
            // a library that does support them must restore the magic
            let mut w = replayed(&[Txn { logs: tags, revokes: vec![] }]);
            put32be(w.get_mut(&targets[which]).unwrap(), 0, MAGIC);
            if n > 0 && ntags == 0 {
                unreachable!()
            }
            check(&fs, &targets, bs, &w)
        }
    }
}

/// Tag flags that mean nothing to replay, in any of three tags.
fn flags(cx: &mut Cx) -> CaseResult {
    let (g, shape) = *cx.of(&[(0, 0), (1, 1)]);
    let long = cx.flag();
    // 1 escaped, 2 same UUID, 8 last
    let bits: Vec<u32> = (0..32).map(|b| 1u32 << b).filter(|b| ![1, 2, 8].contains(b)).chain([!11]).collect();
    let bit = *cx.of(&bits);
    let which = 1 + cx.pick(7);
    let mut m = cached(g * 2 + shape, || image(geo(g), 3, shape).0);
    let (targets, j) = parts(g, shape);
    let bs = j.bs;
    let ts = [Txn { logs: (0..3).map(|i| (targets[i], data(bs, 0, i))).collect(), revokes: vec![] }];
    let mut blocks = j.txn(j.seq, &ts[0], Lay { long_tags: long, ..LAY });
    let d = &mut blocks[0];
    let mut o = 12;
    for i in 0..3 {
        let f = get32(d, o + 4).swap_bytes();
        if which >> i & 1 == 1 {
            put32be(d, o + 4, f | bit);
        }
        o += if f & F_SAME_UUID == 0 { 32 } else { 16 };
    }
    j.csum_tail(d);
    j.put_sb(&mut m);
    for (k, b) in blocks.iter().enumerate() {
        j.put(&mut m, k, b);
    }
    cx.describe(|| format!("geometry {g}, tag flags {bit:#x} in the tags of set {which:#b}, long tags {long}"));
    cx.input(hash_of(&(g, bit, which, long)));
    let fs = load(&m)?;
    cx.step();
    cx.outcome(hash_of(&g));
    check(&fs, &targets, bs, &replayed(&ts))
}

pub fn prop(t: bool) -> Prop {
    const Q: &[(usize, usize)] = &[(0, 0), (1, 1)];
    const A: &[(usize, usize)] = &[(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)];
    Prop {
        id: "P09",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "journals are v2, 64-bit, checksum v3, as written by current kernels; others must be refused",
            "the expected contents follow from the definition of the log, evaluated per block",
            "superblock and group descriptors at their home places are consistent with each other before replay",
            "a damaged transaction ends the log: it and everything after it is not applied",
        ],
        sections: vec![
            if t {
                Section::new("histories", "all histories of 4 transactions over 2 blocks (nothing/log/revoke/both each) x 4 layouts x 6 log tails x 6 journal placements", histories(4, 2, A))
            } else {
                Section::new("histories", "all histories of 3 transactions over 2 blocks (nothing/log/revoke/both each) x 4 layouts x 6 log tails x 2 journal placements", histories(3, 2, Q))
            },
            Section::new("three-blocks", "all histories of 2 transactions over 3 blocks x 4 layouts x 6 log tails", histories(2, 3, if t { A } else { Q })),
            Section::new("large-blocks", "all histories of 2 transactions over 2 blocks, 64 KiB blocks", histories(2, 2, &[(3, 0)])),
            Section::new("wrap", "4 histories x every start position in logs of every length from exactly full to slack 4 x 3 log beginnings x 5 first sequence numbers (wrapping) x 4 layouts", wrap(!t)),
            Section::new("crash", "crash while writing transaction 1, 2 or 3 of 3: each of its blocks written, old, or half written (4^5) x 4 kinds of old contents x later transaction on disk or not x wrap positions", crash(!t)),
            Section::new("sizes", "transactions of 0..140 logged and 0..140 revoked blocks, around and across the capacity of descriptor and revoke blocks", sizes(!t)),
            Section::new("full-blocks", "descriptor and revoke blocks with every number of entries around powers of two and around full, 4, 16 and 64 KiB blocks, one of the entries decides", full_blocks),
            Section::new("high", "block numbers differing only above 2^32: all histories of 2 transactions", high),
            Section::new("metadata", "superblock, descriptors, inodes, directory, extent and data blocks and growth of the filesystem through the journal x how much reached home x split over transactions", metadata),
            Section::new("ignored", "has-journal x recovery flag x empty log x damage to the journal, 4 geometries", ignored),
            Section::new("unsupported", "every single and pairwise journal feature bit, every checksum type, superblock types, block sizes", unsupported),
            Section::new("escaped", "an escaped block at every tag position after 0..2 transactions", escaped),
            Section::new("flags", "each tag flag bit that replay ignores, in every subset of three tags, short and long tags", flags),
            super::mke::journal(),
        ],
        validate: None,
    }
}
