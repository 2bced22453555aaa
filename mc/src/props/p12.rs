//! P12: reader I/O errors surface as errors and never corrupt later results.

use super::p10;
use crate::explore::{CaseResult, Cx, Fail, Section, hash_of};
use crate::img::*;
use crate::jbd::replayed;
use crate::ops::{self, Obs, Val};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, File};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

struct Env {
    img: Img,
    names: Vec<Vec<u8>>,
    clean: Vec<Obs>,
    /// reads issued by each operation on a freshly loaded filesystem
    calls: Vec<u64>,
}

static ENVS: Mutex<Vec<Option<Arc<Env>>>> = Mutex::new(Vec::new());

fn geo(k: usize) -> Geo {
    match k {
        // 64 KiB blocks: every block is a read of its own
        5 => Geo::new(65536).extents().with_csum().b64(),
        6 => {
            let mut g = Geo::new(32768);
            g.inode_size = 128;
            g
        }
        k => p10::geo(k),
    }
}

/// Spreads the structures, so that few share a 32 KiB cache fill.
fn spread(g: Geo) -> Img {
    p10::build(g).img
}

fn load(m: &Img) -> Result<(Ext4, Rc<Probe>), Fail> {
    let probe = Rc::new(Probe::default());
    let d = FaultDisk { disk: m.freeze(), probe: probe.clone() };
    let fs = Ext4::load(Box::new(d)).map_err(|e| format!("load: {e}"))?;
    Ok((fs, probe))
}

fn env(k: usize) -> Result<Arc<Env>, Fail> {
    let mut v = ENVS.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() <= k {
        v.resize(k + 1, None);
    }
    if v[k].is_none() {
        let img = spread(geo(k));
        let names = p10::ht_names(&img.g);
        let (mut clean, mut calls) = (vec![], vec![]);
        for i in 0..p10::op_count() {
            let (fs, p) = load(&img)?;
            let c = p.calls.get();
            clean.push(p10::observe(&fs, &img.g, &names, i));
            calls.push(p.calls.get() - c);
        }
        v[k] = Some(Arc::new(Env { img, names, clean, calls }));
    }
    Ok(v[k].clone().unwrap())
}

/// The correct result, or the reader's own error, possibly per entry.
fn fault_ok(clean: &Obs, got: &Obs) -> bool {
    let own = |e: &String| e.contains("injected fault #");
    if clean == got {
        return true;
    }
    match (clean, got) {
        (_, Err(e)) => own(e),
        (Ok(Val::List(a)), Ok(Val::List(b))) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| {
                    x.0 == y.0
                        && x.1 == y.1
                        && (x.2 == y.2 || y.2.as_ref().is_err_and(own))
                        && (x.3 == y.3 || y.3.as_ref().is_err_and(own))
                })
        }
        _ => false,
    }
}

/// Picks how reads fail, and arms the probe; `c` is the read counter.
fn arm(cx: &mut Cx, p: &Probe, max: u64) -> Option<String> {
    let c = p.calls.get();
    let n = cx.pick(max.min(400) as usize) as u64;
    let mode = cx.pick(4);
    p.scribble.set(mode & 1 != 0);
    if mode & 2 == 0 {
        *p.fail_at.borrow_mut() = vec![c + n];
    } else {
        p.fail_from.set(Some(c + n));
    }
    Some(format!("read {n} {}{}", if mode & 2 == 0 { "fails" } else { "and all later ones fail" }, if mode & 1 != 0 { ", buffer scribbled" } else { "" }))
}
fn disarm(p: &Probe) {
    p.fail_at.borrow_mut().clear();
    p.fail_from.set(None);
}

/// One operation, every read of it failing; then the same operation again.
fn single(geos: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let e = env(k)?;
        let i = cx.pick(e.clean.len());
        if e.calls[i] == 0 {
            return Ok(());
        }
        let (fs, p) = load(&e.img)?;
        let how = arm(cx, &p, e.calls[i]).unwrap();
        cx.describe(|| format!("geometry {k}, {}: {how}", p10::op_name(i)));
        cx.input(hash_of(&(k, i, how)));
        cx.step();
        let got = p10::observe(&fs, &e.img.g, &e.names, i);
        ensure!(p.failures.get() > 0, "harness: the fault was not reached");
        ensure!(fault_ok(&e.clean[i], &got), "with the fault: {} instead of {} or the reader's error", ops::show(&got), ops::show(&e.clean[i]));
        cx.outcome(ops::obs_hash(&got));
        // a second, different failure of the retry
        disarm(&p);
        if cx.flag() {
            p.fail_at.borrow_mut().push(p.calls.get());
            cx.step();
            let got = p10::observe(&fs, &e.img.g, &e.names, i);
            ensure!(fault_ok(&e.clean[i], &got), "first retry: {} instead of {} or the reader's error", ops::show(&got), ops::show(&e.clean[i]));
            disarm(&p);
        }
        cx.step();
        let again = p10::observe(&fs, &e.img.g, &e.names, i);
        ensure!(again == e.clean[i], "after the reader recovered: {} instead of {}", ops::show(&again), ops::show(&e.clean[i]));
        Ok(())
    }
}

/// Operation A (some read fails), then B with a working reader.
fn pairs(geos: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = *cx.of(geos);
        let e = env(k)?;
        let i = cx.pick(e.clean.len());
        if e.calls[i] == 0 {
            return Ok(());
        }
        let (fs, p) = load(&e.img)?;
        let warm = cx.pick(3);
        let w = match warm {
            0 => None,
            1 => Some(p10::op_list().iter().position(|x| x.1 == "/ext").unwrap()),
            _ => Some(p10::op_list().iter().position(|x| x.1 == "/lin/zz").unwrap()),
        };
        let mut max = e.calls[i];
        if let Some(w) = w {
            // the reads left once the other operation has filled the cache
            let (fs2, p2) = load(&e.img)?;
            p10::observe(&fs2, &e.img.g, &e.names, w);
            let c = p2.calls.get();
            p10::observe(&fs2, &e.img.g, &e.names, i);
            max = p2.calls.get() - c;
            if max == 0 {
                return Ok(());
            }
            p10::observe(&fs, &e.img.g, &e.names, w);
        }
        let how = arm(cx, &p, max).unwrap();
        cx.describe(|| format!("geometry {k}, warm-up {warm}, {}: {how}", p10::op_name(i)));
        cx.input(hash_of(&(k, i, how, warm)));
        cx.step();
        let got = p10::observe(&fs, &e.img.g, &e.names, i);
        ensure!(fault_ok(&e.clean[i], &got), "with the fault: {} instead of {} or the reader's error", ops::show(&got), ops::show(&e.clean[i]));
        disarm(&p);
        let j = cx.pick(e.clean.len());
        cx.step();
        let b = p10::observe(&fs, &e.img.g, &e.names, j);
        ensure!(b == e.clean[j], "then, with a working reader, {}: {} instead of {}", p10::op_name(j), ops::show(&b), ops::show(&e.clean[j]));
        Ok(())
    }
}

/// Loading, with and without a journal, every read failing.
fn loading(cx: &mut Cx) -> CaseResult {
    let c = cx.pick(9);
    let je = if c >= 7 { Some(p10::jenv(if c == 7 { 1024 } else { 65536 })) } else { None };
    let e = if c < 7 { Some(env(c)?) } else { None };
    let img = e.as_ref().map_or_else(|| je.as_ref().unwrap().img.clone(), |e| e.img.clone());
    let total = {
        let (_, p) = load(&img)?;
        p.calls.get()
    };
    let probe = Rc::new(Probe::default());
    let n = cx.pick(total as usize);
    let how = cx.pick(4);
    probe.scribble.set(how & 1 != 0);
    if how & 2 == 0 {
        probe.fail_at.borrow_mut().push(n as u64);
    } else {
        probe.fail_from.set(Some(n as u64));
    }
    cx.describe(|| format!("image {c}: loading, read {n} of {total} fails, mode {how}"));
    cx.input(hash_of(&(c, n, how)));
    cx.step();
    let r = Ext4::load(Box::new(FaultDisk { disk: img.freeze(), probe: probe.clone() }));
    disarm(&probe);
    let fs = match r {
        Err(Ext4Error::Io(x)) if x.downcast_ref::<Injected>().is_some_and(|i| i.0 == n as u64) => {
            return Ok(());
        }
        Err(x) => bail!("not the reader's own error: {x}"),
        Ok(fs) => fs,
    };
    // loaded all the same: everything must be right
    if let Some(e) = e {
        for i in 0..e.clean.len() {
            let got = p10::observe(&fs, &img.g, &e.names, i);
            ensure!(got == e.clean[i], "{}: {} instead of {}", p10::op_name(i), ops::show(&got), ops::show(&e.clean[i]));
        }
    }
    if let Some(e) = je {
        let want = replayed(&e.txns);
        for (i, t) in e.targets.iter().enumerate() {
            let got = fs.read(format!("/{i}").as_str()).map_err(|e| format!("read /{i}: {e}"))?;
            let home = pattern(*t, e.j.bs);
            let w = want.get(t).unwrap_or(&home);
            ensure!(got == *w, "/{i}: {}", ops::diff_at(&got, w));
        }
    }
    Ok(())
}

/// Images with one file /f whose blocks are far apart.
fn handle_img(k: usize) -> (Img, u64) {
    let (g, blocks): (Geo, Vec<u64>) = match k {
        // direct, indirect, double, triple; holes between
        0 => (Geo::new(1024), vec![0, 11, 12, 13, 267, 268, 269, 12 + 256 + 256, 12 + 256 + 65536, 12 + 256 + 65536 + 1]),
        1 => (Geo::new(1024).extents().with_csum(), vec![0, 1, 3, 4, 7, 8, 9]),
        // blocks larger than the cache's reads
        _ => (Geo::new(65536).extents().with_csum().b64(), vec![0, 1, 3, 4]),
    };
    let bs = g.bs as u64;
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"f", 12, FT_REG)]);
    let mut i = Ino::file();
    i.size = (blocks.last().unwrap() + 1) * bs - 9;
    let p = m.alloc_n(64 * blocks.len() as u64);
    let map: BTreeMap<u64, u64> =
        blocks.iter().enumerate().map(|(n, b)| (*b, p + 64 * n as u64)).collect();
    let size = i.size;
    if k == 0 {
        m.set_inode(12, &i);
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(12, &i);
    } else {
        let e: Vec<Ext> = map.iter().map(|(l, p)| Ext { lb: *l as u32, len: 1, pb: *p }).collect();
        let kids: Vec<(u32, Node)> =
            e.chunks(2).map(|c| (c[0].lb, Node::Leaf(c.to_vec()))).collect();
        m.set_inode_ext(12, i, &Node::Idx(kids));
    }
    m.finish();
    (m, size)
}

/// All programs of reads and seeks on one open file, with one or two faults
/// at every read of the underlying reader.
fn handles(depth: usize, two: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let k = cx.pick(3);
        let (m, size) = super::p01::cached2(1200 + k, || handle_img(k));
        let bs = m.bs() as u64;
        // the data around every position used, by reading with a good reader
        let want_at = |pos: u64, n: usize| -> Result<Vec<u8>, Fail> {
            let fs = m.load().map_err(|e| format!("load: {e}"))?;
            let mut f = fs.open("/f").map_err(|e| format!("open: {e}"))?;
            f.seek_to(pos).map_err(|e| format!("seek: {e}"))?;
            let mut v = vec![0; n];
            let mut got = 0;
            while got < n {
                let r = f.read_bytes(&mut v[got..]).map_err(|e| format!("read: {e}"))?;
                if r == 0 {
                    break;
                }
                got += r;
            }
            v.truncate(got);
            Ok(v)
        };
        let (fs, p) = load(&m)?;
        let c0 = p.calls.get();
        let f1 = cx.pick(14) as u64;
        p.fail_at.borrow_mut().push(c0 + f1);
        if two {
            let f2 = cx.pick(14) as u64;
            if f2 <= f1 {
                return Ok(());
            }
            p.fail_at.borrow_mut().push(c0 + f2);
        }
        p.scribble.set(true);
        cx.describe(|| format!("image {k}: reads {:?} fail", p.fail_at.borrow().iter().map(|x| x - c0).collect::<Vec<_>>()));
        let mut h: Option<File> = None;
        let mut pos = 0u64;
        let mut trace = vec![];
        for step in 0..depth {
            let Some(f) = h.as_mut() else {
                cx.step();
                match fs.open("/f") {
                    Ok(f) => h = Some(f),
                    Err(Ext4Error::Io(e)) if e.is::<Injected>() => {}
                    Err(e) => bail!("open: {e}"),
                }
                continue;
            };
            let a = cx.pick(7);
            cx.step();
            match a {
                // reads
                0..=3 => {
                    let n = [3, bs as usize, 2 * bs as usize + 5, usize::MAX][a];
                    if a == 3 {
                        // everything, through the standard trait
                        if size - pos.min(size) > 200_000 && k == 0 {
                            continue;
                        }
                        let mut v = vec![];
                        let r = f.read_to_end(&mut v);
                        let w = want_at(pos, v.len())?;
                        ensure!(v == w, "step {step}: read_to_end at {pos}: {}", ops::diff_at(&v, &w));
                        match r {
                            Ok(_) => ensure!(pos + v.len() as u64 == size.max(pos), "step {step}: read_to_end at {pos} stopped early after {} bytes", v.len()),
                            Err(e) => ensure!(e.get_ref().is_some_and(|e| format!("{e:?} {e}").contains("njected")), "step {step}: not the reader's error: {e}"),
                        }
                        pos += v.len() as u64;
                    } else {
                        let mut v = vec![0xEE; n];
                        match f.read_bytes(&mut v) {
                            Ok(r) => {
                                ensure!(r > 0 || pos >= size, "step {step}: nothing read at {pos}");
                                v.truncate(r);
                                let w = want_at(pos, r)?;
                                ensure!(v == w, "step {step}: read of {n} at {pos}: {}", ops::diff_at(&v, &w));
                                pos += r as u64;
                            }
                            Err(Ext4Error::Io(e)) if e.is::<Injected>() => {}
                            Err(e) => bail!("step {step}: not the reader's error: {e}"),
                        }
                    }
                }
                // seeks; a failed one leaves the cursor alone
                _ => {
                    let to = [0, bs * 3 + 1, size - 7][a - 4];
                    match f.seek(SeekFrom::Start(to)) {
                        Ok(_) => pos = to,
                        Err(e) => ensure!(format!("{e:?}").contains("njected"), "step {step}: seek: not the reader's error: {e}"),
                    }
                }
            }
            trace.push(a);
            ensure!(f.position() == pos, "step {step}: position {} instead of {pos} (program {trace:?})", f.position());
        }
        cx.describe(|| format!("program {trace:?}"));
        // the reader works again
        disarm(&p);
        cx.input(hash_of(&(k, f1, &trace)));
        cx.state(hash_of(&(k, pos, p.calls.get() - c0)));
        if let Some(f) = h.as_mut() {
            let mut v = vec![0; 2000];
            let r = f.read_bytes(&mut v).map_err(|e| format!("after the reader recovered: {e}"))?;
            ensure!(r > 0 || pos >= size, "after the reader recovered: nothing read at {pos}");
            v.truncate(r);
            let w = want_at(pos, r)?;
            ensure!(v == w, "after the reader recovered, at {pos}: {}", ops::diff_at(&v, &w));
        }
        Ok(())
    }
}

/// Directory listing: errors of the iterator, then listing afresh.
fn listing(cx: &mut Cx) -> CaseResult {
    let k = cx.pick(7);
    let e = env(k)?;
    let dir = *cx.of(&["/", "/lin", "/ht"]);
    let (fs, p) = load(&e.img)?;
    let all: Vec<Vec<u8>> = fs
        .read_dir(dir)
        .and_then(|r| r.map(|x| x.map(|x| x.file_name().as_ref().to_vec())).collect())
        .map_err(|e| format!("clean listing: {e}"))?;
    let (fs, p) = {
        drop((fs, p));
        load(&e.img)?
    };
    let Some(how) = arm(cx, &p, 12) else { return Ok(()) };
    cx.describe(|| format!("geometry {k}, listing {dir}: {how}"));
    cx.input(hash_of(&(k, dir, how)));
    let mut seen = vec![];
    let mut err = false;
    cx.step();
    match fs.read_dir(dir) {
        Err(Ext4Error::Io(x)) if x.is::<Injected>() => err = true,
        Err(x) => bail!("read_dir: not the reader's error: {x}"),
        Ok(rd) => {
            let mut after = 0;
            for x in rd {
                match x {
                    Ok(x) => {
                        ensure!(!err, "an entry after an error");
                        seen.push(x.file_name().as_ref().to_vec())
                    }
                    Err(Ext4Error::Io(x)) if x.is::<Injected>() => err = true,
                    Err(x) => bail!("listing: not the reader's error: {x}"),
                }
                after += err as u32;
                ensure!(after < 100, "the iterator does not end after an error");
            }
        }
    }
    ensure!(all.starts_with(&seen), "entries {seen:?} are not a prefix of {all:?}");
    ensure!(err || seen == all, "truncated listing without an error: {seen:?}");
    disarm(&p);
    cx.step();
    let again: Vec<Vec<u8>> = fs
        .read_dir(dir)
        .and_then(|r| r.map(|x| x.map(|x| x.file_name().as_ref().to_vec())).collect())
        .map_err(|e| format!("listing afresh: {e}"))?;
    ensure!(again == all, "listing afresh: {again:?}");
    Ok(())
}

pub fn prop(t: bool) -> Prop {
    const Q: &[usize] = &[0, 1, 2, 5, 6];
    const A: &[usize] = &[0, 1, 2, 3, 4, 5, 6];
    const PQ: &[usize] = &[0, 5];
    Prop {
        id: "P12",
        level: "fault_enumeration",
        rule: "",
        assumptions: &[
            "a failing read may leave anything in the buffer",
            "an error is the reader's own if its source is the injected error object",
            "after an error a directory iterator ends (its documented behaviour); the listing is judged by opening it afresh",
        ],
        sections: vec![
            Section::new("single", "every operation x every read it issues x {once, from then on} x {buffer untouched, scribbled} x {retry, failing retry and retry}", single(if t { A } else { Q })),
            Section::new("loading", "loading 9 images (2 with a journal of three transactions): every read x 4 fault kinds", loading),
            Section::new("listing", "3 directories x 7 geometries x every read x 4 fault kinds", listing),
            Section::new("handles", if t { "all programs of 5 steps (reads, seeks) on one open file x first failing read 0..13, 3 images" } else { "all programs of 4 steps (reads, seeks) on one open file x first failing read 0..13, 3 images" }, handles(if t { 6 } else { 5 }, false)),
            Section::new("handles-two", "all programs of 3 steps x every pair of failing reads 0..13, 3 images", handles(4, true)),
            Section::new("pairs", "every operation x every read x 4 fault kinds x 3 cache histories, followed by every other operation", pairs(if t { A } else { PQ })),
        ],
        validate: None,
    }
}
