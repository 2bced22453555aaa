//! P18: handles and clones do not interfere with each other.

use super::world::{self, World};
use crate::Prop;
use crate::explore::{CaseResult, Cx, Fail, Section, hash_of};
use crate::img::Probe;
use crate::ops::{self, Kind, Obs, Val};
use ext4_view::{DirEntry, Ext4, File, ReadDir};
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug)]
enum St {
    /// open a file
    Open(&'static str),
    /// one read of blocks/16ths of a block plus bytes
    Read(u64, usize),
    /// seek to blocks, bytes
    Seek(u64, i64),
    /// std::io seeks
    End(i64),
    Cur(i64),
    ReadAll,
    FileMeta,
    DropFile,
    /// open a listing
    List(&'static str),
    /// advance it so many entries (keeping them)
    Next(usize),
    DropList,
    /// metadata, path and type of the entries kept
    Ents,
    /// replace the filesystem handle with a clone of it
    Reclone,
    /// drop the filesystem handle
    DropFs,
    /// an operation through the filesystem handle
    Op(Kind, &'static str),
    Ident,
}
use St::*;

/// A step, and whether the device fails while it runs (it is then repeated
/// without the failure).
type Step = (bool, St);
const fn s(x: St) -> Step {
    (false, x)
}
const fn f(x: St) -> Step {
    (true, x)
}

const SCRIPTS: [[Step; 5]; 32] = [
    // files
    [s(Open("/ext")), s(Read(0, 100)), s(Seek(2, 3000)), s(Read(16, 0)), s(ReadAll)],
    [s(Open("/ext")), s(Seek(4, 7)), s(Read(0, 300)), s(Seek(0, 0)), s(Read(0, 64))],
    [s(Open("/ext")), s(Seek(1, -5)), s(Read(0, 10)), s(Read(0, 10)), s(Cur(-8))],
    [s(Open("/ext")), s(ReadAll), s(Read(0, 1)), s(Seek(3, 0)), s(Read(2, 1))],
    [s(Open("/g")), s(Read(16, 0)), s(Read(16, 0)), s(Read(16, 0)), s(End(-4))],
    [s(Open("/g")), s(DropFs), s(Seek(1, -1)), s(Read(0, 9)), s(Read(0, 9))],
    [s(Open("/f")), s(End(-3)), s(Read(0, 10)), s(Read(0, 1)), s(FileMeta)],
    [s(Open("/f")), s(Seek(9, 0)), s(Read(0, 5)), s(Seek(0, 9)), s(ReadAll)],
    [s(Open("/fast/a")), s(Read(0, 4)), s(DropFile), s(Open("/slow/a")), s(ReadAll)],
    [s(Open("/ext2")), s(Read(0, 16)), s(Seek(4, 7)), s(Read(0, 16)), s(Read(0, 16))],
    [s(Open("/ext2")), s(ReadAll), s(Read(0, 16)), s(Seek(0, 5)), s(Read(0, 16))],
    [s(Open("/ext")), f(Read(0, 100)), s(Seek(3, 9)), f(Read(1, 9)), s(Read(0, 100))],
    [s(Open("/g")), s(Seek(1, -2)), f(Read(0, 9)), f(Read(0, 9)), s(Read(0, 9))],
    // listings
    [s(List("/lin")), s(Next(1)), s(Next(2)), s(Next(99)), s(Ents)],
    [s(List("/lin")), s(Next(99)), s(DropList), s(DropFs), s(Ents)],
    [s(List("/ht")), s(Next(3)), s(DropFs), s(Next(99)), s(Ents)],
    [s(List("/ht")), s(Next(99)), s(Ents), s(Next(1)), s(Ents)],
    [s(List("/")), s(Next(5)), s(Ents), s(Next(99)), s(Ents)],
    [s(List("/slow")), s(Next(2)), s(List("/lin")), s(Next(2)), s(Ents)],
    [s(List("/lin2")), s(Next(2)), s(Next(99)), s(Next(1)), s(Ents)],
    [s(List("/ht2")), s(Next(2)), s(Next(99)), s(Next(1)), s(Ents)],
    [f(List("/ht")), s(Next(3)), f(Ents), s(Next(9)), f(Ents)],
    // paths
    [s(Op(Kind::Meta, "/lin/a")), s(Op(Kind::ReadLink, "/slow")), s(Op(Kind::Canon, "/slow/a")), s(Op(Kind::Read, "/f")), s(Op(Kind::Exists, "/lin/none"))],
    [s(Op(Kind::SymMeta, "/ht/N0")), s(Op(Kind::Meta, "/ht/N10")), s(Op(Kind::Read, "/ht/N5")), s(Op(Kind::Exists, "/ht/none")), s(Op(Kind::Meta, "/ht/N15"))],
    [s(Op(Kind::ReadDir, "/lin2")), s(Op(Kind::Meta, "/lin2/a")), s(Op(Kind::Read, "/ext2")), s(Op(Kind::Meta, "/ht2/N0")), s(Op(Kind::ReadDir, "/ht2"))],
    [s(Op(Kind::Open, "/lin")), s(Op(Kind::ReadDir, "/f")), s(Op(Kind::ReadLink, "/f")), s(Op(Kind::Canon, "/none/x")), s(Op(Kind::Read, "f"))],
    [f(Op(Kind::Meta, "/lin/a")), f(Op(Kind::Read, "/ext")), f(Op(Kind::ReadDir, "/ht")), s(Op(Kind::Read, "/f")), f(Op(Kind::Canon, "/slow/a"))],
    [s(Reclone), s(Op(Kind::Meta, "/slow/a")), s(Reclone), s(Op(Kind::ReadDir, "/")), s(DropFs)],
    [s(Ident), s(Op(Kind::Read, "/g")), s(Op(Kind::ReadDir, "/lin")), s(Ident), s(Op(Kind::Read, "/ext"))],
    // both
    [s(List("/lin")), s(Open("/ext")), s(Next(2)), s(Read(16, 0)), s(Ents)],
    [s(Open("/ext")), s(List("/ht")), s(Read(0, 9)), s(Next(9)), s(Read(0, 9))],
    [s(Op(Kind::ReadStr, "/f")), s(Open("/f")), s(List("/lin")), s(DropFs), s(ReadAll)],
];

#[derive(Default)]
struct Handle {
    fs: Option<Ext4>,
    file: Option<File>,
    rd: Option<ReadDir>,
    ents: Vec<DirEntry>,
}

fn name_path(w: &World, p: &str) -> Vec<u8> {
    match p.rsplit_once("/N") {
        Some((d, n)) => {
            let mut v = d.as_bytes().to_vec();
            v.push(b'/');
            v.extend(&w.names[n.parse::<usize>().unwrap()]);
            v
        }
        None => p.as_bytes().to_vec(),
    }
}

impl Handle {
    fn step(&mut self, w: &World, p: &Probe, st: St) -> Obs {
        let bs = w.img.g.bs as u64;
        let e = |e: ext4_view::Ext4Error| ops::err_name(&e);
        let io = |e: std::io::Error| match e.downcast::<ext4_view::Ext4Error>() {
            Ok(e) => ops::err_name(&e),
            Err(e) => format!("{:?}: {e}", e.kind()),
        };
        let none = || "no handle".to_string();
        let num = |n: u64| Val::Bytes(n.to_le_bytes().to_vec());
        match st {
            Open(p) => {
                self.file = None;
                self.file = Some(self.fs.as_ref().ok_or_else(none)?.open(p).map_err(e)?);
                Ok(Val::Unit)
            }
            Read(b, n) => {
                let fl = self.file.as_mut().ok_or_else(none)?;
                let mut v = vec![0xa5; (b * bs / 16) as usize + n];
                // short reads are allowed, so read on; what was read before
                // a failure of the device is kept
                let mut k = 0;
                while k < v.len() {
                    match fl.read_bytes(&mut v[k..]) {
                        Ok(0) => break,
                        Ok(n) => k += n,
                        Err(_) if k > 0 && p.fail_from.get().is_some() => p.fail_from.set(None),
                        Err(x) => return Err(e(x)),
                    }
                }
                v.truncate(k);
                v.extend(fl.position().to_le_bytes());
                Ok(Val::Bytes(v))
            }
            Seek(b, n) => {
                let fl = self.file.as_mut().ok_or_else(none)?;
                fl.seek_to((b * bs).wrapping_add_signed(n)).map_err(e)?;
                Ok(num(fl.position()))
            }
            End(n) => self.file.as_mut().ok_or_else(none)?.seek(SeekFrom::End(n)).map(num).map_err(io),
            Cur(n) => self.file.as_mut().ok_or_else(none)?.seek(SeekFrom::Current(n)).map(num).map_err(io),
            ReadAll => {
                let fl = self.file.as_mut().ok_or_else(none)?;
                let mut v = vec![];
                fl.read_to_end(&mut v).map_err(io)?;
                v.extend(fl.position().to_le_bytes());
                Ok(Val::Bytes(v))
            }
            FileMeta => Ok(Val::Meta(ops::meta(self.file.as_ref().ok_or_else(none)?.metadata()))),
            DropFile => {
                self.file = None;
                Ok(Val::Unit)
            }
            List(p) => {
                self.rd = None;
                self.rd = Some(self.fs.as_ref().ok_or_else(none)?.read_dir(p).map_err(e)?);
                Ok(Val::Unit)
            }
            Next(n) => {
                let rd = self.rd.as_mut().ok_or_else(none)?;
                let mut v = vec![];
                for _ in 0..n {
                    match rd.next() {
                        None => {
                            v.push((vec![], b"(end)".to_vec(), Ok(""), Err(String::new())));
                            break;
                        }
                        Some(Err(x)) => {
                            v.push((vec![], b"(error)".to_vec(), Ok(""), Err(e(x))));
                            break;
                        }
                        Some(Ok(d)) => {
                            v.push((d.file_name().as_ref().to_vec(), d.path().as_ref().to_vec(), d.file_type().map(ops::ft_name).map_err(e), Err(String::new())));
                            self.ents.push(d);
                        }
                    }
                }
                Ok(Val::List(v))
            }
            DropList => {
                self.rd = None;
                Ok(Val::Unit)
            }
            Ents => {
                let mut v = vec![];
                for d in &self.ents {
                    let m = d.metadata().map(|m| ops::meta(&m)).map_err(e);
                    if let Err(x) = &m {
                        if x.starts_with("Io") {
                            return Err(x.clone());
                        }
                    }
                    v.push((d.file_name().as_ref().to_vec(), d.path().as_ref().to_vec(), d.file_type().map(ops::ft_name).map_err(e), m));
                }
                Ok(Val::List(v))
            }
            Reclone => {
                let c = self.fs.as_ref().ok_or_else(none)?.clone();
                self.fs = Some(c);
                Ok(Val::Unit)
            }
            DropFs => {
                self.fs = None;
                Ok(Val::Unit)
            }
            Op(k, p) => ops::run(self.fs.as_ref().ok_or_else(none)?, k, &name_path(w, p)),
            Ident => {
                let fs = self.fs.as_ref().ok_or_else(none)?;
                let mut v = fs.uuid().as_bytes().to_vec();
                v.extend(fs.label().as_bytes());
                Ok(Val::Bytes(v))
            }
        }
    }

    /// Runs a step; if the device was made to fail, the step may report
    /// that, and is repeated.
    fn go(&mut self, w: &World, p: &Probe, st: Step) -> Obs {
        if st.0 {
            p.fail_from.set(Some(0));
            let o = self.step(w, p, st.1);
            p.fail_from.set(None);
            let io = |e: &String| e.starts_with("Io");
            let failed = match &o {
                Err(e) => io(e),
                Ok(Val::List(l)) => l.iter().any(|x| x.2.as_ref().is_err_and(io) || x.3.as_ref().is_err_and(io)),
                Ok(_) => false,
            };
            if !failed {
                return o;
            }
        }
        self.step(w, p, st.1)
    }
}

type Solo = Vec<Vec<Obs>>;
static SOLO: Mutex<Vec<Option<Arc<Solo>>>> = Mutex::new(Vec::new());

/// What each script gives alone on its own filesystem.
fn solo(k: usize, journal: bool, w: &World) -> Result<Arc<Solo>, Fail> {
    let mut v = SOLO.lock().unwrap_or_else(|e| e.into_inner());
    let slot = 2 * k + journal as usize;
    if v.len() <= slot {
        v.resize(slot + 1, None);
    }
    if v[slot].is_none() {
        let mut all = vec![];
        for sc in &SCRIPTS {
            let mut h = Handle { fs: Some(world::load(&w.img)?.0), ..Default::default() };
            let p = Probe::default();
            all.push(sc.iter().map(|st| h.go(w, &p, (false, st.1))).collect::<Vec<Obs>>());
        }
        let bad = all.iter().flatten().filter(|o| o.is_err()).count();
        if all.iter().flatten().any(|o| *o == Err("no handle".into())) || !(5..30).contains(&bad) {
            let l: Vec<String> = all.iter().enumerate().flat_map(|(i, v)| v.iter().enumerate().filter(|x| x.1.is_err()).map(move |(n, o)| format!("{i}.{n} {}", ops::show(o)))).collect();
            return Err(format!("harness: {bad} of the scripts' steps fail: {l:?}").into());
        }
        v[slot] = Some(Arc::new(all));
    }
    Ok(v[slot].clone().unwrap())
}

fn interleave(cx: &mut Cx, k: usize, j: bool, which: &[usize], lens: &[usize]) -> CaseResult {
    let w = world::world(k, j)?;
    let so = solo(k, j, &w)?;
    let (fs, p) = world::load(&w.img)?;
    let mut hs: Vec<Handle> = vec![];
    let mut first = Some(fs);
    for i in 0..which.len() {
        // the last script gets the loaded object itself
        let c = if i + 1 == which.len() { first.take() } else { first.clone() };
        hs.push(Handle { fs: c, ..Default::default() });
    }
    let mut at = vec![0; which.len()];
    let mut order = vec![];
    loop {
        let ready: Vec<usize> = (0..which.len()).filter(|i| at[*i] < lens[*i]).collect();
        if ready.is_empty() {
            break;
        }
        let i = ready[cx.pick(ready.len())];
        order.push(i);
        cx.step();
        let st = SCRIPTS[which[i]][at[i]];
        let o = hs[i].go(&w, &p, st);
        let want = &so[which[i]][at[i]];
        if o != *want {
            cx.describe(|| {
                let mut n = vec![0; which.len()];
                let l: Vec<String> = order
                    .iter()
                    .map(|i| {
                        n[*i] += 1;
                        format!("{}: {:?}", (b'A' + *i as u8) as char, SCRIPTS[which[*i]][n[*i] - 1])
                    })
                    .collect();
                format!("geometry {k}, journal {j}: {}", l.join("; "))
            });
            bail!("the last step gives {}, alone it gives {}", ops::show(&o), ops::show(want));
        }
        cx.outcome(ops::obs_hash(&o));
        at[i] += 1;
    }
    cx.describe(|| format!("geometry {k}, journal {j}, scripts {which:?}, order {order:?}"));
    cx.input(hash_of(&(k, j, which, &order)));
    // the handles go away in every order
    let d = order.first().copied().unwrap_or(0);
    hs.rotate_left(d);
    drop(hs);
    if Rc::strong_count(&p) != 1 {
        bail!("the device is still held after all handles were dropped");
    }
    Ok(())
}

/// Two scripts, all interleavings; unordered pairs, also of a script with
/// itself.
fn pairs(cfgs: &'static [(usize, bool)], len: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let a = cx.pick(SCRIPTS.len());
        let b = a + cx.pick(SCRIPTS.len() - a);
        interleave(cx, k, j, &[a, b], &[len, len])
    }
}

/// Three scripts.
fn triples(cfgs: &'static [(usize, bool)], pool: &'static [usize], len: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let n = pool.len();
        let a = cx.pick(n);
        let b = a + cx.pick(n - a);
        let c = b + cx.pick(n - b);
        interleave(cx, k, j, &[pool[a], pool[b], pool[c]], &[len; 3])
    }
}

/// Four scripts, two steps each.
fn four(cfgs: &'static [(usize, bool)], pool: &'static [usize]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let n = pool.len();
        let a = cx.pick(n);
        let b = a + cx.pick(n - a);
        let c = b + cx.pick(n - b);
        let d = c + cx.pick(n - c);
        interleave(cx, k, j, &[pool[a], pool[b], pool[c], pool[d]], &[2; 4])
    }
}

// ---- many handles to one file ----

/// `n` handles on one file, each at its own position; every sequence of
/// (handle, operation) to a depth, against one cursor per handle.
fn cursors(n: usize, depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let path = *cx.of(&["/g", "/ext", "/f"]);
        let (k, j) = (5, false);
        let w = world::world(k, j)?;
        let bs = w.img.g.bs as u64;
        let (fs, _) = world::load(&w.img)?;
        let data = fs.read(path).map_err(|e| format!("read: {e}"))?;
        let mut hs = vec![];
        for _ in 0..n {
            hs.push((fs.open(path).map_err(|e| format!("open: {e}"))?, 0u64));
        }
        drop(fs);
        let mut seq = vec![];
        for _ in 0..depth {
            let h = cx.pick(n);
            let o = cx.pick(4);
            seq.push((h, o));
            cx.describe(|| format!("{path}, last of (handle, operation) {seq:?}"));
            cx.step();
            let (fl, pos) = &mut hs[h];
            match o {
                0 | 1 => {
                    let mut b = vec![0x77; if o == 0 { 3 } else { bs as usize }];
                    let n = fl.read_bytes(&mut b).map_err(|e| format!("read: {e}"))?;
                    // a read may be short, but only stops at the end of the file
                    let rest = &data[(*pos as usize).min(data.len())..];
                    ensure!(n > 0 || rest.is_empty(), "handle {h} at {pos}: read nothing");
                    let want = &rest[..n.min(rest.len())];
                    ensure!(b[..n] == *want, "handle {h} at {pos}: read {n} bytes, {}", ops::diff_at(&b[..n], want));
                    *pos += n as u64;
                }
                2 => {
                    *pos = bs - 1;
                    fl.seek_to(*pos).map_err(|e| format!("seek: {e}"))?;
                }
                _ => {
                    *pos = 0;
                    fl.seek_to(0).map_err(|e| format!("seek: {e}"))?;
                }
            }
            for (i, (fl, pos)) in hs.iter().enumerate() {
                ensure!(fl.position() == *pos, "handle {i} is at {}, not {pos}", fl.position());
            }
        }
        cx.input(hash_of(&(path, &seq)));
        Ok(())
    }
}

pub fn prop(t: bool) -> Prop {
    const Q: &[(usize, bool)] = &[(0, true)];
    const TH: &[(usize, bool)] = &[(0, true), (1, false), (2, true), (3, false), (4, true), (5, false)];
    const POOL: &[usize] = &[0, 4, 5, 8, 9, 11, 13, 15, 19, 22, 26, 28];
    const POOL4: &[usize] = &[0, 2, 6, 14, 15, 20, 22, 24, 26];
    Prop {
        id: "P18",
        level: "model_checking",
        rule: "a case fails if a step of a script gives another result in an interleaving than the script alone on its own filesystem (a step during which the device fails may report that once), or the device is not released in the end",
        assumptions: &["single-threaded use: the library's types are neither Send nor Sync", "results of a script alone are judged by the other properties"],
        sections: vec![
            Section::new("pairs", if t { "528 pairs of 32 scripts, all interleavings of 5 + 5 steps, 6 configurations" } else { "528 pairs of 32 scripts, all interleavings of 4 + 4 steps, 64 KiB blocks with journal" }, pairs(if t { TH } else { Q }, if t { 5 } else { 4 })),
            Section::new("triples", if t { "364 triples of 12 scripts, all interleavings of 4 + 4 + 4 steps, 64 KiB blocks with journal" } else { "364 triples of 12 scripts, all interleavings of 3 + 3 + 3 steps, 1 KiB blocks" }, triples(if t { Q } else { &TH[5..] }, POOL, if t { 4 } else { 3 })),
            Section::new("four", "495 sets of 4 of 9 scripts, all interleavings of 2 steps each", four(if t { TH } else { &TH[5..] }, POOL4)),
            Section::new("cursors-2", if t { "2 handles on one file, all sequences of 8 of 4 operations, 3 files" } else { "2 handles on one file, all sequences of 5 of 4 operations, 3 files" }, cursors(2, if t { 7 } else { 5 })),
            Section::new("cursors-3", if t { "3 handles on one file, all sequences of 6 of 4 operations, 3 files" } else { "3 handles on one file, all sequences of 4 of 4 operations, 3 files" }, cursors(3, if t { 6 } else { 4 })),
        ],
        validate: None,
    }
}
