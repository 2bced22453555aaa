//! P19: the bundled readers return exactly the requested bytes or an error.

use super::world;
use crate::Prop;
use crate::explore::{CaseResult, Cx, Fail, Section, hash_of};
use crate::img::*;
use crate::ops::{self, Obs};
use ext4_view::{Ext4, Ext4Error, Ext4Read};
use std::fs::{self, File, OpenOptions};
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::*};

/// A scratch directory, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, Fail> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("mc-p19-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        fs::create_dir(&d).map_err(|e| format!("harness: {}: {e}", d.display()))?;
        Ok(Scratch(d))
    }
    fn file(&self, name: &str, data: &[u8]) -> Result<(PathBuf, File), Fail> {
        let p = self.0.join(name);
        fs::write(&p, data).map_err(|e| format!("harness: {e}"))?;
        let f = File::open(&p).map_err(|e| format!("harness: {e}"))?;
        Ok((p, f))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn byte(i: u64) -> u8 {
    (i * 37 + 11) as u8
}

/// Reads and judges one range of data of length `len`.
fn range(r: &mut dyn Ext4Read, len: u64, off: u64, n: usize, at: impl Fn(u64) -> u8) -> CaseResult {
    let mut dst = vec![0xee; n];
    let ok = r.read(off, &mut dst).is_ok();
    let fits = off.checked_add(n as u64).is_some_and(|e| e <= len);
    if n == 0 && !fits {
        // nothing is asked for: either is fine
        return Ok(());
    }
    ensure!(ok == fits, "{} although the range {} inside the data", if ok { "success" } else { "error" }, if fits { "is" } else { "is not" });
    if ok {
        for (i, b) in dst.iter().enumerate() {
            ensure!(*b == at(off + i as u64), "byte {i} is {b:#x}, not {:#x}", at(off + i as u64));
        }
    }
    Ok(())
}

/// Offsets around every limit of 32- and 64-bit, signed and unsigned numbers.
fn offsets(len: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..len as u64 + 4).collect();
    for c in [1u64 << 31, 1 << 32, 1 << 63] {
        v.extend(c - 16..c + 16);
    }
    v.extend(u64::MAX - 20..=u64::MAX);
    v
}

fn ranges(max: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let len = cx.pick(max + 1);
        let which = cx.pick(3);
        let n = cx.pick(max + 3);
        cx.describe(|| format!("{} of {len} bytes, reads of {n} bytes", ["Vec", "File", "File opened for reading and writing"][which]));
        cx.input(hash_of(&(len, which, n)));
        let data: Vec<u8> = (0..len as u64).map(byte).collect();
        let tmp;
        let mut r: Box<dyn Ext4Read> = match which {
            0 => Box::new(data),
            _ => {
                tmp = Scratch::new()?;
                let (p, f) = tmp.file("d", &data)?;
                if which == 1 { Box::new(f) } else { Box::new(OpenOptions::new().read(true).write(true).open(p).map_err(|e| format!("harness: {e}"))?) }
            }
        };
        for off in offsets(max) {
            cx.step();
            range(&mut *r, len as u64, off, n, byte).map_err(|mut e| {
                e.msg = format!("offset {off:#x}: {}", e.msg);
                e
            })?;
        }
        Ok(())
    }
}

/// Sequences of reads on one reader; failing ones, and moving the file's
/// own position in between, do not matter.
fn sequences(depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        const OPS: [(u64, usize); 9] = [(0, 4), (4, 4), (3, 1), (0, 0), (7, 2), (8, 1), (u64::MAX, 1), (1 << 63, 3), (0, 9)];
        let which = cx.pick(2);
        let data: Vec<u8> = (0..8).map(byte).collect();
        let tmp = Scratch::new()?;
        let (_, f) = tmp.file("d", &data)?;
        let mut other = f.try_clone().map_err(|e| format!("harness: {e}"))?;
        let mut r: Box<dyn Ext4Read> = if which == 0 { Box::new(data) } else { Box::new(f) };
        let mut seq = vec![];
        for d in 0..depth {
            let k = cx.pick(OPS.len() + which * 2);
            seq.push(k);
            cx.describe(|| format!("{}: operations {seq:?}, the last one", ["Vec", "File"][which]));
            cx.step();
            match k.checked_sub(OPS.len()) {
                Some(0) => {
                    other.seek(SeekFrom::Start(5)).map_err(|e| format!("harness: {e}"))?;
                }
                Some(_) => {
                    other.seek(SeekFrom::End(100)).map_err(|e| format!("harness: {e}"))?;
                }
                None => range(&mut *r, 8, OPS[k].0, OPS[k].1, byte).map_err(|mut e| {
                    e.msg = format!("operation {d}: {}", e.msg);
                    e
                })?,
            }
        }
        cx.input(hash_of(&(which, &seq)));
        Ok(())
    }
}

/// A sparse file beyond 4 GiB.
fn sparse(cx: &mut Cx) -> CaseResult {
    let spots = [0u64, (1 << 31) - 8, (1 << 32) - 8, (1 << 33) - 8, (1 << 35) + 100 - 16];
    let len = (1u64 << 35) + 100;
    let s = cx.pick(spots.len());
    let tmp = Scratch::new()?;
    let p = tmp.0.join("d");
    let f = File::create(&p).map_err(|e| format!("harness: {e}"))?;
    if f.set_len(len).is_err() {
        // a filesystem without sparse files of this size
        return Ok(());
    }
    for c in spots {
        let d: Vec<u8> = (0..16).map(|i| byte(c + i) | 1).collect();
        f.write_all_at(&d, c).map_err(|e| format!("harness: {e}"))?;
    }
    let at = |i: u64| if spots.iter().any(|c| (*c..c + 16).contains(&i)) { byte(i) | 1 } else { 0 };
    let mut r = File::open(&p).map_err(|e| format!("harness: {e}"))?;
    for d in 0..40u64 {
        let off = (spots[s] + d).saturating_sub(12);
        for n in 0..40 {
            cx.step();
            cx.describe(|| format!("{n} bytes at {off:#x} of a sparse file of {len:#x} bytes"));
            cx.input(hash_of(&(off, n)));
            range(&mut r, len, off, n, at)?;
        }
    }
    Ok(())
}

/// Files that cannot be read.
fn unreadable(cx: &mut Cx) -> CaseResult {
    let what = cx.pick(3);
    let n = cx.pick(5);
    let off = *cx.of(&[0u64, 1, 1 << 40, u64::MAX]);
    cx.describe(|| format!("{n} bytes at {off} of {}", ["a file opened for writing only", "a directory", "a socket"][what]));
    cx.input(hash_of(&(what, n, off)));
    let tmp = Scratch::new()?;
    let (p, _) = tmp.file("d", &[7; 100])?;
    let mut f = match what {
        0 => OpenOptions::new().write(true).open(p).map_err(|e| format!("harness: {e}"))?,
        1 => File::open(&tmp.0).map_err(|e| format!("harness: {e}"))?,
        _ => {
            let (a, _b) = std::os::unix::net::UnixStream::pair().map_err(|e| format!("harness: {e}"))?;
            File::from(std::os::fd::OwnedFd::from(a))
        }
    };
    cx.step();
    let mut dst = vec![0xee; n];
    let r = Ext4Read::read(&mut f, off, &mut dst);
    ensure!(n == 0 || r.is_err(), "success");
    let l = Ext4::load(Box::new(f));
    match l.map(|_| ()) {
        Err(Ext4Error::Io(_)) => Ok(()),
        o => bail!("load gives {o:?}"),
    }
}

// ---- whole filesystems ----

/// Another conforming reader: byte by byte, from the end.
struct Slow(Arc<Vec<u8>>);
impl Ext4Read for Slow {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        for i in (0..dst.len()).rev() {
            let p = start.checked_add(i as u64).ok_or(OutOfDevice)?;
            dst[i] = *self.0.get(usize::try_from(p)?).ok_or(OutOfDevice)?;
        }
        Ok(())
    }
}

/// Its buffer is garbage until the last moment, and stays so on errors.
struct Messy(Arc<Vec<u8>>);
impl Ext4Read for Messy {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        dst.fill(0xdb);
        let s = usize::try_from(start)?;
        let e = s.checked_add(dst.len()).ok_or(OutOfDevice)?;
        dst.copy_from_slice(self.0.get(s..e).ok_or(OutOfDevice)?);
        Ok(())
    }
}

const WAYS: [&str; 7] = ["Vec", "File", "File left at its end", "load_from_path", "load_from_path through a link", "a bytewise reader", "a reader that scribbles"];

fn open_by(way: usize, bytes: &Arc<Vec<u8>>, tmp: &Scratch) -> Result<Result<Ext4, Ext4Error>, Fail> {
    let e = |e: std::io::Error| format!("harness: {e}");
    Ok(match way {
        0 => Ext4::load(Box::new(bytes.as_ref().clone())),
        1 => Ext4::load(Box::new(tmp.file("i", bytes)?.1)),
        2 => {
            let (_, mut f) = tmp.file("i", bytes)?;
            f.seek(SeekFrom::End(0)).map_err(e)?;
            Ext4::load(Box::new(f))
        }
        3 => Ext4::load_from_path(tmp.file("i", bytes)?.0),
        4 => {
            let (p, _) = tmp.file("i", bytes)?;
            let l = tmp.0.join("l");
            std::os::unix::fs::symlink(p, &l).map_err(e)?;
            let r = Ext4::load_from_path(&l);
            // an open filesystem does not need its path
            fs::remove_file(l).map_err(e)?;
            fs::remove_file(tmp.0.join("i")).map_err(e)?;
            r
        }
        5 => Ext4::load(Box::new(Slow(bytes.clone()))),
        _ => Ext4::load(Box::new(Messy(bytes.clone()))),
    })
}

fn routes(cfgs: &'static [(usize, bool)]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let way = cx.pick(WAYS.len());
        cx.describe(|| format!("geometry {k}, journal {j}, {}", WAYS[way]));
        cx.input(hash_of(&(k, j, way)));
        let w = world::world(k, j)?;
        let bytes = Arc::new(trimmed(&w.img));
        let tmp = Scratch::new()?;
        let fs = open_by(way, &bytes, &tmp)?.map_err(|e| format!("load: {e}"))?;
        // the library's reader holds what it needs
        drop(tmp);
        for i in 0..world::count() {
            cx.step();
            let o = world::observe(&fs, &w, i);
            ensure!(o == w.solo[i], "{}: {} instead of {}", world::name(i), ops::show(&o), ops::show(&w.solo[i]));
            cx.outcome(ops::obs_hash(&o));
        }
        let sb = w.img.load().map_err(|e| format!("{e}"))?;
        ensure!(fs.uuid() == sb.uuid() && fs.label() == sb.label(), "label or uuid differ");
        Ok(())
    }
}

/// The image's bytes up to the last block that is not just the pattern of
/// the device (the blocks of the files are needed, so a bit more).
fn trimmed(m: &Img) -> Vec<u8> {
    let end = m.blocks.keys().max().copied().unwrap_or(0).max(m.next) + 64;
    let n = end.min(m.g.blocks_count) as usize;
    let mut v = vec![0; n * m.g.bs];
    m.freeze().read_at(0, &mut v);
    v
}

/// Kinds of results, with the readers' own messages left out.
fn norm(o: Obs) -> Obs {
    o.map_err(|e| if e.starts_with("Io(") { "Io".into() } else { e })
}

/// Devices cut off at every block boundary, and next to it: the readers
/// agree.
fn truncated(cfgs: &'static [(usize, bool)]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let (k, j) = *cx.of(cfgs);
        let w = world::world(k, j)?;
        let mut all = trimmed(&w.img);
        let bs = w.img.g.bs;
        let blocks = all.len() / bs;
        let b = cx.pick(blocks + 1);
        let d = *cx.of(&[0i64, -1, 1, bs as i64 / 2]);
        let Some(len) = (b * bs).checked_add_signed(d as isize) else { return Ok(()) };
        if len > all.len() {
            return Ok(());
        }
        cx.describe(|| format!("geometry {k}, journal {j}, cut off after {len} bytes"));
        cx.input(hash_of(&(k, j, len)));
        all.truncate(len);
        let bytes = Arc::new(all);
        let mut first: Option<Vec<Obs>> = None;
        for way in [6, 0, 1, 3] {
            let tmp = Scratch::new()?;
            let mut v = vec![];
            match open_by(way, &bytes, &tmp)? {
                Err(e) => v.push(norm(Err(ops::err_name(&e)))),
                Ok(fs) => {
                    for i in 0..world::count() {
                        cx.step();
                        v.push(match norm(world::observe(&fs, &w, i)) {
                            Ok(ops::Val::List(mut l)) => {
                                for x in &mut l {
                                    if x.3.as_ref().is_err_and(|e| e.starts_with("Io(")) {
                                        x.3 = Err("Io".into());
                                    }
                                }
                                Ok(ops::Val::List(l))
                            }
                            // the std::io::Error's text
                            Err(_) if i + 10 == world::count() => Err("Io".into()),
                            o => o,
                        });
                    }
                }
            }
            match &first {
                None => {
                    for o in &v {
                        cx.outcome(ops::obs_hash(o));
                    }
                    first = Some(v);
                }
                Some(f) => {
                    ensure!(f.len() == v.len(), "{} and {}: only one of them loads the filesystem", WAYS[6], WAYS[way]);
                    for (i, (a, b)) in f.iter().zip(&v).enumerate() {
                        ensure!(a == b, "{}: {} with {}, {} with {}", world::name(i), ops::show(a), WAYS[6], ops::show(b), WAYS[way]);
                    }
                }
            }
        }
        Ok(())
    }
}

/// Paths given to load_from_path.
fn paths(cx: &mut Cx) -> CaseResult {
    let c = cx.pick(12);
    let w = world::world(5, false)?;
    let tmp = Scratch::new()?;
    let bytes = trimmed(&w.img);
    let names: [&[u8]; 6] = [b"plain", b"with space", b"n\xff\xfe", b"\xe4\xb8\xad", b"-dash", b"dot.."];
    cx.input(c as u64);
    cx.step();
    if c < names.len() {
        let p = tmp.0.join(std::ffi::OsStr::from_bytes(names[c]));
        cx.describe(|| format!("load_from_path({p:?})"));
        File::create(&p).and_then(|mut f| f.write_all(&bytes)).map_err(|e| format!("harness: {e}"))?;
        let fs = Ext4::load_from_path(p.as_os_str()).map_err(|e| format!("load: {e}"))?;
        for i in 0..world::count() {
            let o = world::observe(&fs, &w, i);
            ensure!(o == w.solo[i], "{}: {}", world::name(i), ops::show(&o));
        }
        return Ok(());
    }
    let (p, want) = match c - names.len() {
        0 => (tmp.0.join("missing"), "Io"),
        1 => (tmp.0.clone(), "Io"),
        2 => (tmp.file("empty", &[])?.0, "Io"),
        3 => (tmp.file("short", &bytes[..1500])?.0, "Io"),
        4 => (tmp.file("zeros", &[0; 4096])?.0, "Corrupt"),
        _ => {
            let l = tmp.0.join("dangling");
            std::os::unix::fs::symlink("nowhere", &l).map_err(|e| format!("harness: {e}"))?;
            (l, "Io")
        }
    };
    cx.describe(|| format!("load_from_path({p:?})"));
    match Ext4::load_from_path(&p) {
        Ok(_) => bail!("success"),
        Err(e) => ensure!(ops::err_name(&e).starts_with(want), "{} instead of {want}", ops::err_name(&e)),
    }
    Ok(())
}

pub fn prop(t: bool) -> Prop {
    const ALL: &[(usize, bool)] = &[
        (0, false), (0, true), (1, false), (1, true), (2, false), (2, true), (3, false), (3, true), (4, false), (4, true), (5, false), (5, true),
    ];
    const CUT: &[(usize, bool)] = &[(4, true), (5, false), (5, true), (4, false)];
    Prop {
        id: "P19",
        level: "model_checking",
        rule: "a case fails if a reader succeeds although the range is not inside its data, fails although it is, delivers other bytes, or if a filesystem gives different results through different readers",
        assumptions: &["reads of no bytes beyond the end may succeed or fail", "the contents of the destination after an error are unspecified", "files do not change while they are in use"],
        sections: vec![
            Section::new("ranges", if t { "data lengths 0..24 x read lengths 0..26 x 149 offsets x 3 readers" } else { "data lengths 0..12 x read lengths 0..14 x 133 offsets x 3 readers" }, ranges(if t { 24 } else { 12 })),
            Section::new("sequences", if t { "all sequences of 5 of 9 reads (and 2 changes of the file's own position), both readers" } else { "all sequences of 4 of 9 reads (and 2 changes of the file's own position), both readers" }, sequences(if t { 5 } else { 4 })),
            Section::new("sparse", "every read length to 40 at 40 offsets around 0, 2^31, 2^32, 2^33 and the end of a file of 2^35 + 100 bytes", sparse),
            Section::new("unreadable", "3 kinds of files that cannot be read x lengths x offsets", unreadable),
            Section::new("routes", "7 ways to load x 6 geometries x journal, all 69 operations", routes(ALL)),
            Section::new("truncated", if t { "4 images cut off at every block boundary, 1 byte before and after it and in the middle of each block, 69 operations, 4 ways to load" } else { "2 images cut off at every block boundary, 1 byte before and after it and in the middle of each block, 69 operations, 4 ways to load" }, truncated(if t { CUT } else { &CUT[..2] })),
            Section::new("paths", "12 paths: names, missing files, directories, short files, links", paths),
        ],
        validate: None,
    }
}
