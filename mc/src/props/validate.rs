//! Conformance of the image builder with e2fsprogs (`mc --validate-builder
//! [ID]`): a part of the images of every section is checked with e2fsck, and
//! walked with debugfs in parallel with the library.
//!
//! Not part of the checks, since it judges builder and library together.

use crate::explore;
use crate::img::*;
use ext4_view::{Ext4, Ext4Read};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path as FsPath, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static ON: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static STORE: Mutex<Vec<Img>> = Mutex::new(Vec::new());
static KEPT: AtomicU64 = AtomicU64::new(0);
static EVERY: AtomicU64 = AtomicU64::new(1);

static GEO: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());

/// What the kernel's ext4_fill_super and ext4_check_descriptors, or e2fsck,
/// would object to in the geometry.
fn objections(g: &Geo) -> Vec<&'static str> {
    let mut v = vec![];
    let bs = g.bs as u32;
    let isz = g.inode_size as u32;
    if !isz.is_power_of_two() || isz < 128 || isz > bs {
        v.push("inode size");
        return v;
    }
    if g.ipg < bs / isz || g.ipg > 8 * bs || g.ipg % 8 != 0 {
        v.push("inodes per group");
    }
    let big = g.ro & RO_BIGALLOC != 0;
    if (g.bpg > 8 * bs && !big) || g.bpg < 8 || g.bpg % 8 != 0 {
        v.push("blocks per group");
    }
    if g.f64bit && !(matches!(g.desc_size, 64..=1024) && g.desc_size.is_power_of_two()) {
        v.push("descriptor size");
    }
    if g.first_data_block as u64 >= g.blocks_count || (bs == 1024 && g.first_data_block == 0 && !big) {
        v.push("first data block");
        return v;
    }
    let gdt = (g.groups() * g.desc_size as u64).div_ceil(bs as u64);
    let itb = (g.ipg as u64 * isz as u64).div_ceil(bs as u64);
    let flex = g.incompat & INCOMPAT_FLEX_BG != 0;
    let mut spans = vec![(0, g.first_data_block as u64 + gdt)];
    for (i, t) in g.itab.iter().enumerate() {
        let (lo, hi) = if flex {
            (g.first_data_block as u64, g.blocks_count)
        } else {
            let s = g.first_data_block as u64 + i as u64 * g.bpg as u64;
            (s, (s + g.bpg as u64).min(g.blocks_count))
        };
        if t.wrapping_sub(2) < lo || t + itb > hi {
            v.push(if flex { "inode table outside of the filesystem" } else { "inode table outside of its group" });
            break;
        }
        spans.push((t - 2, t + itb - 1));
    }
    spans.sort();
    if spans.windows(2).any(|w| w[0].1 >= w[1].0) {
        v.push("overlapping tables");
    }
    v
}

/// Called by `Img::load`.
pub fn offer(m: &Img) {
    if ON.load(Relaxed) {
        for o in objections(&m.g) {
            let mut g = GEO.lock().unwrap();
            let e = g.entry(o.into()).or_insert_with(|| {
                let mut h = m.g.clone();
                h.itab.truncate(6);
                (0, format!("{h:?}"))
            });
            e.0 += 1;
        }
        let n = COUNT.fetch_add(1, Relaxed);
        if n % EVERY.load(Relaxed) == 0 && m.g.blocks_count < 1 << 20 {
            STORE.lock().unwrap().push(m.clone());
        }
    }
}

struct Rec {
    d: Disk,
    log: Rc<RefCell<BTreeSet<u64>>>,
}
impl Ext4Read for Rec {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        let bs = self.d.bs as u64;
        if !dst.is_empty() {
            self.log.borrow_mut().extend(start / bs..=(start + dst.len() as u64 - 1) / bs);
        }
        self.d.read(start, dst)
    }
}

type Tree = BTreeMap<Vec<u8>, (u32, u64, Option<Vec<u8>>)>;
const BIG: u64 = 32 << 20;

/// Everything reachable, as the library sees it: (mode, size, contents).
fn lib_tree(fs: &Ext4) -> (Tree, BTreeMap<Vec<u8>, String>) {
    let mut t = Tree::new();
    let mut errs = BTreeMap::new();
    let mut todo = vec![b"/".to_vec()];
    while let Some(d) = todo.pop() {
        let it = match fs.read_dir(d.as_slice()) {
            Ok(i) => i,
            Err(e) => {
                errs.insert(d, format!("read_dir: {e}"));
                continue;
            }
        };
        for e in it {
            let e = match e {
                Ok(e) => e,
                Err(e) => {
                    errs.insert(d.clone(), format!("entry: {e}"));
                    break;
                }
            };
            let n = e.file_name().as_ref().to_vec();
            if n == b"." || n == b".." {
                continue;
            }
            let mut p = d.clone();
            if !p.ends_with(b"/") {
                p.push(b'/');
            }
            p.extend(&n);
            if p.len() > 200 && p.iter().filter(|c| **c == b'/').count() > 12 {
                continue;
            }
            let one = || -> Result<(u32, u64, Option<Vec<u8>>), String> {
            let m = fs.symlink_metadata(p.as_slice()).map_err(|e| e.to_string())?;
            let ft = m.file_type();
            let (ty, data) = if m.is_dir() {
                (S_IFDIR, None)
            } else if m.is_symlink() {
                let l = fs.read_link(p.as_slice()).map_err(|e| e.to_string())?;
                (S_IFLNK, Some(l.as_ref().to_vec()))
            } else if ft.is_regular_file() {
                let d = if m.len() <= BIG {
                    Some(fs.read(p.as_slice()).map_err(|e| e.to_string())?)
                } else {
                    None
                };
                (0o100000, d)
            } else if ft.is_char_dev() {
                (0o020000, None)
            } else if ft.is_block_dev() {
                (0o060000, None)
            } else if ft.is_fifo() {
                (0o010000, None)
            } else {
                (0o140000, None)
            };
            Ok((ty as u32 | m.mode() as u32, m.len(), data))
            };
            match one() {
                Ok(v) => {
                    if v.0 & 0o170000 == S_IFDIR as u32 && p.iter().filter(|c| **c == b'/').count() < 6 {
                        todo.push(p.clone());
                    }
                    t.insert(p, v);
                }
                Err(e) => {
                    errs.insert(p, e);
                }
            }
        }
    }
    (t, errs)
}

fn tool(name: &str) -> Command {
    let mut c = Command::new(format!("/usr/sbin/{name}"));
    c.env("DEBUGFS_PAGER", "cat").env("PAGER", "cat").stdin(Stdio::null());
    c
}

fn debugfs(img: &FsPath, cmds: &[String]) -> Result<Vec<u8>, String> {
    let s = img.with_extension("cmd");
    std::fs::write(&s, cmds.join("\n") + "\n").unwrap();
    let o = tool("debugfs").arg("-c").arg("-f").arg(&s).arg(img).output().map_err(|e| e.to_string())?;
    Ok(o.stdout)
}

/// One line of `ls -p`: /ino/mode/uid/gid/name/size/
fn parse_ls(out: &[u8]) -> Vec<(u32, u32, Vec<u8>)> {
    let mut v = vec![];
    let mut rest = out;
    while let Some(p) = rest.iter().position(|c| *c == b'/') {
        rest = &rest[p + 1..];
        let f: Vec<&[u8]> = rest.splitn(5, |c| *c == b'/').collect();
        if f.len() < 5 {
            break;
        }
        let num = |b: &[u8], r| u32::from_str_radix(std::str::from_utf8(b).ok()?, r).ok();
        let (Some(ino), Some(mode)) = (num(f[0], 10), num(f[1], 8)) else { continue };
        // name ends where "/digits/\n" follows
        let t = f[4];
        let mut k = 0;
        while k < t.len() {
            if t[k] == b'/' {
                let mut j = k + 1;
                while j < t.len() && t[j].is_ascii_digit() {
                    j += 1;
                }
                if t.get(j) == Some(&b'/') && t.get(j + 1) == Some(&b'\n') {
                    v.push((ino, mode, t[..k].to_vec()));
                    rest = &t[j + 1..];
                    break;
                }
            }
            k += 1;
        }
        if k >= t.len() {
            break;
        }
    }
    v
}

fn dbg_tree(img: &FsPath, tmp: &FsPath) -> Result<Tree, String> {
    let mut t = Tree::new();
    let mut level: Vec<(u32, Vec<u8>)> = vec![(2, b"/".to_vec())];
    let mut depth = 0;
    while !level.is_empty() && depth < 6 {
        depth += 1;
        let mut next = vec![];
        for (ino, path) in level {
            let out = debugfs(img, &[format!("ls -p <{ino}>")])?;
            let ents: Vec<_> = parse_ls(&out).into_iter().filter(|e| e.2 != b"." && e.2 != b".." && e.0 != 0).collect();
            let mut cmds = vec![];
            for (k, e) in ents.iter().enumerate() {
                cmds.push(format!("stat <{}>", e.0));
                cmds.push(format!("dump <{}> {}/{k}", e.0, tmp.display()));
            }
            let _ = std::fs::remove_dir_all(tmp);
            std::fs::create_dir_all(tmp).unwrap();
            // size first, so that nothing huge is dumped
            let stats: Vec<String> = cmds.iter().filter(|c| c.starts_with("stat")).cloned().collect();
            let so = debugfs(img, &stats)?;
            let so: Vec<&[u8]> = split(&so, b"debugfs: stat ");
            let mut infos = vec![];
            for s in so.iter().skip(1) {
                let size = after(s, b"   Size: ").and_then(|x| {
                    let d: Vec<u8> = x.iter().copied().take_while(|c| c.is_ascii_digit()).collect();
                    String::from_utf8(d).ok()?.parse::<u64>().ok()
                });
                let fast = after(s, b"Fast link dest: \"").map(|x| {
                    let e = x.iter().rposition(|c| *c == b'"').unwrap_or(0);
                    x[..e].to_vec()
                });
                infos.push((size, fast));
            }
            if infos.len() != ents.len() {
                return Err(format!("debugfs stat gave {} of {}", infos.len(), ents.len()));
            }
            let dumps: Vec<String> = cmds
                .iter()
                .filter(|c| c.starts_with("dump"))
                .zip(&infos)
                .zip(&ents)
                .filter(|((_, i), e)| i.0.is_none_or(|s| s <= BIG) && matches!(e.1 & 0o170000, 0o100000 | 0o120000) && i.1.is_none())
                .map(|((c, _), _)| c.clone())
                .collect();
            debugfs(img, &dumps)?;
            for (k, e) in ents.iter().enumerate() {
                let mut p = path.clone();
                if !p.ends_with(b"/") {
                    p.push(b'/');
                }
                p.extend(&e.2);
                let (size, fast) = &infos[k];
                let ty = e.1 & 0o170000;
                let size = size.unwrap_or(0);
                let data = match ty {
                    0o120000 => match fast {
                        Some(f) => Some(f.clone()),
                        None => std::fs::read(tmp.join(k.to_string())).ok(),
                    },
                    0o100000 if size <= BIG => std::fs::read(tmp.join(k.to_string())).ok(),
                    _ => None,
                };
                if ty == 0o040000 {
                    next.push((e.0, p.clone()));
                }
                t.insert(p, (e.1 & 0o177777, size, data));
            }
        }
        level = next;
    }
    Ok(t)
}

fn split<'a>(s: &'a [u8], sep: &[u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut last = 0;
    let mut i = 0;
    while i + sep.len() <= s.len() {
        if &s[i..i + sep.len()] == sep {
            v.push(&s[last..i]);
            last = i;
            i += sep.len();
        } else {
            i += 1;
        }
    }
    v.push(&s[last..]);
    v
}
fn after<'a>(s: &'a [u8], pat: &[u8]) -> Option<&'a [u8]> {
    s.windows(pat.len()).position(|w| w == pat).map(|p| &s[p + pat.len()..])
}

/// Complaints about accounting (bitmaps, counts, links, lost+found), which
/// the builder does not maintain and the library does not look at.
const OK: &[&str] = &[
    "Pass ",
    "e2fsck 1.",
    "Fix? no",
    "Fix<y>? no",
    "Create? no",
    "Connect",
    // every directory is also linked from where types are tried
    "is <The NULL inode>",
    "is a link to directory",
    "has an unallocated block",
    "has an incorrect filetype",
    "Delete file? no",
    "Allocate? no",
    // a maximal hash the tools compute differently from the kernel
    "bad max hash",
    "Clear HTree index? no",
    "Invalid HTREE directory",
    "Clone multiply",
    "Directory inode",
    "Ignore error? no",
    "Clear? no",
    "Optimize? no",
    "bitmap differences",
    "padding at end of",
    "Free blocks count wrong",
    "Free inodes count wrong",
    "Directories count wrong",
    "ref count is",
    "lost+found not found",
    "i_blocks is",
    "i_size is",
    "Unattached inode",
    "Unconnected",
    "********** WARNING",
    "inconsistencies left",
    "files (",
    "blocks",
    "Error storing",
    "itable_unused",
    "bitmap does not match checksum",
    "uninit",
    "never been checked",
    "Suppress messages? no",
    "Illegal inode number",
    "Illegal block number passed",
    "Inode bitmap",
    "Block bitmap",
    "Ignoring",
    "could be narrower",
    "could be shorter",
    "Extent tree",
    "has zero dtime",
    "end of extent exceeds allowed value",
    "\t(logical block",
    "Backing up",
    "IGNORED",
];

fn fsck(img: &FsPath) -> Vec<String> {
    let o = match tool("e2fsck").arg("-fn").arg(img).output() {
        Ok(o) => o,
        Err(e) => return vec![e.to_string()],
    };
    let s = String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr);
    s.lines()
        .map(str::trim)
        .filter(|l| !l.trim().is_empty() && !OK.iter().any(|k| l.contains(k)))
        .map(|l| l.chars().take(160).collect())
        .collect()
}

fn write_sparse(m: &Img, read: &BTreeSet<u64>, path: &FsPath) {
    let bs = m.g.bs as u64;
    let mut f = std::fs::File::create(path).unwrap();
    f.set_len(m.g.blocks_count * bs).unwrap();
    let itb = (m.g.ipg as u64 * m.g.inode_size as u64).div_ceil(bs);
    let in_itab = |b: u64| m.g.itab.iter().any(|t| (*t..t + itb).contains(&b));
    let mut all: BTreeSet<u64> = m.blocks.keys().copied().collect();
    all.extend(read.iter().copied().filter(|b| !in_itab(*b)));
    for b in all {
        if b < m.g.blocks_count {
            f.seek(SeekFrom::Start(b * bs)).unwrap();
            f.write_all(&m.get_block(b)).unwrap();
        }
    }
}

pub struct Out {
    pub compared: u64,
    pub fsck: Vec<String>,
    pub diff: Vec<String>,
    /// errors of the library
    pub lib: Vec<String>,
    pub skipped: Option<String>,
}

/// Compares one image.
fn one(m: &Img, dir: &FsPath, name: &str) -> Out {
    let mut out = Out { compared: 0, fsck: vec![], diff: vec![], lib: vec![], skipped: None };
    let log = Rc::new(RefCell::new(BTreeSet::new()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let fs = Ext4::load(Box::new(Rec { d: m.freeze(), log: log.clone() })).map_err(|e| e.to_string())?;
        Ok::<_, String>(lib_tree(&fs))
    }));
    let (lib, errs) = match r {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            out.skipped = Some(e);
            return out;
        }
        Err(_) => {
            out.skipped = Some("panic".into());
            return out;
        }
    };
    let img = dir.join(format!("{name}.img"));
    write_sparse(m, &log.borrow(), &img);
    if m.g.incompat & INCOMPAT_RECOVER != 0 {
        // e2fsck's own replay
        let o = tool("e2fsck").args(["-fy", "-E", "journal_only"]).arg(&img).output();
        if let Ok(o) = o {
            let s = String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr);
            if s.contains("ecksum error") || s.contains("Invalid checksum") {
                // the tools apply what they can of damaged transactions
                out.skipped = Some("e2fsck finds the journal damaged".into());
                return out;
            }
            if !o.status.success() && o.status.code() != Some(1) {
                out.fsck.push(format!("journal replay: {}", s.replace('\n', " | ")));
            }
        }
    } else {
        out.fsck = fsck(&img);
    }
    match dbg_tree(&img, &dir.join(format!("{name}.d"))) {
        Err(e) => out.diff.push(e),
        Ok(t) => {
            for (p, l) in &lib {
                out.compared += 1;
                let sp = String::from_utf8_lossy(p);
                match t.get(p) {
                    None => out.diff.push(format!("{sp}: not listed by debugfs")),
                    Some(d) => {
                        if d.0 != l.0 {
                            out.diff.push(format!("{sp}: mode {:o}, debugfs {:o}", l.0, d.0));
                        }
                        if d.1 != l.1 {
                            out.diff.push(format!("{sp}: size {}, debugfs {}", l.1, d.1));
                        }
                        let mut dd = d.2.clone();
                        if let (Some(a), Some(b)) = (&mut dd, &l.2) {
                            // debugfs omits a hole at the end
                            if a.len() < b.len() {
                                a.resize(b.len(), 0);
                            }
                            if *a != *b {
                                out.diff.push(format!("{sp}: {}", crate::ops::diff_at(b, a)));
                            }
                        }
                    }
                }
            }
            for (p, e) in &errs {
                out.lib.push(format!("{} {}: {e}", if t.contains_key(p) { "debugfs reads" } else { "debugfs lacks" }, String::from_utf8_lossy(p)));
            }
            let under = |p: &[u8]| errs.keys().any(|e| p.starts_with(e));
            for p in t.keys() {
                if under(p) || p == b"/lost+found" {
                    continue;
                }
                if !lib.contains_key(p) {
                    out.diff.push(format!("{}: only debugfs lists it", String::from_utf8_lossy(p)));
                }
            }
        }
    }
    if let Some(k) = std::env::var_os("MC_KEEP")
        && !(out.diff.is_empty() && out.fsck.is_empty())
    {
        let n = KEPT.fetch_add(1, SeqCst);
        if n < 40 {
            write_sparse(m, &log.borrow(), &img);
            let _ = std::fs::rename(&img, FsPath::new(&k).join(format!("{n}.img")));
            let _ = std::fs::write(FsPath::new(&k).join(format!("{n}.txt")), format!("{:#?} {:#?}", out.diff, out.fsck));
        }
    }
    let _ = std::fs::remove_file(&img);
    let _ = std::fs::remove_file(img.with_extension("cmd"));
    let _ = std::fs::remove_dir_all(dir.join(format!("{name}.d")));
    out
}

pub fn builder_corpus(only: Option<&str>, per_section: u64) -> Result<u64, String> {
    let dir = PathBuf::from(format!("/tmp/mc-validate-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut total = 0;
    let mut bad = 0;
    for id in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P16", "P17", "P18", "P19"] {
        if only.is_some_and(|o| o != id) {
            continue;
        }
        let p = super::get(id, false).unwrap();
        for s in &p.sections {
            if std::env::var("MC_SECTION").is_ok_and(|x| x != s.name) {
                continue;
            }
            // first run counts the images, second keeps every n-th
            let run = |secs: u64| {
                COUNT.store(0, SeqCst);
                ON.store(true, SeqCst);
                let end = Instant::now() + Duration::from_secs(secs);
                explore::explore(s, false, 8, end, &|_| true);
                ON.store(false, SeqCst);
                COUNT.load(SeqCst)
            };
            EVERY.store(u64::MAX, SeqCst);
            let n = run(20);
            STORE.lock().unwrap().clear();
            EVERY.store((n / per_section).max(1) | 1, SeqCst);
            run(20);
            let imgs = std::mem::take(&mut *STORE.lock().unwrap());
            let next = AtomicUsize::new(0);
            let res: Mutex<Vec<(usize, Out)>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for w in 0..8 {
                    let (imgs, next, res, dir) = (&imgs, &next, &res, &dir);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            loop {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= imgs.len() {
                                    break;
                                }
                                let o = one(&imgs[i], dir, &format!("w{w}"));
                                res.lock().unwrap().push((i, o));
                            }
                        })
                        .unwrap();
                }
            });
            let mut res = res.into_inner().unwrap();
            res.sort_by_key(|r| r.0);
            let skipped: Vec<&String> = res.iter().filter_map(|r| r.1.skipped.as_ref()).collect();
            let compared: u64 = res.iter().map(|r| r.1.compared).sum();
            println!(
                "{id} {:<26} {} of {n} images, {compared} files compared, {} skipped {:?}",
                s.name,
                res.len(),
                skipped.len(),
                skipped.iter().collect::<BTreeSet<_>>().iter().take(4).collect::<Vec<_>>()
            );
            for (k, (n, ex)) in std::mem::take(&mut *GEO.lock().unwrap()) {
                println!("      geometry: {n} x {k}, first {ex}");
            }
            total += res.len() as u64 - skipped.len() as u64;
            let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
            for (_, o) in &res {
                let mut seen = BTreeSet::new();
                for l in o.fsck.iter().map(|x| format!("fsck: {x}")).chain(o.diff.iter().map(|x| format!("diff: {x}"))).chain(o.lib.iter().map(|x| format!("lib: {x}"))) {
                    let k: String = l.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                    if seen.insert(k.clone()) {
                        *kinds.entry(k).or_default() += 1;
                    }
                }
            }
            let mut kinds: Vec<_> = kinds.into_iter().collect();
            kinds.sort_by_key(|k| std::cmp::Reverse(k.1));
            for (k, c) in kinds.iter().take(12) {
                println!("      {c} x {k}");
            }
            bad += kinds.len();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{bad} kinds of differences");
    Ok(total)
}
