//! Images made by e2fsprogs (mke2fs, debugfs, e2fsck), not by the image
//! builder: what is checked on them does not depend on the builder's idea of
//! the format. Without e2fsprogs the sections explore nothing.

use crate::explore::{CaseResult, Section, hash_of};
use crate::ops::{self, diff_at};
use ext4_view::{Ext4, Ext4Error, PathBuf as P4};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path as FsPath, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};

/// A directory that is removed at the end of the case.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(d.join("tree")).unwrap();
        std::fs::write(
            d.join("mke2fs.conf"),
            "[defaults]\nbase_features = none\ninode_size = 256\ninode_ratio = 8192\nenable_periodic_fsck = 0\n",
        )
        .unwrap();
        Scratch(d)
    }
    fn at(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    fn tool(&self, name: &str) -> Command {
        let mut c = Command::new(format!("/usr/sbin/{name}"));
        c.env_clear()
            .env("PATH", "/usr/sbin:/usr/bin:/sbin:/bin")
            .env("E2FSPROGS_FAKE_TIME", "1700000000")
            .env("MKE2FS_CONFIG", self.at("mke2fs.conf"))
            .env("DEBUGFS_PAGER", "cat")
            .current_dir(&self.0)
            .stdin(Stdio::null());
        c
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn available() -> bool {
    static A: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *A.get_or_init(|| ["mke2fs", "debugfs", "e2fsck", "tune2fs"].iter().all(|t| FsPath::new("/usr/sbin").join(t).exists()))
}

#[derive(Clone, Debug, Hash)]
pub struct Conf {
    pub bs: usize,
    pub isz: usize,
    pub blocks: u64,
    /// features, on top of filetype
    pub o: &'static str,
    pub extra: &'static [&'static str],
}
const UUID: &str = "01020304-0506-4708-890a-0b0c0d0e0f10";

/// mke2fs with the contents of the scratch tree; `None` if it refuses.
fn mke2fs(s: &Scratch, c: &Conf) -> Result<Option<()>, String> {
    let o = s
        .tool("mke2fs")
        .args(["-q", "-F", "-b", &c.bs.to_string(), "-I", &c.isz.to_string(), "-U", UUID])
        .args(["-E", &format!("hash_seed={UUID},root_owner=0:0,nodiscard"), "-O", &format!("filetype,{}", c.o)])
        .args(["-d", "tree"])
        .args(c.extra)
        .arg("image")
        .arg(c.blocks.to_string())
        .output()
        .map_err(|e| format!("harness: mke2fs: {e}"))?;
    if !o.status.success() {
        return Ok(None);
    }
    Ok(Some(()))
}
fn debugfs(s: &Scratch, script: &str) -> Result<String, String> {
    std::fs::write(s.at("script"), script).unwrap();
    let o = s.tool("debugfs").args(["-w", "-f", "script", "image"]).output().map_err(|e| format!("harness: debugfs: {e}"))?;
    Ok(String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr))
}
/// Indexes all directories.
fn index(s: &Scratch) -> CaseResult {
    let o = s.tool("e2fsck").args(["-fyD", "image"]).output().map_err(|e| format!("harness: e2fsck: {e}"))?;
    match o.status.code() {
        Some(0 | 1) => Ok(()),
        x => bail!("harness: e2fsck exits with {x:?}"),
    }
}
fn image(s: &Scratch) -> Vec<u8> {
    std::fs::read(s.at("image")).unwrap()
}
fn load(s: &Scratch) -> Result<Ext4, String> {
    Ext4::load(Box::new(image(s))).map_err(|e| format!("load: {e}"))
}

const fn conf(bs: usize, isz: usize, blocks: u64, o: &'static str, extra: &'static [&'static str]) -> Conf {
    Conf { bs, isz, blocks, o, extra }
}
/// Configurations whose images the library supports.
pub const CONFS: &[Conf] = &[
    conf(1024, 128, 8192, "dir_index", &[]),
    conf(1024, 256, 8192, "extent,flex_bg,64bit,metadata_csum,huge_file,dir_nlink,extra_isize", &[]),
    conf(4096, 256, 3000, "extent,flex_bg,64bit,metadata_csum,metadata_csum_seed", &[]),
    conf(2048, 128, 4096, "sparse_super,large_file,resize_inode,ext_attr", &[]),
    conf(1024, 512, 16384, "extent,has_journal,uninit_bg,sparse_super2", &["-g", "1024", "-N", "1600"]),
    conf(4096, 1024, 3000, "extent,metadata_csum,orphan_file,has_journal,quota,project", &[]),
    conf(2048, 256, 8192, "extent,bigalloc,metadata_csum,64bit", &["-C", "8192"]),
    conf(65536, 256, 300, "extent,64bit,metadata_csum,flex_bg", &[]),
    conf(1024, 256, 20000, "metadata_csum", &["-g", "512", "-N", "4000"]),
    conf(1024, 128, 20000, "extent,flex_bg", &["-g", "256", "-G", "4", "-N", "4000"]),
    conf(8192, 256, 1500, "extent,metadata_csum,64bit,verity,stable_inodes,encrypt", &[]),
];
fn extents(c: &Conf) -> bool {
    c.o.split(',').any(|f| f == "extent")
}

fn write_at(f: &std::fs::File, at: u64, d: &[u8]) {
    std::os::unix::fs::FileExt::write_all_at(f, d, at).unwrap();
}
/// Bytes of block `l` of file `id`.
fn fill(id: usize, l: u64, n: usize) -> Vec<u8> {
    let mut h = hash_of(&(id, l)) | 0x8101;
    (0..n)
        .map(|_| {
            h = h.rotate_left(9).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            (h >> 32) as u8 | 1
        })
        .collect()
}

/// P01 and P02: file contents.
pub fn files(ext: bool) -> Section {
    Section::new(
        "e2fsprogs",
        "images made by mke2fs: every pattern of data and holes over 9 blocks x end offset, and 12 patterns over up to 2500 blocks; preallocated or not (extents), per configuration",
        move |cx| {
            if !available() {
                return Ok(());
            }
            let cs: Vec<&Conf> = CONFS.iter().filter(|c| extents(c) == ext).collect();
            let c = *cx.of(&cs);
            let part = cx.pick(10);
            let prealloc = ext && cx.flag();
            let s = Scratch::new();
            let bs = c.bs as u64;
            // name -> (size, data blocks)
            let mut want: BTreeMap<String, (u64, BTreeSet<u64>)> = BTreeMap::new();
            if part < 8 {
                let tail = [0, 1, bs - 1, bs / 2][part % 4];
                for p in (part as u64 / 4) * 256..(part as u64 / 4 + 1) * 256 {
                    let d: BTreeSet<u64> = (0..9).filter(|b| p >> b & 1 != 0).collect();
                    let blocks = if c.bs > 8192 && d.len() > 1 { continue } else { 9 };
                    want.insert(format!("p{p}"), (blocks * bs - tail, d));
                }
            } else {
                let max = (c.blocks / 3).min(2500);
                for (k, (n, step)) in [(8, 2), (340, 2), (700, 2), (2500, 2), (2500, 1), (1400, 1), (2500, 3), (600, 5), (300, 1), (270, 1), (12, 1), (13, 1)].iter().enumerate() {
                    if (k % 2 == 0) != (part == 8) || n / step > max || *n * c.bs as u64 > 12 << 20 {
                        continue;
                    }
                    want.insert(format!("q{k}"), (n * bs + 5, (0..*n).filter(|b| b % step == step - 1).collect()));
                }
            }
            let mut total = 0;
            for (id, (n, (size, d))) in want.iter().enumerate() {
                let f = std::fs::File::create(s.at("tree").join(n)).unwrap();
                f.set_len(*size).unwrap();
                for b in d {
                    let len = (size - (b * bs).min(*size)).min(bs) as usize;
                    write_at(&f, b * bs, &fill(id, *b, len));
                    total += 1;
                }
            }
            let mut c2 = c.clone();
            c2.blocks = c.blocks.max(c.blocks / 2 + total + want.len() as u64 * (40 * prealloc as u64 + 1));
            if mke2fs(&s, &c2)?.is_none() {
                bail!("harness: mke2fs refuses {c2:?}");
            }
            if prealloc {
                let mut sc = String::new();
                for (n, (size, _)) in &want {
                    let nb = size.div_ceil(bs).min(40);
                    sc += &format!("fallocate /{n} 0 {}\n", nb - 1);
                }
                debugfs(&s, &sc)?;
            }
            cx.describe(|| format!("{c2:?} part {part} prealloc {prealloc}: {} files", want.len()));
            cx.input(hash_of(&(&c2, part, prealloc)));
            let fs = load(&s)?;
            for (id, (n, (size, d))) in want.iter().enumerate() {
                let mut w = vec![0u8; *size as usize];
                for b in d {
                    let o = (b * bs) as usize;
                    let e = (o + c.bs).min(w.len());
                    if o < e {
                        let v = fill(id, *b, e - o);
                        w[o..e].copy_from_slice(&v);
                    }
                }
                cx.step();
                let got = fs.read(format!("/{n}").as_str()).map_err(|e| format!("{n}: {e}"))?;
                ensure!(got == w, "{n} {d:?}: {}", diff_at(&got, &w));
            }
            Ok(())
        },
    )
}

fn name(style: usize, i: usize) -> Vec<u8> {
    match style {
        0 => format!("{i}").into_bytes(),
        1 => {
            let mut v = format!("{i:03}-").into_bytes();
            v.resize(120 + i % 136, b'x');
            v
        }
        2 => {
            let mut v = vec![0x80 + (i % 120) as u8, 0xff, b'a' + (i % 26) as u8];
            v.extend(format!("{i:x}").bytes());
            v
        }
        _ => {
            let mut v = vec![];
            let mut k = i + 1;
            while k > 0 {
                v.push([b'e', 0xe9, b'.', b' ', b'~'][k % 5]);
                k /= 5;
            }
            v.push(b'_');
            v
        }
    }
}

/// P04 and P05: directories.
pub fn directories(lookup: bool) -> Section {
    Section::new(
        "e2fsprogs",
        "directories made by mke2fs and debugfs: configuration x number of names (0..1200) x name style x linear or indexed by e2fsck -D (half-MD4/TEA, signed/unsigned) x every 1st/2nd/3rd name removed again or none",
        move |cx| {
            if !available() {
                return Ok(());
            }
            let c = cx.of(CONFS);
            let t = cx.tier_thorough;
            let n = *cx.of(if t { &[0, 1, 7, 40, 90, 200, 500, 1200][..] } else { &[0, 7, 90, 500][..] });
            let style = cx.pick(4);
            let idx = cx.pick(5);
            let del = *cx.of(&[0, 2, 3, 1]);
            if (n == 0 && (style > 0 || del > 0)) || (!t && idx > 2 && style < 2) || (!t && del == 1 && n > 7) {
                return Ok(());
            }
            let s = Scratch::new();
            std::fs::create_dir(s.at("tree/d")).unwrap();
            let names: Vec<Vec<u8>> = (0..n).map(|i| name(style, i)).collect();
            for (i, nm) in names.iter().enumerate() {
                let p = s.at("tree/d").join(std::ffi::OsStr::from_bytes(nm));
                match i % 5 {
                    3 => std::fs::create_dir(p).unwrap(),
                    4 => std::os::unix::fs::symlink("x", p).unwrap(),
                    _ => std::fs::write(p, if i % 5 == 1 { &b""[..] } else { &b"1"[..] }).unwrap(),
                }
            }
            let mut c2 = c.clone();
            c2.blocks = c2.blocks.max(n as u64 * 2 + c.blocks / 2);
            let inodes = format!("{}", n + 200);
            let ex: Vec<&'static str> = if c.extra.contains(&"-N") { c.extra.to_vec() } else { [c.extra, &["-N", Box::leak(inodes.into_boxed_str())]].concat() };
            c2.extra = Box::leak(ex.into_boxed_slice());
            if mke2fs(&s, &c2)?.is_none() {
                bail!("harness: mke2fs refuses {c2:?}");
            }
            if idx > 0 {
                let alg = ["half_md4", "tea"][(idx - 1) % 2];
                let o = s.tool("tune2fs").args(["-O", "dir_index", "-E", &format!("hash_alg={alg}"), "image"]).output().map_err(|e| e.to_string())?;
                ensure!(o.status.success(), "harness: tune2fs: {}", String::from_utf8_lossy(&o.stderr));
                if idx > 2 {
                    debugfs(&s, "ssv flags 2\n")?;
                }
                index(&s)?;
            }
            let mut left: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
            let mut sc = String::new();
            for (i, nm) in names.iter().enumerate() {
                // debugfs cannot quote every name
                if del != 0 && i % del == 0 && style < 2 {
                    sc += &format!("{} /d/{}\n", if i % 5 == 3 { "rmdir" } else { "rm" }, String::from_utf8_lossy(nm));
                } else {
                    left.insert(nm.clone(), i);
                }
            }
            if !sc.is_empty() {
                debugfs(&s, &sc)?;
            }
            cx.describe(|| format!("{c2:?}: {n} names of style {style}, index {idx}, removal {del}: {} left", left.len()));
            cx.input(hash_of(&(&c2, n, style, idx, del)));
            let fs = load(&s)?;
            if lookup {
                for (i, nm) in names.iter().enumerate() {
                    let p = P4::try_from([b"/d/", &nm[..]].concat()).unwrap();
                    cx.step();
                    match (fs.symlink_metadata(&p), left.contains_key(nm)) {
                        (Ok(m), true) => {
                            let want = ["reg", "reg", "reg", "dir", "lnk"][i % 5];
                            ensure!(ops::ft_name(m.file_type()) == want, "{p:?} is {:?}", m.file_type());
                        }
                        (Err(Ext4Error::NotFound), false) => {}
                        (r, there) => bail!("{p:?}: {r:?}, {}", if there { "it exists" } else { "it does not exist" }),
                    }
                    let mut q = [b"/d/", &nm[..]].concat();
                    *q.last_mut().unwrap() ^= 0x40;
                    if !names.iter().any(|n| n[..] == q[3..]) && !q[3..].contains(&b'/') {
                        match P4::try_from(q) {
                            Ok(q) => ensure!(!fs.exists(&q).map_err(|e| format!("{q:?}: {e}"))?, "{q:?} exists"),
                            Err(_) => {}
                        }
                    }
                }
            } else {
                let l = ops::list(&fs, ext4_view::Path::new("/d")).map_err(|e| format!("read_dir: {e}"))?;
                cx.step();
                let mut seen = BTreeSet::new();
                for (nm, path, ft, m) in &l {
                    ensure!(seen.insert(nm.clone()), "{nm:?} is listed twice");
                    ensure!(path[..] == [b"/d/", &nm[..]].concat(), "path {path:?} of {nm:?}");
                    if nm == b"." || nm == b".." {
                        continue;
                    }
                    let Some(i) = left.get(nm) else { bail!("{:?} is listed", String::from_utf8_lossy(nm)) };
                    let want = ["reg", "reg", "reg", "dir", "lnk"][i % 5];
                    ensure!(*ft == Ok(want), "type of {nm:?}: {ft:?}");
                    ensure!(m.as_ref().is_ok_and(|m| m.ft == want), "metadata of {nm:?}: {m:?}");
                }
                ensure!(seen.len() == left.len() + 2, "{} entries listed, {} exist", seen.len(), left.len() + 2);
            }
            Ok(())
        },
    )
}

/// P08: attributes set with debugfs.
pub fn attributes() -> Section {
    Section::new(
        "e2fsprogs",
        "attributes set with debugfs: all 4096 permission bits x 7 types, 9 x 9 owners and groups, 6 sizes, per configuration",
        |cx| {
            if !available() {
                return Ok(());
            }
            let c = cx.of(CONFS);
            let part = cx.pick(if cx.tier_thorough { 64 } else { 8 });
            let step = if cx.tier_thorough { 64 } else { 8 };
            let s = Scratch::new();
            let n = 4096 / step;
            const IDS: [u32; 9] = [0, 1, 1000, 0xffff, 0x1_0000, 0x1_0001, 0x8000_0000, 0xffff_0000, 0xffff_ffff];
            const TY: [(u16, &str); 7] = [(0o100000, "reg"), (0o010000, "fifo"), (0o020000, "chr"), (0o060000, "blk"), (0o140000, "sock"), (0o100000, "reg"), (0o100000, "reg")];
            const SZ: [u64; 6] = [0, 1, 0xffff_ffff, 0x1_0000_0000, 0x123_4567_89ab, 0x3ff_ffff_f800];
            let mut sc = String::new();
            let mut want = vec![];
            for i in 0..n {
                std::fs::write(s.at("tree").join(format!("f{i}")), b"").unwrap();
                let perm = (i * step + part) as u16;
                let (ty, tn) = TY[(i * 3 + part) % 7];
                let (u, g) = (IDS[i % 9], IDS[(i / 9 + part) % 9]);
                let sz = if ty == 0o100000 { SZ[i % 6] } else { 0 };
                sc += &format!("sif /f{i} mode 0{:o}\nsif /f{i} uid {u}\nsif /f{i} gid {g}\nsif /f{i} size {sz}\n", ty | perm);
                want.push(ops::Meta { ft: tn, mode: perm, uid: u, gid: g, len: sz });
            }
            let mut c2 = c.clone();
            c2.blocks = c2.blocks.max(4000);
            c2.extra = match c.extra.iter().position(|x| *x == "-g") {
                Some(i) => Box::leak(vec!["-g", c.extra[i + 1], "-N", "4000"].into_boxed_slice()),
                None => Box::leak([c.extra, &["-N", "1000"]].concat().into_boxed_slice()),
            };
            if mke2fs(&s, &c2)?.is_none() {
                bail!("harness: mke2fs refuses {c2:?}");
            }
            debugfs(&s, &sc)?;
            cx.describe(|| format!("{c2:?} part {part}"));
            cx.input(hash_of(&(&c2, part)));
            let fs = load(&s)?;
            let by_entry: BTreeMap<_, _> = ops::list(&fs, ext4_view::Path::new("/")).map_err(|e| format!("read_dir: {e}"))?.into_iter().map(|e| (e.0, e.3)).collect();
            for (i, w) in want.iter().enumerate() {
                cx.step();
                let nm = format!("f{i}");
                let m = fs.metadata(format!("/{nm}").as_str()).map_err(|e| format!("{nm}: {e}"))?;
                ensure!(ops::meta(&m) == *w, "{nm}: {:?} instead of {w:?}", ops::meta(&m));
                ensure!(by_entry.get(nm.as_bytes()) == Some(&Ok(w.clone())), "{nm} through its entry: {:?} instead of {w:?}", by_entry.get(nm.as_bytes()));
            }
            Ok(())
        },
    )
}

/// P16: inodes all over the groups.
pub fn groups() -> Section {
    Section::new(
        "e2fsprogs",
        "images made by mke2fs: block size x inode size x blocks per group x flex_bg group size x inodes x 64bit x checksums, 300 files and directories",
        |cx| {
            if !available() {
                return Ok(());
            }
            let bs = *cx.of(&[1024usize, 2048, 4096]);
            let isz = *cx.of(&[128usize, 256, 1024]);
            let g = *cx.of(&["256", "1024", "8192"]);
            let o = *cx.of(&["extent", "extent,64bit,metadata_csum", "extent,flex_bg", "extent,flex_bg,64bit,metadata_csum", "uninit_bg,flex_bg", "sparse_super,resize_inode"]);
            let gg = if o.contains("flex_bg") { *cx.of(&["1", "4", "64"]) } else { "" };
            let nn = *cx.of(&["400", "3000"]);
            let s = Scratch::new();
            for i in 0..300 {
                let d = s.at("tree").join(format!("d{}", i % 30));
                if i < 30 {
                    std::fs::create_dir(&d).unwrap();
                }
                std::fs::write(d.join(format!("f{i}")), format!("contents {i}")).unwrap();
            }
            let mut extra = vec!["-g", g, "-N", nn];
            if !gg.is_empty() {
                extra.extend(["-G", gg]);
            }
            let extra: &'static [&'static str] = Box::leak(extra.into_boxed_slice());
            let c = Conf { bs, isz, blocks: 9000, o, extra };
            // (mke2fs resorts to META_BG where the descriptors do not fit)
            if mke2fs(&s, &c)?.is_none() || image(&s)[1024 + 0x60] & 0x10 != 0 {
                cx.outcome(0);
                return Ok(());
            }
            cx.describe(|| format!("{c:?}"));
            cx.input(hash_of(&c));
            let fs = load(&s)?;
            for i in 0..300 {
                let p = format!("/d{}/f{i}", i % 30);
                cx.step();
                let got = fs.read(p.as_str()).map_err(|e| format!("{p}: {e}"))?;
                ensure!(got == format!("contents {i}").as_bytes(), "{p}: {:?}", String::from_utf8_lossy(&got));
            }
            cx.outcome(1);
            Ok(())
        },
    )
}

/// P17: links of all lengths.
pub fn links() -> Section {
    Section::new(
        "e2fsprogs",
        "images made by mke2fs: symbolic links of every length from 1 to the block size - 1 (at most 4095), per configuration",
        |cx| {
            if !available() {
                return Ok(());
            }
            let c = cx.of(CONFS);
            let part = cx.pick(16);
            let s = Scratch::new();
            let mut want = vec![];
            for n in (1 + part * 256)..((part + 1) * 256 + 1) {
                if n >= c.bs || n > 4095 || (n > 300 && n + 40 < c.bs.min(4095) && n % 16 > 1) {
                    continue;
                }
                let mut t: Vec<u8> = (0..n).map(|i| b'a' + ((i * 7 + n) % 26) as u8).collect();
                for k in (200..n).step_by(201) {
                    t[k] = b'/';
                }
                if t[n - 1] == b'/' {
                    t[n - 1] = b'z';
                }
                std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(&t), s.at("tree").join(format!("l{n}"))).unwrap();
                want.push(t);
            }
            if want.is_empty() {
                return Ok(());
            }
            let mut c2 = c.clone();
            c2.blocks = c2.blocks.max(4000);
            if !c.extra.contains(&"-N") {
                c2.extra = Box::leak([c.extra, &["-N", "1000"]].concat().into_boxed_slice());
            }
            if mke2fs(&s, &c2)?.is_none() {
                bail!("harness: mke2fs refuses {c2:?}");
            }
            cx.describe(|| format!("{c2:?} part {part}"));
            cx.input(hash_of(&(&c2, part)));
            let fs = load(&s)?;
            for t in &want {
                cx.step();
                let p = format!("/l{}", t.len());
                let got = fs.read_link(p.as_str()).map_err(|e| format!("{p}: {e}"))?;
                ensure!(got.as_ref() == &t[..], "{p}: {}", diff_at(got.as_ref(), t));
            }
            Ok(())
        },
    )
}

/// P14: every pair of features of mke2fs.
pub fn features() -> Section {
    const F: &[&str] = &[
        "extent", "flex_bg", "64bit", "metadata_csum", "metadata_csum_seed", "has_journal", "dir_index", "uninit_bg", "sparse_super", "sparse_super2", "resize_inode", "large_file",
        "huge_file", "dir_nlink", "extra_isize", "ext_attr", "quota", "project", "orphan_file", "verity", "encrypt", "stable_inodes", "bigalloc", "fast_commit", "meta_bg", "mmp",
        "inline_data", "large_dir", "ea_inode", "casefold", "^filetype", "journal_dev",
    ];
    const LABELS: [&str; 4] = ["", "x", "sixteen-bytes-ab", "\u{e9}t\u{e9}"];
    Section::new("e2fsprogs", "images made by mke2fs with every feature and every pair of features, on three bases; load result, label and UUID", |cx| {
        if !available() {
            return Ok(());
        }
        let base = *cx.of(&["", "extent,", "extent,64bit,metadata_csum,flex_bg,"]);
        let a = cx.pick(F.len());
        let b = cx.pick(F.len());
        if b < a {
            return Ok(());
        }
        let o: &'static str = Box::leak(format!("{base}{},{}", F[a], F[b]).into_boxed_str());
        let l = LABELS[(a + b) % 4];
        let extra: &'static [&'static str] = Box::leak(vec!["-L", l].into_boxed_slice());
        let s = Scratch::new();
        std::fs::write(s.at("tree/f"), b"1").unwrap();
        let c = Conf { bs: [1024, 2048, 4096][(a + 2 * b) % 3], isz: 256, blocks: 4096, o, extra };
        if mke2fs(&s, &c)?.is_none() {
            cx.outcome(0);
            return Ok(());
        }
        cx.describe(|| format!("{c:?}"));
        cx.input(hash_of(&c));
        let img = image(&s);
        let bits = u32::from_le_bytes(img[1024 + 0x60..][..4].try_into().unwrap());
        // file types, recovery, extents, 64bit, flexible groups, checksum seed, encryption
        let ok = bits & 2 != 0 && bits & !(0x2 | 0x4 | 0x40 | 0x80 | 0x200 | 0x2000 | 0x1_0000) == 0;
        cx.step();
        match (Ext4::load(Box::new(img)), ok) {
            (Ok(fs), true) => {
                cx.outcome(1);
                ensure!(fs.label().as_bytes() == &{
                    let mut v = l.as_bytes().to_vec();
                    v.resize(16, 0);
                    v
                }[..], "label {:?} instead of {l:?}", fs.label());
                ensure!(fs.uuid().to_string() == UUID, "uuid {}", fs.uuid());
                ensure!(fs.read("/f").is_ok_and(|d| d == b"1"), "contents");
            }
            (Err(Ext4Error::Incompatible(_)), false) => cx.outcome(2),
            (Err(e), _) => bail!("incompatible features {bits:#x}: {e}"),
            (Ok(_), false) => bail!("incompatible features {bits:#x} are accepted"),
        }
        Ok(())
    })
}

/// P09: journals written with debugfs.
pub fn journal() -> Section {
    Section::new(
        "e2fsprogs",
        "journals written by debugfs: all histories of 1..2 transactions (each writes a subset of two blocks and revokes a subset of them) and of 3 smaller ones, the last one committed or not, 3 configurations; compared with e2fsck's replay",
        |cx| {
            if !available() {
                return Ok(());
            }
            const C: [Conf; 3] = [
                conf(1024, 256, 4096, "extent,64bit,metadata_csum,has_journal", &["-J", "size=1"]),
                conf(4096, 128, 5000, "extent,64bit,flex_bg,metadata_csum,metadata_csum_seed,has_journal", &["-J", "size=4"]),
                conf(2048, 256, 4096, "extent,64bit,metadata_csum,has_journal", &["-J", "size=2"]),
            ];
            let c = cx.of(&C);
            let n = 1 + cx.pick(3);
            let mut h = vec![];
            for _ in 0..n {
                let (w, r) = if n < 3 || cx.tier_thorough {
                    (cx.pick(4), cx.pick(4))
                } else {
                    *cx.of(&[(1, 0), (2, 0), (3, 0), (0, 1), (2, 1), (1, 1)])
                };
                if w == 0 && r == 0 {
                    return Ok(());
                }
                h.push((w, r));
            }
            let commit = !cx.flag();
            let s = Scratch::new();
            let old = |k: usize| fill(k, 0, c.bs);
            for k in 0..2 {
                std::fs::write(s.at("tree").join(k.to_string()), old(k)).unwrap();
            }
            if mke2fs(&s, c)?.is_none() {
                bail!("harness: mke2fs refuses {c:?}");
            }
            let b: Vec<u64> = debugfs(&s, "bmap /0 0\nbmap /1 0\n")?.lines().filter_map(|l| l.trim().parse().ok()).collect();
            ensure!(b.len() == 2, "harness: bmap");
            let mut sc = String::from("jo -c\n");
            let list = |m: usize| (0..2).filter(|k| m >> k & 1 != 0).map(|k| b[k].to_string()).collect::<Vec<_>>().join(",");
            for (i, (w, r)) in h.iter().enumerate() {
                let mut d = vec![];
                for k in 0..2 {
                    if w >> k & 1 != 0 {
                        d.extend(fill(100 + i * 2 + k, 0, c.bs));
                    }
                }
                std::fs::write(s.at(&format!("data{i}")), &d).unwrap();
                sc += "jw";
                if *w != 0 {
                    sc += &format!(" -b {}", list(*w));
                }
                if *r != 0 {
                    sc += &format!(" -r {}", list(*r));
                }
                if i == n - 1 && !commit {
                    sc += " -c";
                }
                if *w != 0 {
                    sc += &format!(" data{i}");
                }
                sc += "\n";
            }
            sc += "jc\n";
            let out = debugfs(&s, &sc)?;
            cx.describe(|| format!("{c:?}: {h:?} committed {commit}\n{sc}\n{out}"));
            cx.input(hash_of(&(c, &h, commit)));
            let img = image(&s);
            let bits = u32::from_le_bytes(img[1024 + 0x60..][..4].try_into().unwrap());
            let m = if commit { n } else { n - 1 };
            ensure!(bits & 4 != 0 || m == 0, "harness: no recovery needed after {sc}: {out}");
            let fs = load(&s)?;
            // what e2fsck makes of the same journal
            std::fs::write(s.at("dump"), "dump /0 out0\ndump /1 out1\n").unwrap();
            index(&s)?;
            let o = s.tool("debugfs").args(["-f", "dump", "image"]).output().map_err(|e| format!("harness: debugfs: {e}"))?;
            ensure!(o.status.success(), "harness: dump");
            // (debugfs does not commit every transaction that both writes and revokes)
            let mixed = h.iter().any(|(w, r)| *w != 0 && *r != 0);
            for k in 0..2 {
                let want = std::fs::read(s.at(&format!("out{k}"))).map_err(|e| format!("harness: dump: {e}"))?;
                let mut model = old(k);
                let revoked = h[..m].iter().rposition(|x| x.1 >> k & 1 != 0);
                if let Some(i) = h[..m].iter().rposition(|x| x.0 >> k & 1 != 0) {
                    if revoked.is_none_or(|r| r < i) {
                        model = fill(100 + i * 2 + k, 0, c.bs);
                    }
                }
                ensure!(mixed || model == want, "harness: e2fsck disagrees with the model about /{k}");
                cx.step();
                let got = fs.read(format!("/{k}").as_str()).map_err(|e| format!("/{k}: {e}"))?;
                ensure!(got == want, "/{k}: {}", diff_at(&got, &want));
                cx.outcome(hash_of(&got));
            }
            Ok(())
        },
    )
}
