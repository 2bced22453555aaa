//! P06: path resolution and canonicalization follow Linux path resolution.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::model_path::{E, Node, Tree};
use crate::ops::{self, Kind, Val};
use crate::Prop;
use ext4_view::Ext4;

/// Filesystem holding exactly the tree.
pub fn image(t: &Tree, g: Geo) -> Img {
    let mut m = Img::new(g);
    for (ino, n) in &t.nodes {
        match n {
            Node::Dir(d, parent) => {
                let e: Vec<(&[u8], u32, u8)> = d
                    .iter()
                    .map(|(n, i)| {
                        let ft = match t.nodes[i] {
                            Node::Dir(..) => FT_DIR,
                            Node::File => FT_REG,
                            Node::Link(_) => FT_LNK,
                        };
                        (&n[..], *i, ft)
                    })
                    .collect();
                m.dir(*ino, *parent, &e);
            }
            Node::File => m.file(*ino, format!("content of {ino}").as_bytes()),
            Node::Link(target) => m.symlink(*ino, target),
        }
        let ino = *ino;
        put16(m.inode_bytes(ino), 2, (1000 + ino) as u16);
        m.csum_inode(ino);
    }
    m.finish();
    m
}

fn err(e: E) -> String {
    e.name()
}

/// Compares every operation on `p` with the model.
pub fn check_path(fs: &Ext4, t: &Tree, p: &[u8]) -> Result<u64, String> {
    let show = String::from_utf8_lossy;
    let all = t.resolve(p, true);
    let canon = ops::run(fs, Kind::Canon, p);
    let want = all.clone().map(|r| Val::Bytes(r.1)).map_err(err);
    if canon != want {
        return Err(format!(
            "canonicalize({:?}) gives {} instead of {}",
            show(p),
            ops::show(&canon),
            ops::show(&want)
        ));
    }
    let uid = |o: &ops::Obs| match o {
        Ok(Val::Meta(m)) => Ok(m.uid - 1000),
        Err(e) => Err(e.clone()),
        _ => Err("?".into()),
    };
    let m = uid(&ops::run(fs, Kind::Meta, p));
    let w = all.as_ref().map(|r| r.0).map_err(|e| err(*e));
    if m != w {
        return Err(format!("metadata({:?}) is of inode {m:?} instead of {w:?}", show(p)));
    }
    let lw = t.resolve(p, false);
    let s = uid(&ops::run(fs, Kind::SymMeta, p));
    let w = lw.as_ref().map(|r| r.0).map_err(|e| err(*e));
    if s != w {
        return Err(format!("symlink_metadata({:?}) is of inode {s:?} instead of {w:?}", show(p)));
    }
    let e = ops::run(fs, Kind::Exists, p);
    let w = match &all {
        Ok(_) => Ok(Val::Bool(true)),
        Err(E::NotFound) => Ok(Val::Bool(false)),
        Err(e) => Err(err(*e)),
    };
    if e != w {
        return Err(format!("exists({:?}) gives {e:?} instead of {w:?}", show(p)));
    }
    let l = ops::run(fs, Kind::ReadLink, p);
    let w = match &lw {
        Ok((i, _)) => match &t.nodes[i] {
            Node::Link(x) => Ok(Val::Bytes(x.clone())),
            _ => Err("NotASymlink".into()),
        },
        Err(e) => Err(err(*e)),
    };
    if l != w {
        return Err(format!("read_link({:?}) gives {} instead of {}", show(p), ops::show(&l), ops::show(&w)));
    }
    let r = ops::run(fs, Kind::Read, p);
    let w = match &all {
        Ok((i, _)) => match &t.nodes[i] {
            Node::File => Ok(Val::Bytes(format!("content of {i}").into_bytes())),
            _ => Err("IsADirectory".into()),
        },
        Err(e) => Err(err(*e)),
    };
    if r != w {
        return Err(format!("read({:?}) gives {} instead of {}", show(p), ops::show(&r), ops::show(&w)));
    }
    if let Ok((i, c)) = &all {
        // the canonical path is a fixed point naming the same inode
        let c2 = ops::run(fs, Kind::Canon, c);
        if c2 != Ok(Val::Bytes(c.clone())) {
            return Err(format!("canonicalize is not a fixed point on {:?}", show(c)));
        }
        let m = uid(&ops::run(fs, Kind::SymMeta, c));
        if m != Ok(*i) {
            return Err(format!("canonical path {:?} names another inode", show(c)));
        }
    }
    Ok(hash_of(&(canon, s)))
}

const TARGETS: [&[u8]; 18] = [
    b"a", b"/a", b"..", b".", b"/", b"a/", b"f", b"x", b"s1", b"../s1", b"/a/s2", b"s2", b"a/b/..",
    b"a//b/", b"./b/../f", b"/s1/b", b"//f/", b"b/../../s1/.",
];

fn tree2(t1: &[u8], t2: &[u8]) -> Tree {
    let mut t = Tree::new();
    t.dir(2, b"a", 12);
    t.dir(12, b"b", 13);
    t.add(12, b"f", 14, Node::File);
    t.add(2, b"f", 15, Node::File);
    t.add(2, b"s1", 16, Node::Link(t1.to_vec()));
    t.add(12, b"s2", 17, Node::Link(t2.to_vec()));
    t
}

const COMPS: [&[u8]; 8] = [b"a", b"b", b"f", b"s1", b"s2", b".", b"..", b"x"];
const TRAIL: [&[u8]; 3] = [b"", b"/", b"//"];

/// Every path of up to `n` components.
fn paths(n: usize, seps: &[&[u8]], f: &mut dyn FnMut(&[u8]) -> CaseResult) -> CaseResult {
    fn rec(
        cur: &mut Vec<u8>,
        left: usize,
        seps: &[&[u8]],
        f: &mut dyn FnMut(&[u8]) -> CaseResult,
    ) -> CaseResult {
        for t in TRAIL {
            let l = cur.len();
            cur.extend_from_slice(t);
            f(cur)?;
            cur.truncate(l);
        }
        if left == 0 {
            return Ok(());
        }
        for s in seps {
            for c in COMPS {
                let l = cur.len();
                cur.extend_from_slice(s);
                cur.extend_from_slice(c);
                rec(cur, left - 1, seps, f)?;
                cur.truncate(l);
            }
        }
        Ok(())
    }
    rec(&mut vec![], n, seps, f)
}

fn two_links(n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let t1 = *cx.of(&TARGETS);
        let t2 = *cx.of(&TARGETS);
        let t = tree2(t1, t2);
        let k = cx.pick(2);
        let m = image(&t, super::p04::geo([0, 1][k]));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        let (s1, s2) = (String::from_utf8_lossy(t1).into_owned(), String::from_utf8_lossy(t2).into_owned());
        cx.describe(|| format!("/s1 -> {s1:?}, /a/s2 -> {s2:?}, all paths of <={n} components"));
        let mut steps = vec![];
        paths(if k == 0 { n } else { n - 1 }, &[b"/"], &mut |p| {
            if p.is_empty() {
                return Ok(());
            }
            let h = check_path(&fs, &t, p)
                .map_err(|e| format!("with /s1 -> {s1:?}, /a/s2 -> {s2:?}: {e}"))?;
            steps.push((hash_of(&(t1, t2, p)), h));
            Ok(())
        })?;
        for (i, o) in steps {
            cx.input(i);
            cx.outcome(o);
            cx.step();
        }
        Ok(())
    }
}

/// Different separators between the components.
fn separators() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let t1 = *cx.of(&TARGETS);
        let t2 = *cx.of(&[&b"b"[..], b"../f", b"/a//"]);
        let t = tree2(t1, t2);
        let m = image(&t, Geo::new(1024));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.describe(|| format!("/s1 -> {:?}", String::from_utf8_lossy(t1)));
        let mut steps = vec![];
        paths(3, &[b"/", b"//", b"/./"], &mut |p| {
            if p.is_empty() {
                return Ok(());
            }
            let h = check_path(&fs, &t, p).map_err(|e| format!("with /s1 -> {t1:?}: {e}"))?;
            steps.push((hash_of(&(t1, t2, p)), h));
            Ok(())
        })?;
        for (i, o) in steps {
            cx.input(i);
            cx.outcome(o);
            cx.step();
        }
        Ok(())
    }
}

/// Three links in three directories, targets from a smaller palette.
fn three_links(n: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        const T: [&[u8]; 9] =
            [b"..", b"s", b"../s", b"/a/s", b"/a/b/s", b"b", b"/a/b/", b"../../f", b"f/"];
        let ts: Vec<&[u8]> = (0..3).map(|_| *cx.of(&T)).collect();
        let mut t = Tree::new();
        t.dir(2, b"a", 12);
        t.dir(12, b"b", 13);
        t.add(2, b"f", 14, Node::File);
        t.add(13, b"f", 15, Node::File);
        t.add(2, b"s", 16, Node::Link(ts[0].to_vec()));
        t.add(12, b"s", 17, Node::Link(ts[1].to_vec()));
        t.add(13, b"s", 18, Node::Link(ts[2].to_vec()));
        let m = image(&t, Geo::new(1024));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.describe(|| format!("links {:?}", ts.iter().map(|t| String::from_utf8_lossy(t)).collect::<Vec<_>>()));
        const C: [&[u8]; 6] = [b"a", b"b", b"s", b"f", b"..", b"."];
        let mut idx = vec![0usize; n];
        loop {
            // all sequences of exactly n components (shorter ones through ".")
            for tr in [&b""[..], b"/"] {
                let mut p = vec![];
                for i in &idx {
                    p.push(b'/');
                    p.extend_from_slice(C[*i]);
                }
                p.extend_from_slice(tr);
                let h = check_path(&fs, &t, &p).map_err(|e| format!("with links {ts:?}: {e}"))?;
                cx.input(hash_of(&(&ts, &p)));
                cx.outcome(h);
                cx.step();
            }
            let mut k = n;
            loop {
                if k == 0 {
                    return Ok(());
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < C.len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    }
}

/// Chains and loops of links around the limit of 40.
fn chains() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let style = cx.pick(4);
        let end = cx.pick(4);
        let n = 1 + cx.pick(44);
        let mut t = Tree::new();
        t.dir(2, b"d", 12);
        t.add(12, b"f", 13, Node::File);
        t.dir(12, b"e", 14);
        t.dir(2, b"c", 15);
        // link i (inode 20+i) points to link i+1; the last one to `end`
        let last: &[u8] = match (end, style) {
            (0, _) => b"/d/f",
            (1, _) => b"/d/e",
            (2, _) => b"/d/missing",
            (_, _) => b"/c/l0", // a loop
        };
        for i in 0..n {
            let next = format!("l{}", i + 1);
            let target = if i + 1 == n {
                last.to_vec()
            } else {
                match style {
                    0 => next.into_bytes(),
                    1 => format!("/c/{next}").into_bytes(),
                    2 => format!("../c/{next}").into_bytes(),
                    _ => format!("./{next}/").into_bytes(),
                }
            };
            t.add(15, format!("l{i}").as_bytes(), 20 + i as u32, Node::Link(target));
        }
        let mut g = Geo::new(1024);
        g.ipg = 128;
        let m = image(&t, g);
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.describe(|| format!("{n} links of style {style}, end {end}"));
        let k = n / 2;
        for p in [
            "/c/l0".to_string(),
            "/c/l0/".into(),
            "/c/l0/.".into(),
            "/c/l0/../f".into(),
            "/c/l0/x".into(),
            format!("/c/l{k}/../../c/l0"),
            format!("/c/l{k}"),
            format!("/c/l{}", n - 1),
            // enters the chain twice
            format!("/c/l{k}/../../c/l{}/../e", n / 3),
        ] {
            let h = check_path(&fs, &t, p.as_bytes())
                .map_err(|e| format!("{n} links of style {style}, end {end}: {e}"))?;
            cx.input(hash_of(&(style, end, n, &p)));
            cx.outcome(h);
            cx.step();
        }
        Ok(())
    }
}

/// Lengths around 4096, of the path itself and after following a link.
fn lengths() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let mut t = Tree::new();
        let long: Vec<u8> = vec![b'n'; 255];
        t.dir(2, b"a", 12);
        t.dir(12, &long, 13);
        t.add(13, b"f", 14, Node::File);
        t.dir(12, b"b", 16);
        let kind = cx.pick(5);
        let pad = |v: &mut Vec<u8>, unit: &[u8], upto: usize| {
            while v.len() + unit.len() <= upto {
                v.extend_from_slice(unit);
            }
        };
        let delta = cx.pick(13);
        let total = 4090 + delta;
        let up: Vec<u8> = [&long[..], b"/../"].concat();
        let paths: Vec<Vec<u8>> = match kind {
            // long path of real components; exact total by slashes
            0 => {
                let mut p = b"/a/".to_vec();
                pad(&mut p, &up, total - 40);
                pad(&mut p, b"./", total - 10);
                while p.len() < total {
                    p.insert(1, b'/');
                }
                vec![p]
            }
            // only separators, dots or dot-dots
            1 => {
                let mut v = vec![];
                for unit in [&b"/"[..], b"/.", b"/..", b"/a/..", b"/a/.././//"] {
                    let mut p = vec![];
                    pad(&mut p, unit, total);
                    while p.len() < total {
                        p.push(b'/');
                    }
                    v.push(p);
                }
                v
            }
            // a link target of that length
            2 | 3 => {
                let abs = kind == 2;
                let tl = (total - if abs { 0 } else { 3 }).min(4095);
                let mut target = if abs { b"/a/".to_vec() } else { vec![] };
                if (tl - target.len()) % 2 == 1 {
                    target.extend_from_slice(b"b/../");
                }
                pad(&mut target, &[&up[..], &up[..]].concat(), tl - 300);
                pad(&mut target, b"./", tl);
                ensure!(target.len() == tl, "harness: target of {} instead of {tl}", target.len());
                t.add(12, b"l", 15, Node::Link(target));
                let mut v = vec![b"/a/l".to_vec()];
                for extra in 0..8 {
                    let mut p = b"/a/l/".to_vec();
                    p.extend(vec![b'a'; extra]);
                    v.push(p);
                }
                v
            }
            // growth step by step: each link adds 100 bytes and itself
            _ => {
                let n = 100 + delta;
                let mut target = vec![];
                pad(&mut target, b"./", n);
                target.extend_from_slice(b"l");
                t.add(12, b"l", 15, Node::Link(target));
                vec![b"/a/l".to_vec(), b"/a/l/x".to_vec()]
            }
        };
        let m = image(&t, Geo::new(1024));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.describe(|| format!("kind {kind}, total {total}"));
        for p in paths {
            let h = check_path(&fs, &t, &p).map_err(|e| {
                let e: String = e.chars().take(300).collect();
                format!("kind {kind}, path of {} bytes: {e}", p.len())
            })?;
            cx.input(hash_of(&(kind, delta, &p)));
            cx.outcome(h);
            cx.step();
        }
        Ok(())
    }
}

/// Number of components from a few to thousands.
fn many_components() -> impl Fn(&mut Cx) -> CaseResult {
    |cx| {
        let units: [&[u8]; 6] = [b"/.", b"/..", b"/a/..", b"/l/..", b"/l/.", b"/a/l2/.."];
        let unit = *cx.of(&units);
        let n = *cx.of(&[1usize, 9, 39, 40, 41, 100, 499, 500, 501, 999, 1000, 1001, 1365, 2000, 2047, 2048]);
        if n * unit.len() > 4096 {
            return Ok(());
        }
        let mut t = Tree::new();
        t.dir(2, b"a", 12);
        t.add(2, b"l", 13, Node::Link(b"a".to_vec()));
        // a link whose target alone has many components
        let many = "./".repeat(900);
        t.add(12, b"l2", 14, Node::Link(many.into_bytes()));
        let m = image(&t, Geo::new(1024));
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        let mut p = vec![];
        for _ in 0..n {
            p.extend_from_slice(unit);
        }
        cx.describe(|| format!("{n} x {:?}", String::from_utf8_lossy(unit)));
        let tail = *cx.of(&[&b""[..], b"/", b"/a"]);
        p.extend_from_slice(tail);
        let h = check_path(&fs, &t, &p).map_err(|e| {
            let e: String = e.chars().take(200).collect();
            format!("{n} x {:?}: {e}", String::from_utf8_lossy(unit))
        })?;
        cx.input(hash_of(&p));
        cx.outcome(h);
        cx.step();
        Ok(())
    }
}

/// Conformance of the model with the kernel: the same trees made in a
/// scratch directory, paths resolved with openat2(RESOLVE_IN_ROOT).
pub fn validate() -> Result<u64, String> {
    use std::ffi::CString;
    use std::os::unix::ffi::OsStrExt;
    unsafe extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn close(fd: i32) -> i32;
        fn open(p: *const std::ffi::c_char, fl: i32, ...) -> i32;
    }
    let dir = std::env::temp_dir().join(format!("mc-p06-{}", std::process::id()));
    struct Rm(std::path::PathBuf);
    impl Drop for Rm {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    if std::fs::create_dir_all(&dir).is_err() {
        return Ok(0); // no scratch space here
    }
    let _rm = Rm(dir.clone());
    let mut n = 0u64;
    let resolve = |root: i32, p: &[u8], nofollow: bool| -> Result<u64, i32> {
        const O_PATH: u64 = 0o10000000;
        const O_NOFOLLOW: u64 = 0o400000;
        let how: [u64; 3] = [O_PATH | if nofollow { O_NOFOLLOW } else { 0 }, 0, 0x10];
        let c = CString::new(p).unwrap();
        // EAGAIN: a rename or mount anywhere in the system happened meanwhile
        let mut tries = 0;
        let fd = loop {
            let fd = unsafe { syscall(437, root as i64, c.as_ptr(), how.as_ptr(), 24i64) };
            if fd >= 0 {
                break fd;
            }
            let e = std::io::Error::last_os_error().raw_os_error().unwrap();
            tries += 1;
            if e != 11 || tries > 5000 {
                return Err(e);
            }
            if tries > 20 {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        };
        let md = std::fs::metadata(format!("/proc/self/fd/{fd}"));
        let lm = std::fs::read_link(format!("/proc/self/fd/{fd}"))
            .map(|p| hash_of(p.as_os_str().as_bytes()));
        unsafe { close(fd as i32) };
        let _ = md;
        lm.map_err(|e| e.raw_os_error().unwrap_or(-1))
    };
    let e = |x: E| match x {
        E::NotFound => 2,
        E::NotADirectory => 20,
        E::TooManySymlinks => 40,
        E::PathTooLong => 36,
        E::NotAbsolute => 22,
    };
    for t1 in TARGETS {
        for t2 in TARGETS.iter().step_by(2) {
            let d = dir.join("t");
            let _ = std::fs::remove_dir_all(&d);
            let t = tree2(t1, t2);
            let mk = || -> std::io::Result<()> {
                use std::os::unix::fs::symlink;
                std::fs::create_dir_all(d.join("a/b"))?;
                std::fs::write(d.join("a/f"), "")?;
                std::fs::write(d.join("f"), "")?;
                symlink(std::ffi::OsStr::from_bytes(t1), d.join("s1"))?;
                symlink(std::ffi::OsStr::from_bytes(t2), d.join("a/s2"))
            };
            if mk().is_err() {
                return Ok(0);
            }
            let c = CString::new(d.as_os_str().as_bytes()).unwrap();
            let root = unsafe { open(c.as_ptr(), 0o200000) };
            if root < 0 {
                return Err("open failed".into());
            }
            if let Err(38 | 1) = resolve(root, b"/", false) {
                // no openat2 here
                unsafe { close(root) };
                return Ok(0);
            }
            let mut bad = None;
            let r = paths(3, &[b"/", b"//"], &mut |p| {
                if p.is_empty() {
                    return Ok(());
                }
                for nofollow in [false, true] {
                    // the library deliberately does not follow "link/"
                    if nofollow && p.last() == Some(&b'/') {
                        continue;
                    }
                    let k = resolve(root, p, nofollow);
                    let m = t.resolve(p, !nofollow).map_err(e).map(|(_, c)| {
                        let mut full = d.as_os_str().as_bytes().to_vec();
                        if c != b"/" {
                            full.extend_from_slice(&c);
                        }
                        hash_of(&full[..])
                    });
                    // (not an outcome of path resolution: nothing to compare)
                    if matches!(k, Err(x) if !matches!(x, 2 | 20 | 36 | 40)) {
                        continue;
                    }
                    n += 1;
                    if k != m {
                        bad = Some(format!(
                            "model and kernel differ on {:?} with s1 -> {:?}, s2 -> {:?}: {m:?} vs {k:?}",
                            String::from_utf8_lossy(p),
                            String::from_utf8_lossy(t1),
                            String::from_utf8_lossy(t2),
                        ));
                        return Err("x".into());
                    }
                }
                Ok(())
            });
            unsafe { close(root) };
            if r.is_err() {
                return Err(bad.unwrap());
            }
        }
    }
    // chains around the limit
    for k in 36..44 {
        let d = dir.join(format!("c{k}"));
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        std::fs::write(d.join(format!("l{k}")), "").map_err(|e| e.to_string())?;
        let mut t = Tree::new();
        t.add(2, format!("l{k}").as_bytes(), 12, Node::File);
        for i in 0..k {
            std::os::unix::fs::symlink(format!("l{}", i + 1), d.join(format!("l{i}")))
                .map_err(|e| e.to_string())?;
            t.add(2, format!("l{i}").as_bytes(), 20 + i as u32, Node::Link(format!("l{}", i + 1).into_bytes()));
        }
        let c = CString::new(d.as_os_str().as_bytes()).unwrap();
        let root = unsafe { open(c.as_ptr(), 0o200000) };
        let kr = resolve(root, b"/l0", false).map(|_| ());
        unsafe { close(root) };
        let mr = t.resolve(b"/l0", true).map(|_| ()).map_err(e);
        n += 1;
        if kr != mr && matches!(kr, Ok(()) | Err(2 | 20 | 36 | 40)) {
            return Err(format!("model and kernel differ on a chain of {k} links: {mr:?} vs {kr:?}"));
        }
    }
    Ok(n)
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P06",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the reference model is Linux's path resolution (compared with openat2(RESOLVE_IN_ROOT) of the running kernel on scratch trees), except that a final 'link/' is not followed by lstat-like operations (tested behaviour of the library) and the length limit is 4096 bytes including after symlink expansion",
        ],
        sections: vec![
            Section::new(
                "two-links",
                if t { "every pair of 18 link targets x all paths of <=5 components over 8 names x 3 endings" } else { "every pair of 18 link targets x all paths of <=4 components over 8 names x 3 endings" },
                two_links(if t { 5 } else { 4 }),
            ),
            Section::new(
                "separators",
                "18 link targets x 3 x all paths of <=3 components with separators '/', '//', '/./' x 3 endings",
                separators(),
            ),
            Section::new(
                "three-links",
                if t { "every triple of 9 targets of links in 3 nested directories x all paths of 5 components over 6 names" } else { "every triple of 9 targets of links in 3 nested directories x all paths of 4 components over 6 names" },
                three_links(if t { 5 } else { 4 }),
            ),
            Section::new("chains", "chains of 1..44 links x 4 target styles x 4 ends x 9 paths", chains()),
            Section::new(
                "lengths",
                "path lengths and expanded lengths 4090..4102 in 5 constructions",
                lengths(),
            ),
            Section::new(
                "many-components",
                "6 kinds of components repeated up to 2048 times",
                many_components(),
            ),
        ],
        validate: Some(validate),
    }
}
