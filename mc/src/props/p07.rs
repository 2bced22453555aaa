//! P07: each operation accepts exactly its targets and reports the
//! documented error.

use super::p01::cached;
use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops::{self, Kind, Meta, Obs, Val};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, Path, PathBuf};
use std::io::ErrorKind;

fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024),
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => Geo::new(4096).extents(),
        _ => unreachable!(),
    }
}
const NGEO: usize = 3;

/// What a final object is.
#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Reg,
    Bad,
    Empty,
    Big,
    Dir,
    Fifo,
    Chr,
    Blk,
    Sock,
    Link,
    LongLink,
    EncDir,
    EncReg,
    EncEmpty,
    EncLink,
    EncLong,
    Dangling,
    Loop,
}
use T::*;
const ALL: [T; 18] = [
    Reg, Bad, Empty, Big, Dir, Fifo, Chr, Blk, Sock, Link, LongLink, EncDir, EncReg, EncEmpty, EncLink,
    EncLong, Dangling, Loop,
];

fn name(t: T) -> String {
    format!("{t:?}").to_lowercase()
}
fn ino(t: T) -> u32 {
    12 + ALL.iter().position(|x| *x == t).unwrap() as u32
}
fn mode(t: T) -> u16 {
    let (ty, p) = match t {
        Reg | Bad | Empty | Big | EncReg | EncEmpty => (S_IFREG, 0o644),
        Dir | EncDir => (S_IFDIR, 0o755),
        Fifo => (S_IFIFO, 0o600),
        Chr => (S_IFCHR, 0o660),
        Blk => (S_IFBLK, 0o640),
        Sock => (S_IFSOCK, 0o700),
        Link | LongLink | EncLink | EncLong | Dangling | Loop => (S_IFLNK, 0o777),
    };
    ty | p
}
fn ft(t: T) -> u8 {
    match mode(t) & 0o170000 {
        S_IFREG => FT_REG,
        S_IFDIR => FT_DIR,
        S_IFIFO => FT_FIFO,
        S_IFCHR => FT_CHR,
        S_IFBLK => FT_BLK,
        S_IFSOCK => FT_SOCK,
        _ => FT_LNK,
    }
}
fn content(t: T) -> Vec<u8> {
    match t {
        Reg => "plain text \u{e9}\u{4e2d}".as_bytes().to_vec(),
        Bad => b"text then \xff\xfe".to_vec(),
        Big => {
            // valid UTF-8, with characters crossing block borders
            let mut v = b"x".to_vec();
            while v.len() < 9000 {
                v.extend_from_slice("\u{4e2d}".as_bytes());
            }
            v
        }
        EncReg => b"ciphertext ciphertext".to_vec(),
        _ => vec![],
    }
}
fn target(t: T) -> Vec<u8> {
    match t {
        Link => b"reg".to_vec(),
        LongLink => {
            let mut v = b"./".repeat(50);
            v.extend_from_slice(b"dir");
            v
        }
        EncLink => b"reg".to_vec(),
        Dangling => b"nowhere".to_vec(),
        Loop => b"loop".to_vec(),
        EncLong => {
            let mut v = b"./".repeat(50);
            v.extend_from_slice(b"reg");
            v
        }
        _ => unreachable!(),
    }
}

/// `k`-th link: link to object `t`, in the root.
fn lname(t: T) -> String {
    format!("to-{}", name(t))
}

fn image(g: Geo) -> Img {
    let mut g = g;
    g.ipg = 64;
    g.incompat |= INCOMPAT_ENCRYPT;
    let mut m = Img::new(g);
    let mut ents: Vec<(Vec<u8>, u32, u8)> = vec![];
    for t in ALL {
        ents.push((name(t).into_bytes(), ino(t), ft(t)));
        ents.push((lname(t).into_bytes(), 30 + ino(t), FT_LNK));
    }
    let r: Vec<(&[u8], u32, u8)> = ents.iter().map(|e| (&e.0[..], e.1, e.2)).collect();
    m.dir(2, 2, &r);
    for t in ALL {
        let i = ino(t);
        m.symlink(30 + i, name(t).as_bytes());
        match t {
            Reg | Bad | Empty | Big | EncReg | EncEmpty => m.file(i, &content(t)),
            Dir | EncDir => {
                m.dir(i, 2, &[(b"inner", ino(Reg), FT_REG)]);
            }
            Fifo | Chr | Blk | Sock => m.set_inode(i, &Ino::new(mode(t))),
            Link | LongLink | EncLink | EncLong | Dangling | Loop => m.symlink(i, &target(t)),
        }
        if matches!(t, EncDir | EncReg | EncEmpty | EncLink | EncLong) {
            let b = m.inode_bytes(i);
            let f = get32(b, 0x20) | FL_ENCRYPT;
            put32(b, 0x20, f);
            m.csum_inode(i);
        }
    }
    m.finish();
    m
}

type Res = Result<T, &'static str>;

/// Follows the links of this image.
fn follow(t: T) -> Res {
    match t {
        Link => Ok(Reg),
        LongLink => Ok(Dir),
        EncLink | EncLong => Err("Encrypted"),
        Dangling => Err("NotFound"),
        Loop => Err("TooManySymlinks"),
        t => Ok(t),
    }
}
fn canon_name(t: T) -> Vec<u8> {
    format!("/{}", name(t)).into_bytes()
}

/// (path, object with the last link followed, without)
fn cases() -> Vec<(Vec<u8>, Res, Result<(T, bool), &'static str>)> {
    let mut v: Vec<(Vec<u8>, Res, Result<(T, bool), &'static str>)> = vec![];
    for t in ALL {
        let n = name(t).into_bytes();
        let l = lname(t).into_bytes();
        let p = |parts: &[&[u8]]| {
            let mut v = vec![];
            for x in parts {
                v.push(b'/');
                v.extend_from_slice(x);
            }
            v
        };
        v.push((p(&[&n]), follow(t), Ok((t, false))));
        // the link itself: object `Link` whose target is name(t)
        v.push((p(&[&l]), follow(t), Ok((t, true))));
        v.push((p(&[b"dir", b"..", &n]), follow(t), Ok((t, false))));
        v.push((p(&[b".", b"to-dir", b"..", &l]), follow(t), Ok((t, true))));
        // as a parent
        for via in [&n, &l] {
            let f = follow(t);
            let child = |c: &[u8]| -> Res {
                match f {
                    Err(e) => Err(e),
                    Ok(Dir) if c == b"inner" => Ok(Reg),
                    Ok(Dir) => Err("NotFound"),
                    Ok(EncDir) => Err("Encrypted"),
                    Ok(_) => Err("NotADirectory"),
                }
            };
            for c in [&b"inner"[..], b"missing"] {
                let r = child(c);
                v.push((p(&[via, c]), r, r.map(|t| (t, false))));
            }
        }
    }
    for (p, e) in [
        (&b"/missing"[..], "NotFound"),
        (b"", "NotAbsolute"),
        (b"reg", "NotAbsolute"),
        (b".", "NotAbsolute"),
        (b"./reg", "NotAbsolute"),
        (b"dir/inner", "NotAbsolute"),
        (b"loop", "NotAbsolute"),
    ] {
        v.push((p.to_vec(), Err(e), Err(e)));
    }
    v.push((vec![b'a'; 256], Err("MalformedPath"), Err("MalformedPath")));
    let mut long = b"/dir/".to_vec();
    long.extend(vec![b'a'; 256]);
    v.push((long, Err("MalformedPath"), Err("MalformedPath")));
    let mut fits = b"/dir/".to_vec();
    fits.extend(vec![b'a'; 255]);
    v.push((fits, Err("NotFound"), Err("NotFound")));
    for p in [&b"\0"[..], b"/\0", b"/reg\0", b"/dir/\0/inner", b"reg\0"] {
        v.push((p.to_vec(), Err("MalformedPath"), Err("MalformedPath")));
    }
    for n in [4097usize, 5000] {
        let mut p = b"/.".repeat(n / 2 + 1);
        p.truncate(n);
        v.push((p, Err("PathTooLong"), Err("PathTooLong")));
    }
    v
}

fn meta_of(m: &Img, t: T) -> Meta {
    let len = match t {
        Dir | EncDir => m.g.bs as u64,
        Link | LongLink | EncLink | EncLong | Dangling | Loop => target(t).len() as u64,
        t => content(t).len() as u64,
    };
    Meta { ft: ["", "reg", "dir", "chr", "blk", "fifo", "sock", "lnk"][ft(t) as usize], mode: mode(t) & 0o7777, uid: 0, gid: 0, len }
}

fn want(m: &Img, k: Kind, c: &(Vec<u8>, Res, Result<(T, bool), &'static str>)) -> Obs {
    let s = |e: &str| e.to_string();
    let special = |t: T| matches!(t, Fifo | Chr | Blk | Sock);
    match k {
        Kind::Exists => match &c.1 {
            Ok(_) => Ok(Val::Bool(true)),
            Err("NotFound") => Ok(Val::Bool(false)),
            Err(e) => Err(s(e)),
        },
        Kind::Meta => c.1.map(|t| Val::Meta(meta_of(m, t))).map_err(s),
        Kind::SymMeta => c
            .2
            .map(|(t, l)| {
                Val::Meta(if l {
                    Meta { ft: "lnk", mode: 0o777, uid: 0, gid: 0, len: name(t).len() as u64 }
                } else {
                    meta_of(m, t)
                })
            })
            .map_err(s),
        Kind::Canon => {
            let p = if c.0.ends_with(b"/inner") { Some(b"/dir/inner".to_vec()) } else { None };
            c.1.map(|t| Val::Bytes(p.unwrap_or_else(|| canon_name(t)))).map_err(s)
        }
        Kind::ReadLink => match c.2 {
            Err(e) => Err(s(e)),
            Ok((t, true)) => Ok(Val::Bytes(name(t).into_bytes())),
            Ok((Link, _)) => Ok(Val::Bytes(target(Link))),
            Ok((t @ (LongLink | Dangling | Loop), _)) => Ok(Val::Bytes(target(t))),
            Ok((EncLink | EncLong, _)) => Err(s("Encrypted")),
            Ok(_) => Err(s("NotASymlink")),
        },
        Kind::Read | Kind::ReadStr | Kind::Open => match c.1 {
            Err(e) => Err(s(e)),
            Ok(Dir | EncDir) => Err(s("IsADirectory")),
            Ok(t) if special(t) => Err(s("IsASpecialFile")),
            Ok(EncReg | EncEmpty) => Err(s("Encrypted")),
            Ok(Bad) if k == Kind::ReadStr => Err(s("NotUtf8")),
            Ok(t) if k == Kind::Open => Ok(Val::Meta(meta_of(m, t))),
            Ok(t) => Ok(Val::Bytes(content(t))),
        },
        Kind::ReadDir => match c.1 {
            Err(e) => Err(s(e)),
            Ok(EncDir) => Err(s("Encrypted")),
            Ok(Dir) => Ok(Val::Unit),
            Ok(_) => Err(s("NotADirectory")),
        },
    }
}

/// The operation through each argument type.
fn via(fs: &Ext4, k: Kind, p: &[u8], how: usize) -> Option<Obs> {
    use std::os::unix::ffi::OsStrExt;
    macro_rules! call {
        ($a:expr) => {{
            let e = |e: Ext4Error| ops::err_name(&e);
            match k {
                Kind::Exists => fs.exists($a).map(Val::Bool).map_err(e),
                Kind::Meta => fs.metadata($a).map(|m| Val::Meta(ops::meta(&m))).map_err(e),
                Kind::SymMeta => fs.symlink_metadata($a).map(|m| Val::Meta(ops::meta(&m))).map_err(e),
                Kind::Canon => fs.canonicalize($a).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
                Kind::ReadLink => fs.read_link($a).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
                Kind::Read => fs.read($a).map(Val::Bytes).map_err(e),
                Kind::ReadStr => fs.read_to_string($a).map(|s| Val::Bytes(s.into_bytes())).map_err(e),
                Kind::Open => fs.open($a).map(|f| Val::Meta(ops::meta(f.metadata()))).map_err(e),
                Kind::ReadDir => fs.read_dir($a).map(|_| Val::Unit).map_err(e),
            }
        }};
    }
    Some(match how {
        0 => call!(p),
        1 => call!(Path::try_from(p).ok()?),
        2 => {
            let b = PathBuf::try_from(p).ok()?;
            call!(&b)
        }
        3 => call!(std::str::from_utf8(p).ok()?),
        4 => {
            let s = String::from_utf8(p.to_vec()).ok()?;
            call!(&s)
        }
        5 => call!(std::ffi::OsStr::from_bytes(p)),
        6 => call!(std::path::Path::new(std::ffi::OsStr::from_bytes(p))),
        _ => unreachable!(),
    })
}

fn matrix() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    let cases = cases();
    move |cx| {
        let g = cx.pick(NGEO);
        let c = cx.of(&cases).clone();
        let k = *cx.of(&ops::KINDS);
        let how = cx.pick(7);
        let m = cached(g, || image(geo(g)));
        cx.describe(|| format!("geometry {g}: {k:?}({:?}) through argument type {how}", String::from_utf8_lossy(&c.0)));
        cx.input(hash_of(&(g, k, &c.0, how)));
        let fs = m.load().map_err(|e| format!("load: {e:?}"))?;
        cx.step();
        let Some(got) = via(&fs, k, &c.0, how) else { return Ok(()) };
        let want = want(&m, k, &c);
        cx.outcome(hash_of(&want));
        ensure!(got == want, "{k:?} gives {} instead of {}", ops::show(&got), ops::show(&want));
        Ok(())
    }
}

/// `..` and `.` after an encrypted directory, and what listing reports for
/// encrypted entries.
fn around_encrypted() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let g = cx.pick(NGEO);
        let what = cx.pick(5);
        let mut m = cached(g, || image(geo(g)));
        if what == 4 {
            // with an index
            let leaf = crate::img::dir_block(&[crate::img::Rec::new(ino(Reg), b"inner", FT_REG)], m.bs(), m.g.csum).unwrap();
            crate::htree::write(&mut m, ino(EncDir), 2, 1, &[(0, crate::htree::Dx::Leaf(leaf))], crate::htree::Place::Natural);
            let b = m.inode_bytes(ino(EncDir));
            let f = get32(b, 0x20) | FL_ENCRYPT;
            put32(b, 0x20, f);
            m.csum_inode(ino(EncDir));
        }
        cx.describe(|| format!("geometry {g}, case {what}"));
        cx.input(hash_of(&(g, what)));
        let fs = m.load().map_err(|e| format!("load: {e:?}"))?;
        cx.step();
        match what {
            // metadata is not encrypted
            0 => {
                for t in [EncDir, EncReg, EncEmpty, EncLink, EncLong] {
                    let r = ops::run(&fs, Kind::SymMeta, &canon_name(t));
                    let w = Ok(Val::Meta(meta_of(&m, t)));
                    ensure!(r == w, "symlink_metadata of {t:?}: {r:?}");
                }
            }
            1 => {
                let l = ops::list(&fs, Path::new("/"))?;
                for t in ALL {
                    let e = l.iter().find(|e| e.0 == name(t).into_bytes());
                    let Some(e) = e else { bail!("{t:?} is not listed") };
                    ensure!(e.3 == Ok(meta_of(&m, t)), "listed metadata of {t:?}: {:?}", e.3);
                }
            }
            // an open file does not deliver ciphertext either
            2 => {
                for t in [EncReg, EncEmpty] {
                    for p in [canon_name(t), format!("/{}", lname(t)).into_bytes()] {
                        let r = fs.open(&p[..]);
                        ensure!(
                            matches!(r, Err(Ext4Error::Encrypted)),
                            "open of {t:?} gives {:?}",
                            r.map(|_| ())
                        );
                    }
                }
            }
            // an index does not give names either
            4 => {
                for p in ["/encdir/inner", "/encdir/nothing", "/to-encdir/inner", "/to-encdir/nothing", "/encdir/inner/x"] {
                    for k in ops::KINDS {
                        let r = ops::run(&fs, k, p.as_bytes());
                        ensure!(r == Err("Encrypted".into()), "{k:?} of {p} gives {}", ops::show(&r));
                    }
                }
                for p in ["/encdir", "/to-encdir"] {
                    let r = ops::run(&fs, Kind::ReadDir, p.as_bytes());
                    ensure!(r == Err("Encrypted".into()), "listing {p} gives {}", ops::show(&r));
                }
            }
            // "." and ".." name directories without needing the key
            _ => {
                for (p, w) in [("/encdir/.", "/encdir"), ("/encdir/..", "/"), ("/to-encdir/../reg", "/reg")] {
                    let r = ops::run(&fs, Kind::Canon, p.as_bytes());
                    ensure!(
                        r == Ok(Val::Bytes(w.as_bytes().to_vec())) || r == Err("Encrypted".into()),
                        "canonicalize({p:?}) gives {}",
                        ops::show(&r)
                    );
                }
            }
        }
        Ok(())
    }
}

/// Every error converted to std::io::Error.
fn conversions() -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    move |cx| {
        let which = cx.pick(15);
        cx.input(hash_of(&which));
        cx.step();
        let m = cached(0, || image(geo(0)));
        let fs = m.load().map_err(|e| format!("load: {e:?}"))?;
        let corrupt = || {
            let mut b = m.to_bytes();
            b[1024 + 0x38] ^= 1;
            Ext4::load(Box::new(b)).unwrap_err()
        };
        let incompatible = || {
            let mut b = m.to_bytes();
            b[1024 + 0x61] |= 0x80;
            Ext4::load(Box::new(b)).unwrap_err()
        };
        struct OnlySb(Vec<u8>);
        impl ext4_view::Ext4Read for OnlySb {
            fn read(&mut self, s: u64, d: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
                if s != 1024 {
                    return Err(Box::new(Injected(s)));
                }
                d.copy_from_slice(&self.0[1024..1024 + d.len()]);
                Ok(())
            }
        }
        let e: Ext4Error = match which {
            0 => fs.read("reg").unwrap_err(),
            1 => fs.read_link("/reg").unwrap_err(),
            2 => fs.read("/nope").unwrap_err(),
            3 => fs.read("/dir").unwrap_err(),
            4 => fs.read_dir("/reg").err().unwrap(),
            5 => fs.read("/fifo").unwrap_err(),
            6 => Ext4Error::FileTooLarge,
            7 => fs.read_to_string("/bad").unwrap_err(),
            8 => fs.read(b"\0").unwrap_err(),
            9 => fs.read("/.".repeat(2049).as_str()).unwrap_err(),
            10 => fs.read("/loop").unwrap_err(),
            11 => fs.read_dir("/encdir").err().unwrap(),
            12 => Ext4::load(Box::new(OnlySb(m.to_bytes()))).unwrap_err(),
            13 => incompatible(),
            14 => corrupt(),
            _ => unreachable!(),
        };
        cx.describe(|| format!("error {e:?}"));
        let (name, kind, keeps) = [
            ("NotAbsolute", ErrorKind::InvalidInput, false),
            ("NotASymlink", ErrorKind::InvalidInput, false),
            ("NotFound", ErrorKind::NotFound, false),
            ("IsADirectory", ErrorKind::IsADirectory, false),
            ("NotADirectory", ErrorKind::NotADirectory, false),
            ("IsASpecialFile", ErrorKind::InvalidInput, false),
            ("FileTooLarge", ErrorKind::FileTooLarge, false),
            ("NotUtf8", ErrorKind::InvalidData, false),
            ("MalformedPath", ErrorKind::InvalidInput, false),
            ("PathTooLong", ErrorKind::Other, true),
            ("TooManySymlinks", ErrorKind::Other, true),
            ("Encrypted", ErrorKind::PermissionDenied, false),
            ("Io", ErrorKind::Other, false),
            ("Incompatible", ErrorKind::Other, true),
            ("Corrupt", ErrorKind::Other, true),
        ][which];
        let n = ops::err_name(&e);
        ensure!(n == name || n.starts_with("Io(") && name == "Io", "the error is {n} instead of {name}");
        let text = e.to_string();
        ensure!(!text.is_empty(), "empty error text");
        if name == "Io" {
            let Some(inner) = e.as_io() else { bail!("as_io() is None for an I/O error") };
            ensure!(inner.downcast_ref::<Injected>().is_some(), "as_io() is not the reader's error");
            ensure!(text.contains("injected fault"), "text {text:?} does not show the reader's error");
        } else {
            ensure!(e.as_io().is_none(), "as_io() of {name}");
        }
        let io: std::io::Error = e.into();
        ensure!(io.kind() == kind, "{name} becomes {:?} instead of {kind:?}", io.kind());
        let inner = io.get_ref();
        if name == "Io" {
            ensure!(
                inner.is_some_and(|i| i.downcast_ref::<Injected>().is_some()),
                "the reader's error is lost in the conversion"
            );
        }
        if keeps {
            ensure!(
                inner.is_some_and(|i| i.downcast_ref::<Ext4Error>().is_some_and(|x| ops::err_name(x) == name)),
                "the original error is lost in the conversion of {name}"
            );
        }
        cx.outcome(hash_of(&(name, kind)));
        Ok(())
    }
}

/// read_to_string accepts exactly UTF-8: all short byte strings.
fn utf8(n: usize) -> impl Fn(&mut Cx) -> CaseResult + Sync + Send {
    const B: [u8; 16] = [
        b'a', 0, 0x7f, 0x80, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xa0, 0xef, 0xf0, 0xf4, 0x90, 0xff,
    ];
    move |cx| {
        let g = cx.pick(2);
        let len = cx.pick(n + 1);
        let pad = *cx.of(&[0usize, 1023]);
        let mut v = vec![b'z'; pad];
        for _ in 0..len {
            v.push(*cx.of(&B));
        }
        cx.describe(|| format!("geometry {g}, content of {} bytes ending in {:x?}", v.len(), &v[pad..]));
        cx.input(hash_of(&(g, &v)));
        let mut m = cached(8 + g, || image(geo(g)));
        m.file(ino(Reg), &v);
        let fs = m.load().map_err(|e| format!("load: {e:?}"))?;
        cx.step();
        let got = ops::run(&fs, Kind::ReadStr, b"/reg");
        // an independent decoder
        let want = if utf8_valid(&v) { Ok(Val::Bytes(v)) } else { Err("NotUtf8".into()) };
        cx.outcome(want.is_ok() as u64);
        ensure!(got == want, "read_to_string gives {} instead of {}", ops::show(&got), ops::show(&want));
        Ok(())
    }
}

/// RFC 3629 by the definition.
pub fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as u32;
        let (n, min) = match c {
            0..=0x7f => {
                i += 1;
                continue;
            }
            0xc0..=0xdf => (1, 0x80),
            0xe0..=0xef => (2, 0x800),
            0xf0..=0xf7 => (3, 0x10000),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        let mut v = c & (0x3f >> n);
        for k in 1..=n {
            let d = b[i + k] as u32;
            if d & 0xc0 != 0x80 {
                return false;
            }
            v = v << 6 | (d & 0x3f);
        }
        if v < min || v > 0x10ffff || (0xd800..0xe000).contains(&v) {
            return false;
        }
        i += n + 1;
    }
    true
}

pub fn prop(t: bool) -> Prop {
    Prop {
        id: "P07",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "'.' and '..' behind an encrypted directory may be resolved or refused as Encrypted",
            "the documented error conversion is the table in error.rs at the pinned commit",
        ],
        sections: vec![
            Section::new(
                "matrix",
                "9 operations x every path to 18 kinds of objects (direct, through links, as parent), missing, malformed, relative, too long x 7 argument types x 3 geometries",
                matrix(),
            ),
            Section::new("encrypted", "encrypted objects: metadata, listing, opening, dots", around_encrypted()),
            Section::new("conversions", "each of the 15 errors converted to std::io::Error", conversions()),
            Section::new(
                "utf8",
                if t { "all contents of <=4 bytes over 16 byte classes, in-block and across a block border" } else { "all contents of <=3 bytes over 16 byte classes, in-block and across a block border" },
                utf8(if t { 4 } else { 3 }),
            ),
        ],
        validate: None,
    }
}
