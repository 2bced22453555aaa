//! P15: path and name types obey the path algebra for every byte string.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::Prop;
use crate::guard::panics;
use ext4_view::{Component, Components, DirEntryName, DirEntryNameError, Path, PathBuf, PathError};
use std::cmp::Ordering;
use std::ffi::{OsStr, OsString};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

// ---- the definitions ----

fn pieces(s: &[u8]) -> Vec<&[u8]> {
    let mut out = vec![];
    let mut start = 0;
    for i in 0..=s.len() {
        if i == s.len() || s[i] == b'/' {
            out.push(&s[start..i]);
            start = i + 1;
        }
    }
    out
}

/// Reasons for a path to be refused.
fn path_faults(s: &[u8]) -> Vec<PathError> {
    let mut v = vec![];
    if s.contains(&0) {
        v.push(PathError::ContainsNull);
    }
    if pieces(s).iter().any(|p| p.len() > 255) {
        v.push(PathError::ComponentTooLong);
    }
    v
}

fn name_faults(s: &[u8]) -> Vec<DirEntryNameError> {
    let mut v = vec![];
    if s.is_empty() {
        v.push(DirEntryNameError::Empty);
    }
    if s.len() > 255 {
        v.push(DirEntryNameError::TooLong);
    }
    if s.contains(&0) {
        v.push(DirEntryNameError::ContainsNull);
    }
    if s.contains(&b'/') {
        v.push(DirEntryNameError::ContainsSeparator);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum C<'a> {
    Root,
    Cur,
    Parent,
    Normal(&'a [u8]),
}

fn comps(s: &[u8]) -> Vec<C<'_>> {
    let mut v = vec![];
    if s.first() == Some(&b'/') {
        v.push(C::Root);
    }
    for p in pieces(s) {
        match p {
            b"" => {}
            b"." => v.push(C::Cur),
            b".." => v.push(C::Parent),
            p => v.push(C::Normal(p)),
        }
    }
    v
}

fn lossy(s: &[u8]) -> String {
    String::from_utf8_lossy(s).into_owned()
}

fn debug(s: &[u8]) -> String {
    match std::str::from_utf8(s) {
        Ok(s) => format!("\"{}\"", s.escape_debug()),
        Err(_) => format!("\"{}\"", s.escape_ascii()),
    }
}

fn joined(a: &[u8], b: &[u8]) -> Vec<u8> {
    if b.first() == Some(&b'/') {
        return b.to_vec();
    }
    let mut v = a.to_vec();
    if !v.is_empty() && v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend(b);
    v
}

fn hash1<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---- one string ----

fn back<'a>(c: &'a Component<'_>) -> C<'a> {
    match c {
        Component::RootDir => C::Root,
        Component::CurDir => C::Cur,
        Component::ParentDir => C::Parent,
        Component::Normal(n) => C::Normal(n.as_ref()),
    }
}

fn same(it: Components, want: &[C]) -> bool {
    let mut n = 0;
    for c in it {
        if want.get(n) != Some(&back(&c)) {
            return false;
        }
        n += 1;
    }
    n == want.len()
}

fn check_path(s: &[u8]) -> CaseResult {
    let faults = path_faults(s);
    macro_rules! way {
        ($what:expr, $e:expr) => {{
            match $e {
                Ok(p) => {
                    ensure!(faults.is_empty(), "{}: {} accepted", $what, debug(s));
                    let b: &[u8] = p.as_ref();
                    ensure!(b == s, "{}: {} became {}", $what, debug(s), debug(b));
                }
                Err(e) => {
                    ensure!(faults.contains(&e), "{}: {} refused with {e:?}", $what, debug(s));
                    ensure!(!e.to_string().is_empty(), "{e:?} displays as nothing");
                }
            }
        }};
    }
    way!("Path from bytes", Path::try_from(s));
    way!("PathBuf from bytes", PathBuf::try_from(s));
    way!("PathBuf from Vec", PathBuf::try_from(s.to_vec()));
    let os = OsStr::from_bytes(s);
    way!("Path from OsStr", Path::try_from(os));
    way!("Path from std Path", Path::try_from(std::path::Path::new(os)));
    way!("PathBuf from OsString", PathBuf::try_from(OsString::from_vec(s.to_vec())));
    way!("PathBuf from std PathBuf", PathBuf::try_from(std::path::PathBuf::from(os)));
    macro_rules! arrays {
        ($($n:literal)*) => {$(
            if let Ok(a) = <&[u8; $n]>::try_from(s) {
                way!("Path from array", Path::try_from(a));
                way!("PathBuf from array", PathBuf::try_from(a));
            }
        )*};
    }
    arrays!(0 1 2 3 4 5 6 7 8 255 256 257 511 512);
    let text = std::str::from_utf8(s);
    if let Ok(t) = text {
        let owned = t.to_string();
        way!("Path from str", Path::try_from(t));
        way!("Path from String", Path::try_from(&owned));
        way!("PathBuf from str", PathBuf::try_from(t));
        way!("PathBuf from &String", PathBuf::try_from(&owned));
        way!("PathBuf from String", PathBuf::try_from(owned.clone()));
    }
    if !faults.is_empty() {
        return Ok(());
    }
    let p = Path::new(s);
    let b = PathBuf::new(s);
    ensure!(b == PathBuf::from(p) && b.as_path() == p && Path::try_from(&b).unwrap() == p, "conversions of {}", debug(s));
    ensure!(AsRef::<[u8]>::as_ref(&b) == s && b.clone() == b, "bytes of the PathBuf of {}", debug(s));
    ensure!(p == s && b == s && p == s.to_vec() && p == b && b == p, "{} differs from its bytes", debug(s));
    let mut other = s.to_vec();
    other.push(b'x');
    ensure!(p != other && b != other, "{} equals a longer path", debug(s));
    if !s.is_empty() {
        let mut o = s.to_vec();
        *o.last_mut().unwrap() ^= 1;
        ensure!(p != o && b != o && p != &s[..s.len() - 1] && b != &s[..s.len() - 1], "{} equals another path", debug(s));
    }
    let abs = s.first() == Some(&b'/');
    ensure!(p.is_absolute() == abs && b.is_absolute() == abs, "{} absolute: {}", debug(s), p.is_absolute());
    ensure!(p.to_str().ok() == text.ok() && b.to_str().ok() == text.ok(), "{} as text: {:?}", debug(s), p.to_str());
    let w = lossy(s);
    ensure!(p.display().to_string() == w && b.display().to_string() == w, "{} displayed as {}", debug(s), p.display());
    let w = debug(s);
    ensure!(format!("{p:?}") == w && format!("{b:?}") == w, "{w} debugged as {p:?}");
    ensure!(<&std::path::Path>::from(p).as_os_str().as_bytes() == s, "{w} as std Path");
    ensure!(std::path::PathBuf::from(b.clone()).into_os_string().into_vec() == s, "{w} as std PathBuf");
    // components
    let want = comps(s);
    let got: Vec<Component> = p.components().collect();
    ensure!(got.iter().map(back).collect::<Vec<_>>() == want, "components of {w}: {got:?}");
    ensure!(same(b.components(), &want), "components of the PathBuf {w}");
    let mut it = p.components();
    for _ in 0..want.len() {
        it.next();
    }
    ensure!(it.next().is_none() && it.next().is_none(), "components of {w} go on after their end");
    for (c, m) in got.iter().zip(&want) {
        let (bytes, dbg): (&[u8], _) = match m {
            C::Root => (b"/", "RootDir".to_string()),
            C::Cur => (b".", "CurDir".to_string()),
            C::Parent => (b"..", "ParentDir".to_string()),
            C::Normal(n) => {
                check_name(n)?;
                (n, format!("Normal({})", debug(n)))
            }
        };
        ensure!(*c == bytes, "component {c:?} of {w} differs from {}", debug(bytes));
        ensure!(format!("{c:?}") == dbg, "component {dbg} of {w} debugged as {c:?}");
    }
    // the components lead back to the same components
    let mut r = PathBuf::empty();
    for m in &want {
        r.push(match m {
            C::Root => b"/",
            C::Cur => b".".as_slice(),
            C::Parent => b"..",
            C::Normal(n) => n,
        });
    }
    ensure!(same(r.components(), &want), "pushing the components of {w} gives {r:?}");
    Ok(())
}

fn check_name(s: &[u8]) -> CaseResult {
    let faults = name_faults(s);
    macro_rules! way {
        ($what:expr, $e:expr) => {{
            match $e {
                Ok(n) => {
                    ensure!(faults.is_empty(), "{}: {} accepted", $what, debug(s));
                    let b: &[u8] = n.as_ref();
                    ensure!(b == s, "{}: {} became {}", $what, debug(s), debug(b));
                }
                Err(e) => {
                    ensure!(faults.contains(&e), "{}: {} refused with {e:?}", $what, debug(s));
                    ensure!(!e.to_string().is_empty(), "{e:?} displays as nothing");
                }
            }
        }};
    }
    way!("name from bytes", DirEntryName::try_from(s));
    macro_rules! arrays {
        ($($n:literal)*) => {$(
            if let Ok(a) = <&[u8; $n]>::try_from(s) {
                way!("name from array", DirEntryName::try_from(a));
            }
        )*};
    }
    arrays!(0 1 2 3 4 5 255 256);
    let text = std::str::from_utf8(s);
    if let Ok(t) = text {
        way!("name from str", DirEntryName::try_from(t));
        ensure!(Component::normal(t).is_ok() == faults.is_empty(), "component from text {}", debug(s));
    }
    match Component::normal(s) {
        Ok(c) => {
            ensure!(faults.is_empty(), "component {} accepted", debug(s));
            ensure!(back(&c) == C::Normal(s) && c == s, "component {} became {c:?}", debug(s));
            ensure!(format!("{c:?}") == format!("Normal({})", debug(s)), "component {} debugged as {c:?}", debug(s));
        }
        Err(e) => ensure!(faults.contains(&e), "component {} refused with {e:?}", debug(s)),
    }
    if !faults.is_empty() {
        return Ok(());
    }
    let n = DirEntryName::try_from(s).unwrap();
    ensure!(n == s && n == n.clone() && n.as_ref() == s, "name {} differs from itself", debug(s));
    ensure!(n.as_str().ok() == text.ok(), "name {} as text: {:?}", debug(s), n.as_str());
    ensure!(n.display().to_string() == lossy(s), "name {} displayed as {}", debug(s), n.display());
    ensure!(format!("{n:?}") == debug(s), "name {} debugged as {n:?}", debug(s));
    Ok(())
}

fn string(cx: &mut Cx, max: usize, alpha: &[u8]) -> Vec<u8> {
    let n = cx.pick(max + 1);
    (0..n).map(|_| *cx.of(alpha)).collect()
}

fn strings(max: usize, alpha: &'static [u8]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let s = string(cx, max, alpha);
        cx.describe(|| debug(&s));
        cx.input(hash_of(&s));
        cx.step();
        check_path(&s)?;
        cx.step();
        check_name(&s)?;
        cx.outcome(hash_of(&format!("{:?}{:?}", path_faults(&s), comps(&s).iter().map(std::mem::discriminant).collect::<Vec<_>>())));
        Ok(())
    }
}

/// Components around the longest allowed length.
fn lengths(cx: &mut Cx) -> CaseResult {
    const L: [usize; 16] = [0, 1, 2, 127, 128, 254, 255, 256, 257, 258, 510, 511, 512, 513, 767, 65536];
    let n = 1 + cx.pick(if cx.tier_thorough { 3 } else { 2 });
    let mut s = vec![];
    s.resize(cx.pick(2), b'/');
    for k in 0..n {
        if k > 0 {
            s.resize(s.len() + *cx.of(&[1usize, 2]), b'/');
        }
        let l = *cx.of(&L);
        let fill = *cx.of(&[b'a', b'.', 0xe2]);
        s.resize(s.len() + l, fill);
    }
    s.resize(s.len() + cx.pick(2), b'/');
    match cx.pick(5) {
        1 if !s.is_empty() => s[0] = 0,
        2 if !s.is_empty() => *s.last_mut().unwrap() = 0,
        3 => s.push(0),
        4 if !s.is_empty() => {
            let m = s.len() / 2;
            s[m] = 0
        }
        0 => {}
        _ => return Ok(()),
    }
    cx.describe(|| format!("components of lengths {:?}, NUL: {}", pieces(&s).iter().map(|p| p.len()).collect::<Vec<_>>(), s.contains(&0)));
    cx.input(hash_of(&s));
    cx.step();
    check_path(&s)?;
    check_name(&s)
}

// ---- joining ----

fn check_join(a: &[u8], b: &[u8]) -> CaseResult {
    let (pa, ba) = (Path::new(a), PathBuf::new(a));
    if !path_faults(b).is_empty() {
        ensure!(panics(|| drop(pa.join(b))), "joining {} with the invalid {} is not refused", debug(a), debug(b));
        ensure!(panics(|| drop(ba.join(b))), "joining PathBuf {} with the invalid {} is not refused", debug(a), debug(b));
        ensure!(panics(|| ba.clone().push(b)), "pushing the invalid {} is not refused", debug(b));
        return Ok(());
    }
    let want = joined(a, b);
    let pb = Path::new(b);
    macro_rules! way {
        ($what:expr, $e:expr) => {{
            let r: PathBuf = $e;
            ensure!(r == want, "{} of {} and {}: {r:?}", $what, debug(a), debug(b));
        }};
    }
    way!("Path::join", pa.join(b));
    way!("Path::join", pa.join(pb));
    way!("PathBuf::join", ba.join(b));
    way!("PathBuf::join", ba.join(PathBuf::from(pb)));
    let mut x = ba.clone();
    x.push(b);
    way!("push", x.clone());
    // algebra: the components of a relative path are appended
    let mut w: Vec<C> = if b.first() == Some(&b'/') { vec![] } else { comps(a) };
    w.extend(comps(b));
    ensure!(same(x.components(), &w), "components of {} joined with {}: {x:?}", debug(a), debug(b));
    ensure!(ba == a, "joining changed its argument {} to {ba:?}", debug(a));
    ensure!(Path::try_from(AsRef::<[u8]>::as_ref(&x)).is_ok(), "joining {} and {} gives the invalid {x:?}", debug(a), debug(b));
    Ok(())
}

fn joins(max: usize, alpha: &'static [u8]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let a = string(cx, max, alpha);
        if !path_faults(&a).is_empty() {
            return Ok(());
        }
        let b = string(cx, max, alpha);
        cx.describe(|| format!("{} joined with {}", debug(&a), debug(&b)));
        cx.input(hash_of(&(&a, &b)));
        cx.step();
        check_join(&a, &b)
    }
}

/// Sequences of pushes on one buffer.
fn pushes(depth: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        const P: [&[u8]; 14] = [b"", b"/", b"//", b"a", b"a/", b"/a", b"a/b", b"a//b/", b"..", b"./", b"\xff", b"/\xc3\xa9/", b"x\0", b"/y\0/"];
        let mut buf = PathBuf::empty();
        let mut want: Vec<u8> = vec![];
        let n = 1 + cx.pick(depth);
        let mut hist = vec![];
        for _ in 0..n {
            let k = cx.pick(P.len());
            hist.push(k);
            let p = P[k];
            cx.step();
            if path_faults(p).is_empty() {
                buf.push(p);
                want = joined(&want, p);
            } else {
                ensure!(panics(|| buf.push(p)), "pushing {} is not refused", debug(p));
            }
            ensure!(buf == want, "pushes {hist:?}: {buf:?} instead of {}", debug(&want));
            cx.state(hash_of(&want));
        }
        cx.describe(|| format!("pushes {:?}", hist.iter().map(|k| debug(P[*k])).collect::<Vec<_>>()));
        cx.input(hash_of(&hist));
        Ok(())
    }
}

/// Joining components around the length limit.
fn join_lengths(cx: &mut Cx) -> CaseResult {
    const L: [usize; 8] = [0, 1, 127, 128, 254, 255, 256, 300];
    let mk = |cx: &mut Cx| {
        let mut v = vec![b'/'; cx.pick(2)];
        v.resize(v.len() + *cx.of(&L), b'q');
        v.resize(v.len() + cx.pick(2), b'/');
        v.resize(v.len() + *cx.of(&L), b'r');
        v
    };
    let a = mk(cx);
    if !path_faults(&a).is_empty() {
        return Ok(());
    }
    let b = mk(cx);
    cx.describe(|| format!("lengths {:?} joined with {:?}", pieces(&a).iter().map(|p| p.len()).collect::<Vec<_>>(), pieces(&b).iter().map(|p| p.len()).collect::<Vec<_>>()));
    cx.input(hash_of(&(&a, &b)));
    cx.step();
    check_join(&a, &b)
}

// ---- comparing ----

fn compared<T: Eq + Ord + Hash + std::fmt::Debug>(x: &T, y: &T, eq: bool, ord: Option<Ordering>) -> CaseResult {
    ensure!((x == y) == eq && (y == x) == eq, "{x:?} == {y:?}: {}", x == y);
    let c = x.cmp(y);
    ensure!((c == Ordering::Equal) == eq, "{x:?} compared with {y:?}: {c:?}");
    ensure!(y.cmp(x) == c.reverse() && x.partial_cmp(y) == Some(c), "{x:?} and {y:?} are not ordered consistently");
    if let Some(o) = ord {
        ensure!(c == o, "{x:?} compared with {y:?}: {c:?} instead of {o:?}");
    }
    ensure!(!eq || hash1(x) == hash1(y), "{x:?} hashes in two ways");
    Ok(())
}

fn pairs(max: usize, alpha: &'static [u8]) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx| {
        let a = string(cx, max, alpha);
        let b = string(cx, max, alpha);
        cx.describe(|| format!("{} and {}", debug(&a), debug(&b)));
        cx.input(hash_of(&(&a, &b)));
        cx.step();
        pair(&a, &b)
    }
}

fn pair(a: &[u8], b: &[u8]) -> CaseResult {
    let eq = a == b;
    // byte strings compare like slices
    let ord = Some(a.cmp(b));
    if let (Ok(x), Ok(y)) = (Path::try_from(a), Path::try_from(b)) {
        compared(&x, &y, eq, ord)?;
        let (bx, by) = (PathBuf::from(x), PathBuf::from(y));
        compared(&bx, &by, eq, ord)?;
        ensure!((x == by) == eq && (bx == y) == eq && (x == b) == eq && (bx == b) == eq, "{x:?} and {y:?} compared across types");
        // components: equal exactly if they look the same
        for (p, mp) in x.components().zip(comps(a)) {
            for (q, mq) in y.components().zip(comps(b)) {
                compared(&p, &q, mp == mq, None)?;
            }
        }
    }
    if let (Ok(x), Ok(y)) = (DirEntryName::try_from(a), DirEntryName::try_from(b)) {
        compared(&x, &y, eq, ord)?;
        ensure!((x == b) == eq, "{x:?} and the bytes {}", debug(b));
        let (p, q) = (Component::Normal(x), Component::Normal(y));
        compared(&p, &q, eq, ord)?;
        ensure!((p == b) == eq, "{p:?} and the bytes {}", debug(b));
    }
    Ok(())
}

/// Order of three components: transitive.
fn triples(cx: &mut Cx) -> CaseResult {
    let all = [
        Component::RootDir,
        Component::CurDir,
        Component::ParentDir,
        Component::normal("a").unwrap(),
        Component::normal("aa").unwrap(),
        Component::normal("b").unwrap(),
        Component::normal(".").unwrap(),
        Component::normal("..").unwrap(),
        Component::normal("\u{0}1".trim_matches('\0')).unwrap(),
        Component::normal(&[0xff]).unwrap(),
    ];
    let (x, y, z) = (cx.of(&all), cx.of(&all), cx.of(&all));
    cx.describe(|| format!("{x:?} {y:?} {z:?}"));
    cx.input(hash_of(&format!("{x:?} {y:?} {z:?}")));
    cx.step();
    if x <= y && y <= z {
        ensure!(x <= z, "{x:?} <= {y:?} <= {z:?}, but not {x:?} <= {z:?}");
    }
    if x == y && y == z {
        ensure!(x == z, "{x:?} == {y:?} == {z:?}");
    }
    Ok(())
}

/// Pairs that differ in one byte far into long strings, or in length.
fn long_pairs(cx: &mut Cx) -> CaseResult {
    let n = *cx.of(&[1usize, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 254, 255]);
    let at = cx.pick(n);
    let (v, w) = (*cx.of(&[b'a', 0x7f, 0x80, 0xff, b'.']), *cx.of(&[b'a', 0x7f, 0x80, 0xff, b'.']));
    let cut = *cx.of(&[0usize, 1, 2]);
    let mut a = vec![b'k'; n];
    a[at] = v;
    let mut b = vec![b'k'; n];
    b[at] = w;
    b.truncate(n.saturating_sub(cut));
    cx.describe(|| format!("length {n}, bytes {v:#x} and {w:#x} at {at}, second shorter by {cut}"));
    cx.input(hash_of(&(&a, &b)));
    cx.step();
    pair(&a, &b)?;
    pair(&b, &a)
}

pub fn prop(t: bool) -> Prop {
    const FULL: &[u8] = &[b'/', b'.', b'a', 0, b'"', b'\\', b'\n', b'\'', 0xc3, 0xa9, 0xff, b' '];
    const MID: &[u8] = &[b'/', b'.', b'a', 0, b'"', 0xc3, 0xa9, 0xf0];
    const SMALL: &[u8] = &[b'/', b'.', b'a'];
    const JOIN: &[u8] = &[b'/', b'.', b'a', 0, 0xff];
    const CMP: &[u8] = &[b'/', b'.', b'a', 0xff, b'-'];
    let every: &'static [u8] = Box::leak((0..=255u8).collect::<Vec<_>>().into_boxed_slice());
    Prop {
        id: "P15",
        level: "model_checking",
        rule: "a case fails if a path or name type differs from the definition of its operation on byte strings",
        assumptions: &["which of two violated limits is reported is not prescribed"],
        sections: vec![
            Section::new("bytes", "every string of up to 2 bytes", strings(2, every)),
            Section::new("strings", if t { "every string of up to 7 of 12 byte values" } else { "every string of up to 6 of 12 byte values" }, strings(if t { 7 } else { 6 }, FULL)),
            Section::new("strings-mid", if t { "every string of up to 9 of 8 byte values" } else { "every string of up to 7 of 8 byte values" }, strings(if t { 9 } else { 7 }, MID)),
            Section::new("strings-small", if t { "every string of up to 16 of slash, dot, a" } else { "every string of up to 13 of slash, dot, a" }, strings(if t { 16 } else { 13 }, SMALL)),
            Section::new("lengths", if t { "1 to 3 components of 16 lengths, separators, fill bytes and NULs" } else { "1 to 2 components of 16 lengths, separators, fill bytes and NULs" }, lengths),
            Section::new("joins", if t { "every two strings of up to 6 of 5 byte values" } else { "every two strings of up to 5 of 5 byte values" }, joins(if t { 6 } else { 5 }, JOIN)),
            Section::new("pushes", if t { "every sequence of up to 6 of 14 pushes" } else { "every sequence of up to 5 of 14 pushes" }, pushes(if t { 6 } else { 5 })),
            Section::new("join-lengths", "components of 8 lengths on both sides", join_lengths),
            Section::new("pairs", if t { "every two strings of up to 5 of 5 byte values" } else { "every two strings of up to 4 of 5 byte values" }, pairs(if t { 5 } else { 4 }, CMP)),
            Section::new("long-pairs", "every position of a difference in strings of 14 lengths", long_pairs),
            Section::new("triples", "10 x 10 x 10 components", triples),
        ],
        validate: None,
    }
}
