//! P03: an open file behaves as a byte cursor over its contents.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::Prop;
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};

const INO: u32 = 12;

/// (image, content)
fn layout(k: usize) -> (Img, Vec<u8>) {
    let bs = if k >= 8 { 4096 } else { 1024usize };
    let mut g = Geo::new(bs);
    if k % 2 == 1 {
        g = g.extents().with_csum().b64();
    }
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"f", INO, FT_REG)]);
    // logical blocks: None = hole
    let b = bs as u64;
    let (blocks, size): (Vec<Option<u64>>, u64) = match k / 2 {
        0 => (vec![Some(3000), None, Some(2500)], 2 * b + 100),
        1 => (vec![], 0),
        2 => (vec![Some(2000), Some(1999)], 2 * b),
        3 => (vec![None, Some(2000), None, None], 3 * b + 1),
        _ => (vec![Some(2000), None, Some(2001)], 3 * b - 1),
    };
    let mut i = Ino::file();
    i.size = size;
    if k % 2 == 1 {
        let mut exts = vec![];
        for (l, x) in blocks.iter().enumerate() {
            if let Some(p) = x {
                exts.push((l as u32, Node::Leaf(vec![Ext { lb: l as u32, len: 1, pb: *p }])));
            }
        }
        let tree = if exts.is_empty() { Node::Leaf(vec![]) } else { Node::Idx(exts) };
        m.set_inode_ext(INO, i, &tree);
    } else {
        let map: BTreeMap<u64, u64> = blocks
            .iter()
            .enumerate()
            .filter_map(|(l, p)| p.map(|p| (l as u64, p)))
            .collect();
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(INO, &i);
    }
    m.finish();
    let mut want = vec![0u8; size as usize];
    for (l, c) in want.chunks_mut(bs).enumerate() {
        if let Some(Some(p)) = blocks.get(l) {
            pat_fill(*p, 0, c);
        }
    }
    (m, want)
}

#[derive(Clone, Copy, Debug)]
enum Op {
    ReadBytes(usize),
    StdRead(usize),
    SeekTo(u64),
    Start(u64),
    Cur(i64),
    End(i64),
}

fn alphabet(bs: u64, size: u64, small: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![
        ReadBytes(1),
        ReadBytes(bs as usize),
        ReadBytes(bs as usize + 1),
        ReadBytes(0),
        ReadBytes(bs as usize - 1),
        StdRead(100),
        SeekTo(0),
        SeekTo(bs),
        SeekTo(bs - 1),
        SeekTo(bs + 1),
        SeekTo(size.saturating_sub(1)),
        SeekTo(size),
        SeekTo(u64::MAX),
        Cur(-1),
        Cur(bs as i64),
        End(-1),
        End(0),
    ];
    if !small {
        v.extend([
            ReadBytes(4 * bs as usize),
            StdRead(0),
            StdRead(3 * bs as usize),
            SeekTo(2 * bs),
            SeekTo(2 * bs + 50),
            SeekTo(size + 1),
            SeekTo(size + 5 * bs),
            SeekTo(i64::MAX as u64),
            Start(3),
            Start(bs),
            Start(u64::MAX),
            Cur(0),
            Cur(1),
            Cur(-(bs as i64)),
            Cur(i64::MAX),
            Cur(i64::MIN),
            End(1),
            End(-(bs as i64)),
            End(-(size as i64)),
            End(-(size as i64) - 1),
            End(i64::MAX),
            End(i64::MIN),
        ]);
    }
    v
}

fn run(layouts: &'static [usize], depth: usize, small: bool) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let k = *cx.of(layouts);
        thread_local! {
            static L: std::cell::RefCell<BTreeMap<usize, (Disk, Vec<u8>)>> = const { std::cell::RefCell::new(BTreeMap::new()) };
        }
        let (disk, want) = L.with(|l| {
            l.borrow_mut()
                .entry(k)
                .or_insert_with(|| {
                    let (m, w) = layout(k);
                    (m.freeze(), w)
                })
                .clone()
        });
        let bs = disk.bs as u64;
        let size = want.len() as u64;
        let ops = alphabet(bs, size, small);
        let fs = disk.load().map_err(|e| format!("load failed: {e}"))?;
        let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
        let mut pos: u64 = 0;
        let mut buf = vec![0u8; 4 * bs as usize];
        let mut hist: Vec<Op> = vec![];
        cx.state(hash_of(&(k, pos)));
        for _ in 0..depth {
            let op = *cx.of(&ops);
            hist.push(op);
            cx.step();
            let check_read = |n: usize, got: usize, buf: &[u8], pos: &mut u64| -> CaseResult {
                let left = size.saturating_sub(*pos);
                let max = (n as u64).min(left) as usize;
                if max == 0 {
                    ensure!(got == 0, "{op:?}: returned {got} bytes at or past the end");
                    return Ok(());
                }
                ensure!(got > 0, "{op:?} at {pos}: returned 0 bytes before the end");
                ensure!(got <= max, "{op:?} at {pos}: returned {got} bytes, at most {max} are there");
                let p = *pos as usize;
                ensure!(
                    buf[..got] == want[p..p + got],
                    "{op:?} at {pos}: wrong bytes: {}",
                    crate::ops::diff_at(&buf[..got], &want[p..p + got])
                );
                *pos += got as u64;
                Ok(())
            };
            match op {
                Op::ReadBytes(n) => {
                    buf.fill(0x5A);
                    let got = f
                        .read_bytes(&mut buf[..n])
                        .map_err(|e| format!("after {hist:?}: read failed: {e}"))?;
                    check_read(n, got, &buf, &mut pos)?;
                    ensure!(buf[got..].iter().all(|x| *x == 0x5A) || n > got, "wrote past buffer");
                }
                Op::StdRead(n) => {
                    buf.fill(0x5A);
                    let got = f
                        .read(&mut buf[..n])
                        .map_err(|e| format!("after {hist:?}: read failed: {e}"))?;
                    check_read(n, got, &buf, &mut pos)?;
                }
                Op::SeekTo(p) => {
                    f.seek_to(p).map_err(|e| format!("after {hist:?}: seek failed: {e}"))?;
                    pos = p;
                }
                Op::Start(p) => {
                    let r = f
                        .seek(SeekFrom::Start(p))
                        .map_err(|e| format!("after {hist:?}: seek failed: {e}"))?;
                    ensure!(r == p, "seek returned {r} instead of {p}");
                    pos = p;
                }
                Op::Cur(o) | Op::End(o) => {
                    let (from, base) = match op {
                        Op::Cur(_) => (SeekFrom::Current(o), pos),
                        _ => (SeekFrom::End(o), size),
                    };
                    let r = f.seek(from);
                    let target = base as i128 + o as i128;
                    match r {
                        Ok(r) => {
                            ensure!(
                                r as i128 == target,
                                "after {hist:?}: seek returned {r} instead of {target}"
                            );
                            pos = r;
                        }
                        Err(e) => {
                            // offsets beyond i64 cannot be expressed by
                            // relative seeks everywhere; negative ones fail
                            ensure!(
                                target < 0 || target > i64::MAX as i128 || base > i64::MAX as u64,
                                "after {hist:?}: seek to {target} failed: {e}"
                            );
                            ensure!(
                                target >= 0 || e.kind() == std::io::ErrorKind::InvalidInput,
                                "after {hist:?}: wrong error kind {:?}",
                                e.kind()
                            );
                        }
                    }
                }
            }
            ensure!(
                f.position() == pos,
                "after {hist:?}: position is {} instead of {pos}",
                f.position()
            );
            ensure!(f.metadata().len() == size, "metadata size changed");
            cx.state(hash_of(&(k, pos)));
        }
        cx.describe(|| format!("layout {k}: {hist:?}"));
        cx.input(hash_of(&(k, format!("{hist:?}"))));
        // read the rest
        let mut rest = vec![];
        loop {
            let n = f
                .read_bytes(&mut buf)
                .map_err(|e| format!("after {hist:?}: reading the rest failed: {e}"))?;
            if n == 0 {
                break;
            }
            rest.extend_from_slice(&buf[..n]);
            ensure!(rest.len() <= want.len(), "reads never end");
        }
        let from = (pos.min(size)) as usize;
        if rest != want[from..] {
            bail!(
                "after {hist:?}: the rest from {pos} is wrong: {}",
                crate::ops::diff_at(&rest, &want[from..])
            );
        }
        cx.outcome(hash_of(&(k, pos)));
        Ok(())
    }
}

// ---- beyond 4 GiB ----

const FBS: u64 = 65536;
const FSIZE: u64 = (1 << 32) + 2 * FBS + 100;

/// A sparse file of over 4 GiB: data in the first block, around byte offsets
/// 2^31 and 2^32, and in the last block.
fn far_disk(ext: bool) -> (Disk, BTreeMap<u64, u64>) {
    let mut g = Geo::new(FBS as usize);
    if ext {
        g = g.extents();
    }
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"f", INO, FT_REG)]);
    let map: BTreeMap<u64, u64> =
        [(0, 900), (32767, 901), (32768, 910), (65535, 920), (65536, 931), (65537, 932), (65538, 925)].into_iter().collect();
    let mut i = Ino::file();
    i.size = FSIZE;
    if ext {
        let e = |l: u64| Ext { lb: l as u32, len: 1, pb: map[&l] };
        let t = Node::Idx(vec![
            (0, Node::Leaf(vec![e(0), e(32767), e(32768)])),
            (65535, Node::Leaf(vec![e(65535), Ext { lb: 65536, len: 2, pb: 931 }, e(65538)])),
        ]);
        m.set_inode_ext(INO, i, &t);
    } else {
        i.iblock = m.block_map(&map, &[]);
        m.set_inode(INO, &i);
    }
    m.finish();
    (m.freeze(), map)
}

fn far_ops(small: bool) -> Vec<Op> {
    use Op::*;
    let (k31, k32) = (1u64 << 31, 1u64 << 32);
    let mut v = vec![
        ReadBytes(1),
        ReadBytes(FBS as usize),
        StdRead(FBS as usize + 7),
        SeekTo(k31 - 1),
        SeekTo(k31),
        SeekTo(k32 - 1),
        SeekTo(k32),
        SeekTo(k32 + FBS - 1),
        SeekTo(2 * k32),
        Cur(-1),
        Cur(k31 as i64),
        Cur(k32 as i64),
        Cur(-(k32 as i64)),
        Cur(-(k32 as i64) - 1),
        End(-(k31 as i64)),
        End(-(k32 as i64)),
        End(-(FSIZE as i64)),
        End(-(FSIZE as i64) - 1),
        End(-101),
    ];
    if !small {
        v.extend([
            ReadBytes(0),
            StdRead(1),
            SeekTo(5),
            SeekTo(k31 + FBS),
            SeekTo(k31 + 5 * FBS),
            SeekTo(k32 + 1),
            SeekTo(k32 + 2 * FBS),
            SeekTo(FSIZE - 1),
            SeekTo(FSIZE),
            SeekTo(3 << 32),
            Start(k32 + 3),
            Start(k32 + FBS),
            Start(k31 + 3),
            Cur(1),
            Cur(FBS as i64),
            Cur(-(FBS as i64)),
            Cur(k31 as i64 + 1),
            Cur(-(k31 as i64)),
            Cur(2 * k32 as i64),
            End(0),
            End(k32 as i64),
            End(-(k31 as i64) - 1),
            End(-(k32 as i64) - 1),
            End(-(2 * k32 as i64)),
        ]);
    }
    v
}

fn far(depth: usize, small: bool) -> impl Fn(&mut Cx) -> CaseResult {
    let ops = far_ops(small);
    move |cx: &mut Cx| {
        let ext = cx.flag();
        thread_local! {
            static L: std::cell::RefCell<BTreeMap<bool, (Disk, BTreeMap<u64, u64>)>> = const { std::cell::RefCell::new(BTreeMap::new()) };
        }
        let (disk, map) = L.with(|l| l.borrow_mut().entry(ext).or_insert_with(|| far_disk(ext)).clone());
        let content = |pos: u64, n: usize| {
            let mut v = vec![0; n];
            let mut d = 0;
            while d < n {
                let (l, o) = ((pos + d as u64) / FBS, ((pos + d as u64) % FBS) as usize);
                let k = (FBS as usize - o).min(n - d);
                if let Some(p) = map.get(&l) {
                    pat_fill(*p, o, &mut v[d..d + k]);
                }
                d += k;
            }
            v
        };
        let mut seq: Vec<Op> = vec![];
        for _ in 0..depth {
            seq.push(*cx.of(&ops));
        }
        cx.describe(|| format!("{} file: {seq:?}, then two reads", if ext { "extent" } else { "block map" }));
        cx.input(hash_of(&(ext, format!("{seq:?}"))));
        seq.extend([Op::ReadBytes(FBS as usize), Op::ReadBytes(300)]);
        let fs = disk.load().map_err(|e| format!("load failed: {e}"))?;
        let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
        let mut pos: u64 = 0;
        let mut buf = vec![0u8; FBS as usize + 7];
        for op in seq {
            cx.step();
            match op {
                Op::ReadBytes(n) | Op::StdRead(n) => {
                    let got = match op {
                        Op::ReadBytes(_) => f.read_bytes(&mut buf[..n]).map_err(|e| format!("{op:?} at {pos}: {e}"))?,
                        _ => f.read(&mut buf[..n]).map_err(|e| format!("{op:?} at {pos}: {e}"))?,
                    };
                    let max = (n as u64).min(FSIZE.saturating_sub(pos)) as usize;
                    ensure!(got <= max && (got > 0 || max == 0), "{op:?} at {pos}: {got} bytes, at most {max} are there");
                    let want = content(pos, got);
                    ensure!(buf[..got] == want, "{op:?} at {pos}: {}", crate::ops::diff_at(&buf[..got], &want));
                    pos += got as u64;
                }
                Op::SeekTo(p) => {
                    f.seek_to(p).map_err(|e| format!("{op:?}: {e}"))?;
                    pos = p;
                }
                Op::Start(p) => {
                    let r = f.seek(SeekFrom::Start(p)).map_err(|e| format!("{op:?}: {e}"))?;
                    ensure!(r == p, "seek returned {r} instead of {p}");
                    pos = p;
                }
                Op::Cur(o) | Op::End(o) => {
                    let (from, base) = match op {
                        Op::Cur(_) => (SeekFrom::Current(o), pos),
                        _ => (SeekFrom::End(o), FSIZE),
                    };
                    let target = base as i128 + o as i128;
                    match f.seek(from) {
                        Ok(r) => {
                            ensure!(r as i128 == target, "{op:?} at {pos}: returned {r} instead of {target}");
                            pos = r;
                        }
                        Err(e) => {
                            ensure!(target < 0, "{op:?} at {pos}: {e}");
                            ensure!(e.kind() == std::io::ErrorKind::InvalidInput, "{op:?} at {pos}: error kind {:?}", e.kind());
                        }
                    }
                }
            }
            ensure!(f.position() == pos, "{op:?}: position is {} instead of {pos}", f.position());
            cx.state(hash_of(&(ext, pos)));
        }
        cx.outcome(hash_of(&(ext, pos)));
        Ok(())
    }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough;
    Prop {
        id: "P03",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "a read may return fewer bytes than asked for (as std::io::Read allows), but never zero before the end",
            "a relative seek whose target exceeds i64::MAX may fail (its target cannot be expressed as a signed offset), but never moves elsewhere",
        ],
        sections: vec![
            Section::new(
                "all-ops",
                if t { "every sequence of 4 operations over 39 (reads, seeks, std traits) on 10 file layouts" } else { "every sequence of 3 operations over 39 (reads, seeks, std traits) on 10 file layouts" },
                run(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], if t { 4 } else { 3 }, false),
            ),
            Section::new(
                "core-ops",
                if t { "every sequence of 5 operations over 17 on 10 layouts" } else { "every sequence of 4 operations over 17 on 6 layouts" },
                run(if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 1, 4, 6, 7, 9] }, if t { 5 } else { 4 }, true),
            ),
            Section::new(
                "far",
                if t { "every sequence of 4 operations over 43, and two reads, on a sparse file of over 4 GiB, extents and block map" } else { "every sequence of 3 operations over 43, and two reads, on a sparse file of over 4 GiB, extents and block map" },
                far(if t { 4 } else { 3 }, false),
            ),
            Section::new(
                "far-core",
                if t { "every sequence of 5 operations over 19, and two reads, on the same files" } else { "every sequence of 4 operations over 19, and two reads, on the same files" },
                far(if t { 5 } else { 4 }, true),
            ),
        ],
        validate: None,
    }
}
