//! P01: extent-mapped files read back exactly their logical bytes.

use crate::explore::{CaseResult, Cx, Section, hash_of};
use crate::img::*;
use crate::ops::diff_at;
use crate::Prop;
use ext4_view::{Ext4, Path};
use std::cell::RefCell;

const INO: u32 = 12;

/// Image with root directory containing "f" (inode 12).
pub fn base(g: Geo) -> Img {
    let mut m = Img::new(g);
    m.dir(2, 2, &[(b"f", INO, FT_REG)]);
    m.finish();
    m
}

pub fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(1024).extents(),
        1 => Geo::new(1024).extents().with_csum().b64(),
        2 => Geo::new(4096).extents(),
        3 => {
            let mut g = Geo::new(2048).extents().with_csum();
            g.csum_seed = Some(0xdead_beef);
            g
        }
        4 => Geo::new(65536).extents().with_csum().b64(),
        // 48-bit block numbers: clusters make groups of 2^31 blocks possible
        6 => {
            let mut g = Geo::new(65536).extents().with_csum().b64();
            g.incompat |= INCOMPAT_FLEX_BG;
            g.ro |= RO_BIGALLOC;
            g.blocks_count = (1 << 48) - 1;
            g.bpg = 1 << 31;
            g.ipg = 256;
            g.spread_tables(9000, 5 << 40);
            g
        }
        // beyond 2^32 blocks, with the real maximal group size
        5 => {
            let mut g = Geo::new(65536).extents().with_csum().b64();
            g.incompat |= INCOMPAT_FLEX_BG;
            g.blocks_count = (1 << 32) + (1 << 20);
            g.bpg = 65536 * 8;
            g.spread_tables((1 << 32) + 77, (1 << 32) + (1 << 19));
            g
        }
        _ => unreachable!(),
    }
}

thread_local! {
    static BASES: RefCell<Vec<Option<Img>>> = const { RefCell::new(Vec::new()) };
}
/// Per-thread cached base image.
pub fn cached(slot: usize, mk: impl FnOnce() -> Img) -> Img {
    BASES.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() <= slot {
            b.resize_with(slot + 1, || None);
        }
        if b[slot].is_none() {
            b[slot] = Some(mk());
        }
        b[slot].clone().unwrap()
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Run {
    Hole,
    Data,
    Unwritten,
}

/// Enumerates every layout of `n` logical blocks.
fn layout(cx: &mut Cx, n: usize) -> Vec<(Run, u32)> {
    let mut v: Vec<(Run, u32)> = vec![];
    for _ in 0..n {
        // 0 hole, 1 new data, 2 new unwritten, 3 continue the last run
        let can_continue = matches!(v.last(), Some((Run::Data | Run::Unwritten, _)));
        match cx.pick(if can_continue { 4 } else { 3 }) {
            0 => v.push((Run::Hole, 1)),
            1 => v.push((Run::Data, 1)),
            2 => v.push((Run::Unwritten, 1)),
            _ => v.last_mut().unwrap().1 += 1,
        }
    }
    v
}

/// Chooses a tree over the extents: every grouping into leaves, every
/// grouping of leaves into index nodes, optionally deeper chains.
pub fn shape(cx: &mut Cx, exts: Vec<Ext>, max_chain: usize) -> Option<Node> {
    // group into leaves
    let mut leaves: Vec<Vec<Ext>> = vec![];
    for (i, e) in exts.into_iter().enumerate() {
        if i == 0 || cx.flag() {
            leaves.push(vec![]);
        }
        leaves.last_mut().unwrap().push(e);
    }
    let node = if leaves.len() <= 1 {
        let l = leaves.pop().unwrap_or_default();
        if l.len() > 4 {
            let lb = l[0].lb;
            Node::Idx(vec![(lb, Node::Leaf(l))])
        } else if !l.is_empty() && cx.flag() {
            // the same single leaf, one level down
            let lb = l[0].lb;
            Node::Idx(vec![(lb, Node::Leaf(l))])
        } else {
            Node::Leaf(l)
        }
    } else {
        let mut groups: Vec<Vec<(u32, Node)>> = vec![];
        for (i, l) in leaves.into_iter().enumerate() {
            if i == 0 || cx.flag() {
                groups.push(vec![]);
            }
            let lb = l[0].lb;
            groups.last_mut().unwrap().push((lb, Node::Leaf(l)));
        }
        if groups.len() == 1 {
            let g = groups.pop().unwrap();
            if g.len() > 4 {
                let lb = g[0].0;
                Node::Idx(vec![(lb, Node::Idx(g))])
            } else {
                Node::Idx(g)
            }
        } else {
            if groups.len() > 4 {
                return None;
            }
            Node::Idx(groups.into_iter().map(|g| (g[0].0, Node::Idx(g))).collect())
        }
    };
    let d = node.depth() as usize;
    if d == 0 {
        return Some(node);
    }
    let mut node = node;
    let extra = cx.pick(max_chain.min(5 - d) + 1);
    for _ in 0..extra {
        let lb = match &node {
            Node::Idx(v) => v[0].0,
            Node::Leaf(v) => v[0].lb,
        };
        node = Node::Idx(vec![(lb, node)]);
    }
    Some(node)
}

pub fn check_reads(fs: &Ext4, want: &[u8], bs: usize) -> CaseResult {
    let got = fs.read("/f").map_err(|e| format!("read failed: {e}"))?;
    ensure!(got == want, "read: {}", diff_at(&got, want));
    let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
    // odd buffer size, so that block ends fall inside of the buffer
    let mut out = vec![];
    let mut buf = vec![0xA7u8; bs - 300];
    loop {
        let n = f.read_bytes(&mut buf).map_err(|e| format!("read_bytes failed: {e}"))?;
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
        ensure!(out.len() <= want.len(), "read_bytes delivers more than the file");
    }
    ensure!(out == want, "chunked read: {}", diff_at(&out, want));
    // last byte through a seek
    if !want.is_empty() {
        let p = want.len() as u64 - 1;
        f.seek_to(p).map_err(|e| format!("seek failed: {e}"))?;
        let n = f.read_bytes(&mut buf).map_err(|e| format!("read after seek: {e}"))?;
        ensure!(n == 1 && buf[0] == want[p as usize], "last byte after seek is wrong");
    }
    Ok(())
}

fn layouts(cfgs: &'static [usize], maxn: usize, max_chain: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let k = *cx.of(cfgs);
        let n = cx.pick(maxn + 1);
        let runs = layout(cx, n);
        let mut m = cached(k, || base(geo(k)));
        let bs = m.bs();
        // physical placement: descending and gapped, so that neighbouring
        // runs are never accidentally contiguous
        let hi = if k == 5 { 1u64 << 32 } else { 0 };
        let mut exts = vec![];
        let mut phys: Vec<u64> = vec![];
        let mut lb = 0u32;
        for (i, (r, len)) in runs.iter().enumerate() {
            let pb = hi + 3000 - 16 * i as u64;
            for j in 0..*len as u64 {
                phys.push(if *r == Run::Data { pb + j } else { 0 });
            }
            match r {
                Run::Hole => {}
                Run::Data => exts.push(Ext { lb, len: *len as u16, pb }),
                Run::Unwritten => exts.push(Ext { lb, len: 32768 + *len as u16, pb }),
            }
            lb += len;
        }
        let b = bs as u64;
        let nn = n as u64;
        let sizes: Vec<u64> = if n == 0 {
            vec![0, 1, b, b + 1, 3 * b]
        } else {
            vec![nn * b, nn * b - 1, (nn - 1) * b + 1, (nn + 1) * b + 5, (nn * b) / 2]
        };
        let size = *cx.of(&sizes);
        let Some(tree) = shape(cx, exts, max_chain) else { return Ok(()) };
        cx.describe(|| format!("cfg {k} size {size} runs {runs:?} tree {tree:?}"));
        cx.input(hash_of(&(k, size, format!("{tree:?}"))));
        let mut i = Ino::file();
        i.size = size;
        m.set_inode_ext(INO, i, &tree);
        let mut want = vec![0u8; size as usize];
        for (l, c) in want.chunks_mut(bs).enumerate() {
            if let Some(&p) = phys.get(l) {
                if p != 0 {
                    pat_fill(p, 0, c);
                }
            }
        }
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        check_reads(&fs, &want, bs)?;
        cx.outcome(hash_of(&want));
        Ok(())
    }
}

/// Extents of extreme lengths, checked by seeking to every boundary.
fn long_extents(nruns: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        const LENS: [u16; 8] = [1, 2, 32767, 32768, 32769, 32770, 65534, 65535];
        let mut m = cached(7, || {
            let mut g = geo(0);
            g.blocks_count = 400_000;
            base(g)
        });
        let bs = 1024u64;
        let mut lb = 0u32;
        let mut exts = vec![];
        let n = 1 + cx.pick(nruns);
        for i in 0..n {
            let gap = *cx.of(&[0u32, 1, 40_000]);
            let len = *cx.of(&LENS);
            lb += gap;
            let real = if len > 32768 { len - 32768 } else { len };
            exts.push(Ext { lb, len, pb: 1000 + 100_000 * (n - 1 - i) as u64 });
            lb += real as u32;
        }
        let tail = *cx.of(&[0u64, 2]);
        let depth = cx.flag();
        let size = (lb as u64 + tail) * bs - cx.pick(2) as u64;
        let map = |l: u64| {
            exts.iter().find_map(|e| {
                let (real, unw) =
                    if e.len > 32768 { (e.len - 32768, true) } else { (e.len, false) };
                let s = e.lb as u64;
                (l >= s && l < s + real as u64).then(|| if unw { 0 } else { e.pb + l - s })
            })
        };
        let mut probes = vec![0u64];
        for e in &exts {
            let real = if e.len > 32768 { e.len - 32768 } else { e.len } as u64;
            let s = e.lb as u64;
            probes.extend([s.saturating_sub(1), s, s + real - 1, s + real]);
        }
        probes.push((size - 1) / bs);
        probes.retain(|p| *p * bs < size);
        probes.sort();
        probes.dedup();
        cx.describe(|| format!("extents {exts:?} size {size} depth {depth}"));
        cx.input(hash_of(&(format!("{exts:?}"), size, depth)));
        let lb0 = exts[0].lb;
        let leaf = Node::Leaf(exts.clone());
        let tree = if depth { Node::Idx(vec![(lb0, leaf)]) } else { leaf };
        let mut i = Ino::file();
        i.size = size;
        m.set_inode_ext(INO, i, &tree);
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
        let mut oh = 0u64;
        for p in probes {
            f.seek_to(p * bs).map_err(|e| format!("seek to block {p}: {e}"))?;
            let mut buf = vec![0x55u8; 1024];
            let n = f.read_bytes(&mut buf).map_err(|e| format!("read block {p}: {e}"))?;
            cx.step();
            let want_n = (size - p * bs).min(bs) as usize;
            let mut want = vec![0u8; want_n];
            if let Some(pb) = map(p).filter(|x| *x != 0) {
                pat_fill(pb, 0, &mut want);
            }
            // a short read is allowed, wrong bytes are not
            ensure!(n > 0 && n <= want_n, "block {p}: read returned {n}");
            ensure!(buf[..n] == want[..n], "block {p}: {}", diff_at(&buf[..n], &want[..n]));
            oh = hash_of(&(oh, &buf));
        }
        cx.outcome(oh);
        Ok(())
    }
}

/// Every high bit of the block numbers of data, leaves and index nodes.
fn high_bits(cx: &mut Cx) -> CaseResult {
    let role = cx.pick(4);
    let bit = 32 + cx.pick(16);
    let mut m = cached(6, || base(geo(6)));
    let bs = 65536u64;
    let hi = (1u64 << bit) + 12_345;
    // role 0: the data, 1: leaf nodes, 2: index nodes, 3: everything
    let at = |r: usize, low: u64| if role == r || role == 3 { hi + low } else { low };
    let pb = [at(0, 20_000), at(0, 20_100)];
    let exts = pb.iter().enumerate().map(|(i, p)| Ext { lb: 2 * i as u32, len: 2, pb: *p });
    let leaves: Vec<(u32, Node)> = exts.map(|e| (e.lb, Node::Leaf(vec![e]))).collect();
    let size = 4 * bs - 7;
    cx.describe(|| format!("bit {bit}, role {}", ["data", "leaves", "index nodes", "all"][role]));
    cx.input(hash_of(&(role, bit)));
    let mut want = vec![0; size as usize];
    for (l, c) in want.chunks_mut(65536).enumerate() {
        pat_fill(pb[l / 2] + l as u64 % 2, 0, c);
    }
    let mut i = Ino::file();
    i.size = size;
    m.node_off = [at(1, 21_000), at(2, 22_000), 0, 0, 0, 0];
    m.set_inode_ext(INO, i, &Node::Idx(vec![(0, Node::Idx(leaves))]));
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    cx.step();
    check_reads(&fs, &want, 65536)?;
    cx.outcome(hash_of(&want));
    Ok(())
}

/// Full and nearly full nodes: one-block extents, `n` of them.
fn wide(max: usize) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let k = *cx.of(&[0usize, 1]);
        let per_leaf = *cx.of(&[84usize, 83, 40, 1]);
        let counts: Vec<usize> =
            [1, 4, 5, 83, 84, 85, 167, 168, 169, 252, 336, 337, 420, 500, 670]
                .into_iter()
                .filter(|c| *c <= max)
                .collect();
        let n = *cx.of(&counts);
        let stride = *cx.of(&[1u32, 2]);
        let mut m = cached(k, || base(geo(k)));
        let exts: Vec<Ext> = (0..n as u32)
            .map(|i| Ext { lb: i * stride, len: 1, pb: 3900 - 2 * i as u64 })
            .collect();
        let leaves: Vec<(u32, Node)> = exts
            .chunks(per_leaf)
            .map(|c| (c[0].lb, Node::Leaf(c.to_vec())))
            .collect();
        let tree = if leaves.len() <= 4 {
            Node::Idx(leaves)
        } else {
            // one wide index node below the root, or several
            let per_idx = *cx.of(&[84usize, 42]);
            let v: Vec<(u32, Node)> = leaves
                .chunks(per_idx)
                .map(|c| (c[0].0, Node::Idx(c.to_vec())))
                .collect();
            if v.len() <= 4 {
                Node::Idx(v)
            } else {
                let lb = v[0].0;
                Node::Idx(vec![(lb, Node::Idx(v))])
            }
        };
        let size = (n as u64 * stride as u64) * 1024;
        cx.describe(|| format!("cfg {k}: {n} extents, {per_leaf} per leaf, stride {stride}"));
        cx.input(hash_of(&(k, n, per_leaf, stride, tree.depth())));
        let mut i = Ino::file();
        i.size = size;
        m.set_inode_ext(INO, i, &tree);
        let mut want = vec![0u8; size as usize];
        for e in &exts {
            let o = e.lb as usize * 1024;
            pat_fill(e.pb, 0, &mut want[o..o + 1024]);
        }
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        cx.step();
        check_reads(&fs, &want, 1024)?;
        cx.outcome(hash_of(&want));
        let p = Path::try_from("/f").unwrap();
        if fs.metadata(p).map(|m| m.len()).ok() != Some(size) {
            bail!("size");
        }
        Ok(())
    }
}

/// Extents whose physical run crosses a power of two.
fn straddle(cx: &mut Cx) -> CaseResult {
    let k = 14 + cx.pick(34);
    let before = cx.pick(4) as u64;
    let unaligned = cx.flag();
    let pb = (1u64 << k) - before;
    cx.describe(|| format!("extent of 4 blocks at 2^{k}-{before}"));
    cx.input(hash_of(&(k, before, unaligned)));
    let mut m = cached(6, || base(geo(6)));
    let bs = 65536u64;
    let lb = if unaligned { 1 } else { 0 };
    let mut i = Ino::file();
    i.size = (lb + 4) * bs - 11;
    m.set_inode_ext(INO, i, &Node::Leaf(vec![Ext { lb: lb as u32, len: 4, pb }]));
    let mut want = vec![0; ((lb + 4) * bs - 11) as usize];
    for (l, c) in want.chunks_mut(bs as usize).enumerate().skip(lb as usize) {
        pat_fill(pb + l as u64 - lb, 0, c);
    }
    let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
    cx.step();
    check_reads(&fs, &want, 65536)?;
    cx.outcome(hash_of(&want));
    Ok(())
}

/// Data around a far logical block `b`: offsets beyond 2^31 and 2^32 bytes,
/// holes longer than 2^16 (2^20, 2^24) blocks.
fn far(max_block: u64) -> impl Fn(&mut Cx) -> CaseResult {
    move |cx: &mut Cx| {
        let c = cx.pick(7);
        let bs = 1024u64 << c;
        let mut at: Vec<u64> = [31u32, 32, 33, 34].iter().map(|x| (1u64 << x) / bs).collect();
        at.extend([15u32, 16, 17, 18, 20, 22, 24, 26, 28].map(|x| 1u64 << x));
        at.retain(|b| *b <= max_block);
        at.sort();
        at.dedup();
        let b = *cx.of(&at);
        // which of the blocks b-2..b+1 are data, unwritten, or holes
        let mut blocks = vec![];
        let cheap = b <= 1 << 16;
        for k in 0..4u64 {
            let kind = if cheap { cx.pick(3) } else { 1 - cx.pick(2) };
            blocks.push((b - 2 + k, kind));
        }
        let first = cx.flag();
        let size = (b + if cheap { cx.pick(2) as u64 } else { 1 } + 1) * bs - if cx.flag() { 5 } else { 0 };
        let mut exts = vec![];
        if first {
            exts.push(Ext { lb: 0, len: 1, pb: 3000 });
        }
        for (l, kind) in &blocks {
            match kind {
                0 => {}
                1 => exts.push(Ext { lb: *l as u32, len: 1, pb: 2000 + 7 * (l - (b - 2)) }),
                _ => exts.push(Ext { lb: *l as u32, len: 32769, pb: 2500 + l - (b - 2) }),
            }
        }
        cx.describe(|| format!("block size {bs}, size {size}, extents {exts:?}"));
        cx.input(hash_of(&(bs, size, format!("{exts:?}"))));
        let mut g = Geo::new(bs as usize).extents();
        g.blocks_count = 4000;
        let mut m = cached(20 + c, || base(g));
        let mut i = Ino::file();
        i.size = size;
        let pb = |l: u64| exts.iter().find(|e| e.lb as u64 == l && e.len == 1).map(|e| e.pb);
        let tree = if first && exts.len() > 1 {
            Node::Idx(vec![(0, Node::Leaf(exts[..1].to_vec())), (exts[1].lb, Node::Leaf(exts[1..].to_vec()))])
        } else {
            Node::Leaf(exts.clone())
        };
        m.set_inode_ext(INO, i, &tree);
        let fs = m.load().map_err(|e| format!("load failed: {e}"))?;
        let mut f = fs.open("/f").map_err(|e| format!("open failed: {e}"))?;
        ensure!(f.metadata().len() == size, "size {}", f.metadata().len());
        let mut buf = vec![0u8; bs as usize];
        let starts: Vec<u64> = if b > 1 << 26 {
            vec![b * bs - 1]
        } else if b <= 1 << 20 {
            vec![(b - 2) * bs, b * bs - 1, b * bs, b * bs + 1, size - 1, size]
        } else {
            vec![(b - 2) * bs, b * bs - 1]
        };
        let mut oh = 0;
        for s in starts {
            f.seek_to(s).map_err(|e| format!("seek to {s}: {e}"))?;
            let mut pos = s;
            loop {
                let n = f.read_bytes(&mut buf).map_err(|e| format!("read at {pos}: {e}"))?;
                cx.step();
                if pos == size {
                    ensure!(n == 0, "{n} bytes at the end");
                    break;
                }
                ensure!(n > 0 && n as u64 <= size - pos, "read of {n} bytes at {pos}");
                let mut want = vec![0; n];
                let mut done = 0;
                while done < n {
                    let (l, o) = ((pos + done as u64) / bs, ((pos + done as u64) % bs) as usize);
                    let k = (bs as usize - o).min(n - done);
                    if let Some(p) = pb(l) {
                        pat_fill(p, o, &mut want[done..done + k]);
                    }
                    done += k;
                }
                ensure!(buf[..n] == want[..], "at {pos}: {}", diff_at(&buf[..n], &want));
                pos += n as u64;
                ensure!(f.position() == pos, "position {}", f.position());
                oh = hash_of(&(oh, &buf[..n.min(64)]));
            }
        }
        cx.outcome(oh);
        Ok(())
    }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough;
    Prop {
        id: "P01",
        level: "model_checking",
        rule: "",
        assumptions: &[
            "the image builder produces valid extent trees (its images are accepted by e2fsck and read back identically by debugfs, see `mc --validate-builder`)",
            "extent trees are valid: extents sorted, not overlapping, at most 5 levels",
        ],
        sections: vec![
            Section::new(
                "layouts-1k",
                if t { "all layouts of <=7 blocks over {hole,new,unwritten,continue} x 5 sizes x all groupings into <=2 index levels x chains to depth 5; 1K blocks, with and without checksums" } else { "all layouts of <=5 blocks over {hole,new,unwritten,continue} x 5 sizes x all groupings into <=2 index levels x chains to depth 5; 1K blocks, with and without checksums" },
                layouts(&[0, 1], if t { 7 } else { 5 }, 3),
            ),
            Section::new(
                "layouts-blocksizes",
                "all layouts of <=4 (quick: 3) blocks; block sizes 2K, 4K, 64K, and blocks beyond 2^32",
                layouts(&[2, 3, 4, 5], if t { 4 } else { 3 }, 1),
            ),
            Section::new(
                "long-extents",
                "every sequence of <=3 (quick: 2) extents with lengths {1,2,32767,32768 initialized; 1,2,32766,32767 unwritten} and gaps {0,1,40000}; probed at every extent boundary",
                long_extents(if t { 3 } else { 2 }),
            ),
            Section::new(
                "high-bits",
                "each of the bits 32..47 set in the block number of data, leaves, index nodes, or all of them",
                high_bits,
            ),
            Section::new(
                "wide-nodes",
                "1..670 one-block extents at counts around full leaf and index nodes",
                wide(670),
            ),
            Section::new("straddle", "extents of 4 blocks across every power of two from 2^14 to 2^47, every offset", straddle),
            Section::new(
                "far",
                if t { "blocks around byte offsets 2^31..2^34 and logical blocks 2^15..2^28 are data, unwritten or holes x 7 block sizes" } else { "blocks around byte offsets 2^31..2^34 and logical blocks 2^15..2^24 are data, unwritten or holes x 7 block sizes" },
                far(if t { 1 << 28 } else { 1 << 24 }),
            ),
            super::mke::files(true),
        ],
        validate: None,
    }
}

thread_local! {
    static BASES2: RefCell<std::collections::BTreeMap<usize, (Img, u64)>> = const { RefCell::new(std::collections::BTreeMap::new()) };
}
/// Per-thread cached image with a number.
pub fn cached2(slot: usize, mk: impl FnOnce() -> (Img, u64)) -> (Img, u64) {
    BASES2.with(|b| b.borrow_mut().entry(slot).or_insert_with(mk).clone())
}
