//! Builder of hash-indexed directories.

use crate::img::*;

#[derive(Clone, Debug)]
pub enum Dx {
    /// Ready-made leaf block (without checksum).
    Leaf(Vec<u8>),
    Node(Vec<(u32, Dx)>),
}

impl Dx {
    pub fn depth(&self) -> u8 {
        match self {
            Dx::Leaf(_) => 0,
            Dx::Node(v) => 1 + v[0].1.depth(),
        }
    }
}

/// How the blocks of a directory are placed in the file and on disk.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Place {
    /// breadth-first in the file, contiguous on disk
    Natural,
    /// file blocks reversed (except the root)
    Reversed,
    /// disk blocks descending, one gap each
    Scattered,
}
pub const PLACES: [Place; 3] = [Place::Natural, Place::Reversed, Place::Scattered];

fn write_entries(b: &mut [u8], off: usize, csum: bool, entries: &[(u32, u32)]) {
    let bs = b.len();
    let limit = (bs - off - if csum { 8 } else { 0 }) / 8;
    assert!(entries.len() <= limit, "index node overflow");
    // stale entries behind the ones in use
    for (i, x) in b[off..].iter_mut().enumerate() {
        *x = 0x30 + (i % 7) as u8;
    }
    for (i, (h, blk)) in entries.iter().enumerate() {
        if i > 0 {
            put32(b, off + i * 8, *h);
        }
        put32(b, off + i * 8 + 4, *blk);
    }
    put16(b, off, limit as u16);
    put16(b, off + 2, entries.len() as u16);
}

fn assign(tree: &[(u32, Dx)], place: Place) -> (usize, Vec<Vec<u32>>) {
    // breadth-first numbering; result: per node (in BFS order, root first)
    // the numbers of its children
    let mut total = 1usize;
    let mut lists: Vec<Vec<usize>> = vec![];
    let mut level: Vec<&[(u32, Dx)]> = vec![tree];
    while !level.is_empty() {
        let mut next: Vec<&[(u32, Dx)]> = vec![];
        for n in &level {
            let mut v = vec![];
            for (_, c) in n.iter() {
                v.push(total);
                total += 1;
                if let Dx::Node(k) = c {
                    next.push(k);
                }
            }
            lists.push(v);
        }
        level = next;
    }
    let num = |i: usize| -> u32 {
        if place == Place::Reversed { (total - i) as u32 } else { i as u32 }
    };
    (total, lists.into_iter().map(|v| v.into_iter().map(num).collect()).collect())
}

/// Largest number of entries of the root and of other index nodes.
pub fn limits(bs: usize, csum: bool) -> (usize, usize) {
    let t = if csum { 8 } else { 0 };
    ((bs - 0x20 - t) / 8, (bs - 8 - t) / 8)
}

fn root(bs: usize, ino: u32, parent: u32) -> Vec<u8> {
    let mut root = vec![0u8; bs];
    put32(&mut root, 0, ino);
    put16(&mut root, 4, 12);
    root[6] = 1;
    root[7] = FT_DIR;
    root[8] = b'.';
    put32(&mut root, 12, parent);
    put16(&mut root, 16, (bs - 12) as u16);
    root[18] = 2;
    root[19] = FT_DIR;
    root[20..22].copy_from_slice(b"..");
    root
}
fn root_info(b: &mut [u8], alg: u8, depth: u8) {
    put32(b, 0x18, 0);
    b[0x1c] = alg;
    b[0x1d] = 8;
    b[0x1e] = depth;
    b[0x1f] = 0;
}
/// The root block of an index whose entries point to leaves (without
/// checksum).
pub fn root_block(bs: usize, ino: u32, parent: u32, alg: u8, csum: bool, entries: &[(u32, u32)]) -> Vec<u8> {
    let mut b = root(bs, ino, parent);
    write_entries(&mut b, 0x20, csum, entries);
    root_info(&mut b, alg, 0);
    b
}

/// Writes directory `ino` with the given index. Returns the physical
/// blocks in file order.
pub fn write(
    m: &mut Img,
    ino: u32,
    parent: u32,
    alg: u8,
    tree: &[(u32, Dx)],
    place: Place,
) -> Vec<u64> {
    let bs = m.bs();
    let csum = m.g.csum;
    let depth = tree[0].1.depth();
    // (deeper indexes than 1 also need LARGEDIR, which the library does not
    // support; it reads them without)
    if m.g.compat & COMPAT_DIR_INDEX == 0 {
        m.g.compat |= COMPAT_DIR_INDEX;
        m.finish();
    }
    let (total, lists) = assign(tree, place);
    let mut blocks: Vec<Option<(Vec<u8>, u8)>> = vec![None; total];
    let root = root(bs, ino, parent);
    let mut li = 0;
    let mut level: Vec<(u32, &[(u32, Dx)])> = vec![(0, tree)];
    while !level.is_empty() {
        let mut next = vec![];
        for (no, n) in level {
            let kids = &lists[li];
            li += 1;
            let entries: Vec<(u32, u32)> =
                n.iter().zip(kids).map(|((h, _), b)| (*h, *b)).collect();
            let (mut b, off) = if no == 0 {
                (root.clone(), 0x20)
            } else {
                let mut b = vec![0u8; bs];
                put16(&mut b, 4, enc_rec_len(bs, bs));
                (b, 8)
            };
            write_entries(&mut b, off, csum, &entries);
            if no == 0 {
                root_info(&mut b, alg, depth);
            }
            blocks[no as usize] = Some((b, off as u8));
            for ((_, c), k) in n.iter().zip(kids) {
                match c {
                    Dx::Leaf(l) => blocks[*k as usize] = Some((l.clone(), 0)),
                    Dx::Node(v) => next.push((*k, &v[..])),
                }
            }
        }
        level = next;
    }
    let phys: Vec<u64> = match place {
        Place::Scattered => {
            let b = m.alloc_n(2 * total as u64);
            (0..total as u64).map(|i| b + 2 * (total as u64 - 1 - i)).collect()
        }
        _ => {
            let b = m.alloc_n(total as u64);
            (b..b + total as u64).collect()
        }
    };
    let mut i = Ino::dir();
    i.flags |= FL_INDEX;
    i.size = (total * bs) as u64;
    m.map_blocks(ino, i, &phys);
    for (k, b) in blocks.into_iter().enumerate() {
        let (mut b, off) = b.unwrap();
        if off > 0 {
            m.csum_dx_block(ino, &mut b, off as usize);
        } else {
            m.csum_dir_block(ino, &mut b);
        }
        m.set_block(phys[k], b);
    }
    phys
}
