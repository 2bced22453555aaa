//! Independent ext2/3/4 image builder over a sparse virtual disk.
//!
//! Every block that was not written explicitly has a content that is a
//! function of its number ([`pat_word`]), so a file that maps logical block
//! `l` to physical block `p` is expected to read as `pattern(p)`, and a read
//! of the wrong block is always visible.

use crate::crypto::*;
use crate::explore::FxMap;
use ext4_view::{Ext4, Ext4Error, Ext4Read};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;

pub const COMPAT_HAS_JOURNAL: u32 = 4;
pub const COMPAT_DIR_INDEX: u32 = 0x20;
pub const INCOMPAT_FILETYPE: u32 = 2;
pub const INCOMPAT_RECOVER: u32 = 4;
pub const INCOMPAT_EXTENTS: u32 = 0x40;
pub const INCOMPAT_64BIT: u32 = 0x80;
pub const INCOMPAT_FLEX_BG: u32 = 0x200;
pub const INCOMPAT_CSUM_SEED: u32 = 0x2000;
pub const INCOMPAT_ENCRYPT: u32 = 0x10000;
pub const RO_SPARSE_SUPER: u32 = 1;
pub const RO_LARGE_FILE: u32 = 2;
pub const RO_GDT_CSUM: u32 = 0x10;
pub const RO_BIGALLOC: u32 = 0x200;
pub const RO_EXTRA_ISIZE: u32 = 0x40;
pub const RO_METADATA_CSUM: u32 = 0x400;

pub const FL_ENCRYPT: u32 = 0x800;
pub const FL_INDEX: u32 = 0x1000;
pub const FL_EXTENTS: u32 = 0x80000;
pub const FL_INLINE: u32 = 0x1000_0000;

pub const S_IFIFO: u16 = 0o010000;
pub const S_IFCHR: u16 = 0o020000;
pub const S_IFDIR: u16 = 0o040000;
pub const S_IFBLK: u16 = 0o060000;
pub const S_IFREG: u16 = 0o100000;
pub const S_IFLNK: u16 = 0o120000;
pub const S_IFSOCK: u16 = 0o140000;

pub const FT_REG: u8 = 1;
pub const FT_DIR: u8 = 2;
pub const FT_CHR: u8 = 3;
pub const FT_BLK: u8 = 4;
pub const FT_FIFO: u8 = 5;
pub const FT_SOCK: u8 = 6;
pub const FT_LNK: u8 = 7;

pub fn put16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn get16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn get32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn put32be(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn put16be(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_be_bytes());
}

pub fn pat_word(phys: u64, i: u64) -> u64 {
    let mut x = phys.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    // never zero bytes in the low half, so a zero-filled block never matches
    (x ^ (i.wrapping_mul(0x0101_0000_0000_0101))) | 0x0100_0000_0001_0001
}

/// Fills `dst` with the pattern content of `phys` starting at `off`.
pub fn pat_fill(phys: u64, off: usize, dst: &mut [u8]) {
    let mut i = 0;
    while i < dst.len() {
        let w = ((off + i) / 8) as u64;
        let o = (off + i) % 8;
        let b = pat_word(phys, w).to_le_bytes();
        let n = (8 - o).min(dst.len() - i);
        dst[i..i + n].copy_from_slice(&b[o..o + n]);
        i += n;
    }
}
pub fn pattern(phys: u64, bs: usize) -> Vec<u8> {
    let mut v = vec![0; bs];
    pat_fill(phys, 0, &mut v);
    v
}

/// Geometry and features.
#[derive(Clone, Debug)]
pub struct Geo {
    pub bs: usize,
    pub blocks_count: u64,
    pub bpg: u32,
    pub ipg: u32,
    pub inode_size: u16,
    pub desc_size: u16,
    pub f64bit: bool,
    pub csum: bool,
    pub csum_seed: Option<u32>,
    pub compat: u32,
    pub incompat: u32,
    pub ro: u32,
    pub uuid: [u8; 16],
    pub label: [u8; 16],
    pub hash_seed: [u32; 4],
    pub hash_alg: u8,
    pub hash_unsigned: Option<bool>,
    pub rev: u32,
    pub extra_isize: u16,
    pub journal_inum: u32,
    /// physical block of each group's inode table; filled by `Img::new` if empty
    pub itab: Vec<u64>,
    pub first_data_block: u32,
}

impl Geo {
    pub fn new(bs: usize) -> Geo {
        Geo {
            bs,
            blocks_count: 4096,
            // e2fsprogs keeps free counts in 16 bits
            bpg: (bs as u32 * 8).min(65528),
            // at least a block full of inodes
            ipg: 32.max(bs as u32 / 128),
            inode_size: 256,
            desc_size: 32,
            f64bit: false,
            csum: false,
            csum_seed: None,
            compat: 0,
            incompat: INCOMPAT_FILETYPE,
            ro: RO_LARGE_FILE,
            uuid: [
                0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee,
                0x0f, 0x10,
            ],
            label: *b"mc-volume\0\0\0\0\0\0\0",
            hash_seed: [0x1111_2222, 0x3333_4444, 0x5555_6666, 0x7777_8888],
            hash_alg: 1,
            hash_unsigned: Some(false),
            rev: 1,
            extra_isize: 32,
            journal_inum: 0,
            itab: vec![],
            first_data_block: if bs == 1024 { 1 } else { 0 },
        }
    }
    pub fn b64(mut self) -> Geo {
        self.f64bit = true;
        self.desc_size = 64;
        self
    }
    pub fn with_csum(mut self) -> Geo {
        self.csum = true;
        self
    }
    pub fn extents(mut self) -> Geo {
        self.incompat |= INCOMPAT_EXTENTS;
        self
    }
    pub fn groups(&self) -> u64 {
        (self.blocks_count - self.first_data_block as u64).div_ceil(self.bpg as u64)
    }
    /// Blocks of one inode table.
    pub fn itb(&self) -> u64 {
        (self.ipg as u64 * self.inode_size as u64).div_ceil(self.bs as u64)
    }
    /// The first inode table (with its bitmaps before it) at `first`, those
    /// of the other groups one after the other from `rest`.
    pub fn spread_tables(&mut self, first: u64, rest: u64) {
        let step = self.itb() + 2;
        self.itab = (0..self.groups()).map(|k| if k == 0 { first } else { rest + 2 + k * step }).collect();
    }
    /// Whether all tables are within their groups.
    pub fn tables_at_home(&self) -> bool {
        let itb = self.itb();
        self.itab.iter().enumerate().all(|(i, t)| {
            let s = self.first_data_block as u64 + i as u64 * self.bpg as u64;
            t.wrapping_sub(2) >= s && t + itb <= (s + self.bpg as u64).min(self.blocks_count)
        })
    }
    pub fn seed(&self) -> u32 {
        match self.csum_seed {
            Some(s) => s,
            None => crc32c(!0, &self.uuid),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ino {
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub links: u16,
    pub flags: u32,
    pub iblock: [u8; 60],
    pub generation: u32,
    /// i_blocks in 512-byte units
    pub sectors: u32,
}
impl Ino {
    pub fn new(mode: u16) -> Ino {
        Ino {
            mode,
            uid: 0,
            gid: 0,
            size: 0,
            links: 1,
            flags: 0,
            iblock: [0; 60],
            generation: 0x5eed_0001,
            sectors: 0,
        }
    }
    pub fn file() -> Ino {
        Ino::new(S_IFREG | 0o644)
    }
    pub fn dir() -> Ino {
        let mut i = Ino::new(S_IFDIR | 0o755);
        i.links = 2;
        i
    }
}

/// One directory record to be laid out.
#[derive(Clone, Debug)]
pub struct Rec {
    pub ino: u32,
    pub name: Vec<u8>,
    pub ft: u8,
    /// extra slack added to the minimal record length (multiple of 4)
    pub slack: usize,
}
impl Rec {
    pub fn new(ino: u32, name: &[u8], ft: u8) -> Rec {
        Rec { ino, name: name.to_vec(), ft, slack: 0 }
    }
    pub fn min_len(&self) -> usize {
        (8 + self.name.len() + 3) & !3
    }
}

pub fn enc_rec_len(len: usize, bs: usize) -> u16 {
    // fs/ext4/ext4.h ext4_rec_len_to_disk
    if len < 65536 {
        (len & 65532) as u16 | ((len >> 16) & 3) as u16
    } else if bs == 65536 {
        0xffff
    } else {
        0
    }
}

/// Lays out records in one block; the last record takes the rest of the
/// block (minus the checksum tail if `tail`). The checksum itself is set by
/// [`Img::finish_dir_block`]. Returns None if they do not fit.
pub fn dir_block(recs: &[Rec], bs: usize, tail: bool) -> Option<Vec<u8>> {
    let end = if tail { bs - 12 } else { bs };
    let mut b = vec![0u8; bs];
    let mut o = 0;
    if recs.is_empty() {
        put16(&mut b, 4, enc_rec_len(end, bs));
        o = end;
    }
    for (i, r) in recs.iter().enumerate() {
        let mut len = r.min_len() + r.slack;
        if o + len > end {
            return None;
        }
        if i + 1 == recs.len() {
            len = end - o;
        }
        put32(&mut b, o, r.ino);
        put16(&mut b, o + 4, enc_rec_len(len, bs));
        b[o + 6] = r.name.len() as u8;
        b[o + 7] = r.ft;
        b[o + 8..o + 8 + r.name.len()].copy_from_slice(&r.name);
        // garbage in the slack, as left behind by removed entries
        let used = o + 8 + r.name.len();
        for (k, x) in b[used..o + len].iter_mut().enumerate() {
            *x = 0x41 + (k % 23) as u8;
        }
        // e2fsck wants these terminated
        if r.name == b"." || r.name == b".." {
            b[used..(used + 1).min(o + len)].fill(0);
        }
        o += len;
    }
    assert_eq!(o, end);
    if tail {
        put16(&mut b, end + 4, 12);
        b[end + 7] = 0xde;
    }
    Some(b)
}

#[derive(Clone, Debug)]
pub struct Ext {
    pub lb: u32,
    /// raw ee_len: up to 32768 initialized, above unwritten
    pub len: u16,
    pub pb: u64,
}
#[derive(Clone, Debug)]
pub enum Node {
    Leaf(Vec<Ext>),
    Idx(Vec<(u32, Node)>),
}
impl Node {
    pub fn depth(&self) -> u16 {
        match self {
            Node::Leaf(_) => 0,
            Node::Idx(v) => 1 + v.first().map_or(0, |c| c.1.depth()),
        }
    }
}

#[derive(Clone)]
pub struct Img {
    pub g: Geo,
    pub blocks: FxMap<u64, Arc<Vec<u8>>>,
    pub next: u64,
    pub used: BTreeSet<u64>,
    pub inos: BTreeSet<u32>,
    /// inodes that are directories (for the full image)
    pub dirs: BTreeSet<u32>,
    pub track: bool,
    /// added to the block numbers of extent nodes, by depth
    pub node_off: [u64; 6],
}

impl Img {
    /// Lays out superblock, descriptor table and inode tables.
    pub fn new(mut g: Geo) -> Img {
        let fdb = g.first_data_block as u64;
        let ngroups = g.groups();
        let ds = g.desc_size as u64;
        let gdt_blocks = (ngroups * ds).div_ceil(g.bs as u64);
        let mut next = fdb + 1 + gdt_blocks;
        let itb = (g.ipg as u64 * g.inode_size as u64).div_ceil(g.bs as u64);
        let mut used: BTreeSet<u64> = (0..next).collect();
        if g.itab.is_empty() {
            for _ in 0..ngroups {
                // block bitmap, inode bitmap, table
                g.itab.push(next + 2);
                for b in next..next + 2 + itb {
                    used.insert(b);
                }
                next += 2 + itb;
            }
        }
        Img {
            g,
            blocks: Default::default(),
            next,
            used,
            inos: Default::default(),
            dirs: Default::default(),
            track: false,
            node_off: [0; 6],
        }
    }
    pub fn bs(&self) -> usize {
        self.g.bs
    }
    pub fn alloc(&mut self) -> u64 {
        self.alloc_n(1)
    }
    pub fn alloc_n(&mut self, n: u64) -> u64 {
        let b = self.next;
        self.next += n;
        if self.track {
            for x in b..b + n {
                self.used.insert(x);
            }
        }
        b
    }
    pub fn block_mut(&mut self, b: u64) -> &mut Vec<u8> {
        let bs = self.g.bs;
        Arc::make_mut(self.blocks.entry(b).or_insert_with(|| Arc::new(vec![0; bs])))
    }
    pub fn set_block(&mut self, b: u64, v: Vec<u8>) {
        assert_eq!(v.len(), self.g.bs);
        self.blocks.insert(b, Arc::new(v));
    }
    pub fn get_block(&self, b: u64) -> Vec<u8> {
        match self.blocks.get(&b) {
            Some(v) => v.to_vec(),
            None => pattern(b, self.g.bs),
        }
    }
    pub fn inode_loc(&self, ino: u32) -> (u64, usize) {
        let g = ((ino - 1) / self.g.ipg) as usize;
        let i = ((ino - 1) % self.g.ipg) as u64 * self.g.inode_size as u64;
        (self.g.itab[g] + i / self.g.bs as u64, (i % self.g.bs as u64) as usize)
    }
    pub fn inode_bytes(&mut self, ino: u32) -> &mut [u8] {
        let (b, o) = self.inode_loc(ino);
        let n = self.g.inode_size as usize;
        &mut self.block_mut(b)[o..o + n]
    }
    pub fn set_inode(&mut self, ino: u32, i: &Ino) {
        let extra = self.g.extra_isize;
        let isz = self.g.inode_size as usize;
        if i.mode & 0o170000 == S_IFDIR {
            self.dirs.insert(ino);
        }
        self.inos.insert(ino);
        let b = self.inode_bytes(ino);
        b.fill(0);
        put16(b, 0, i.mode);
        put16(b, 2, i.uid as u16);
        put32(b, 4, i.size as u32);
        for o in [8, 12, 16] {
            put32(b, o, 0x6500_0000);
        }
        put16(b, 0x18, i.gid as u16);
        put16(b, 0x1a, i.links);
        put32(b, 0x1c, i.sectors);
        put32(b, 0x20, i.flags);
        b[0x28..0x28 + 60].copy_from_slice(&i.iblock);
        put32(b, 0x64, i.generation);
        put32(b, 0x6c, (i.size >> 32) as u32);
        put16(b, 0x78, (i.uid >> 16) as u16);
        put16(b, 0x7a, (i.gid >> 16) as u16);
        if isz > 128 {
            put16(b, 0x80, extra);
        }
        self.csum_inode(ino);
    }
    pub fn generation(&mut self, ino: u32) -> u32 {
        get32(self.inode_bytes(ino), 0x64)
    }
    pub fn inode_seed(&mut self, ino: u32) -> u32 {
        let s = crc32c(self.g.seed(), &ino.to_le_bytes());
        let g = self.generation(ino);
        crc32c(s, &g.to_le_bytes())
    }
    pub fn csum_inode(&mut self, ino: u32) {
        if !self.g.csum {
            return;
        }
        let isz = self.g.inode_size as usize;
        let seed = self.inode_seed(ino);
        let b = self.inode_bytes(ino);
        put16(b, 0x7c, 0);
        let has_hi = isz > 128 && get16(b, 0x80) >= 4;
        if has_hi {
            put16(b, 0x82, 0);
        }
        let c = crc32c(seed, b);
        put16(b, 0x7c, c as u16);
        if has_hi {
            put16(b, 0x82, (c >> 16) as u16);
        }
    }
    /// Sets the checksum of a linear directory block (tail must be laid out).
    pub fn csum_dir_block(&mut self, ino: u32, blk: &mut [u8]) {
        if !self.g.csum {
            return;
        }
        let n = blk.len();
        let seed = self.inode_seed(ino);
        let c = crc32c(seed, &blk[..n - 12]);
        put32(blk, n - 4, c);
    }
    /// Checksum of an index block whose count/limit are at `off`.
    pub fn csum_dx_block(&mut self, ino: u32, blk: &mut [u8], off: usize) {
        if !self.g.csum {
            return;
        }
        let limit = get16(blk, off) as usize;
        let count = get16(blk, off + 2) as usize;
        let seed = self.inode_seed(ino);
        let t = off + limit * 8;
        put32(blk, t, 0);
        put32(blk, t + 4, 0);
        let c = crc32c(seed, &blk[..off + count * 8]);
        let c = crc32c(c, &blk[t..t + 4]);
        let c = crc32c(c, &[0; 4]);
        put32(blk, t + 4, c);
    }
    fn ext_hdr(b: &mut [u8], n: usize, max: usize, depth: u16) {
        put16(b, 0, 0xF30A);
        put16(b, 2, n as u16);
        put16(b, 4, max as u16);
        put16(b, 6, depth);
    }
    fn ext_node(&mut self, ino: u32, n: &Node, b: &mut [u8], max: usize, depth: u16) {
        match n {
            Node::Leaf(v) => {
                assert!(v.len() <= max && depth == 0);
                Self::ext_hdr(b, v.len(), max, 0);
                for (i, e) in v.iter().enumerate() {
                    let o = 12 + i * 12;
                    put32(b, o, e.lb);
                    put16(b, o + 4, e.len);
                    put16(b, o + 6, (e.pb >> 32) as u16);
                    put32(b, o + 8, e.pb as u32);
                }
            }
            Node::Idx(v) => {
                assert!(v.len() <= max);
                Self::ext_hdr(b, v.len(), max, depth);
                for (i, (lb, c)) in v.iter().enumerate() {
                    let pb = self.alloc() + self.node_off[depth as usize - 1];
                    let bs = self.g.bs;
                    let mut blk = vec![0; bs];
                    let cmax = (bs - 12) / 12;
                    self.ext_node(ino, c, &mut blk, cmax, depth - 1);
                    self.csum_extent_block(ino, &mut blk);
                    self.set_block(pb, blk);
                    let o = 12 + i * 12;
                    put32(b, o, *lb);
                    put32(b, o + 4, pb as u32);
                    put16(b, o + 8, (pb >> 32) as u16);
                }
            }
        }
    }
    pub fn csum_extent_block(&mut self, ino: u32, blk: &mut [u8]) {
        if !self.g.csum {
            return;
        }
        let max = get16(blk, 4) as usize;
        let t = 12 + 12 * max;
        let seed = self.inode_seed(ino);
        let c = crc32c(seed, &blk[..t]);
        put32(blk, t, c);
    }
    /// Writes the node blocks of an extent tree, returns i_block. The
    /// inode's generation must already be in the table (set_inode first) if
    /// checksums are on.
    pub fn extent_tree(&mut self, ino: u32, root: &Node) -> [u8; 60] {
        let mut ib = [0u8; 60];
        self.ext_node(ino, root, &mut ib, 4, root.depth());
        ib
    }
    /// Creates an inode with an extent tree.
    pub fn set_inode_ext(&mut self, ino: u32, mut i: Ino, root: &Node) {
        i.flags |= FL_EXTENTS;
        self.set_inode(ino, &i);
        i.iblock = self.extent_tree(ino, root);
        self.set_inode(ino, &i);
    }
    /// Contiguous file of whole blocks at `pb` (extents if enabled, else
    /// direct pointers; at most 12 blocks then).
    pub fn map_contig(&mut self, ino: u32, mut i: Ino, pb: u64, nblk: u32) {
        i.sectors = nblk * (self.g.bs as u32 / 512);
        if self.g.incompat & INCOMPAT_EXTENTS != 0 {
            let v = if nblk == 0 {
                vec![]
            } else {
                vec![Ext { lb: 0, len: nblk as u16, pb }]
            };
            self.set_inode_ext(ino, i, &Node::Leaf(v));
        } else {
            assert!(nblk <= 12);
            for k in 0..nblk as usize {
                put32(&mut i.iblock, k * 4, (pb + k as u64) as u32);
            }
            self.set_inode(ino, &i);
        }
    }
    /// Maps whole blocks at the given physical places.
    pub fn map_blocks(&mut self, ino: u32, mut i: Ino, phys: &[u64]) {
        i.sectors = phys.len() as u32 * (self.g.bs as u32 / 512);
        if self.g.incompat & INCOMPAT_EXTENTS != 0 {
            let mut v: Vec<Ext> = vec![];
            for (l, p) in phys.iter().enumerate() {
                if let Some(e) = v.last_mut() {
                    if e.pb + e.len as u64 == *p && e.len < 32768 {
                        e.len += 1;
                        continue;
                    }
                }
                v.push(Ext { lb: l as u32, len: 1, pb: *p });
            }
            let tree = if v.len() <= 4 {
                Node::Leaf(v)
            } else {
                let per = v.len().div_ceil(4).min((self.g.bs - 12) / 12);
                let mut kids: Vec<(u32, Node)> =
                    v.chunks(per).map(|c| (c[0].lb, Node::Leaf(c.to_vec()))).collect();
                while kids.len() > 4 {
                    let per = kids.len().div_ceil(4).min((self.g.bs - 12) / 12);
                    kids = kids
                        .chunks(per)
                        .map(|c| (c[0].0, Node::Idx(c.to_vec())))
                        .collect();
                }
                Node::Idx(kids)
            };
            self.set_inode_ext(ino, i, &tree);
        } else {
            let map = phys.iter().enumerate().map(|(l, p)| (l as u64, *p)).collect();
            self.set_inode(ino, &i);
            i.iblock = self.block_map(&map, &[]);
            self.set_inode(ino, &i);
        }
    }
    /// Regular file with literal content.
    pub fn file(&mut self, ino: u32, data: &[u8]) {
        let mut i = Ino::file();
        i.size = data.len() as u64;
        let bs = self.g.bs;
        let n = data.len().div_ceil(bs) as u32;
        let pb = if n > 0 { self.alloc_n(n as u64) } else { 0 };
        for (k, c) in data.chunks(bs).enumerate() {
            let mut b = vec![0; bs];
            b[..c.len()].copy_from_slice(c);
            self.set_block(pb + k as u64, b);
        }
        self.map_contig(ino, i, pb, n);
    }
    /// Regular file whose content is the block pattern.
    pub fn pat_file(&mut self, ino: u32, size: u64) -> u64 {
        let mut i = Ino::file();
        i.size = size;
        let n = size.div_ceil(self.g.bs as u64);
        let pb = self.alloc_n(n);
        self.map_contig(ino, i, pb, n as u32);
        pb
    }
    pub fn symlink(&mut self, ino: u32, target: &[u8]) {
        let mut i = Ino::new(S_IFLNK | 0o777);
        i.size = target.len() as u64;
        if target.len() < 60 {
            i.iblock[..target.len()].copy_from_slice(target);
            self.set_inode(ino, &i);
        } else {
            let bs = self.g.bs;
            let n = target.len().div_ceil(bs) as u32;
            let pb = self.alloc_n(n as u64);
            for (k, c) in target.chunks(bs).enumerate() {
                let mut b = vec![0; bs];
                b[..c.len()].copy_from_slice(c);
                self.set_block(pb + k as u64, b);
            }
            self.map_contig(ino, i, pb, n);
        }
    }
    /// Directory from ready-made leaf blocks (checksums are added).
    pub fn dir_blocks(&mut self, ino: u32, i: Ino, blocks: Vec<Vec<u8>>) -> Vec<u64> {
        let n = blocks.len() as u64;
        let pb = self.alloc_n(n);
        self.dir_blocks_at(ino, i, blocks, pb);
        (pb..pb + n).collect()
    }
    pub fn dir_blocks_at(&mut self, ino: u32, mut i: Ino, blocks: Vec<Vec<u8>>, pb: u64) {
        let n = blocks.len() as u64;
        i.size = n * self.g.bs as u64;
        self.map_contig(ino, i, pb, n as u32);
        for (k, mut b) in blocks.into_iter().enumerate() {
            self.csum_dir_block(ino, &mut b);
            self.set_block(pb + k as u64, b);
        }
    }
    /// Linear directory with '.' and '..' first; spills into more blocks.
    pub fn dir(&mut self, ino: u32, parent: u32, entries: &[(&[u8], u32, u8)]) -> Vec<u64> {
        let mut recs = vec![Rec::new(ino, b".", FT_DIR), Rec::new(parent, b"..", FT_DIR)];
        recs.extend(entries.iter().map(|(n, i, t)| Rec::new(*i, n, *t)));
        let bs = self.g.bs;
        let tail = self.g.csum;
        let end = if tail { bs - 12 } else { bs };
        let mut blocks = vec![];
        let mut cur: Vec<Rec> = vec![];
        let mut used = 0;
        for r in recs {
            if used + r.min_len() > end {
                blocks.push(dir_block(&cur, bs, tail).unwrap());
                cur.clear();
                used = 0;
            }
            used += r.min_len();
            cur.push(r);
        }
        blocks.push(dir_block(&cur, bs, tail).unwrap());
        self.dir_blocks(ino, Ino::dir(), blocks)
    }

    pub fn superblock(&self) -> Vec<u8> {
        let g = &self.g;
        let mut s = vec![0u8; 1024];
        let ngroups = g.groups() as u32;
        put32(&mut s, 0x00, g.ipg * ngroups);
        put32(&mut s, 0x04, g.blocks_count as u32);
        put32(&mut s, 0x14, g.first_data_block);
        put32(&mut s, 0x18, (g.bs / 1024).trailing_zeros());
        put32(&mut s, 0x1c, (g.bs / 1024).trailing_zeros());
        put32(&mut s, 0x20, g.bpg);
        put32(&mut s, 0x24, g.bpg);
        if g.ro & RO_BIGALLOC != 0 {
            let ratio = (g.bpg / (8 * g.bs as u32)).max(1);
            put32(&mut s, 0x1c, (g.bs / 1024).trailing_zeros() + ratio.trailing_zeros());
            put32(&mut s, 0x24, g.bpg / ratio);
        }
        put32(&mut s, 0x28, g.ipg);
        put32(&mut s, 0x30, 0x6500_0000);
        put16(&mut s, 0x36, 0xffff);
        put16(&mut s, 0x38, 0xEF53);
        put16(&mut s, 0x3a, 1);
        put16(&mut s, 0x3c, 1);
        put32(&mut s, 0x40, 0x6500_0000);
        put32(&mut s, 0x4c, g.rev);
        put32(&mut s, 0x54, 11);
        put16(&mut s, 0x58, g.inode_size);
        put32(&mut s, 0x5c, g.compat);
        let mut inc = g.incompat;
        if g.f64bit {
            inc |= INCOMPAT_64BIT;
        }
        if g.csum_seed.is_some() {
            inc |= INCOMPAT_CSUM_SEED;
        }
        let mut ro = g.ro;
        if g.csum {
            ro |= RO_METADATA_CSUM;
        }
        if g.inode_size > 128 {
            ro |= RO_EXTRA_ISIZE;
        }
        put32(&mut s, 0x60, inc);
        put32(&mut s, 0x64, ro);
        s[0x68..0x78].copy_from_slice(&g.uuid);
        s[0x78..0x88].copy_from_slice(&g.label);
        put32(&mut s, 0xe0, g.journal_inum);
        for i in 0..4 {
            put32(&mut s, 0xec + 4 * i, g.hash_seed[i]);
        }
        s[0xfc] = g.hash_alg;
        put16(&mut s, 0xfe, if g.f64bit { g.desc_size } else { 0 });
        if g.f64bit {
            put32(&mut s, 0x150, (g.blocks_count >> 32) as u32);
        }
        if g.inode_size > 128 {
            put16(&mut s, 0x15c, g.extra_isize);
            put16(&mut s, 0x15e, g.extra_isize);
        }
        let fl = match g.hash_unsigned {
            None => 0,
            Some(false) => 1,
            Some(true) => 2,
        };
        put32(&mut s, 0x160, fl);
        if g.csum {
            s[0x175] = 1;
        }
        if let Some(seed) = g.csum_seed {
            put32(&mut s, 0x270, seed);
        }
        if g.csum {
            let c = crc32c(!0, &s[..0x3fc]);
            put32(&mut s, 0x3fc, c);
        }
        s
    }
    pub fn csum_superblock(s: &mut [u8]) {
        let c = crc32c(!0, &s[..0x3fc]);
        put32(s, 0x3fc, c);
    }
    pub fn group_desc(&self, gi: u64) -> Vec<u8> {
        let g = &self.g;
        let mut d = vec![0u8; g.desc_size as usize];
        let it = g.itab[gi as usize];
        let bb = it.wrapping_sub(2);
        let ib = it.wrapping_sub(1);
        put32(&mut d, 0, bb as u32);
        put32(&mut d, 4, ib as u32);
        put32(&mut d, 8, it as u32);
        if g.desc_size >= 64 {
            put32(&mut d, 0x20, (bb >> 32) as u32);
            put32(&mut d, 0x24, (ib >> 32) as u32);
            put32(&mut d, 0x28, (it >> 32) as u32);
        }
        self.csum_desc(gi as u32, &mut d);
        d
    }
    pub fn csum_desc(&self, gi: u32, d: &mut [u8]) {
        if self.g.csum {
            put16(d, 0x1e, 0);
            let c = crc32c(self.g.seed(), &gi.to_le_bytes());
            let c = crc32c(c, d);
            put16(d, 0x1e, c as u16);
        } else if self.g.ro & RO_GDT_CSUM != 0 {
            put16(d, 0x1e, 0);
            let mut c = crc16(!0, &self.g.uuid);
            c = crc16(c, &gi.to_le_bytes());
            c = crc16(c, &d[..0x1e]);
            if self.g.f64bit && d.len() > 0x20 {
                c = crc16(c, &d[0x20..]);
            }
            put16(d, 0x1e, c);
        }
    }
    /// Writes superblock and group descriptors.
    pub fn finish(&mut self) {
        if self.g.itab.len() > 1 && !self.g.tables_at_home() {
            self.g.incompat |= INCOMPAT_FLEX_BG;
        }
        let s = self.superblock();
        let bs = self.g.bs;
        if bs == 1024 {
            self.set_block(1, s);
        } else {
            let b = self.block_mut(0);
            b[1024..2048].copy_from_slice(&s);
        }
        let ds = self.g.desc_size as usize;
        let gdt = self.g.first_data_block as u64 + 1;
        for gi in 0..self.g.groups() {
            let d = self.group_desc(gi);
            let o = gi as usize * ds;
            // descriptors never straddle blocks when ds is a power of two;
            // handle the general case byte by byte
            for (k, x) in d.iter().enumerate() {
                let p = o + k;
                self.block_mut(gdt + (p / bs) as u64)[p % bs] = *x;
            }
        }
        if bs == 1024 {
            self.block_mut(0);
        }
    }
    pub fn freeze(&self) -> Disk {
        Disk {
            bs: self.g.bs,
            size: self.g.blocks_count.saturating_mul(self.g.bs as u64),
            blocks: Rc::new(self.blocks.clone()),
        }
    }
    pub fn load(&self) -> Result<Ext4, Ext4Error> {
        crate::props::validate::offer(self);
        self.freeze().load()
    }
    /// Whole image as bytes (small images only).
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![0; self.g.blocks_count as usize * self.g.bs];
        for (i, c) in v.chunks_mut(self.g.bs).enumerate() {
            match self.blocks.get(&(i as u64)) {
                Some(b) => c.copy_from_slice(b),
                None => pat_fill(i as u64, 0, c),
            }
        }
        v
    }
}

/// An immutable virtual disk.
#[derive(Clone)]
pub struct Disk {
    pub bs: usize,
    pub size: u64,
    pub blocks: Rc<FxMap<u64, Arc<Vec<u8>>>>,
}

#[derive(Debug)]
pub struct OutOfDevice;
impl std::fmt::Display for OutOfDevice {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "read outside of the virtual device")
    }
}
impl std::error::Error for OutOfDevice {}

impl Disk {
    pub fn load(&self) -> Result<Ext4, Ext4Error> {
        Ext4::load(Box::new(self.clone()))
    }
    pub fn read_at(&self, mut pos: u64, mut dst: &mut [u8]) {
        let bs = self.bs as u64;
        while !dst.is_empty() {
            let b = pos / bs;
            let o = (pos % bs) as usize;
            let n = (self.bs - o).min(dst.len());
            let (h, t) = dst.split_at_mut(n);
            match self.blocks.get(&b) {
                Some(v) => h.copy_from_slice(&v[o..o + n]),
                None => pat_fill(b, o, h),
            }
            dst = t;
            pos += n as u64;
        }
    }
}
impl Ext4Read for Disk {
    fn read(
        &mut self,
        start: u64,
        dst: &mut [u8],
    ) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        if start.checked_add(dst.len() as u64).is_none_or(|e| e > self.size) {
            return Err(Box::new(OutOfDevice));
        }
        self.read_at(start, dst);
        Ok(())
    }
}

/// Faults and observation shared with a [`FaultDisk`].
#[derive(Default)]
pub struct Probe {
    /// number of reads issued
    pub calls: Cell<u64>,
    /// reads with these indices fail
    pub fail_at: RefCell<Vec<u64>>,
    /// all reads fail from this index on, until reset
    pub fail_from: Cell<Option<u64>>,
    pub failures: Cell<u64>,
    /// overwrite dst with garbage before failing
    pub scribble: Cell<bool>,
    pub log: RefCell<Vec<(u64, usize)>>,
    pub keep_log: Cell<bool>,
    pub bad_range: Cell<Option<(u64, usize)>>,
}
#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault #{}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Clone)]
pub struct FaultDisk {
    pub disk: Disk,
    pub probe: Rc<Probe>,
}
impl Ext4Read for FaultDisk {
    fn read(
        &mut self,
        start: u64,
        dst: &mut [u8],
    ) -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        let p = &self.probe;
        let n = p.calls.get();
        p.calls.set(n + 1);
        if p.keep_log.get() {
            p.log.borrow_mut().push((start, dst.len()));
        }
        if start.checked_add(dst.len() as u64).is_none_or(|e| e > self.disk.size) {
            p.bad_range.set(Some((start, dst.len())));
        }
        if p.fail_at.borrow().contains(&n) || p.fail_from.get().is_some_and(|f| n >= f) {
            p.failures.set(p.failures.get() + 1);
            if p.scribble.get() {
                dst.fill(0xBD);
            }
            return Err(Box::new(Injected(n)));
        }
        self.disk.read(start, dst)
    }
}

impl Img {
    /// Writes an ext2/3 block map; returns i_block. Subtrees without data
    /// get a null pointer unless listed in `force` as (level, first block).
    pub fn block_map(
        &mut self,
        map: &std::collections::BTreeMap<u64, u64>,
        force: &[(u32, u64)],
    ) -> [u8; 60] {
        let p = self.g.bs as u64 / 4;
        let mut ib = [0u8; 60];
        for l in 0..12u64 {
            if let Some(b) = map.get(&l) {
                put32(&mut ib, l as usize * 4, *b as u32);
            }
        }
        let mut base = 12;
        for level in 1..=3u32 {
            if let Some(b) = self.map_subtree(map, force, level, base) {
                put32(&mut ib, 44 + 4 * level as usize, b as u32);
            }
            base += p.pow(level);
        }
        ib
    }
    fn map_subtree(
        &mut self,
        map: &std::collections::BTreeMap<u64, u64>,
        force: &[(u32, u64)],
        level: u32,
        base: u64,
    ) -> Option<u64> {
        let p = self.g.bs as u64 / 4;
        let span = p.pow(level);
        let any = map.range(base..base + span).next().is_some()
            || force.iter().any(|f| f.0 <= level && f.1 >= base && f.1 < base + span);
        if !any {
            return None;
        }
        let blk = self.alloc();
        let mut data = vec![0u8; self.g.bs];
        let sub = span / p;
        if level == 1 {
            for (l, b) in map.range(base..base + span) {
                put32(&mut data, (l - base) as usize * 4, *b as u32);
            }
        } else {
            // only children that can be non-empty
            let mut kids: std::collections::BTreeSet<u64> =
                map.range(base..base + span).map(|(l, _)| (l - base) / sub).collect();
            for f in force {
                if f.0 < level && f.1 >= base && f.1 < base + span {
                    kids.insert((f.1 - base) / sub);
                }
            }
            for i in kids {
                if let Some(b) = self.map_subtree(map, force, level - 1, base + i * sub) {
                    put32(&mut data, i as usize * 4, b as u32);
                }
            }
        }
        self.set_block(blk, data);
        Some(blk)
    }
}
