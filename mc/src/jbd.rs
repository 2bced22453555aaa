//! Writer of jbd2 journals (v2 superblock, 64-bit, checksum v3).

use crate::crypto::crc32c;
use crate::img::*;
use std::collections::BTreeMap;

pub const MAGIC: u32 = 0xC03B_3998;
pub const T_DESC: u32 = 1;
pub const T_COMMIT: u32 = 2;
pub const T_SB_V1: u32 = 3;
pub const T_SB_V2: u32 = 4;
pub const T_REVOKE: u32 = 5;
pub const F_ESCAPED: u32 = 1;
pub const F_SAME_UUID: u32 = 2;
pub const F_LAST: u32 = 8;
pub const I_REVOKE: u32 = 1;
pub const I_64BIT: u32 = 2;
pub const I_CSUM_V3: u32 = 0x10;

/// A journal on an image: which physical block holds each journal block,
/// and the contents of its superblock.
#[derive(Clone)]
pub struct Jnl {
    pub bs: usize,
    pub phys: Vec<u64>,
    pub first: u32,
    pub maxlen: u32,
    pub start: u32,
    pub seq: u32,
    pub uuid: [u8; 16],
    pub incompat: u32,
    pub csum_type: u8,
    pub sb_type: u32,
    pub blocksize: u32,
}

/// A transaction: home blocks with new contents, and revoked blocks.
#[derive(Clone, Debug, Default, Hash)]
pub struct Txn {
    pub logs: Vec<(u64, Vec<u8>)>,
    pub revokes: Vec<u64>,
}

/// How a transaction is laid out in the log.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct Lay {
    /// revoke records come before the descriptors
    pub revoke_first: bool,
    /// at most this many tags per descriptor
    pub per_desc: usize,
    /// at most this many records per revoke block
    pub per_revoke: usize,
    /// every tag carries its own uuid
    pub long_tags: bool,
}
pub const LAY: Lay = Lay { revoke_first: true, per_desc: usize::MAX, per_revoke: usize::MAX, long_tags: false };

pub fn header(b: &mut [u8], ty: u32, seq: u32) {
    put32be(b, 0, MAGIC);
    put32be(b, 4, ty);
    put32be(b, 8, seq);
}

impl Jnl {
    pub fn new(bs: usize, phys: Vec<u64>) -> Jnl {
        Jnl {
            bs,
            first: 1,
            maxlen: phys.len() as u32,
            start: 1,
            seq: 7,
            uuid: *b"journal-uuid-\x80\xff\x01",
            incompat: I_REVOKE | I_64BIT | I_CSUM_V3,
            csum_type: 4,
            sb_type: T_SB_V2,
            blocksize: bs as u32,
            phys,
        }
    }
    pub fn seed(&self) -> u32 {
        crc32c(!0, &self.uuid)
    }
    pub fn superblock(&self) -> Vec<u8> {
        let mut b = vec![0; self.bs];
        header(&mut b, self.sb_type, 0);
        put32be(&mut b, 0xc, self.blocksize);
        put32be(&mut b, 0x10, self.maxlen);
        put32be(&mut b, 0x14, self.first);
        put32be(&mut b, 0x18, self.seq);
        put32be(&mut b, 0x1c, self.start);
        put32be(&mut b, 0x28, self.incompat);
        b[0x30..0x40].copy_from_slice(&self.uuid);
        put32be(&mut b, 0x40, 1);
        b[0x50] = self.csum_type;
        Self::csum_sb(&mut b);
        b
    }
    pub fn csum_sb(b: &mut [u8]) {
        put32be(b, 0xfc, 0);
        let c = crc32c(!0, &b[..1024]);
        put32be(b, 0xfc, c);
    }
    pub fn csum_tail(&self, b: &mut [u8]) {
        let n = b.len();
        put32be(b, n - 4, 0);
        let c = crc32c(self.seed(), b);
        put32be(b, n - 4, c);
    }
    pub fn csum_commit(&self, b: &mut [u8]) {
        put32be(b, 16, 0);
        let c = crc32c(self.seed(), b);
        put32be(b, 16, c);
    }
    pub fn desc_cap(&self, long: bool) -> usize {
        let room = self.bs - 12 - 4;
        if long { room / 32 } else { (room - 32) / 16 + 1 }
    }
    pub fn revoke_cap(&self) -> usize {
        (self.bs - 16 - 4) / 8
    }
    pub fn desc(&self, seq: u32, tags: &[(u64, Vec<u8>)], long: bool, flags: u32) -> Vec<u8> {
        let mut b = vec![0; self.bs];
        header(&mut b, T_DESC, seq);
        let mut o = 12;
        for (i, (blk, data)) in tags.iter().enumerate() {
            let mut f = flags;
            if i > 0 && !long {
                f |= F_SAME_UUID;
            }
            if i + 1 == tags.len() {
                f |= F_LAST;
            }
            put32be(&mut b, o, *blk as u32);
            put32be(&mut b, o + 4, f);
            put32be(&mut b, o + 8, (*blk >> 32) as u32);
            let c = crc32c(crc32c(self.seed(), &seq.to_be_bytes()), data);
            put32be(&mut b, o + 12, c);
            o += 16;
            if f & F_SAME_UUID == 0 {
                b[o..o + 16].copy_from_slice(&self.uuid);
                o += 16;
            }
        }
        assert!(o <= self.bs - 4);
        self.csum_tail(&mut b);
        b
    }
    pub fn revoke(&self, seq: u32, blocks: &[u64]) -> Vec<u8> {
        let mut b = vec![0; self.bs];
        header(&mut b, T_REVOKE, seq);
        put32be(&mut b, 12, 16 + 8 * blocks.len() as u32);
        for (i, x) in blocks.iter().enumerate() {
            b[16 + 8 * i..24 + 8 * i].copy_from_slice(&x.to_be_bytes());
        }
        self.csum_tail(&mut b);
        b
    }
    pub fn commit(&self, seq: u32) -> Vec<u8> {
        let mut b = vec![0; self.bs];
        header(&mut b, T_COMMIT, seq);
        // commit time
        b[0x30..0x38].copy_from_slice(&0x0000_0000_6500_0000u64.to_be_bytes());
        self.csum_commit(&mut b);
        b
    }
    /// The journal blocks of a transaction, the commit block last.
    pub fn txn(&self, seq: u32, t: &Txn, lay: Lay) -> Vec<Vec<u8>> {
        let mut logs = vec![];
        for c in t.logs.chunks(lay.per_desc.min(self.desc_cap(lay.long_tags))) {
            logs.push(self.desc(seq, c, lay.long_tags, 0));
            logs.extend(c.iter().map(|x| x.1.clone()));
        }
        let revs: Vec<Vec<u8>> = t
            .revokes
            .chunks(lay.per_revoke.min(self.revoke_cap()))
            .map(|c| self.revoke(seq, c))
            .collect();
        let mut out = if lay.revoke_first { [revs, logs].concat() } else { [logs, revs].concat() };
        out.push(self.commit(seq));
        out
    }
    /// Journal block index that is `k` log positions after the start.
    pub fn pos(&self, k: usize) -> usize {
        let n = (self.maxlen - self.first) as usize;
        self.first as usize + ((self.start - self.first) as usize + k) % n
    }
    /// Stores `b` as log position `k` counted from the start of the log.
    pub fn put(&self, m: &mut Img, k: usize, b: &[u8]) {
        m.set_block(self.phys[self.pos(k)], b.to_vec());
    }
    pub fn put_sb(&self, m: &mut Img) {
        m.set_block(self.phys[0], self.superblock());
    }
}

/// By definition: a block shows its contents from the last transaction that
/// logged it, unless that or a later transaction revoked it.
pub fn replayed(ts: &[Txn]) -> BTreeMap<u64, Vec<u8>> {
    let mut out = BTreeMap::new();
    let all: std::collections::BTreeSet<u64> =
        ts.iter().flat_map(|t| t.logs.iter().map(|l| l.0)).collect();
    for b in all {
        let i = ts.iter().rposition(|t| t.logs.iter().any(|l| l.0 == b)).unwrap();
        if ts[i..].iter().any(|t| t.revokes.contains(&b)) {
            continue;
        }
        let d = &ts[i].logs.iter().rfind(|l| l.0 == b).unwrap().1;
        out.insert(b, d.clone());
    }
    out
}
