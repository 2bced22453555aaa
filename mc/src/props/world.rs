//! One filesystem with a bit of everything - files, directories, an index,
//! links, broken objects, optionally a journal with blocks to replay - and a
//! list of operations on it.

use super::p10;
use crate::explore::Fail;
use crate::img::*;
use crate::jbd::{Jnl, LAY, Txn};
use crate::ops::{self, Kind, Obs};
use ext4_view::Ext4;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub struct World {
    pub img: Img,
    pub names: Vec<Vec<u8>>,
    /// results on freshly loaded filesystems
    pub solo: Vec<Obs>,
}

/// Geometries: 64 KiB and 32 KiB blocks have a cache of 8 blocks and no
/// read-ahead, 16 KiB blocks one of 16 filled two at a time, and so on.
pub fn geo(k: usize) -> Geo {
    match k {
        0 => Geo::new(65536).extents().with_csum().b64(),
        1 => {
            let mut g = Geo::new(32768);
            g.inode_size = 128;
            g
        }
        2 => Geo::new(16384).extents(),
        3 => Geo::new(4096).extents().with_csum(),
        4 => Geo::new(1024).extents().with_csum().b64(),
        _ => Geo::new(1024),
    }
}
pub const GEOS: usize = 6;

const BROKEN: [(Kind, &str); 9] = [
    (Kind::Read, "/ext2"),
    (Kind::Meta, "/ext2"),
    (Kind::ReadDir, "/lin2"),
    (Kind::Meta, "/lin2/a"),
    (Kind::Meta, "/lin2/zz"),
    (Kind::ReadDir, "/ht2"),
    (Kind::Meta, "/ht2/N0"),
    (Kind::Meta, "/ht2/N15"),
    (Kind::ReadLink, "/g"),
];

pub fn image(k: usize, journal: bool) -> Img {
    let mut g = geo(k);
    if journal {
        g.compat |= COMPAT_HAS_JOURNAL;
        g.incompat |= INCOMPAT_RECOVER;
        g.journal_inum = 8;
    }
    let l = p10::build(g);
    let mut m = l.img;
    // break the last block of one object of each kind
    if let Some(b) = l.ext2.last() {
        m.block_mut(*b)[0] ^= 0xff;
    }
    put16(m.block_mut(l.lin2[1]), 4, 3);
    put16(m.block_mut(*l.ht2.last().unwrap()), 4, 3);
    if journal {
        let bs = m.g.bs;
        let (b, o) = m.inode_loc(18);
        let g0 = {
            let i = &m.get_block(b)[o..o + 128];
            if get32(i, 0x20) & FL_EXTENTS != 0 { get32(i, 0x28 + 12 + 8) } else { get32(i, 0x28) }
        } as u64;
        let mut lin1 = m.get_block(l.lin[1]);
        let at = lin1.windows(2).position(|w| w == b"zz").unwrap();
        lin1[at] = b'Z';
        m.csum_dir_block(p10::LIN, &mut lin1);
        let p = m.alloc_n(12);
        let phys: Vec<u64> = (p..p + 12).collect();
        let mut i = Ino::file();
        i.size = 12 * bs as u64;
        m.map_blocks(8, i, &phys);
        let j = Jnl::new(bs, phys);
        let t1 = Txn { logs: vec![(g0, pattern(0x5000_0000, bs)), (l.lin[1], lin1)], revokes: vec![] };
        let t2 = Txn { logs: vec![(g0 + 1, pattern(0x5000_0001, bs))], revokes: vec![g0] };
        let mut at = 0;
        for (n, t) in [t1, t2].iter().enumerate() {
            for b in j.txn(j.seq + n as u32, t, LAY) {
                j.put(&mut m, at, &b);
                at += 1;
            }
        }
        let end = vec![0; bs];
        j.put(&mut m, at, &end);
        j.put_sb(&mut m);
        m.finish();
    }
    m
}

pub fn count() -> usize {
    p10::op_count() + BROKEN.len()
}
pub fn name(i: usize) -> String {
    match i.checked_sub(p10::op_count()) {
        None => p10::op_name(i),
        Some(k) => format!("{:?} {}", BROKEN[k].0, BROKEN[k].1),
    }
}
pub fn observe(fs: &Ext4, w: &World, i: usize) -> Obs {
    match i.checked_sub(p10::op_count()) {
        None => p10::observe(fs, &w.img.g, &w.names, i),
        Some(k) => {
            let (kind, p) = BROKEN[k];
            match p.rsplit_once("/N") {
                Some((d, n)) => {
                    let mut v = d.as_bytes().to_vec();
                    v.push(b'/');
                    v.extend(&w.names[n.parse::<usize>().unwrap()]);
                    ops::run(fs, kind, &v)
                }
                None => ops::run(fs, kind, p.as_bytes()),
            }
        }
    }
}

pub fn load(m: &Img) -> Result<(Ext4, Rc<Probe>), Fail> {
    let probe = Rc::new(Probe::default());
    let d = FaultDisk { disk: m.freeze(), probe: probe.clone() };
    let fs = Ext4::load(Box::new(d)).map_err(|e| format!("load: {e}"))?;
    Ok((fs, probe))
}

static WORLDS: Mutex<Vec<Option<Arc<World>>>> = Mutex::new(Vec::new());

pub fn world(k: usize, journal: bool) -> Result<Arc<World>, Fail> {
    let mut v = WORLDS.lock().unwrap_or_else(|e| e.into_inner());
    let slot = 2 * k + journal as usize;
    if v.len() <= slot {
        v.resize(slot + 1, None);
    }
    if v[slot].is_none() {
        let img = image(k, journal);
        let names = p10::ht_names(&img.g);
        let mut w = World { img, names, solo: vec![] };
        for i in 0..count() {
            let (fs, _) = load(&w.img)?;
            let o = observe(&fs, &w, i);
            w.solo.push(o);
        }
        let ok = w.solo.iter().filter(|o| o.is_ok()).count();
        if ok < count() / 2 || ok + 3 > count() {
            return Err(format!("harness: {ok} of {} operations succeed", count()).into());
        }
        v[slot] = Some(Arc::new(w));
    }
    Ok(v[slot].clone().unwrap())
}
