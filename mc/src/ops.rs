//! Operations on the library's public API and their observations.

use ext4_view::{Ext4, Ext4Error, FileType, Metadata, Path};
use std::hash::{Hash, Hasher};

pub fn err_name(e: &Ext4Error) -> String {
    match e {
        Ext4Error::NotAbsolute => "NotAbsolute".into(),
        Ext4Error::NotASymlink => "NotASymlink".into(),
        Ext4Error::NotFound => "NotFound".into(),
        Ext4Error::IsADirectory => "IsADirectory".into(),
        Ext4Error::NotADirectory => "NotADirectory".into(),
        Ext4Error::IsASpecialFile => "IsASpecialFile".into(),
        Ext4Error::FileTooLarge => "FileTooLarge".into(),
        Ext4Error::NotUtf8 => "NotUtf8".into(),
        Ext4Error::MalformedPath => "MalformedPath".into(),
        Ext4Error::PathTooLong => "PathTooLong".into(),
        Ext4Error::TooManySymlinks => "TooManySymlinks".into(),
        Ext4Error::Encrypted => "Encrypted".into(),
        Ext4Error::Io(e) => format!("Io({e})"),
        Ext4Error::Incompatible(_) => "Incompatible".into(),
        Ext4Error::Corrupt(_) => "Corrupt".into(),
        _ => "Other".into(),
    }
}

pub fn ft_name(f: FileType) -> &'static str {
    match f {
        FileType::BlockDevice => "blk",
        FileType::CharacterDevice => "chr",
        FileType::Directory => "dir",
        FileType::Fifo => "fifo",
        FileType::Regular => "reg",
        FileType::Socket => "sock",
        FileType::Symlink => "lnk",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Meta {
    pub ft: &'static str,
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub len: u64,
}
pub fn meta(m: &Metadata) -> Meta {
    Meta { ft: ft_name(m.file_type()), mode: m.mode(), uid: m.uid(), gid: m.gid(), len: m.len() }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Unit,
    Bool(bool),
    Bytes(Vec<u8>),
    Meta(Meta),
    /// name, path, recorded type, metadata
    List(Vec<(Vec<u8>, Vec<u8>, Result<&'static str, String>, Result<Meta, String>)>),
}
pub type Obs = Result<Val, String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Exists,
    Meta,
    SymMeta,
    Canon,
    ReadLink,
    Read,
    ReadStr,
    Open,
    ReadDir,
}
pub const KINDS: [Kind; 9] = [
    Kind::Exists,
    Kind::Meta,
    Kind::SymMeta,
    Kind::Canon,
    Kind::ReadLink,
    Kind::Read,
    Kind::ReadStr,
    Kind::Open,
    Kind::ReadDir,
];

/// Entries in one listing, at most (guards harness memory on corrupt images).
pub const LIST_CAP: usize = 100_000;

pub fn list(
    fs: &Ext4,
    p: Path<'_>,
) -> Result<Vec<(Vec<u8>, Vec<u8>, Result<&'static str, String>, Result<Meta, String>)>, String> {
    let rd = fs.read_dir(p).map_err(|e| err_name(&e))?;
    let mut v = vec![];
    for e in rd {
        let e = e.map_err(|e| err_name(&e))?;
        v.push((
            e.file_name().as_ref().to_vec(),
            e.path().as_ref().to_vec(),
            e.file_type().map(ft_name).map_err(|e| err_name(&e)),
            e.metadata().map(|m| meta(&m)).map_err(|e| err_name(&e)),
        ));
        if v.len() > LIST_CAP {
            return Err("harness: listing too long".into());
        }
    }
    Ok(v)
}

pub fn run(fs: &Ext4, k: Kind, path: &[u8]) -> Obs {
    let p = match Path::try_from(path) {
        Ok(p) => p,
        Err(_) => return run_raw(fs, k, path),
    };
    let e = |e: Ext4Error| err_name(&e);
    match k {
        Kind::Exists => fs.exists(p).map(Val::Bool).map_err(e),
        Kind::Meta => fs.metadata(p).map(|m| Val::Meta(meta(&m))).map_err(e),
        Kind::SymMeta => fs.symlink_metadata(p).map(|m| Val::Meta(meta(&m))).map_err(e),
        Kind::Canon => fs.canonicalize(p).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
        Kind::ReadLink => fs.read_link(p).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
        Kind::Read => fs.read(p).map(Val::Bytes).map_err(e),
        Kind::ReadStr => {
            fs.read_to_string(p).map(|s| Val::Bytes(s.into_bytes())).map_err(e)
        }
        Kind::Open => fs.open(p).map(|f| Val::Meta(meta(f.metadata()))).map_err(e),
        Kind::ReadDir => list(fs, p).map(Val::List),
    }
}

/// Same, passing the raw bytes (for malformed paths).
fn run_raw(fs: &Ext4, k: Kind, p: &[u8]) -> Obs {
    let e = |e: Ext4Error| err_name(&e);
    match k {
        Kind::Exists => fs.exists(p).map(Val::Bool).map_err(e),
        Kind::Meta => fs.metadata(p).map(|m| Val::Meta(meta(&m))).map_err(e),
        Kind::SymMeta => fs.symlink_metadata(p).map(|m| Val::Meta(meta(&m))).map_err(e),
        Kind::Canon => fs.canonicalize(p).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
        Kind::ReadLink => fs.read_link(p).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(e),
        Kind::Read => fs.read(p).map(Val::Bytes).map_err(e),
        Kind::ReadStr => fs.read_to_string(p).map(|s| Val::Bytes(s.into_bytes())).map_err(e),
        Kind::Open => fs.open(p).map(|f| Val::Meta(meta(f.metadata()))).map_err(e),
        Kind::ReadDir => fs.read_dir(p).map(|_| Val::Unit).map_err(e),
    }
}

pub fn obs_hash(o: &Obs) -> u64 {
    let mut h = crate::explore::Fx::default();
    o.hash(&mut h);
    h.finish()
}

/// Short rendering of an observation for reports.
pub fn show(o: &Obs) -> String {
    match o {
        Ok(Val::Bytes(b)) if b.len() > 48 => {
            format!("Ok({} bytes, hash {:x})", b.len(), crate::explore::hash_of(b))
        }
        Ok(Val::Bytes(b)) => format!("Ok({:?})", String::from_utf8_lossy(b)),
        Ok(Val::List(l)) => {
            let n: Vec<String> = l
                .iter()
                .map(|x| format!("{}:{:?}:{:?}", String::from_utf8_lossy(&x.0), x.2, x.3))
                .collect();
            format!("Ok([{}])", n.join(", "))
        }
        o => format!("{o:?}"),
    }
}

pub fn diff_at(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} instead of {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("byte {i} is {:#04x} instead of {:#04x}", a[i], b[i]),
        None => "equal".into(),
    }
}
