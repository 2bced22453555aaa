//! Reference model of Linux path resolution over a small file tree.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir(BTreeMap<Vec<u8>, u32>, u32), // entries, parent
    File,
    Link(Vec<u8>),
}

#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub nodes: BTreeMap<u32, Node>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    NotAbsolute,
    NotFound,
    NotADirectory,
    TooManySymlinks,
    PathTooLong,
}

impl E {
    pub fn name(self) -> String {
        format!("{self:?}")
    }
}

fn split(p: &[u8]) -> (Vec<Vec<u8>>, bool) {
    let v: Vec<Vec<u8>> =
        p.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    (v, p.last() == Some(&b'/'))
}

impl Tree {
    pub fn new() -> Tree {
        let mut t = Tree::default();
        t.nodes.insert(2, Node::Dir(BTreeMap::new(), 2));
        t
    }
    pub fn add(&mut self, parent: u32, name: &[u8], ino: u32, n: Node) {
        let Some(Node::Dir(d, _)) = self.nodes.get_mut(&parent) else { panic!() };
        assert!(d.insert(name.to_vec(), ino).is_none());
        self.nodes.insert(ino, n);
    }
    pub fn dir(&mut self, parent: u32, name: &[u8], ino: u32) {
        self.add(parent, name, ino, Node::Dir(BTreeMap::new(), parent));
    }

    /// Result: inode and canonical path.
    pub fn resolve(&self, path: &[u8], follow_last: bool) -> Result<(u32, Vec<u8>), E> {
        const MAX: usize = 4096;
        if path.first() != Some(&b'/') {
            return Err(E::NotAbsolute);
        }
        if path.len() > MAX {
            return Err(E::PathTooLong);
        }
        let (comps, mut slash) = split(path);
        // remaining components, next one last
        let mut todo: Vec<Vec<u8>> = comps.into_iter().rev().collect();
        let mut at: Vec<(u32, Vec<u8>)> = vec![];
        let mut cur = 2u32;
        let mut links = 0;
        while let Some(c) = todo.pop() {
            let Some(Node::Dir(ents, parent)) = self.nodes.get(&cur) else {
                return Err(E::NotADirectory);
            };
            if c == b"." {
                continue;
            }
            if c == b".." {
                cur = *parent;
                at.pop();
                continue;
            }
            let Some(&next) = ents.get(&c) else { return Err(E::NotFound) };
            let last = todo.is_empty();
            match &self.nodes[&next] {
                Node::Link(target) if follow_last || !last => {
                    links += 1;
                    if links > 40 {
                        return Err(E::TooManySymlinks);
                    }
                    // length of the path as it now reads
                    let abs = target[0] == b'/';
                    let prefix = if abs { 0 } else { 1 + at.iter().map(|x| x.1.len() + 1).sum::<usize>() };
                    let rest: usize = todo.iter().map(|x| x.len() + 1).sum::<usize>()
                        + slash as usize;
                    if prefix + target.len() + rest > MAX {
                        return Err(E::PathTooLong);
                    }
                    let (tc, ts) = split(target);
                    if last && ts {
                        slash = true;
                    }
                    todo.extend(tc.into_iter().rev());
                    if abs {
                        cur = 2;
                        at.clear();
                    }
                }
                _ => {
                    cur = next;
                    at.push((next, c));
                }
            }
        }
        if slash && !matches!(self.nodes[&cur], Node::Dir(..)) {
            return Err(E::NotADirectory);
        }
        let mut p = vec![];
        for (_, n) in &at {
            p.push(b'/');
            p.extend_from_slice(n);
        }
        if p.is_empty() {
            p.push(b'/');
        }
        Ok((cur, p))
    }
}
