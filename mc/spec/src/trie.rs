//! Merkle Patricia tries over nibble paths.
use crate::{bytes, num, rlp, Rlp};
use std::collections::BTreeMap;
use tiny_keccak::{Hasher, Keccak};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut h = Keccak::v256();
    h.update(b);
    let mut out = [0; 32];
    h.finalize(&mut out);
    out
}

pub fn nibbles(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

/// Path to value.
pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Leaf(Vec<u8>, Vec<u8>),
    Extension(Vec<u8>, Box<Node>),
    Branch(Vec<Option<Node>>, Option<Vec<u8>>),
}

/// What one encoded node says about a path.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Empty,
    Value(Vec<u8>),
    /// The hash of the node to carry on with, and how much of the path is used up.
    Next([u8; 32], usize),
}

pub fn build(items: &Map) -> Option<Node> {
    let items: Vec<(&[u8], &[u8])> = items.iter().map(|(k, v)| (&k[..], &v[..])).collect();
    build_at(&items)
}

fn build_at(items: &[(&[u8], &[u8])]) -> Option<Node> {
    let (first, rest) = items.split_first()?;
    if rest.is_empty() {
        return Some(Node::Leaf(first.0.to_vec(), first.1.to_vec()));
    }
    let shared = (0..first.0.len()).take_while(|n| rest.iter().all(|i| i.0.get(*n) == Some(&first.0[*n]))).count();
    if shared > 0 {
        let cut: Vec<_> = items.iter().map(|(k, v)| (&k[shared..], *v)).collect();
        return Some(Node::Extension(first.0[..shared].to_vec(), Box::new(build_at(&cut)?)));
    }
    let children = (0..16)
        .map(|n| {
            let cut: Vec<_> = items.iter().filter(|(k, _)| k.first() == Some(&n)).map(|(k, v)| (&k[1..], *v)).collect();
            build_at(&cut)
        })
        .collect();
    let value = items.iter().find(|(k, _)| k.is_empty()).map(|(_, v)| v.to_vec());
    Some(Node::Branch(children, value))
}

fn compact(path: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 2 } else { 0 };
    let all: Vec<u8> = if path.len() % 2 == 0 { [&[flag, 0], path].concat() } else { [&[flag + 1], path].concat() };
    all.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

impl Node {
    fn item(&self) -> Rlp {
        match self {
            Node::Leaf(path, value) => Rlp::List(vec![bytes(&compact(path, true)), bytes(value)]),
            Node::Extension(path, next) => Rlp::List(vec![bytes(&compact(path, false)), next.reference()]),
            Node::Branch(children, value) => {
                let mut l: Vec<Rlp> = children.iter().map(|c| c.as_ref().map_or(bytes(&[]), |c| c.reference())).collect();
                l.push(bytes(value.as_deref().unwrap_or(&[])));
                Rlp::List(l)
            }
        }
    }
    /// The node itself if it is short, otherwise its hash.
    fn reference(&self) -> Rlp {
        let raw = self.encode();
        if raw.len() < 32 {
            self.item()
        } else {
            bytes(&keccak(&raw))
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        rlp(&self.item())
    }
    pub fn hash(&self) -> [u8; 32] {
        keccak(&self.encode())
    }
    /// Where a path leads inside of this encoded node, including the short nodes within it.
    pub fn step(&self, path: &[u8]) -> Step {
        self.step_from(path, 0)
    }
    fn step_from(&self, path: &[u8], used: usize) -> Step {
        let follow = |n: &Node, used: usize| {
            if n.encode().len() < 32 {
                n.step_from(path, used)
            } else {
                Step::Next(n.hash(), used)
            }
        };
        let rest = &path[used..];
        match self {
            Node::Leaf(p, v) if p == rest => Step::Value(v.clone()),
            Node::Leaf(..) => Step::Empty,
            Node::Extension(p, n) if rest.starts_with(p) => follow(n, used + p.len()),
            Node::Extension(..) => Step::Empty,
            Node::Branch(children, value) => match rest.first() {
                None => value.clone().map_or(Step::Empty, Step::Value),
                Some(n) => children[*n as usize].as_ref().map_or(Step::Empty, |c| follow(c, used + 1)),
            },
        }
    }
    /// All separately encoded nodes with their paths and the encoded nodes leading to them, the
    /// node itself included.
    pub fn all(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>, Node)> {
        let mut out = vec![];
        self.visit(&mut vec![], &mut vec![], true, &mut out);
        out
    }
    fn visit(&self, path: &mut Vec<u8>, above: &mut Vec<Vec<u8>>, root: bool, out: &mut Vec<(Vec<u8>, Vec<Vec<u8>>, Node)>) {
        let raw = self.encode();
        let own = root || raw.len() >= 32;
        if own {
            above.push(raw);
            out.push((path.clone(), above.clone(), self.clone()));
        }
        match self {
            Node::Leaf(..) => {}
            Node::Extension(p, n) => {
                path.extend(p);
                n.visit(path, above, false, out);
                path.truncate(path.len() - p.len());
            }
            Node::Branch(children, _) => {
                for (i, c) in children.iter().enumerate() {
                    if let Some(c) = c {
                        path.push(i as u8);
                        c.visit(path, above, false, out);
                        path.pop();
                    }
                }
            }
        }
        if own {
            above.pop();
        }
    }
}

/// Root of the trie that maps the encoded position of each item to the item.
pub fn ordered_root(items: &[Vec<u8>]) -> [u8; 32] {
    let map = items.iter().enumerate().map(|(i, v)| (nibbles(&rlp(&num(i as u128))), v.clone())).collect();
    build(&map).map_or(keccak(&[0x80]), |n| n.hash())
}

// ---- reading ----------------------------------------------------------------------------------

/// Splits one RLP item off: whether it is a list, its payload, and what follows.
fn split(b: &[u8]) -> Option<(bool, &[u8], &[u8])> {
    let (first, rest) = b.split_first()?;
    let cut = |list: bool, from: &'_ [u8], n: usize| -> Option<(bool, usize, usize)> { (from.len() >= n).then_some((list, b.len() - from.len(), n)) };
    let (list, at, n) = match *first {
        0..=0x7f => (false, 0, 1),
        0x80..=0xb7 => cut(false, rest, (*first - 0x80) as usize)?,
        0xc0..=0xf7 => cut(true, rest, (*first - 0xc0) as usize)?,
        _ => {
            let (list, k) = if *first < 0xc0 { (false, *first - 0xb7) } else { (true, *first - 0xf7) };
            let k = k as usize;
            if rest.len() < k || k > 4 || rest[0] == 0 {
                return None;
            }
            let n = rest[..k].iter().fold(0usize, |n, b| n << 8 | *b as usize);
            if n < 56 {
                return None;
            }
            cut(list, &rest[k..], n)?
        }
    };
    if !list && n == 1 && at == 1 && b[1] < 0x80 {
        return None;
    }
    Some((list, &b[at..at + n], &b[at + n..]))
}

fn items(mut b: &[u8]) -> Option<Vec<(bool, &[u8], &[u8])>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (list, payload, rest) = split(b)?;
        out.push((list, payload, &b[..b.len() - rest.len()]));
        b = rest;
    }
    Some(out)
}

/// Follows `path` through an encoded node. `None`: the bytes are not a node.
pub fn read(raw: &[u8], path: &[u8]) -> Option<Step> {
    read_from(raw, path, 0)
}

fn read_from(raw: &[u8], path: &[u8], used: usize) -> Option<Step> {
    let (list, payload, rest) = split(raw)?;
    if !list || !rest.is_empty() {
        return None;
    }
    let l = items(payload)?;
    let follow = |i: &(bool, &[u8], &[u8]), used: usize| -> Option<Step> {
        match i {
            (true, _, whole) => read_from(whole, path, used),
            (false, [], _) => Some(Step::Empty),
            (false, h, _) => Some(Step::Next((*h).try_into().ok()?, used)),
        }
    };
    match l.len() {
        2 => {
            let (false, key, _) = l[0] else { return None };
            let key = nibbles(key);
            let (flag, own) = match key.first()? {
                f @ (0 | 2) if key[1] == 0 => (*f, &key[2..]),
                f @ (1 | 3) => (*f - 1, &key[1..]),
                _ => return None,
            };
            if flag == 2 {
                let (false, value, _) = l[1] else { return None };
                return Some(if own == &path[used..] { Step::Value(value.to_vec()) } else { Step::Empty });
            }
            if path[used..].starts_with(own) {
                follow(&l[1], used + own.len())
            } else {
                Some(Step::Empty)
            }
        }
        17 if l[16].0 || l[..16].iter().any(|i| !i.0 && !matches!(i.1.len(), 0 | 32) || i.0 && read_from(i.2, &[], 0).is_none()) => None,
        17 => match path.get(used) {
            None => Some(match l[16] {
                (false, [], _) => Step::Empty,
                (false, v, _) => Step::Value(v.to_vec()),
                _ => return None,
            }),
            Some(n) => follow(&l[*n as usize], used + 1),
        },
        _ => None,
    }
}
