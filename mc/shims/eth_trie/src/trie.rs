use crate::{
    nibbles::Nibbles,
    node::{empty_children, Node},
    TrieError, TrieResult, DB,
};
use alloy_primitives::{b256, keccak256, B256};
use alloy_rlp::{Encodable, Header, PayloadView};
use hashbrown::HashMap;
use std::{convert::Infallible, sync::Arc};

pub const EMPTY_ROOT: B256 =
    b256!("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RootWithTrieDiff {
    pub root: B256,
    pub trie_diff: HashMap<B256, Vec<u8>>,
}

pub trait Trie<D: DB> {
    fn get(&self, key: &[u8]) -> TrieResult<Option<Vec<u8>>>;
    fn contains(&self, key: &[u8]) -> TrieResult<bool>;
    fn insert(&mut self, key: &[u8], value: &[u8]) -> TrieResult<()>;
    fn remove(&mut self, key: &[u8]) -> TrieResult<bool>;
    fn root_hash(&mut self) -> TrieResult<B256>;
    fn root_hash_with_changed_nodes(&mut self) -> TrieResult<RootWithTrieDiff>;
    fn get_proof(&mut self, key: &[u8]) -> TrieResult<Vec<Vec<u8>>>;
    fn verify_proof(&self, root: B256, key: &[u8], proof: Vec<Vec<u8>>) -> TrieResult<Option<Vec<u8>>>;
    fn clear_trie_from_db(&mut self) -> TrieResult<()>;
}

#[derive(Debug)]
pub struct EthTrie<D: DB> {
    root: Node,
    root_hash: B256,
    pub db: Arc<D>,
    stale: Vec<B256>,
}

/// Decodes one RLP item from the front of the buffer.
pub fn decode_node(data: &mut &[u8]) -> TrieResult<Node> {
    let raw = *data;
    match Header::decode_raw(data)? {
        PayloadView::String(p) if p.is_empty() => Ok(Node::Empty),
        PayloadView::String(p) if p.len() == 32 => Ok(Node::from_hash(B256::from_slice(p))),
        PayloadView::String(_) => Err(TrieError::InvalidData),
        PayloadView::List(items) => match items.len() {
            2 => {
                let key = Nibbles::try_from_compact(payload(items[0])?)?;
                if key.is_leaf() {
                    Ok(Node::from_leaf(key, payload(items[1])?.to_vec()))
                } else {
                    Ok(Node::from_extension(key, decode_node(&mut &items[1][..])?))
                }
            }
            17 => {
                let mut children = empty_children();
                for (c, i) in children.iter_mut().zip(&items) {
                    *c = decode_node(&mut &i[..])?;
                }
                let value = payload(items[16])?;
                let value = (!value.is_empty()).then(|| value.to_vec());
                Ok(Node::from_branch(children, value))
            }
            _ => {
                let _ = raw;
                Err(TrieError::InvalidData)
            }
        },
    }
}
fn payload(item: &[u8]) -> TrieResult<&[u8]> {
    let mut i = item;
    Ok(Header::decode_bytes(&mut i, false)?)
}

fn encode(node: &Node, sink: &mut dyn FnMut(B256, Vec<u8>)) -> Vec<u8> {
    fn wrap(body: Vec<u8>) -> Vec<u8> {
        let mut out = vec![];
        Header { list: true, payload_length: body.len() }.encode(&mut out);
        out.extend(body);
        out
    }
    match node {
        Node::Empty => vec![0x80],
        Node::Hash(h) => alloy_rlp::encode(h.hash),
        Node::Leaf(l) => {
            let mut b = vec![];
            l.key.encode_compact()[..].encode(&mut b);
            l.value[..].encode(&mut b);
            wrap(b)
        }
        Node::Extension(e) => {
            let e = e.read().unwrap();
            let mut b = vec![];
            e.prefix.encode_compact()[..].encode(&mut b);
            b.extend(reference(&e.node, sink));
            wrap(b)
        }
        Node::Branch(br) => {
            let br = br.read().unwrap();
            let mut b = vec![];
            for c in &br.children {
                b.extend(reference(c, sink));
            }
            br.value.as_deref().unwrap_or(&[]).encode(&mut b);
            wrap(b)
        }
    }
}
fn reference(node: &Node, sink: &mut dyn FnMut(B256, Vec<u8>)) -> Vec<u8> {
    let enc = encode(node, sink);
    if enc.len() < 32 || matches!(node, Node::Hash(_)) {
        return enc;
    }
    let h = keccak256(&enc);
    sink(h, enc);
    alloy_rlp::encode(h)
}

impl<D: DB> EthTrie<D> {
    pub fn new(db: Arc<D>) -> Self {
        Self { root: Node::Empty, root_hash: EMPTY_ROOT, db, stale: vec![] }
    }
    pub fn from(db: Arc<D>, root: B256) -> TrieResult<Self> {
        match db.get(root.as_slice()).map_err(|e| TrieError::DB(e.to_string()))? {
            Some(_) => Ok(Self { root: Node::from_hash(root), root_hash: root, db, stale: vec![] }),
            None => Err(TrieError::InvalidStateRoot),
        }
    }
    pub fn at_root(&self, root_hash: B256) -> Self {
        Self { root: Node::from_hash(root_hash), root_hash, db: self.db.clone(), stale: vec![] }
    }
    pub fn iter(&self) -> TrieIterator<'_, D> {
        TrieIterator { trie: self, stack: vec![(vec![], self.root.clone())] }
    }

    fn load(&self, hash: B256) -> TrieResult<(Node, Vec<u8>)> {
        match self.db.get(hash.as_slice()).map_err(|e| TrieError::DB(e.to_string()))? {
            Some(d) => Ok((decode_node(&mut &d[..])?, d)),
            None => Err(TrieError::MissingTrieNode {
                node_hash: hash,
                traversed: None,
                root_hash: Some(self.root_hash),
                err_key: None,
            }),
        }
    }
    fn get_at(&self, node: &Node, path: &[u8]) -> TrieResult<Option<Vec<u8>>> {
        match node {
            Node::Empty => Ok(None),
            Node::Leaf(l) => {
                let d = l.key.get_data();
                Ok((&d[..d.len() - 1] == path).then(|| l.value.clone()))
            }
            Node::Extension(e) => {
                let e = e.read().unwrap();
                match path.strip_prefix(e.prefix.get_data()) {
                    Some(rest) => self.get_at(&e.node, rest),
                    None => Ok(None),
                }
            }
            Node::Branch(b) => {
                let b = b.read().unwrap();
                match path.split_first() {
                    Some((i, rest)) => self.get_at(&b.children[*i as usize], rest),
                    None => Ok(b.value.clone()),
                }
            }
            Node::Hash(h) => {
                let (n, _) = self.load(h.hash)?;
                self.get_at(&n, path)
            }
        }
    }
    fn leaf(path: &[u8], value: Vec<u8>) -> Node {
        let mut n = Nibbles::from_hex(path);
        n.push(16);
        Node::from_leaf(n, value)
    }
    fn put(b: &mut ([Node; 16], Option<Vec<u8>>), path: &[u8], node: impl FnOnce(&[u8]) -> Node, value: Option<Vec<u8>>) {
        match path.split_first() {
            Some((i, rest)) => b.0[*i as usize] = node(rest),
            None => b.1 = value,
        }
    }
    fn insert_at(&mut self, node: Node, path: &[u8], value: Vec<u8>) -> TrieResult<Node> {
        Ok(match node {
            Node::Empty => Self::leaf(path, value),
            Node::Leaf(l) => {
                let d = l.key.get_data();
                let old = &d[..d.len() - 1];
                if old == path {
                    return Ok(Self::leaf(path, value));
                }
                let n = old.iter().zip(path).take_while(|(a, b)| a == b).count();
                let mut b = (empty_children(), None);
                Self::put(&mut b, &old[n..], |r| Self::leaf(r, l.value.clone()), Some(l.value.clone()));
                Self::put(&mut b, &path[n..], |r| Self::leaf(r, value.clone()), Some(value.clone()));
                let br = Node::from_branch(b.0, b.1);
                if n == 0 { br } else { Node::from_extension(Nibbles::from_hex(&path[..n]), br) }
            }
            Node::Extension(e) => {
                let (prefix, sub) = {
                    let e = e.read().unwrap();
                    (e.prefix.get_data().to_vec(), e.node.clone())
                };
                let n = prefix.iter().zip(path).take_while(|(a, b)| a == b).count();
                if n == prefix.len() {
                    let sub = self.insert_at(sub, &path[n..], value)?;
                    return Ok(Node::from_extension(Nibbles::from_hex(&prefix), sub));
                }
                let mut b = (empty_children(), None);
                b.0[prefix[n] as usize] = if n + 1 == prefix.len() {
                    sub
                } else {
                    Node::from_extension(Nibbles::from_hex(&prefix[n + 1..]), sub)
                };
                Self::put(&mut b, &path[n..], |r| Self::leaf(r, value.clone()), Some(value.clone()));
                let br = Node::from_branch(b.0, b.1);
                if n == 0 { br } else { Node::from_extension(Nibbles::from_hex(&path[..n]), br) }
            }
            Node::Branch(b) => {
                let (mut children, mut v) = {
                    let b = b.read().unwrap();
                    (b.children.clone(), b.value.clone())
                };
                match path.split_first() {
                    Some((i, rest)) => {
                        let i = *i as usize;
                        children[i] = self.insert_at(children[i].clone(), rest, value)?;
                    }
                    None => v = Some(value),
                }
                Node::from_branch(children, v)
            }
            Node::Hash(h) => {
                let (n, _) = self.load(h.hash)?;
                self.stale.push(h.hash);
                self.insert_at(n, path, value)?
            }
        })
    }
    fn remove_at(&mut self, node: Node, path: &[u8]) -> TrieResult<(Node, bool)> {
        match node {
            Node::Empty => Ok((Node::Empty, false)),
            Node::Leaf(l) => {
                let d = l.key.get_data();
                if &d[..d.len() - 1] == path {
                    Ok((Node::Empty, true))
                } else {
                    Ok((Node::Leaf(l), false))
                }
            }
            Node::Extension(e) => {
                let (prefix, sub) = {
                    let e = e.read().unwrap();
                    (e.prefix.clone(), e.node.clone())
                };
                match path.strip_prefix(prefix.get_data()) {
                    Some(rest) => {
                        let (sub, removed) = self.remove_at(sub, rest)?;
                        if !removed {
                            return Ok((Node::Extension(e), false));
                        }
                        Ok((self.normalise_extension(prefix, sub)?, true))
                    }
                    None => Ok((Node::Extension(e), false)),
                }
            }
            Node::Branch(b) => {
                let (mut children, mut v) = {
                    let b = b.read().unwrap();
                    (b.children.clone(), b.value.clone())
                };
                let removed = match path.split_first() {
                    Some((i, rest)) => {
                        let i = *i as usize;
                        let (c, r) = self.remove_at(children[i].clone(), rest)?;
                        children[i] = c;
                        r
                    }
                    None => v.take().is_some(),
                };
                if !removed {
                    return Ok((Node::Branch(b), false));
                }
                let used: Vec<usize> =
                    (0..16).filter(|i| !matches!(children[*i], Node::Empty)).collect();
                Ok((
                    match (used.len(), v) {
                        (0, None) => Node::Empty,
                        (0, Some(v)) => Self::leaf(&[], v),
                        (1, None) => {
                            let i = used[0];
                            self.normalise_extension(
                                Nibbles::from_hex(&[i as u8]),
                                children[i].clone(),
                            )?
                        }
                        (_, v) => Node::from_branch(children, v),
                    },
                    true,
                ))
            }
            Node::Hash(h) => {
                let (n, _) = self.load(h.hash)?;
                let (n, removed) = self.remove_at(n, path)?;
                if removed {
                    self.stale.push(h.hash);
                    Ok((n, true))
                } else {
                    Ok((Node::Hash(h), false))
                }
            }
        }
    }
    fn normalise_extension(&mut self, prefix: Nibbles, sub: Node) -> TrieResult<Node> {
        Ok(match sub {
            Node::Empty => Node::Empty,
            Node::Leaf(l) => Node::from_leaf(prefix.join(&l.key), l.value),
            Node::Extension(e) => {
                let e = e.read().unwrap();
                Node::from_extension(prefix.join(&e.prefix), e.node.clone())
            }
            Node::Branch(_) => Node::from_extension(prefix, sub),
            Node::Hash(h) => {
                let (n, _) = self.load(h.hash)?;
                if matches!(n, Node::Branch(_)) {
                    Node::from_extension(prefix, Node::Hash(h))
                } else {
                    self.stale.push(h.hash);
                    self.normalise_extension(prefix, n)?
                }
            }
        })
    }
    fn path(key: &[u8]) -> Vec<u8> {
        key.iter().flat_map(|b| [b >> 4, b & 15]).collect()
    }
    fn commit(&mut self) -> TrieResult<RootWithTrieDiff> {
        let mut diff = HashMap::new();
        if let Node::Hash(h) = &self.root {
            return Ok(RootWithTrieDiff { root: h.hash, trie_diff: diff });
        }
        let enc = encode(&self.root, &mut |h, d| {
            diff.insert(h, d);
        });
        let root = keccak256(&enc);
        diff.insert(root, enc);
        for (h, d) in &diff {
            self.db
                .insert(h.as_slice(), d.clone())
                .map_err(|e| TrieError::DB(e.to_string()))?;
        }
        for h in self.stale.drain(..) {
            if !diff.contains_key(&h) {
                self.db.remove(h.as_slice()).map_err(|e| TrieError::DB(e.to_string()))?;
            }
        }
        self.root_hash = root;
        self.root = if root == EMPTY_ROOT { Node::Empty } else { Node::from_hash(root) };
        Ok(RootWithTrieDiff { root, trie_diff: diff })
    }
    fn proof_at(&self, node: &Node, path: &[u8], out: &mut Vec<Vec<u8>>) -> TrieResult<()> {
        match node {
            Node::Empty | Node::Leaf(_) => Ok(()),
            Node::Extension(e) => {
                let e = e.read().unwrap();
                match path.strip_prefix(e.prefix.get_data()) {
                    Some(rest) => self.proof_at(&e.node, rest, out),
                    None => Ok(()),
                }
            }
            Node::Branch(b) => match path.split_first() {
                Some((i, rest)) => self.proof_at(&b.read().unwrap().children[*i as usize], rest, out),
                None => Ok(()),
            },
            Node::Hash(h) => {
                let (n, d) = self.load(h.hash)?;
                out.push(d);
                self.proof_at(&n, path, out)
            }
        }
    }
    fn clear_at(&self, node: &Node) -> TrieResult<()> {
        match node {
            Node::Empty | Node::Leaf(_) => Ok(()),
            Node::Extension(e) => self.clear_at(&e.read().unwrap().node),
            Node::Branch(b) => {
                b.read().unwrap().children.iter().try_for_each(|c| self.clear_at(c))
            }
            Node::Hash(h) => {
                let (n, _) = self.load(h.hash)?;
                self.clear_at(&n)?;
                self.db.remove(h.hash.as_slice()).map_err(|e| TrieError::DB(e.to_string()))
            }
        }
    }
}

impl<D: DB> Trie<D> for EthTrie<D> {
    fn get(&self, key: &[u8]) -> TrieResult<Option<Vec<u8>>> {
        self.get_at(&self.root, &Self::path(key))
    }
    fn contains(&self, key: &[u8]) -> TrieResult<bool> {
        Ok(self.get(key)?.is_some_and(|v| !v.is_empty()))
    }
    fn insert(&mut self, key: &[u8], value: &[u8]) -> TrieResult<()> {
        if value.is_empty() {
            self.remove(key)?;
            return Ok(());
        }
        let root = self.root.clone();
        self.root = self.insert_at(root, &Self::path(key), value.to_vec())?;
        Ok(())
    }
    fn remove(&mut self, key: &[u8]) -> TrieResult<bool> {
        let root = self.root.clone();
        let (n, removed) = self.remove_at(root, &Self::path(key))?;
        self.root = n;
        Ok(removed)
    }
    fn root_hash(&mut self) -> TrieResult<B256> {
        Ok(self.commit()?.root)
    }
    fn root_hash_with_changed_nodes(&mut self) -> TrieResult<RootWithTrieDiff> {
        self.commit()
    }
    fn get_proof(&mut self, key: &[u8]) -> TrieResult<Vec<Vec<u8>>> {
        self.commit()?;
        let mut out = vec![];
        self.proof_at(&self.root, &Self::path(key), &mut out)?;
        Ok(out)
    }
    fn verify_proof(&self, root: B256, key: &[u8], proof: Vec<Vec<u8>>) -> TrieResult<Option<Vec<u8>>> {
        #[derive(Debug)]
        struct Mem(HashMap<Vec<u8>, Vec<u8>>);
        impl DB for Mem {
            type Error = Infallible;
            fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Infallible> {
                Ok(self.0.get(key).cloned())
            }
            fn insert(&self, _: &[u8], _: Vec<u8>) -> Result<(), Infallible> {
                Ok(())
            }
            fn remove(&self, _: &[u8]) -> Result<(), Infallible> {
                Ok(())
            }
            fn flush(&self) -> Result<(), Infallible> {
                Ok(())
            }
        }
        let mut m = HashMap::new();
        for node in proof {
            let h = keccak256(&node);
            if h == root || node.len() >= 32 {
                m.insert(h.to_vec(), node);
            }
        }
        let trie = EthTrie::from(Arc::new(Mem(m)), root).map_err(|_| TrieError::InvalidProof)?;
        trie.get(key).map_err(|_| TrieError::InvalidProof)
    }
    fn clear_trie_from_db(&mut self) -> TrieResult<()> {
        self.clear_at(&self.root)?;
        self.root = Node::Empty;
        self.root_hash = EMPTY_ROOT;
        Ok(())
    }
}

pub struct TrieIterator<'a, D: DB> {
    trie: &'a EthTrie<D>,
    stack: Vec<(Vec<u8>, Node)>,
}
impl<D: DB> Iterator for TrieIterator<'_, D> {
    type Item = TrieResult<(Vec<u8>, Vec<u8>)>;
    fn next(&mut self) -> Option<Self::Item> {
        let pack = |p: &[u8]| -> Vec<u8> { p.chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect() };
        while let Some((mut path, node)) = self.stack.pop() {
            match node {
                Node::Empty => {}
                Node::Leaf(l) => {
                    let d = l.key.get_data();
                    path.extend(&d[..d.len() - 1]);
                    return Some(Ok((pack(&path), l.value)));
                }
                Node::Extension(e) => {
                    let e = e.read().unwrap();
                    path.extend(e.prefix.get_data());
                    self.stack.push((path, e.node.clone()));
                }
                Node::Branch(b) => {
                    let b = b.read().unwrap();
                    for i in (0..16).rev() {
                        let mut p = path.clone();
                        p.push(i as u8);
                        self.stack.push((p, b.children[i].clone()));
                    }
                    if let Some(v) = &b.value {
                        return Some(Ok((pack(&path), v.clone())));
                    }
                }
                Node::Hash(h) => match self.trie.load(h.hash) {
                    Ok((n, _)) => self.stack.push((path, n)),
                    Err(e) => return Some(Err(e)),
                },
            }
        }
        None
    }
}
