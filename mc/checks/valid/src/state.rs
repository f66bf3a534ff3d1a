//! Trie proofs of the state network and the walk through single trie nodes.
use crate::headers::block_on;
use alloy::primitives::B256;
use ethportal_api::{
    types::{
        content_key::state::{AccountTrieNodeKey, ContractBytecodeKey, ContractStorageTrieNodeKey},
        content_value::state::{AccountTrieNodeWithProof, ContractBytecode, ContractBytecodeWithProof, ContractStorageTrieNodeWithProof, TrieNode},
        state_trie::{
            nibbles::Nibbles,
            trie_traversal::{NodeTraversal, TraversalResult},
            EncodedTrieNode, TrieProof,
        },
    },
    ContentValue, StateContentKey, StateContentValue,
};
use spec::{
    bytes, num, rlp,
    trie::{build, keccak, nibbles, read, Map, Node, Step},
    Rlp,
};
use std::sync::Arc;
use tokio::sync::RwLock;
use trin_state::validation::StateValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

type Hash = [u8; 32];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Account,
    Storage,
    Code,
}
use Kind::*;

/// A key with a value, as plain data.
#[derive(Clone, Debug)]
struct Item {
    kind: Kind,
    addr: Hash,
    path: Vec<u8>,
    hash: Hash,
    account: Vec<Vec<u8>>,
    storage: Vec<Vec<u8>>,
    code: Vec<u8>,
}

impl Item {
    fn key(&self) -> StateContentKey {
        let path = Nibbles::try_from_unpacked_nibbles(&self.path).expect("paths of the alphabet are short enough");
        let (address_hash, node_hash) = (B256::from(self.addr), B256::from(self.hash));
        match self.kind {
            Account => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash }),
            Storage => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash, path, node_hash }),
            Code => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash, code_hash: node_hash }),
        }
    }
    fn value(&self, kind: Kind) -> StateContentValue {
        let proof = |l: &[Vec<u8>]| TrieProof::from(l.iter().map(|n| EncodedTrieNode::from(n.clone())).collect::<Vec<_>>());
        let block_hash = B256::repeat_byte(3);
        match kind {
            Account => StateContentValue::AccountTrieNodeWithProof(AccountTrieNodeWithProof { proof: proof(&self.account), block_hash }),
            Storage => StateContentValue::ContractStorageTrieNodeWithProof(ContractStorageTrieNodeWithProof {
                storage_proof: proof(&self.storage),
                account_proof: proof(&self.account),
                block_hash,
            }),
            Code => StateContentValue::ContractBytecodeWithProof(ContractBytecodeWithProof {
                code: self.code.clone().into(),
                account_proof: proof(&self.account),
                block_hash,
            }),
        }
    }
}

/// Follows a proof. `None`: a node on the way is malformed. `Some(None)`: it does not link.
/// Otherwise how much of the path is used before the last node.
fn follow(proof: &[Vec<u8>], path: &[u8]) -> Option<Option<usize>> {
    let mut used = 0;
    for pair in proof.windows(2) {
        match read(&pair[0], &path[used..])? {
            Step::Next(h, n) if h == keccak(&pair[1]) => used += n,
            _ => return Some(None),
        }
    }
    Some((!proof.is_empty()).then_some(used))
}

fn account_value(i: usize, storage: &Hash, code: &Hash) -> Vec<u8> {
    rlp(&Rlp::List(vec![num(i as u128), num(1 << (8 * i)), bytes(storage), bytes(code)]))
}

/// The storage root and code hash of an account.
fn account(proof: &[Vec<u8>], addr: &Hash) -> Option<Option<(Hash, Hash)>> {
    let path = nibbles(addr);
    let Some(used) = follow(proof, &path)? else { return Some(None) };
    let Step::Value(v) = read(proof.last().unwrap(), &path[used..])? else { return Some(None) };
    // The encoded account ends with the two hashes, after one of the nonces and balances in use.
    let n = v.len();
    if n < 68 || v[n - 33] != 0xa0 || v[n - 66] != 0xa0 {
        return None;
    }
    (0..5).find(|i| account_value(*i, &[0; 32], &[0; 32])[..] == [&v[..n - 65], &[0; 32], &[0xa0], &[0; 32]].concat()[..])?;
    Some(Some((v[n - 65..n - 33].try_into().unwrap(), v[n - 32..].try_into().unwrap())))
}

/// Whether the item is proven; `None` if that depends on how malformed nodes are read.
fn proven(i: &Item) -> Option<bool> {
    let node = |proof: &[Vec<u8>]| -> Option<bool> {
        let Some(used) = follow(proof, &i.path)? else { return Some(false) };
        Some(used == i.path.len() && keccak(proof.last().unwrap()) == i.hash)
    };
    match i.kind {
        Account => node(&i.account),
        Storage => {
            let Some((root, _)) = account(&i.account, &i.addr)? else { return Some(false) };
            if i.storage.first().map(|n| keccak(n)) != Some(root) {
                return Some(false);
            }
            node(&i.storage)
        }
        Code => {
            if keccak(&i.code) != i.hash {
                return Some(false);
            }
            Some(account(&i.account, &i.addr)?.is_some_and(|(_, code)| code == i.hash))
        }
    }
}

fn verdict(key: &StateContentKey, value: &[u8]) -> Option<bool> {
    thread_local! {
        static V: StateValidator = StateValidator { header_oracle: Arc::new(RwLock::new(HeaderOracle::default())) };
    }
    match V.with(|v| block_on(v.validate_content(key, value))) {
        ValidationResult::CanonicallyValid => Some(true),
        ValidationResult::Valid => Some(false),
        ValidationResult::Invalid(_) => None,
    }
}

fn judge(ch: &mut Ch, what: &'static str, i: &Item) -> Res {
    let Some(want) = proven(i) else { return Ok(()) };
    ch.eval();
    let got = verdict(&i.key(), &i.value(i.kind).encode());
    ch.outcome(&(i.kind, what, got));
    check_eq!(got, want.then_some(true), "verdict on {what} of {:?} content", i.kind);
    Ok(())
}

fn storage_key(prefix: &[u8], salt: u8) -> Vec<u8> {
    let mut k = prefix.to_vec();
    while k.len() < 64 {
        k.push((salt as usize * 5 + k.len() * 3) as u8 & 15);
    }
    k
}

/// Storage tries with every kind of node.
fn storage_tries() -> Vec<Node> {
    let trie = |items: &[(Vec<u8>, Vec<u8>)]| build(&items.iter().cloned().collect::<Map>()).unwrap();
    let long = |n: u8| rlp(&bytes(&spec::ramp(n, 32)));
    let short = |n: u8| rlp(&num(n as u128));
    let deep = vec![4u8; 60];
    let mid = vec![7u8; 20];
    let at = |p: &[u8], n: u8| [p, &[n]].concat();
    vec![
        // One leaf.
        trie(&[(storage_key(&[], 1), short(5))]),
        // A branch of leaves, one of them below a second branch.
        trie(&[
            (storage_key(&[0], 1), long(1)),
            (storage_key(&[15], 2), short(2)),
            (storage_key(&[3, 1], 3), long(3)),
            (storage_key(&[3, 2], 4), long(4)),
            (storage_key(&[3, 2, 9], 5), long(5)),
        ]),
        // An extension to a branch with leaves inside of it.
        trie(&[(storage_key(&at(&mid, 1), 1), short(1)), (storage_key(&at(&mid, 2), 2), short(2)), (storage_key(&at(&mid, 9), 3), long(3))]),
        // An extension with a branch inside of it.
        trie(&[(storage_key(&at(&deep, 1), 1), short(1)), (storage_key(&at(&deep, 2), 2), short(2))]),
        // The same below a branch.
        trie(&[(storage_key(&at(&deep, 1), 1), short(1)), (storage_key(&at(&deep, 2), 2), long(2)), (storage_key(&[9], 1), short(3))]),
    ]
}

struct World {
    items: Vec<Item>,
    pool: Vec<Vec<u8>>,
    addrs: Vec<Hash>,
}

fn world() -> World {
    let addr = |prefix: &[u8], salt: u8| -> Hash {
        let mut k = prefix.to_vec();
        while k.len() < 64 {
            k.push((salt as usize + k.len()) as u8 & 15);
        }
        let b: Vec<u8> = k.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
        b.try_into().unwrap()
    };
    let sets: [Vec<Hash>; 3] = [
        vec![addr(&[1], 1), addr(&[2, 5, 1], 2), addr(&[2, 5, 2], 3), addr(&[2, 5, 2, 8], 4), addr(&[14], 5)],
        vec![addr(&[3, 3, 3, 1], 6), addr(&[3, 3, 3, 2], 7)],
        vec![addr(&[], 8)],
    ];
    let stores = storage_tries();
    let mut w = World { items: vec![], pool: vec![], addrs: sets.concat() };
    for set in &sets {
        let mut map = Map::new();
        let mut accounts = vec![];
        for (i, a) in set.iter().enumerate() {
            let store = &stores[(i + set.len()) % stores.len()];
            let code = spec::ramp(i as u8 + 60, i * 40);
            map.insert(nibbles(a), account_value(i, &store.hash(), &keccak(&code)));
            accounts.push((*a, store, code));
        }
        let trie = build(&map).unwrap();
        let nodes = trie.all();
        for (path, proof, node) in &nodes {
            w.pool.push(node.encode());
            w.items.push(Item { kind: Account, addr: [0; 32], path: path.clone(), hash: node.hash(), account: proof.clone(), storage: vec![], code: vec![] });
        }
        for (a, store, code) in accounts {
            let account = nodes.iter().filter(|(p, ..)| nibbles(&a).starts_with(p)).max_by_key(|(p, ..)| p.len()).unwrap().1.clone();
            for (path, storage, node) in store.all() {
                w.pool.push(node.encode());
                w.items.push(Item { kind: Storage, addr: a, path, hash: node.hash(), account: account.clone(), storage, code: vec![] });
            }
            w.items.push(Item { kind: Code, addr: a, path: vec![], hash: keccak(&code), account, storage: vec![], code });
        }
    }
    w.pool.sort();
    w.pool.dedup();
    w
}

fn proof_edits(ch: &mut Ch, i: &Item, pool: &[Vec<u8>], bits: &[u8], get: fn(&mut Item) -> &mut Vec<Vec<u8>>) -> Res {
    let mut i = i.clone();
    let base = get(&mut i).clone();
    let mut put = |ch: &mut Ch, what: &'static str, l: Vec<Vec<u8>>| -> Res {
        *get(&mut i) = l;
        judge(ch, what, &i)
    };
    for n in 0..base.len() {
        let mut l = base.clone();
        l.remove(n);
        put(ch, "a proof with a node missing", l)?;
        let mut l = base.clone();
        l.insert(n, base[n].clone());
        put(ch, "a proof with a node doubled", l)?;
        for m in 0..n {
            let mut l = base.clone();
            l.swap(m, n);
            put(ch, "a proof with nodes swapped", l)?;
        }
        for other in pool {
            let mut l = base.clone();
            l[n] = other.clone();
            put(ch, "a proof with a node replaced", l)?;
            let mut l = base.clone();
            l.insert(n, other.clone());
            put(ch, "a proof with a node added", l)?;
        }
        for byte in 0..base[n].len() {
            for bit in bits {
                let mut l = base.clone();
                l[n][byte] ^= bit;
                put(ch, "a proof with a node changed", l)?;
            }
        }
        let mut l = base.clone();
        l[n].pop();
        put(ch, "a proof with a node cut", l)?;
        let mut l = base.clone();
        l[n].push(0);
        put(ch, "a proof with a node extended", l)?;
        let mut l = base.clone();
        l[n].clear();
        put(ch, "a proof with an empty node", l)?;
        put(ch, "the start of a proof", base[..n].to_vec())?;
        put(ch, "the end of a proof", base[n..].to_vec())?;
    }
    for other in pool {
        put(ch, "a proof with a node appended", [&base[..], &[other.clone()]].concat())?;
    }
    Ok(())
}

pub fn v05(ctx: &Ctx) {
    let w = world();
    let bits: &[u8] = ctx.b(&[1], &[1, 2, 4, 8, 16, 32, 64, 128]);
    ctx.range("items and edits", w.items.len() as u64, |n, ch| {
        let i = &w.items[n as usize];
        ch.note(|| format!("{:?} at {:?}", i.kind, i.path));
        check_eq!(proven(i), Some(true), "the reference on its own item");
        judge(ch, "the item itself", i)?;
        proof_edits(ch, i, &w.pool, bits, |i| &mut i.account)?;
        proof_edits(ch, i, &w.pool, bits, |i| &mut i.storage)?;
        let with = |f: &dyn Fn(&mut Item)| {
            let mut x = i.clone();
            f(&mut x);
            x
        };
        // Paths.
        if i.kind != Code {
            for at in 0..i.path.len() {
                for by in 1..16 {
                    judge(ch, "another path", &with(&|x| x.path[at] = (x.path[at] + by) & 15))?;
                }
                judge(ch, "a shorter path", &with(&|x| x.path.truncate(at)))?;
                judge(ch, "a path without its start", &with(&|x| x.path = x.path[at + 1..].to_vec()))?;
            }
            if i.path.len() < 64 {
                for n in 0..16 {
                    judge(ch, "a longer path", &with(&|x| x.path.push(n)))?;
                }
            }
        }
        // Hashes.
        for byte in 0..32 {
            judge(ch, "another hash", &with(&|x| x.hash[byte] ^= 1))?;
            if i.kind != Account {
                for bit in [1, 16] {
                    judge(ch, "another address", &with(&|x| x.addr[byte] ^= bit))?;
                }
            }
        }
        for other in &w.pool {
            judge(ch, "the hash of another node", &with(&|x| x.hash = keccak(other)))?;
        }
        for a in &w.addrs {
            judge(ch, "the address of another account", &with(&|x| x.addr = *a))?;
        }
        // Code.
        if i.kind == Code {
            for byte in 0..i.code.len() {
                judge(ch, "other code", &with(&|x| x.code[byte] ^= 1))?;
            }
            judge(ch, "longer code", &with(&|x| x.code.push(0)))?;
            judge(ch, "no code", &with(&|x| x.code.clear()))?;
            for o in w.items.iter().filter(|o| o.kind == Code) {
                judge(ch, "the code of another account", &with(&|x| x.code = o.code.clone()))?;
                judge(ch, "another account's code and hash", &with(&|x| (x.code, x.hash) = (o.code.clone(), o.hash)))?;
            }
        }
        // Parts of other items.
        for o in &w.items {
            judge(ch, "the account proof of another item", &with(&|x| x.account = o.account.clone()))?;
            judge(ch, "the storage proof of another item", &with(&|x| x.storage = o.storage.clone()))?;
            judge(ch, "both proofs of another item", &with(&|x| (x.account, x.storage) = (o.account.clone(), o.storage.clone())))?;
            judge(ch, "the path of another item", &with(&|x| x.path = o.path.clone()))?;
            judge(ch, "path and hash of another item", &with(&|x| (x.path, x.hash) = (o.path.clone(), o.hash)))?;
        }
        // Values of another kind.
        for kind in [Account, Storage, Code] {
            if i.value(kind).encode() != i.value(i.kind).encode() {
                ch.eval();
                let got = verdict(&i.key(), &i.value(kind).encode());
                check!(got.is_none(), "{kind:?} content is accepted under a key of {:?} content", i.kind);
                ch.outcome(&(i.kind, kind));
            }
        }
        Ok(())
    });
    ctx.range("bare nodes and code", w.items.len() as u64, |n, ch| {
        let i = &w.items[n as usize];
        ch.note(|| format!("{:?} at {:?}", i.kind, i.path));
        let own = match i.kind {
            Account => i.account.last().unwrap(),
            Storage => i.storage.last().unwrap(),
            Code => &i.code,
        };
        let mut all: Vec<Vec<u8>> = w.pool.clone();
        all.extend([vec![], own.clone(), [own, &[0][..]].concat()]);
        all.extend(w.items.iter().filter(|o| o.kind == Code).map(|o| o.code.clone()));
        for at in 0..own.len() {
            let mut bad = own.clone();
            bad[at] ^= 1;
            all.push(bad);
        }
        for raw in all {
            let value = match i.kind {
                Code => StateContentValue::ContractBytecode(ContractBytecode { code: raw.clone().into() }),
                _ => StateContentValue::TrieNode(TrieNode { node: raw.clone().into() }),
            };
            ch.eval();
            let got = verdict(&i.key(), &value.encode());
            check_eq!(got, (keccak(&raw) == i.hash).then_some(false), "verdict on bare {:?} content", i.kind);
            ch.outcome(&(i.kind, got));
        }
        for raw in [vec![], vec![4, 0, 0], vec![4, 0, 0, 0], vec![5, 0, 0, 0, 0], vec![0xff; 100]] {
            ch.eval();
            let got = verdict(&i.key(), &raw);
            check_eq!(got, (raw.len() == 4 && keccak(&[]) == i.hash).then_some(false), "verdict on malformed content");
        }
        Ok(())
    });
}

// ---- the walk ---------------------------------------------------------------------------------

#[derive(Debug, PartialEq, Eq, Hash)]
enum Want {
    Empty,
    Value(Vec<u8>),
    Next(Hash, Vec<u8>),
    /// A leaf without a path of its own.
    Error,
}

fn want(n: &Node, path: &[u8]) -> Want {
    let go = |n: &Node, path: &[u8]| {
        if n.encode().len() < 32 {
            want(n, path)
        } else {
            Want::Next(n.hash(), path.to_vec())
        }
    };
    match n {
        Node::Leaf(p, _) if p.is_empty() => Want::Error,
        Node::Leaf(p, v) if p == path => Want::Value(v.clone()),
        Node::Leaf(..) => Want::Empty,
        Node::Extension(p, n) => path.strip_prefix(&p[..]).map_or(Want::Empty, |rest| go(n, rest)),
        Node::Branch(children, value) => match path.split_first() {
            None => value.clone().map_or(Want::Empty, Want::Value),
            Some((first, rest)) => children[*first as usize].as_ref().map_or(Want::Empty, |c| go(c, rest)),
        },
    }
}

/// Nodes no trie contains.
fn v06_malformed(ctx: &Ctx) {
    ctx.explore("nodes without a path of their own", |ch| {
        // An even or odd, leaf or extension path with so many nibbles, over a hash or a value.
        let leaf = ch.flag();
        let nibbles: Vec<u8> = (0..ch.pick(4) as u8).map(|n| n + 1).collect();
        let rest: Vec<u8> = (0..ch.pick(5) as u8).map(|n| n + 1).collect();
        let mut compact = vec![if leaf { 0x20 } else { 0 } + if nibbles.len() % 2 == 1 { 0x10 + nibbles[0] } else { 0 }];
        for pair in nibbles[nibbles.len() % 2..].chunks(2) {
            compact.push(pair[0] << 4 | pair[1]);
        }
        let item = if compact.len() == 1 && compact[0] < 0x80 { compact.clone() } else { [vec![0x80 + compact.len() as u8], compact.clone()].concat() };
        let target = [vec![0xa0], spec::hash(9).to_vec()].concat();
        let raw = [vec![0xc0 + (item.len() + target.len()) as u8], item, target].concat();
        ch.note(|| format!("leaf {leaf}, nibbles {nibbles:?}, walked along {rest:?}"));
        let node = EncodedTrieNode::from(raw).as_trie_node().map_err(|e| format!("a node is refused: {e:?}"))?;
        let got = match node.traverse(&rest) {
            TraversalResult::Empty(_) => Want::Empty,
            TraversalResult::Value(v) => Want::Value(v.to_vec()),
            TraversalResult::Node(n) => Want::Next(n.hash.0, n.remaining_path.to_vec()),
            TraversalResult::Error(_) => Want::Error,
        };
        let want = match (rest.strip_prefix(&nibbles[..]), leaf) {
            _ if nibbles.is_empty() => Want::Error,
            (Some([]), true) => Want::Value(spec::hash(9).to_vec()),
            (Some(left), false) => Want::Next(spec::hash(9), left.to_vec()),
            _ => Want::Empty,
        };
        ch.eval();
        check_eq!(got, want, "the walk");
        ch.outcome(&got);
        Ok(())
    });
}

fn paths(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = all.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|p| alphabet.iter().map(move |n| [&p[..], &[*n]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

pub fn v06(ctx: &Ctx) {
    v06_malformed(ctx);
    // Sets of keys: of all lengths, all of one length, and long ones with a shared start.
    let deep = |tail: &[u8]| [&[6u8; 9][..], tail].concat();
    let sets: Vec<Vec<Vec<u8>>> = vec![
        vec![vec![], vec![0], vec![0, 0], vec![0, 1], vec![1], vec![1, 2, 3], vec![0, 0, 0, 0], vec![15]],
        vec![vec![0, 0, 0], vec![0, 0, 1], vec![0, 1, 0], vec![0, 1, 15], vec![1, 0, 0], vec![1, 1, 1], vec![15, 0, 0], vec![15, 15, 15]],
        vec![deep(&[0, 1, 2, 3]), deep(&[0, 1, 3, 3]), deep(&[0, 2]), deep(&[1]), deep(&[]), vec![6], vec![6, 6, 6, 6, 7, 1], vec![3, 3]],
    ];
    let short = paths(&[0, 1, 2, 3, 15], ctx.b(3, 5));
    for (s, keys) in sets.iter().enumerate() {
        let name = ["tries over keys of all lengths", "tries over keys of one length", "tries over long keys"][s];
        // The paths to look at: the short ones, and every key with its neighbours.
        let mut probes: Vec<Vec<u8>> = if s == 2 { vec![] } else { short.clone() };
        for k in keys {
            for at in 0..=k.len() {
                probes.push(k[..at].to_vec());
                for n in [0, 1, 6, 15] {
                    let mut p = k.clone();
                    if at < k.len() {
                        p[at] = n;
                    } else {
                        p.push(n);
                    }
                    probes.push(p);
                }
            }
        }
        probes.sort();
        probes.dedup();
        ctx.range(name, 255 * 4, |n, ch| {
            let (set, sizes) = (n / 4 + 1, n % 4);
            let map: Map = keys
                .iter()
                .enumerate()
                .filter(|(i, _)| set >> i & 1 == 1)
                .map(|(i, k)| {
                    let long = match sizes {
                        0 => false,
                        1 => true,
                        2 => i % 2 == 0,
                        _ => i % 3 == 0,
                    };
                    (k.clone(), spec::ramp(i as u8 + 1, if long { 40 } else { 2 }))
                })
                .collect();
            let trie = build(&map).unwrap();
            ch.note(|| format!("keys {:?}", map.keys().collect::<Vec<_>>()));
            let mut store = std::collections::BTreeMap::new();
            for (path, _, node) in trie.all() {
                let raw = node.encode();
                let encoded = EncodedTrieNode::from(raw.clone());
                check_eq!(encoded.node_hash(), B256::from(keccak(&raw)), "hash of a node");
                let decoded = encoded.as_trie_node().map_err(|e| format!("a node is refused: {e:?}"))?;
                check_eq!(EncodedTrieNode::from(&decoded)[..], raw[..], "node encoded again");
                // One node at a time.
                for p in &probes {
                    let Some(rest) = p.strip_prefix(&path[..]) else { continue };
                    ch.eval();
                    let got = match decoded.traverse(rest) {
                        TraversalResult::Empty(_) => Want::Empty,
                        TraversalResult::Value(v) => Want::Value(v.to_vec()),
                        TraversalResult::Node(n) => Want::Next(n.hash.0, n.remaining_path.to_vec()),
                        TraversalResult::Error(_) => Want::Error,
                    };
                    check_eq!(got, want(&node, rest), "walking {rest:?} from the node at {path:?}");
                    ch.outcome(&(rest.len(), std::mem::discriminant(&got)));
                }
                store.insert(keccak(&raw), decoded);
            }
            // From the root to the end.
            for p in &probes {
                let mut at = trie.hash();
                let mut rest = &p[..];
                let mut hops = 0;
                let found = loop {
                    hops += 1;
                    check!(hops < 100, "the walk along {p:?} does not end");
                    let Some(node) = store.get(&at) else { fail!("the walk along {p:?} leaves the trie") };
                    match node.traverse(rest) {
                        TraversalResult::Empty(_) => break Some(None),
                        TraversalResult::Value(v) => break Some(Some(v.to_vec())),
                        TraversalResult::Node(n) => (at, rest) = (n.hash.0, n.remaining_path),
                        TraversalResult::Error(_) => break None,
                    }
                };
                ch.eval();
                ch.steps(hops);
                if let Some(found) = found {
                    check_eq!(found, map.get(p).cloned(), "what the walk along {p:?} finds");
                }
            }
            ch.state(&trie);
            Ok(())
        });
    }
}
