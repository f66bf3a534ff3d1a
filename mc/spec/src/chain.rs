//! Whole beacon blocks and beacon states: their SSZ encodings, roots and branches.
use crate::{
    beacon::{le, Header},
    container,
    execution::withdrawal_fields,
    hash, merkle,
    merkle::{Root, Tree},
    num, ramp, rlp, trie, Fixed, Part, Rlp, Var,
};

/// A container with the encoding and the root of each field.
pub struct Object(pub Vec<(Part, Root)>);

impl Object {
    pub fn encode(&self) -> Vec<u8> {
        let parts: Vec<Part> = self
            .0
            .iter()
            .map(|(p, _)| match p {
                Fixed(b) => Fixed(b.clone()),
                Var(b) => Var(b.clone()),
            })
            .collect();
        container(&parts)
    }
    pub fn roots(&self) -> Vec<Root> {
        self.0.iter().map(|(_, r)| *r).collect()
    }
    pub fn root(&self) -> Root {
        merkle::fields(&self.roots())
    }
    pub fn branch(&self, index: usize) -> Vec<Root> {
        let roots = self.roots();
        Tree::new(&roots, roots.len().next_power_of_two().trailing_zeros() as usize).branch(index)
    }
    fn fixed(self) -> (Part, Root) {
        (Fixed(self.encode()), self.root())
    }
    fn var(self) -> (Part, Root) {
        (Var(self.encode()), self.root())
    }
}

fn u(n: u64) -> (Part, Root) {
    (le(n), merkle::uint(n))
}
fn h(b: Root) -> (Part, Root) {
    (Fixed(b.to_vec()), b)
}
fn bytes(b: Vec<u8>) -> (Part, Root) {
    let r = merkle::byte_vector(&b);
    (Fixed(b), r)
}
/// A list of fixed-size objects with room for `1 << depth` of them.
fn objects(items: Vec<Object>, depth: usize) -> (Part, Root) {
    let roots: Vec<Root> = items.iter().map(|o| o.root()).collect();
    let body = items.iter().flat_map(|o| o.encode()).collect();
    (Var(body), merkle::with_length(Tree::new(&roots, depth).root(), roots.len()))
}
fn empty(depth: usize) -> (Part, Root) {
    objects(vec![], depth)
}
/// A vector or list of 32-byte values.
fn hash_vector(v: &[Root]) -> (Part, Root) {
    (Fixed(v.concat()), merkle::fields(v))
}
fn hash_list(v: &[Root], depth: usize) -> (Part, Root) {
    (Var(v.concat()), merkle::with_length(Tree::new(v, depth).root(), v.len()))
}

fn eth1() -> Object {
    Object(vec![h(hash(60)), u(61), h(hash(62))])
}

#[derive(Clone, Debug)]
pub struct Payload {
    pub parent: Root,
    pub fee: Vec<u8>,
    pub state: Root,
    pub receipts: Root,
    pub bloom: Vec<u8>,
    pub randao: Root,
    pub number: u64,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra: Vec<u8>,
    pub base_fee: u64,
    pub hash: Root,
    pub txs: Vec<Vec<u8>>,
    pub withdrawals: Vec<u64>,
    pub blob_gas: u64,
    pub excess: u64,
}

impl Payload {
    pub fn new(number: u64, salt: u8) -> Self {
        Self {
            parent: hash(salt),
            fee: ramp(salt ^ 1, 20),
            state: hash(salt ^ 2),
            receipts: hash(salt ^ 3),
            bloom: ramp(salt ^ 4, 256),
            randao: hash(salt ^ 5),
            number,
            gas_limit: 30_000_000,
            gas_used: 21_000,
            timestamp: 1_663_224_179,
            extra: vec![],
            base_fee: 7,
            hash: hash(salt ^ 6),
            txs: vec![],
            withdrawals: vec![],
            blob_gas: 0x20000,
            excess: 0x40000,
        }
    }

    pub fn object(&self, fork: usize) -> Object {
        let txs: Vec<Root> = self.txs.iter().map(|t| merkle::byte_list(t, 1 << 30)).collect();
        let mut base_fee = [0; 32];
        base_fee[..8].copy_from_slice(&self.base_fee.to_le_bytes());
        let mut f = vec![
            h(self.parent),
            bytes(self.fee.clone()),
            h(self.state),
            h(self.receipts),
            bytes(self.bloom.clone()),
            h(self.randao),
            u(self.number),
            u(self.gas_limit),
            u(self.gas_used),
            u(self.timestamp),
            (Var(self.extra.clone()), merkle::byte_list(&self.extra, 32)),
            h(base_fee),
            h(self.hash),
            (Var(crate::list(&self.txs)), merkle::with_length(Tree::new(&txs, 20).root(), txs.len())),
        ];
        if fork >= 1 {
            let w = self
                .withdrawals
                .iter()
                .map(|i| {
                    let (index, validator, address, amount) = withdrawal_fields(*i);
                    Object(vec![u(index), u(validator), bytes(address), u(amount)])
                })
                .collect();
            f.push(objects(w, 4));
        }
        if fork >= 2 {
            f.extend([u(self.blob_gas), u(self.excess)]);
        }
        Object(f)
    }

    /// The execution header this payload stands for.
    pub fn header(&self, fork: usize, parent_beacon_root: Root, requests: &Requests) -> Vec<u8> {
        let s = |b: &[u8]| Rlp::Str(b.to_vec());
        let mut f = vec![
            s(&self.parent),
            s(&trie::keccak(&[0xc0])),
            s(&self.fee),
            s(&self.state),
            s(&trie::ordered_root(&self.txs)),
            s(&self.receipts),
            s(&self.bloom),
            num(0),
            num(self.number.into()),
            num(self.gas_limit.into()),
            num(self.gas_used.into()),
            num(self.timestamp.into()),
            s(&self.extra),
            s(&self.randao),
            s(&[0; 8]),
            num(self.base_fee.into()),
        ];
        if fork >= 1 {
            let w: Vec<Vec<u8>> = self.withdrawals.iter().map(|i| rlp(&crate::execution::withdrawal(*i))).collect();
            f.push(s(&trie::ordered_root(&w)));
        }
        if fork >= 2 {
            f.extend([num(self.blob_gas.into()), num(self.excess.into()), s(&parent_beacon_root)]);
        }
        if fork >= 3 {
            f.push(s(&requests.hash()));
        }
        rlp(&Rlp::List(f))
    }
}

/// Numbers of deposit, withdrawal and consolidation requests.
#[derive(Clone, Debug, Default)]
pub struct Requests(pub [u8; 3]);

impl Requests {
    fn lists(&self) -> [Vec<Object>; 3] {
        let make = |n: u8, f: &dyn Fn(u8) -> Object| (0..n).map(f).collect::<Vec<_>>();
        [
            make(self.0[0], &|i| Object(vec![bytes(ramp(i, 48)), h(hash(i ^ 9)), u(32 + i as u64), bytes(ramp(i ^ 8, 96)), u(i.into())])),
            make(self.0[1], &|i| Object(vec![bytes(ramp(i ^ 7, 20)), bytes(ramp(i ^ 6, 48)), u(i.into())])),
            make(self.0[2], &|i| Object(vec![bytes(ramp(i ^ 5, 20)), bytes(ramp(i ^ 4, 48)), bytes(ramp(i ^ 3, 48))])),
        ]
    }
    pub fn object(&self) -> Object {
        let [d, w, c] = self.lists();
        Object(vec![objects(d, 13), objects(w, 4), objects(c, 1)])
    }
    /// EIP-7685: empty lists are left out.
    pub fn hash(&self) -> Root {
        let mut all = vec![];
        for (kind, list) in self.lists().iter().enumerate() {
            if !list.is_empty() {
                let body: Vec<u8> = list.iter().flat_map(|o| o.encode()).collect();
                all.extend(merkle::sha256(&[&[kind as u8][..], &body].concat()));
            }
        }
        merkle::sha256(&all)
    }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub fork: usize,
    pub slot: u64,
    pub proposer: u64,
    pub parent: Root,
    pub state: Root,
    pub payload: Payload,
    pub requests: Requests,
    pub commitments: u8,
}

impl Block {
    pub fn new(fork: usize, slot: u64, number: u64, salt: u8) -> Self {
        Self {
            fork,
            slot,
            proposer: 5,
            parent: hash(salt ^ 0x40),
            state: hash(salt ^ 0x41),
            payload: Payload::new(number, salt),
            requests: Requests::default(),
            commitments: 0,
        }
    }
    /// Sets the payload's block hash to the one the rest of the block leads to.
    pub fn seal(&mut self) {
        self.payload.hash = trie::keccak(&self.header());
    }
    pub fn header(&self) -> Vec<u8> {
        self.payload.header(self.fork, self.parent, &self.requests)
    }
    pub fn body(&self) -> Object {
        let mut f = vec![
            bytes(ramp(70, 96)),
            eth1().fixed(),
            h(hash(71)),
            empty(4),
            empty(if self.fork >= 3 { 0 } else { 1 }),
            empty(if self.fork >= 3 { 3 } else { 7 }),
            empty(4),
            empty(4),
            Object(vec![bytes(ramp(72, 64)), bytes(ramp(73, 96))]).fixed(),
            self.payload.object(self.fork).var(),
        ];
        if self.fork >= 1 {
            f.push(empty(4));
        }
        if self.fork >= 2 {
            let c: Vec<Vec<u8>> = (0..self.commitments).map(|i| ramp(i ^ 0x33, 48)).collect();
            let roots: Vec<Root> = c.iter().map(|b| merkle::byte_vector(b)).collect();
            f.push((Var(c.concat()), merkle::with_length(Tree::new(&roots, 12).root(), roots.len())));
        }
        if self.fork >= 3 {
            f.push(self.requests.object().var());
        }
        Object(f)
    }
    pub fn object(&self) -> Object {
        Object(vec![u(self.slot), u(self.proposer), h(self.parent), h(self.state), self.body().var()])
    }
    pub fn signed(&self) -> Vec<u8> {
        container(&[Var(self.object().encode()), Fixed(ramp(74, 96))])
    }
    /// Branch of the payload's block hash up to the block root.
    pub fn hash_branch(&self) -> Vec<Root> {
        [self.payload.object(self.fork).branch(12), self.body().branch(9), self.object().branch(4)].concat()
    }
}

/// A state with a recognisable value in every field the code may look at.
pub struct State {
    pub fork: usize,
    pub slot: u64,
    pub block_roots: Vec<Root>,
    pub state_roots: Vec<Root>,
    pub historical_roots: Vec<Root>,
    pub summaries: Vec<(Root, Root)>,
}

impl State {
    pub fn new(fork: usize, slot: u64) -> Self {
        Self { fork, slot, block_roots: vec![[0; 32]; 8192], state_roots: vec![[0; 32]; 8192], historical_roots: vec![], summaries: vec![] }
    }
    pub fn object(&self) -> Object {
        let checkpoint = |n: u8| Object(vec![u(n.into()), h(hash(n))]).fixed();
        let committee = |n: u8| {
            let keys: Vec<Vec<u8>> = (0..512).map(|i| ramp(n ^ i as u8, 48)).collect();
            let roots: Vec<Root> = keys.iter().map(|k| merkle::byte_vector(k)).collect();
            let all = ramp(n, 48);
            (Fixed([keys.concat(), all.clone()].concat()), merkle::node(&merkle::fields(&roots), &merkle::byte_vector(&all)))
        };
        let zeros = |n: usize| (Fixed(vec![0; n]), Tree::new(&[], (n / 32).trailing_zeros() as usize).root());
        let latest = Header::at(self.slot.saturating_sub(1), 80);
        let mut payload = vec![
            h(hash(10)),
            bytes(ramp(11, 20)),
            h(hash(12)),
            h(hash(13)),
            bytes(ramp(14, 256)),
            h(hash(15)),
            u(1),
            u(2),
            u(3),
            u(4),
            (Var(ramp(16, 3)), merkle::byte_list(&ramp(16, 3), 32)),
            h(hash(17)),
            h(hash(18)),
            h(hash(19)),
        ];
        if self.fork >= 1 {
            payload.push(h(hash(20)));
        }
        if self.fork >= 2 {
            payload.extend([u(5), u(6)]);
        }
        let mut f = vec![
            u(1_606_824_023),
            h(hash(81)),
            u(self.slot),
            Object(vec![bytes(vec![1, 0, 0, 0]), bytes(vec![2, 0, 0, 0]), u(82)]).fixed(),
            (Fixed(latest.encode()), latest.root()),
            hash_vector(&self.block_roots),
            hash_vector(&self.state_roots),
            hash_list(&self.historical_roots, 24),
            eth1().fixed(),
            empty(11),
            u(83),
            empty(40),
            empty(38),
            zeros(65536 * 32),
            zeros(8192 * 8),
            empty(35),
            empty(35),
            bytes(vec![5]),
            checkpoint(84),
            checkpoint(85),
            checkpoint(86),
            empty(38),
            committee(87),
            committee(88),
            Object(payload).var(),
        ];
        if self.fork >= 1 {
            let s = self.summaries.iter().map(|(a, b)| Object(vec![h(*a), h(*b)])).collect();
            f.extend([u(89), u(90), objects(s, 24)]);
        }
        if self.fork >= 3 {
            f.extend([u(91), u(92), u(93), u(94), u(95), u(96), empty(27), empty(27), empty(18)]);
        }
        Object(f)
    }
}
