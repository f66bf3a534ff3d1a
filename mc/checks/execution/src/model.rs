//! The state as it should be.
use std::collections::{BTreeMap, BTreeSet};

use alloy::primitives::{Address, B256, U256};
use spec::{
    bytes, num, ramp, rlp,
    trie::{self, keccak, nibbles, Node},
    Rlp,
};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Account {
    pub balance: u128,
    pub nonce: u64,
    pub code: Vec<u8>,
    pub storage: BTreeMap<u64, U256>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct State(pub BTreeMap<Address, Account>);

/// Encoded nodes by their hashes.
pub type Nodes = BTreeMap<B256, Vec<u8>>;

pub fn nodes(of: &Option<Node>) -> Nodes {
    of.iter().flat_map(|n| n.all()).map(|(_, proof, n)| (B256::from(n.hash()), proof.last().unwrap().clone())).collect()
}
fn root(of: &Option<Node>) -> B256 {
    of.as_ref().map_or(keccak(&[0x80]), |n| n.hash()).into()
}

/// A number as RLP has it.
fn big(v: U256) -> Rlp {
    let b: [u8; 32] = v.to_be_bytes();
    bytes(&b[b.iter().take_while(|x| **x == 0).count()..])
}

impl Account {
    pub fn storage_trie(&self) -> Option<Node> {
        let at = |k: &u64| nibbles(&keccak(&U256::from(*k).to_be_bytes::<32>()));
        trie::build(&self.storage.iter().map(|(k, v)| (at(k), rlp(&big(*v)))).collect())
    }
    pub fn storage_root(&self) -> B256 {
        root(&self.storage_trie())
    }
    pub fn code_hash(&self) -> B256 {
        keccak(&self.code).into()
    }
    pub fn encode(&self) -> Vec<u8> {
        rlp(&Rlp::List(vec![num(self.nonce.into()), num(self.balance), bytes(self.storage_root().as_slice()), bytes(self.code_hash().as_slice())]))
    }
    pub fn set(&mut self, slot: u64, value: U256) {
        if value.is_zero() {
            self.storage.remove(&slot);
        } else {
            self.storage.insert(slot, value);
        }
    }
    pub fn is_empty(&self) -> bool {
        self.balance == 0 && self.nonce == 0 && self.code.is_empty()
    }
}
impl State {
    pub fn trie(&self) -> Option<Node> {
        trie::build(&self.0.iter().map(|(a, s)| (nibbles(&keccak(a.as_slice())), s.encode())).collect())
    }
    pub fn root(&self) -> B256 {
        root(&self.trie())
    }
    pub fn credit(&mut self, to: Address, wei: u128) {
        if wei > 0 {
            self.0.entry(to).or_default().balance += wei;
        }
    }
}

/// Whether `diff` has all that is new in a trie, and nothing that is not in it.
pub fn diff_fits<'a>(before: &Nodes, after: &Nodes, diff: impl Iterator<Item = (&'a B256, &'a Vec<u8>)>, empty: bool) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    for (h, raw) in diff {
        seen.insert(*h);
        if empty && raw == &[0x80] {
            continue;
        }
        if after.get(h) != Some(raw) {
            return Err(format!("{h} is listed as changed and is no node of the trie"));
        }
    }
    match after.keys().find(|h| !before.contains_key(*h) && !seen.contains(*h)) {
        Some(h) => Err(format!("{h} is new and not listed")),
        None => Ok(()),
    }
}

pub fn address(n: u8) -> Address {
    Address::from_slice(&ramp(n ^ 0x5a, 20))
}
