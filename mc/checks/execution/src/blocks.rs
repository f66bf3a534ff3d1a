//! Blocks with transactions of steps, what they do to the state, and archives of them.
use std::{
    collections::{BTreeMap, BTreeSet},
    io::Write as _,
};

use alloy::{
    consensus::Header,
    primitives::{Address, B256, U256},
};
use spec::{
    bytes, container,
    execution::{raw_list, wrapped},
    num, ramp, rlp,
    trie::keccak,
    Rlp, Var,
};

use crate::model::{Account, State};

pub const EPOCH: u64 = 8192;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Credit(Address, u64),
    Debit(Address, u64),
    Set(Address, u64, U256),
    Destroy(Address),
    Create(Address, Vec<u8>),
    Touch(Address),
    /// Keeps the hash of a block.
    Hash(Address, u64, u64),
    Revert,
    Halt,
}
use Step::*;

fn word(v: impl Into<U256>) -> [u8; 32] {
    v.into().to_be_bytes()
}
impl Step {
    fn encode(&self) -> Vec<u8> {
        match self {
            Credit(a, v) => [&[0x11], a.as_slice(), &v.to_be_bytes()].concat(),
            Debit(a, v) => [&[0x16], a.as_slice(), &v.to_be_bytes()].concat(),
            Set(a, s, v) => [&[0x12], a.as_slice(), &word(U256::from(*s)), &word(*v)].concat(),
            Destroy(a) => [&[0x13], a.as_slice()].concat(),
            Create(a, code) => [&[0x14], a.as_slice(), &(code.len() as u16).to_be_bytes(), code].concat(),
            Touch(a) => [&[0x15], a.as_slice()].concat(),
            Hash(a, s, n) => [&[0x17], a.as_slice(), &word(U256::from(*s)), &n.to_be_bytes()].concat(),
            Revert => vec![0xfd],
            Halt => vec![0xfe],
        }
    }
}

/// A transaction of steps; who sent it follows from its signature.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tx {
    pub kind: u8,
    pub who: u8,
    pub steps: Vec<Step>,
}
impl Tx {
    fn signature(&self) -> (Vec<u8>, Vec<u8>) {
        (ramp(self.who | 1, 32), ramp(self.who.wrapping_add(91) | 1, 32))
    }
    pub fn sender(&self) -> Address {
        let (r, s) = self.signature();
        Address::from_slice(&keccak(&[&r[..], &s, &[0]].concat())[12..])
    }
    pub fn data(&self) -> Vec<u8> {
        self.steps.iter().flat_map(|s| s.encode()).collect()
    }
    pub fn encode(&self) -> Vec<u8> {
        let data = bytes(&self.data());
        let (r, s) = self.signature();
        let to = bytes(&ramp(20, 20));
        let gas = num(30_000_000);
        let access = Rlp::List(vec![]);
        let mut l = match self.kind {
            0 => vec![num(0), num(9), gas, to, num(0), data],
            1 => vec![num(1), num(0), num(9), gas, to, num(0), data, access],
            2 => vec![num(1), num(0), num(1), num(9), gas, to, num(0), data, access],
            _ => vec![num(1), num(0), num(1), num(9), gas, to, num(0), data, access, num(7), Rlp::List(vec![bytes(&ramp(1, 32))])],
        };
        l.push(num(if self.kind == 0 { 27 } else { 0 }));
        l.push(bytes(&r));
        l.push(bytes(&s));
        let l = rlp(&Rlp::List(l));
        if self.kind == 0 {
            l
        } else {
            [vec![self.kind], l].concat()
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Plan {
    pub number: u64,
    pub beneficiary: Address,
    pub txs: Vec<Tx>,
    /// Who made them, and how many blocks before.
    pub uncles: Vec<(Address, u64)>,
    pub withdrawals: Vec<(Address, u64)>,
    pub beacon_root: Option<B256>,
}

pub const ROOTS: [u8; 20] = [0x00, 0x0f, 0x3d, 0xf6, 0xd7, 0x32, 0x80, 0x7e, 0xf1, 0x31, 0x9f, 0xb7, 0xb8, 0xbb, 0x85, 0x22, 0xd0, 0xbe, 0xac, 0x02];
const ETHER: u128 = 1_000_000_000_000_000_000;
const SPURIOUS: u64 = 2_675_000;
const MERGE: u64 = 15_537_394;
pub const CANCUN: u64 = 19_426_587;

fn reward(number: u64) -> u128 {
    match number {
        MERGE.. => 0,
        7_280_000.. => 2 * ETHER,
        4_370_000.. => 3 * ETHER,
        _ => 5 * ETHER,
    }
}
fn time(number: u64) -> u64 {
    match number {
        CANCUN.. => 1_710_338_135 + (number - CANCUN) * 12,
        17_034_870.. => 1_681_338_479 + (number - 17_034_870) * 12,
        MERGE.. => 1_663_224_179 + (number - MERGE) * 12,
        _ => 1_438_269_973 + number * 13,
    }
}

/// The hashes of blocks by their numbers.
pub type Hashes = BTreeMap<u64, B256>;

/// The state after the block, and the gas used.
pub fn run(plan: &Plan, before: &State, hashes: &Hashes) -> (State, u64) {
    let (mut is, mut gas) = (before.clone(), 0);
    if let (Some(root), true) = (plan.beacon_root, plan.number >= CANCUN) {
        if let Some(a) = is.0.get_mut(&Address::from(ROOTS)).filter(|a| !a.code.is_empty()) {
            let t = time(plan.number);
            a.set(t % 8191, U256::from(t));
            a.set(t % 8191 + 8191, root.into());
        }
    }
    for tx in &plan.txs {
        let mut next = is.clone();
        let (mut touched, mut gone, mut made) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut used = 1;
        for s in &tx.steps {
            let (Credit(a, _) | Debit(a, _) | Set(a, ..) | Destroy(a) | Create(a, _) | Touch(a) | Hash(a, ..)) = s else {
                next = is.clone();
                touched.clear();
                gone.clear();
                made.clear();
                used = 1;
                break;
            };
            used += 1;
            touched.insert(*a);
            let n = next.0.entry(*a).or_default();
            match s {
                Credit(_, v) => n.balance += *v as u128,
                Debit(_, v) => n.balance -= *v as u128,
                Set(_, slot, v) => n.set(*slot, *v),
                Destroy(_) => {
                    gone.insert(*a);
                }
                Create(_, code) => {
                    made.insert(*a);
                    n.code = code.clone();
                    n.nonce = 1;
                    n.storage.clear();
                }
                Hash(_, slot, number) => n.set(*slot, hashes[number].into()),
                _ => {}
            }
        }
        let sender = tx.sender();
        touched.insert(sender);
        next.0.entry(sender).or_default().nonce += 1;
        next.0.retain(|a, n| !(gone.contains(a) || (touched.contains(a) && n.is_empty() && !made.contains(a) && plan.number >= SPURIOUS)));
        gas += used;
        is = next;
    }
    let base = reward(plan.number);
    if base > 0 {
        for (who, depth) in &plan.uncles {
            is.credit(*who, base * (8 - *depth as u128) / 8);
        }
        is.credit(plan.beneficiary, base + base / 32 * plan.uncles.len() as u128);
    }
    for (who, gwei) in &plan.withdrawals {
        is.credit(*who, *gwei as u128 * 1_000_000_000);
    }
    (is, gas)
}

pub fn header(plan: &Plan, root: B256, gas: u64) -> Header {
    Header {
        number: plan.number,
        beneficiary: plan.beneficiary,
        state_root: root,
        gas_used: gas,
        gas_limit: 30_000_000,
        timestamp: time(plan.number),
        base_fee_per_gas: (plan.number >= 12_965_000).then_some(7),
        withdrawals_root: (plan.number >= 17_034_870).then_some(B256::repeat_byte(3)),
        blob_gas_used: (plan.number >= CANCUN).then_some(0),
        excess_blob_gas: (plan.number >= CANCUN).then_some(0),
        parent_beacon_block_root: plan.beacon_root,
        ..Default::default()
    }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub plan: Plan,
    pub header: Header,
}
impl Block {
    fn body(&self) -> Vec<u8> {
        let txs: Vec<Vec<u8>> = self.plan.txs.iter().map(|t| wrapped(&t.encode())).collect();
        let uncles: Vec<Vec<u8>> = self
            .plan
            .uncles
            .iter()
            .map(|(who, depth)| alloy_rlp::encode(Header { number: self.plan.number - depth, beneficiary: *who, ..Default::default() }))
            .collect();
        let mut parts = vec![raw_list(&txs), raw_list(&uncles)];
        if self.plan.number >= 17_034_870 {
            let l = self.plan.withdrawals.iter().enumerate();
            parts.push(rlp(&Rlp::List(l.map(|(i, (who, v))| Rlp::List(vec![num(i as u128), num(5), bytes(who.as_slice()), num(*v as u128)])).collect())));
        }
        raw_list(&parts)
    }
    fn with_proof(&self) -> Vec<u8> {
        let n = match self.header.timestamp {
            0..1_663_224_162 => 15 * 32,
            1_663_224_162..1_681_338_455 => (14 + 1 + 11) * 32 + 8,
            1_681_338_455..1_710_338_135 => (13 + 1 + 11) * 32 + 8,
            _ => (13 + 1 + 12) * 32 + 8,
        };
        container(&[Var(alloy_rlp::encode(&self.header)), Var(vec![0; n])])
    }
}

pub fn archive(blocks: &[Block]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut entry = |kind: u16, value: &[u8]| {
        let at = out.len() as i64;
        out.extend(kind.to_be_bytes());
        out.extend((value.len() as u32).to_le_bytes());
        out.extend([0, 0]);
        out.extend(value);
        (at, out.len() as i64)
    };
    let pack = |b: &[u8]| {
        let mut e = snap::write::FrameEncoder::new(vec![]);
        e.write_all(b).unwrap();
        e.into_inner().map_err(|_| "frame").unwrap()
    };
    let mut end = entry(0x6532, &[]).1;
    let mut starts = vec![];
    for b in blocks {
        starts.push(entry(0x0301, &pack(&b.with_proof())).0);
        entry(0x0400, &pack(&b.body()));
        end = entry(0x0500, &pack(&[0xc0])).1;
    }
    let mut index = vec![blocks.first().map_or(0, |b| b.plan.number).to_le_bytes()];
    index.extend(starts.iter().map(|s| (s - end).to_le_bytes()));
    index.resize(EPOCH as usize + 1, [0; 8]);
    index.push((blocks.len() as u64).to_le_bytes());
    entry(0x6632, &index.concat());
    out
}

/// Serves the archives of epochs; those that are listed and not here cannot be had.
pub fn serve(listed: u64, files: BTreeMap<u64, Vec<u8>>, late: u64) {
    let name = |e: u64| format!("mainnet-{e:05}-0badcafe.e2hs");
    reqwest::fake::set(move |url, _| {
        let path = url.strip_prefix("https://e2hs.ethportal.net/")?;
        if path == "index.html" {
            let links = (0..listed).rev().map(|e| format!("<a href=\"{n}\">{n}</a>", n = name(e)));
            return Some((200, format!("<html>{}</html>", links.collect::<String>()).into_bytes()));
        }
        if late > 0 {
            vc::clock::advance_ms(late);
        }
        files.iter().find(|(e, _)| path == name(**e)).map(|(_, f)| (200, f.clone()))
    });
}

/// The blocks of plans one after another; the states after them.
pub fn chain(plans: &[Plan], first: &State, hashes: &mut Hashes) -> (Vec<Block>, Vec<State>) {
    let (mut blocks, mut states) = (vec![], vec![]);
    let mut is = first.clone();
    for plan in plans {
        let (next, gas) = run(plan, &is, hashes);
        let header = header(plan, next.root(), gas);
        hashes.insert(plan.number, header.hash_slow());
        blocks.push(Block { plan: plan.clone(), header });
        states.push(next.clone());
        is = next;
    }
    (blocks, states)
}

pub fn account(balance: u128, nonce: u64, code: usize, slots: &[(u64, u64)]) -> Account {
    let mut a = Account { balance, nonce, code: ramp(code as u8, code), ..Default::default() };
    for (k, v) in slots {
        a.set(*k, U256::from(*v));
    }
    a
}
