//! A synthetic beacon chain for the light client: committees, states, signed updates, and the
//! rules of the sync protocol written down once more.
use alloy::primitives::B256;
use ethportal_api::{
    consensus::{body::SyncAggregate, header::BeaconBlockHeader, signature::BlsSignature, sync_committee::SyncCommittee},
    light_client::store::LightClientStore,
};
use light_client::consensus::types::GenericUpdate;
use milagro_bls::fake;
pub use spec::beacon::Header;
use spec::{
    beacon,
    merkle::{byte_vector, fold, node, Root, Tree},
};
use ssz::Decode;
use ssz_types::{typenum, BitVector};
use std::sync::OnceLock;

pub const GENESIS_TIME: u64 = 1_606_824_023;
pub const ELECTRA: [u8; 4] = [5, 0, 0, 0];
pub const DENEB: [u8; 4] = [4, 0, 0, 0];
pub const PERIOD: u64 = 8192;
/// First slot of the period everything happens around.
pub const P: u64 = 1500 * PERIOD;

pub fn genesis_root() -> Root {
    let hex = "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95";
    let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    b.try_into().unwrap()
}

pub struct Committee {
    pub keys: Vec<[u8; 48]>,
    pub raw: Vec<u8>,
    pub typed: SyncCommittee,
    pub root: Root,
}

/// Committee number `id` of a small supply.
pub fn committee(id: usize) -> &'static Committee {
    static ALL: OnceLock<Vec<Committee>> = OnceLock::new();
    &ALL.get_or_init(|| {
        (0..5)
            .map(|id| {
                let keys: Vec<[u8; 48]> = (0..512).map(|i| fake::key((id * 1000 + i) as u32)).collect();
                let total = fake::key(id as u32 * 1000 + 999);
                let raw = [keys.concat(), total.to_vec()].concat();
                let leaves: Vec<Root> = keys.iter().map(|k| byte_vector(k)).collect();
                let root = node(&Tree::new(&leaves, 9).root(), &byte_vector(&total));
                let typed = SyncCommittee::from_ssz_bytes(&raw).expect("a committee decodes");
                Committee { keys, raw, typed, root }
            })
            .collect()
    })[id]
}

/// The fields of a state that the light client looks at.
#[derive(Clone)]
pub struct State {
    pub root: Root,
    pub finality: Vec<Root>,
    pub current: Vec<Root>,
    pub next: Vec<Root>,
}

pub fn state(finalized: &Root, current: usize, next: usize, salt: u8) -> State {
    let mut l: Vec<Root> = (0..37).map(|i| spec::merkle::sha256(&[salt, i])).collect();
    let epoch = spec::merkle::uint(1234);
    l[20] = node(&epoch, finalized);
    l[22] = committee(current).root;
    l[23] = committee(next).root;
    let t = Tree::new(&l, 6);
    State { root: t.root(), finality: [vec![epoch], t.branch(20)].concat(), current: t.branch(22), next: t.branch(23) }
}

fn pad(b: &[u8]) -> Root {
    let mut r = [0; 32];
    r[..b.len()].copy_from_slice(b);
    r
}

pub fn signing_root(header: &Root, version: [u8; 4], genesis: &Root) -> Root {
    let fork = node(&pad(&version), genesis);
    let domain = [&[7, 0, 0, 0], &fork[..28]].concat();
    node(header, &pad(&domain))
}

/// Everything an update can carry.
#[derive(Clone)]
pub struct Update {
    pub attested: Header,
    pub signature_slot: u64,
    pub bits: Vec<bool>,
    pub signature: [u8; 96],
    pub next: Option<(usize, Vec<Root>)>,
    pub finalized: Option<(Header, Vec<Root>)>,
}

pub fn first_bits(n: usize) -> Vec<bool> {
    (0..512).map(|i| i < n).collect()
}

/// Which committee is active at a slot: one per period from `P` on.
pub fn active(slot: u64) -> usize {
    ((slot / PERIOD).saturating_sub(P / PERIOD) as usize).min(3)
}

impl Update {
    /// A block at `attested` whose state finalizes the block at `finalized`, signed by the first
    /// `bits` members of the committee of the signature slot. The salt makes forks.
    pub fn honest(attested: u64, finalized: u64, signature_slot: u64, bits: usize, salt: u8) -> Self {
        let fin = Header::at(finalized, salt.wrapping_add(100));
        let st = state(&fin.root(), active(attested), active(attested) + 1, salt);
        let mut att = Header::at(attested, salt);
        att.state = st.root;
        let mut u = Self {
            attested: att,
            signature_slot,
            bits: first_bits(bits),
            signature: [0; 96],
            next: Some((active(attested) + 1, st.next)),
            finalized: Some((fin, st.finality)),
        };
        u.sign(active(signature_slot), ELECTRA, &genesis_root());
        u
    }
    pub fn sign(&mut self, by: usize, version: [u8; 4], genesis: &Root) {
        self.signature = signature(&self.attested.root(), by, &self.bits, version, genesis);
    }
    pub fn generic(&self) -> GenericUpdate {
        let vec = |l: &[Root]| l.iter().map(|r| B256::from(*r)).collect::<Vec<_>>();
        GenericUpdate {
            attested_header: typed(&self.attested),
            sync_aggregate: aggregate(&self.bits, &self.signature),
            signature_slot: self.signature_slot,
            next_sync_committee: self.next.as_ref().map(|n| committee(n.0).typed.clone()),
            next_sync_committee_branch: self.next.as_ref().map(|n| vec(&n.1).into()),
            finalized_header: self.finalized.as_ref().map(|f| typed(&f.0)),
            finality_branch: self.finalized.as_ref().map(|f| vec(&f.1).into()),
        }
    }
    /// As wire content; parts that are absent are filled with zeros.
    pub fn wire(&self, fork: usize) -> beacon::Update {
        let short = (fork != beacon::ELECTRA) as usize;
        let cut = |l: &[Root], n: usize| l[..n - short].concat();
        let zero = vec![[0; 32]; 7];
        let mut bits = vec![0u8; 64];
        for (i, b) in self.bits.iter().enumerate() {
            bits[i / 8] |= (*b as u8) << (i % 8);
        }
        let none = Header { slot: 0, proposer: 0, parent: [0; 32], state: [0; 32], body: [0; 32] };
        beacon::Update {
            fork,
            attested: self.attested.clone(),
            next_committee: committee(self.next.as_ref().map_or(4, |n| n.0)).raw.clone(),
            committee_branch: cut(self.next.as_ref().map_or(&zero, |n| &n.1), 6),
            finalized: self.finalized.as_ref().map_or(none, |f| f.0.clone()),
            finality_branch: cut(self.finalized.as_ref().map_or(&zero, |f| &f.1), 7),
            aggregate: [&bits[..], &self.signature].concat(),
            signature_slot: self.signature_slot,
        }
    }
    pub fn participants(&self) -> u64 {
        self.bits.iter().filter(|b| **b).count() as u64
    }
    /// Without what a finality update does not carry.
    pub fn as_finality(&self) -> Self {
        Self { next: None, ..self.clone() }
    }
    /// Without what an optimistic update does not carry.
    pub fn as_optimistic(&self) -> Self {
        Self { next: None, finalized: None, ..self.clone() }
    }
}

pub fn signature(root: &Root, by: usize, bits: &[bool], version: [u8; 4], genesis: &Root) -> [u8; 96] {
    let keys: Vec<[u8; 48]> = committee(by).keys.iter().zip(bits).filter(|(_, b)| **b).map(|(k, _)| *k).collect();
    fake::sign(&signing_root(root, version, genesis), &keys)
}

pub fn typed(h: &Header) -> BeaconBlockHeader {
    BeaconBlockHeader {
        slot: h.slot,
        proposer_index: h.proposer,
        parent_root: B256::from(h.parent),
        state_root: B256::from(h.state),
        body_root: B256::from(h.body),
    }
}

pub fn aggregate(bits: &[bool], signature: &[u8; 96]) -> SyncAggregate {
    let mut v = BitVector::<typenum::U512>::new();
    for (i, b) in bits.iter().enumerate() {
        v.set(i, *b).unwrap();
    }
    SyncAggregate { sync_committee_bits: v, sync_committee_signature: BlsSignature { signature: *signature } }
}

/// What a light client knows.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Store {
    pub finalized: Header,
    pub optimistic: Header,
    pub current: usize,
    pub next: Option<usize>,
    pub previous_max: u64,
    pub current_max: u64,
    pub checkpoint: Option<Root>,
}

impl Store {
    pub fn new(header: Header, current: usize) -> Self {
        Self { finalized: header.clone(), optimistic: header, current, next: None, previous_max: 0, current_max: 0, checkpoint: None }
    }
    pub fn typed(&self) -> LightClientStore {
        LightClientStore {
            finalized_header: typed(&self.finalized),
            current_sync_committee: committee(self.current).typed.clone(),
            next_sync_committee: self.next.map(|n| committee(n).typed.clone()),
            optimistic_header: typed(&self.optimistic),
            previous_max_active_participants: self.previous_max,
            current_max_active_participants: self.current_max,
        }
    }
    /// The rules an update has to keep, by name.
    pub fn broken_rules(&self, u: &Update, now: u64, version: [u8; 4], genesis: &Root) -> Vec<&'static str> {
        let mut broken = vec![];
        let mut rule = |ok: bool, name: &'static str| {
            if !ok {
                broken.push(name);
            }
        };
        let period = |s: u64| s / PERIOD;
        let own = period(self.finalized.slot);
        let signed = period(u.signature_slot);
        rule(u.bits.contains(&true), "participants");
        rule(u.signature_slot <= now, "future");
        rule(u.signature_slot > u.attested.slot, "signed before attested");
        if let Some((f, branch)) = &u.finalized {
            rule(f.slot <= u.attested.slot, "finalized after attested");
            rule(fold(&f.root(), branch, 41) == u.attested.state, "finality branch");
        }
        let known = signed == own || signed == own + 1 && self.next.is_some();
        rule(known, "period");
        let teaches = self.next.is_none() && u.next.is_some() && period(u.attested.slot) == own;
        rule(u.attested.slot > self.finalized.slot || teaches, "relevance");
        if let Some((c, branch)) = &u.next {
            rule(fold(&committee(*c).root, branch, 23) == u.attested.state, "committee branch");
        }
        if known {
            let by = if signed == own { self.current } else { self.next.unwrap() };
            rule(u.signature == signature(&u.attested.root(), by, &u.bits, version, genesis), "signature");
        }
        broken
    }
    /// Takes in a verified update. Whether the optimistic and the finalized header moved.
    pub fn apply(&mut self, u: &Update) -> (bool, bool) {
        let n = u.participants();
        let before = (self.optimistic.slot, self.finalized.slot);
        self.current_max = self.current_max.max(n);
        if n > self.current_max.max(self.previous_max) / 2 && u.attested.slot > self.optimistic.slot {
            self.optimistic = u.attested.clone();
        }
        let fin = u.finalized.as_ref().map_or(0, |f| f.0.slot);
        let newer = fin > self.finalized.slot;
        let first_committee = self.next.is_none() && u.next.is_some() && u.finalized.is_some() && fin / PERIOD == u.attested.slot / PERIOD;
        if 3 * n >= 2 * 512 && (newer || first_committee) {
            let own = self.finalized.slot / PERIOD;
            let taught = u.next.as_ref().map(|n| n.0);
            match self.next {
                None => self.next = taught,
                Some(next) if fin / PERIOD == own + 1 => {
                    self.current = next;
                    self.next = taught;
                    self.previous_max = self.current_max;
                    self.current_max = 0;
                }
                _ => {}
            }
            if newer {
                self.finalized = u.finalized.as_ref().unwrap().0.clone();
                if fin % 32 == 0 {
                    self.checkpoint = Some(self.finalized.root());
                }
                if self.optimistic.slot < fin {
                    self.optimistic = self.finalized.clone();
                }
            }
        }
        (self.optimistic.slot > before.0, self.finalized.slot > before.1)
    }
}
