//! Header proofs over a synthetic chain.
use alloy::{consensus::Header, primitives::B256, rlp::Decodable};
use ethportal_api::{
    consensus::historical_summaries::{HistoricalSummaries, HistoricalSummary},
    types::execution::header_with_proof::{BlockHeaderProof, BlockProofHistoricalRoots, BlockProofHistoricalSummariesCapella, BlockProofHistoricalSummariesDeneb, HeaderWithProof},
};
use spec::{

    execution::header,
    merkle::{node, Root, Tree},

};
use std::sync::OnceLock;
use trin_validation::header_validator::HeaderValidator;
use vc::{check_eq, Ch, Ctx, Res};

pub const PARIS: u64 = 15_537_394;
pub const SHANGHAI: u64 = 1_681_338_455;
pub const CANCUN: u64 = 1_710_338_135;
const CAPELLA_SLOT: u64 = 6_209_536;
const SLOTS: u64 = 8192;
const EPOCHS: usize = 1897;
const ROOTS: usize = 758;
const SUMMARIES: usize = 40;

/// A header proof taken apart.
#[derive(Clone, Debug)]
pub struct Parts {
    /// Pre-merge, roots, Capella, Deneb.
    pub kind: usize,
    /// For pre-merge headers the whole proof.
    pub beacon: Vec<Root>,
    pub beacon_root: Root,
    pub execution: Vec<Root>,
    pub slot: u64,
}

fn vec(l: &[Root]) -> Vec<B256> {
    l.iter().map(|r| B256::from(*r)).collect()
}

impl Parts {
    /// `None` if the parts do not have the sizes of the kind.
    pub fn proof(&self) -> Option<BlockHeaderProof> {
        let root = B256::from(self.beacon_root);
        let exact = |l: &[Root], n: usize| (l.len() == n).then(|| vec(l));
        Some(match self.kind {
            0 => BlockHeaderProof::HistoricalHashes(exact(&self.beacon, 15)?.into()),
            1 => BlockHeaderProof::HistoricalRoots(BlockProofHistoricalRoots {
                beacon_block_proof: exact(&self.beacon, 14)?.into(),
                beacon_block_root: root,
                execution_block_proof: exact(&self.execution, 11)?.into(),
                slot: self.slot,
            }),
            2 => BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
                beacon_block_proof: exact(&self.beacon, 13)?.into(),
                beacon_block_root: root,
                execution_block_proof: exact(&self.execution, 11)?.into(),
                slot: self.slot,
            }),
            _ => BlockHeaderProof::HistoricalSummariesDeneb(BlockProofHistoricalSummariesDeneb {
                beacon_block_proof: exact(&self.beacon, 13)?.into(),
                beacon_block_root: root,
                execution_block_proof: exact(&self.execution, 12)?.into(),
                slot: self.slot,
            }),
        })
    }
    pub fn encode(&self) -> Vec<u8> {
        let slot = self.slot.to_le_bytes();
        match self.kind {
            0 => self.beacon.concat(),
            _ => [&self.beacon.concat()[..], &self.beacon_root, &self.execution.concat(), &slot].concat(),
        }
    }
}

fn raw_header(number: u64, timestamp: u64, optional: usize) -> Vec<u8> {
    header(number, timestamp, 3, optional)
}

pub fn decode_header(raw: &[u8]) -> Header {
    Header::decode(&mut &raw[..]).expect("a header of the alphabet decodes")
}

/// The tables everything is proven against.
#[derive(Clone)]
pub struct Tables {
    pub epochs: Vec<Root>,
    pub roots: Vec<Root>,
    pub summaries: Vec<(Root, Root)>,
}

fn filler(table: u8, i: usize) -> Root {
    spec::merkle::sha256(&[table, i as u8, (i >> 8) as u8])
}

impl Tables {
    pub fn new() -> Self {
        Self {
            epochs: (0..EPOCHS).map(|i| filler(1, i)).collect(),
            roots: (0..ROOTS).map(|i| filler(2, i)).collect(),
            summaries: (0..SUMMARIES).map(|i| (filler(3, i), filler(4, i))).collect(),
        }
    }
    pub fn summaries(&self) -> HistoricalSummaries {
        let l: Vec<HistoricalSummary> = self
            .summaries
            .iter()
            .map(|(b, s)| HistoricalSummary { block_summary_root: B256::from(*b), state_summary_root: B256::from(*s) })
            .collect();
        l.into()
    }
    pub fn validator(&self) -> HeaderValidator {
        let mut v = HeaderValidator::new_with_historical_summaries(self.summaries());
        self.apply(&mut v);
        v
    }
    pub fn apply(&self, v: &mut HeaderValidator) {
        v.pre_merge_acc.historical_epochs = vec(&self.epochs).into();
        v.historical_roots_acc.historical_roots = vec(&self.roots).into();
    }

    /// Enters a block into the tables as the given kind of history and returns its proof.
    /// `at` is the slot, or for pre-merge blocks the block number.
    pub fn enter(&mut self, kind: usize, block_hash: Root, at: u64) -> Parts {
        let i = (at % SLOTS) as usize;
        if kind == 0 {
            let pairs: Vec<Root> = (0..SLOTS as usize).map(|n| filler(9, n)).collect();
            let difficulty = spec::merkle::uint(0x1234_5678);
            let mut leaves = pairs;
            leaves[i] = node(&block_hash, &difficulty);
            let tree = Tree::new(&leaves, 13);
            let length = spec::merkle::uint(SLOTS);
            self.epochs[(at / SLOTS) as usize] = node(&tree.root(), &length);
            let beacon = [vec![difficulty], tree.branch(i), vec![length]].concat();
            return Parts { kind, beacon, beacon_root: [0; 32], execution: vec![], slot: 0 };
        }
        // Payload, block body and beacon block, each as the tree of its fields.
        let fields = |salt: u8, n: usize| -> Vec<Root> { (0..n).map(|k| filler(salt, k)).collect() };
        let (n, depth) = if kind == 3 { (17, 5) } else { (13 + kind, 4) };
        let mut payload = fields(5, n);
        payload[12] = block_hash;
        let payload = Tree::new(&payload, depth);
        let mut body = fields(6, 9 + kind);
        body.resize(body.len().max(10), [7; 32]);
        body[9] = payload.root();
        let body = Tree::new(&body, 4);
        let mut block = fields(7, 5);
        block[0] = spec::merkle::uint(at);
        block[4] = body.root();
        let block = Tree::new(&block, 3);
        let execution = [payload.branch(12), body.branch(9), block.branch(4)].concat();
        let mut leaves: Vec<Root> = (0..SLOTS as usize).map(|n| filler(8, n)).collect();
        leaves[i] = block.root();
        let tree = Tree::new(&leaves, 13);
        let mut beacon = tree.branch(i);
        if kind == 1 {
            let states = filler(10, 0);
            beacon.push(states);
            self.roots[(at / SLOTS) as usize] = node(&tree.root(), &states);
        } else {
            let n = ((at - CAPELLA_SLOT) / SLOTS) as usize;
            self.summaries[n].0 = tree.root();
        }
        Parts { kind, beacon, beacon_root: block.root(), execution, slot: at }
    }
}

/// Recomputes every link of a proof.
fn holds(t: &Tables, h: &Header, p: &Parts) -> bool {
    let hash = spec::trie::keccak(&alloy::rlp::encode(h));
    let era = if h.timestamp >= CANCUN {
        3
    } else if h.timestamp >= SHANGHAI {
        2
    } else if h.number >= PARIS {
        1
    } else {
        0
    };
    if p.kind != era {
        return false;
    }
    let fold = spec::merkle::fold;
    if p.kind == 0 {
        let i = (4 * SLOTS + 2 * (h.number % SLOTS)) as usize;
        return t.epochs.get((h.number / SLOTS) as usize) == Some(&fold(&hash, &p.beacon, i));
    }
    // Field 4 of the block, field 9 of the body, field 12 of the payload.
    let gen = if p.kind == 3 { ((8 + 4) * 16 + 9) * 32 + 12 } else { ((8 + 4) * 16 + 9) * 16 + 12 };
    if fold(&hash, &p.execution, gen) != p.beacon_root {
        return false;
    }
    let root = fold(&p.beacon_root, &p.beacon, (p.slot % SLOTS) as usize);
    if p.kind == 1 {
        t.roots.get((p.slot / SLOTS) as usize) == Some(&root)
    } else {
        let Some(since) = p.slot.checked_sub(CAPELLA_SLOT) else { return false };
        t.summaries.get((since / SLOTS) as usize).map(|s| &s.0) == Some(&root)
    }
}

/// One header and slot (or nothing) per kind and position, with the tables proving all of them.
struct Chain {
    tables: Tables,
    blocks: Vec<(Vec<u8>, Parts)>,
}

const ERAS: [(u64, u64, usize); 8] = [
    (1, 1_438_269_988, 0),
    (PARIS - 1, 1_663_224_161, 0),
    (PARIS, 1_663_224_179, 0),
    (17_034_869, SHANGHAI - 1, 1),
    (17_034_870, SHANGHAI, 2),
    (19_426_586, CANCUN - 1, 2),
    (19_426_587, CANCUN, 5),
    (22_431_084, 1_746_612_311, 6),
];

fn chain() -> &'static Chain {
    static C: OnceLock<Chain> = OnceLock::new();
    C.get_or_init(|| {
        let mut tables = Tables::new();
        let mut blocks = vec![];
        let mut add = |kind: usize, number: u64, timestamp: u64, optional: usize, at: u64| {
            let raw = raw_header(number, timestamp, optional);
            let p = tables.enter(kind, spec::trie::keccak(&raw), at);
            blocks.push((raw, p));
        };
        // First and last of an epoch, first epoch, last epoch with a block.
        add(0, 0, 1, 0, 0);
        add(0, 8192, 1_438_271_000, 0, 8192);
        add(0, 3 * 8192 - 1, 1_438_272_000, 0, 3 * 8192 - 1);
        add(0, PARIS - 1, 1_663_224_161, 0, PARIS - 1);
        add(1, PARIS, 1_663_224_179, 0, 4_700_013);
        add(1, 15_540_000, 1_663_300_000, 0, 575 * SLOTS);
        add(1, 17_034_869, SHANGHAI - 1, 1, 758 * SLOTS - 1);
        add(2, 17_034_870, SHANGHAI, 2, CAPELLA_SLOT);
        add(2, 18_000_000, 1_700_000_000, 2, CAPELLA_SLOT + 2 * SLOTS - 1);
        add(2, 19_426_586, CANCUN - 1, 2, CAPELLA_SLOT + 5 * SLOTS + 77);
        add(3, 19_426_587, CANCUN, 5, CAPELLA_SLOT + 20 * SLOTS);
        add(3, 22_431_084, 1_746_612_311, 6, CAPELLA_SLOT + 40 * SLOTS - 1);
        Chain { tables, blocks }
    })
}

fn verdict(v: &HeaderValidator, header: &Header, p: &Parts) -> Option<bool> {
    let proof = p.proof()?;
    let item = HeaderWithProof { header: header.clone(), proof };
    Some(block_on(v.validate_header_with_proof(&item)).is_ok())
}

/// Runs a future that needs nothing from the outside.
pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}

thread_local! {
    static VALIDATOR: HeaderValidator = chain().tables.validator();
}

fn judge(ch: &mut Ch, what: &str, h: &Header, p: &Parts) -> Res {
    let Some(got) = VALIDATOR.with(|v| verdict(v, h, p)) else { return Ok(()) };
    ch.eval();
    let want = holds(&chain().tables, h, p);
    ch.outcome(&(what, p.kind, got));
    check_eq!(got, want, "acceptance of {what}");
    Ok(())
}

pub fn v02(ctx: &Ctx) {
    let c = chain();
    ctx.range("blocks of the chain and changes of their proofs", c.blocks.len() as u64, |i, ch| {
        let (raw, p) = &c.blocks[i as usize];
        let h = decode_header(raw);
        ch.note(|| format!("block {} of kind {} at slot {}", h.number, p.kind, p.slot));
        vc::check!(holds(&c.tables, &h, p), "the reference refuses block {}", h.number);
        judge(ch, "the proof itself", &h, p)?;
        let nodes = p.beacon.len() + p.execution.len();
        fn at(p: &mut Parts, n: usize) -> &mut Root {
            let b = p.beacon.len();
            if n < b {
                &mut p.beacon[n]
            } else {
                &mut p.execution[n - b]
            }
        }
        for n in 0..nodes {
            for byte in 0..32 {
                for bit in [1u8, 0x80] {
                    let mut bad = p.clone();
                    at(&mut bad, n)[byte] ^= bit;
                    judge(ch, "a changed proof node", &h, &bad)?;
                }
            }
            for m in 0..n {
                let mut bad = p.clone();
                let a = *at(&mut bad, n);
                *at(&mut bad, n) = *at(&mut bad, m);
                *at(&mut bad, m) = a;
                judge(ch, "swapped proof nodes", &h, &bad)?;
            }
            let mut bad = p.clone();
            *at(&mut bad, n) = [0; 32];
            judge(ch, "a zero proof node", &h, &bad)?;
        }
        for byte in 0..32 {
            let mut bad = p.clone();
            bad.beacon_root[byte] ^= 1;
            if p.kind != 0 {
                judge(ch, "a changed beacon root", &h, &bad)?;
            }
        }
        let around = |s: u64| [s.wrapping_sub(1), s, s.wrapping_add(1)];
        let slots = (0..64)
            .map(|b| p.slot ^ 1u64 << b)
            .chain(around(p.slot))
            .chain(around(p.slot.wrapping_sub(SLOTS)))
            .chain(around(p.slot + SLOTS))
            .chain(around(ROOTS as u64 * SLOTS))
            .chain(around(CAPELLA_SLOT))
            .chain(around(CAPELLA_SLOT + SUMMARIES as u64 * SLOTS))
            .chain([0, u64::MAX, u64::MAX - SLOTS, 1 << 32, (1 << 32) + p.slot]);
        for slot in slots {
            if p.kind != 0 {
                judge(ch, "another slot", &h, &Parts { slot, ..p.clone() })?;
            }
        }
        // Other proofs for the same header, and its proof for other headers.
        for (other, q) in &c.blocks {
            judge(ch, "the proof of another block", &h, q)?;
            judge(ch, "the header of another block", &decode_header(other), p)?;
            for kind in 0..4 {
                judge(ch, "a proof of another kind", &h, &Parts { kind, ..q.clone() })?;
            }
        }
        // The same header with one field changed.
        for change in 0..18 {
            let mut h = h.clone();
            match change {
                0 => h.parent_hash.0[31] ^= 1,
                1 => h.ommers_hash.0[0] ^= 1,
                2 => h.beneficiary.0[0] ^= 1,
                3 => h.state_root.0[0] ^= 1,
                4 => h.transactions_root.0[0] ^= 1,
                5 => h.receipts_root.0[0] ^= 1,
                6 => h.gas_limit += 1,
                7 => h.gas_used += 1,
                8 => h.timestamp += 1,
                9 => h.timestamp -= 1,
                10 => h.number += 1,
                11 => h.number = h.number.wrapping_sub(1),
                12 => h.number = h.number.wrapping_add(SLOTS),
                13 => h.mix_hash.0[0] ^= 1,
                14 => h.extra_data = vec![1].into(),
                15 => h.number = u64::MAX,
                16 => h.timestamp = u64::MAX,
                _ => h.difficulty += alloy::primitives::U256::from(1),
            }
            judge(ch, "a changed header", &h, p)?;
        }
        Ok(())
    });
    ctx.range("kinds of proof against eras", 4 * ERAS.len() as u64, |i, ch| {
        let kind = i as usize % 4;
        let (number, timestamp, optional) = ERAS[i as usize / 4];
        let raw = raw_header(number, timestamp, optional);
        // Fully linked as this kind of history.
        let mut t = Tables::new();
        let at = match kind {
            0 => number % (EPOCHS as u64 * SLOTS),
            1 => 700 * SLOTS + number % SLOTS,
            _ => CAPELLA_SLOT + 7 * SLOTS + number % SLOTS,
        };
        let p = t.enter(kind, spec::trie::keccak(&raw), at);
        let h = decode_header(&raw);
        ch.note(|| format!("block {number} at {timestamp} with a proof of kind {kind}"));
        let want = holds(&t, &h, &p);
        let got = verdict(&t.validator(), &h, &p).ok_or("no proof")?;
        ch.eval();
        check_eq!(got, want, "acceptance of a proof of kind {kind} for block {number} at {timestamp}");
        ch.outcome(&(kind, number, got));
        Ok(())
    });
    ctx.range("tables of other lengths", 6, |i, ch| {
        // The last entry and the one after it.
        let kind = 1 + i as usize % 3;
        let cut = i >= 3;
        let (number, timestamp, optional) = ERAS[[3, 5, 7][kind - 1]];
        let raw = raw_header(number, timestamp, optional);
        let mut t = Tables::new();
        let at = if kind == 1 { ROOTS as u64 * SLOTS - 1 } else { CAPELLA_SLOT + SUMMARIES as u64 * SLOTS - 1 };
        let p = t.enter(kind, spec::trie::keccak(&raw), at);
        if cut {
            t.roots.pop();
            t.summaries.pop();
        }
        let h = decode_header(&raw);
        let got = verdict(&t.validator(), &h, &p).ok_or("no proof")?;
        ch.eval();
        check_eq!(got, !cut, "acceptance of a proof for the {} entry of a table", if cut { "missing" } else { "last" });
        ch.outcome(&(kind, cut));
        Ok(())
    });
}
