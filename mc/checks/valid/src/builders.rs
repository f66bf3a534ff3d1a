//! What is built out of beacon blocks and states: execution headers, bodies and proofs.
use crate::headers::{block_on, Tables};
use alloy::{consensus::{Header, TxEnvelope}, eips::Encodable2718, primitives::B256};
use ethportal_api::{
    consensus::{
        beacon_block::SignedBeaconBlock,
        beacon_state::{BeaconState, BeaconStateDeneb, BeaconStateElectra, HistoricalBatch},
        fork::ForkName,
        proof::build_merkle_proof_for_index,
    },
    types::execution::{
        accumulator::EpochAccumulator,
        builders::block::{decode_transactions, ExecutionBlockBuilder},
        header_with_proof::{BlockHeaderProof, HeaderWithProof},
    },
    BlockBody,
};
use spec::{
    chain::{Block, Requests, State},
    execution::{transaction, withdrawal_fields},
    merkle::{node, sha256, Root, Tree},
};
use ssz::Decode;
use std::sync::OnceLock;
use tree_hash::TreeHash;
use trin_validation::accumulator::PreMergeAccumulator;
use vc::{check, check_eq, Ch, Ctx, Res};

const NAMES: [ForkName; 4] = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra];
const SLOTS: u64 = 8192;
const CAPELLA_SLOT: u64 = 6_209_536;
/// Slot, block number and time of a block of each fork.
const PLACE: [(u64, u64, u64); 4] = [
    (4_700_013, 15_537_394, 1_663_224_179),
    (CAPELLA_SLOT + 5, 17_034_870, 1_681_338_455),
    (CAPELLA_SLOT + 20 * SLOTS + 3, 19_426_587, 1_710_338_135),
    (CAPELLA_SLOT + 39 * SLOTS + 9, 22_431_084, 1_746_612_311),
];

fn filler(table: u8, i: usize) -> Root {
    sha256(&[table, i as u8, (i >> 8) as u8, 0xbb])
}

fn roots() -> &'static (Vec<Root>, Vec<Root>, Root) {
    static R: OnceLock<(Vec<Root>, Vec<Root>, Root)> = OnceLock::new();
    R.get_or_init(|| {
        let list = |t| (0..SLOTS as usize).map(|i| filler(t, i)).collect::<Vec<Root>>();
        let (b, s) = (list(1), list(2));
        let root = Tree::new(&s, 13).root();
        (b, s, root)
    })
}

fn batch(blocks: &[Root], states: &[Root]) -> HistoricalBatch {
    let all = |l: &[Root]| l.iter().map(|r| B256::from(*r)).collect::<Vec<_>>();
    HistoricalBatch { block_roots: all(blocks).into(), state_roots: all(states).into() }
}

fn any_batch() -> &'static HistoricalBatch {
    static B: OnceLock<HistoricalBatch> = OnceLock::new();
    B.get_or_init(|| batch(&roots().0, &roots().1))
}

fn sample(fork: usize) -> Block {
    let (slot, number, time) = PLACE[fork];
    let mut b = Block::new(fork, slot, number, 0x55);
    b.payload.timestamp = time;
    b
}

fn read(b: &Block) -> Result<SignedBeaconBlock, String> {
    SignedBeaconBlock::from_ssz_bytes(&b.signed(), NAMES[b.fork]).map_err(|e| format!("block of the alphabet refused: {e:?}"))
}

fn build(b: &Block) -> Result<anyhow::Result<(HeaderWithProof, BlockBody)>, String> {
    Ok(ExecutionBlockBuilder::build(&read(b)?, any_batch()))
}

fn raw(l: &[TxEnvelope]) -> Vec<Vec<u8>> {
    l.iter().map(|t| t.encoded_2718()).collect()
}

/// Header and body are those the block stands for.
fn good(b: &Block) -> Res {
    let (h, body) = build(b)?.map_err(|e| format!("refused: {e}"))?;
    check_eq!(spec::short(&alloy::rlp::encode(&h.header)), spec::short(&b.header()), "header");
    check_eq!(h.header.hash_slow().0, b.payload.hash, "block hash");
    check_eq!(raw(&body.0.transactions), b.payload.txs, "transactions of the body");
    check!(body.0.ommers.is_empty(), "uncles in a block after the merge");
    let got = body.0.withdrawals.map(|l| l.iter().map(|w| (w.index, w.validator_index, w.address.to_vec(), w.amount)).collect::<Vec<_>>());
    let want = (b.fork > 0).then(|| b.payload.withdrawals.iter().map(|i| withdrawal_fields(*i)).collect::<Vec<_>>());
    check_eq!(got, want, "withdrawals of the body");
    Ok(())
}

fn contents(ch: &mut Ch, longest: usize) -> Res {
    let fork = ch.pick(4);
    let mut b = sample(fork);
    let n = ch.pick(longest + 1);
    for _ in 0..n {
        let kind = ch.pick(5) as u8;
        let variant = if n == 1 { ch.pick(6) } else { ch.pick(2) };
        b.payload.txs.push(transaction(kind, variant));
    }
    if fork > 0 {
        b.payload.withdrawals = ch.choose(&[vec![], vec![0], vec![7, 300], (1..17).collect()]).clone();
    }
    if fork > 1 {
        b.commitments = *ch.choose(&[0, 2]);
    }
    if fork > 2 {
        b.requests = Requests(ch.choose(&[[0, 0, 0], [1, 0, 0], [0, 2, 1], [2, 1, 2]]).to_owned());
    }
    b.seal();
    ch.outcome(&(fork, b.payload.hash));
    good(&b)
}

fn extremes(ch: &mut Ch) -> Res {
    let fork = ch.pick(4);
    let mut b = sample(fork);
    let n = *ch.choose(&[0u64, 1, 127, 128, 255, 256, u32::MAX as u64, u64::MAX]);
    let p = &mut b.payload;
    match ch.pick(10) {
        0 => p.number = n,
        1 => p.gas_limit = n,
        2 => p.gas_used = n,
        3 => p.timestamp = n,
        4 => p.base_fee = n,
        5 => p.blob_gas = n,
        6 => p.excess = n,
        7 => p.extra = spec::ramp(9, (n % 33) as usize),
        8 => p.bloom = vec![n as u8; 256],
        _ => {
            // All kinds of request list, of a block with that many transactions.
            let many = [0, 1, 17, 127, 128, 129, 256, 300][(n % 8) as usize];
            p.txs = (0..many).map(|i| transaction((i % 5) as u8, i % 3)).collect();
        }
    }
    b.seal();
    ch.outcome(&(fork, b.payload.hash));
    good(&b)
}

fn requests(ch: &mut Ch, most: u8) -> Res {
    let mut b = sample(3);
    b.requests = Requests([ch.pick(most as usize + 1) as u8, ch.pick(most as usize + 1) as u8, ch.pick(3) as u8]);
    b.seal();
    ch.outcome(&b.payload.hash);
    good(&b)
}

/// A block changed after it was sealed.
fn changed(ch: &mut Ch) -> Res {
    let fork = ch.pick(4);
    let mut b = sample(fork);
    b.payload.txs = vec![transaction(2, 0), transaction(0, 1), transaction(1, 0)];
    b.payload.withdrawals = vec![4, 5];
    b.payload.extra = vec![1, 2];
    b.requests = Requests([1, 1, 1]);
    b.seal();
    let what = ch.pick(29);
    let p = &mut b.payload;
    let mut matters = true;
    match what {
        0 => p.parent[31] ^= 1,
        1 => p.fee[19] ^= 1,
        2 => p.state[0] ^= 1,
        3 => p.receipts[7] ^= 1,
        4 => p.bloom[0] ^= 1,
        5 => p.bloom[255] ^= 0x80,
        6 => p.randao[3] ^= 1,
        7 => p.number += 1,
        8 => p.gas_limit -= 1,
        9 => p.gas_used += 1,
        10 => p.timestamp += 1,
        11 => p.extra.push(0),
        12 => p.extra.clear(),
        13 => p.base_fee += 1,
        14 => p.hash[0] ^= 1,
        15 => p.hash[31] ^= 1,
        16 => p.txs.swap(0, 1),
        17 => drop(p.txs.pop()),
        18 => p.txs.push(transaction(0, 0)),
        19 => p.txs[1] = transaction(0, 2),
        20 => {
            p.withdrawals.swap(0, 1);
            matters = fork > 0;
        }
        21 => {
            p.withdrawals.pop();
            matters = fork > 0;
        }
        22 => {
            p.blob_gas += 1;
            matters = fork > 1;
        }
        23 => {
            p.excess += 1;
            matters = fork > 1;
        }
        24 => {
            b.parent[5] ^= 1;
            matters = fork > 1;
        }
        25 => {
            b.requests = Requests(ch.choose(&[[0, 1, 1], [1, 0, 1], [1, 1, 0], [2, 1, 1], [1, 2, 1], [1, 1, 2]]).to_owned());
            matters = fork > 2;
        }
        26 => p.txs[2] = ch.choose(&[vec![], vec![0], vec![2], vec![5, 0xc0], vec![0xc0], vec![0x80]]).clone(),
        27 => {
            p.txs[2].pop();
        }
        _ => {
            b.proposer += 1;
            b.state[0] ^= 1;
            matters = false;
        }
    }
    let got = build(&b)?.is_ok();
    ch.outcome(&(fork, what, got));
    check_eq!(got, !matters, "change {what} of a block of fork {fork}");
    Ok(())
}

fn transactions(ch: &mut Ch, longest: usize) -> Res {
    let n = ch.pick(longest + 1);
    let mut want = Some(vec![]);
    let mut given: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let k = ch.pick(8);
        let one = if k < 5 { transaction(k as u8, 1) } else { [vec![], vec![3], vec![0xc1, 0x80]][k - 5].clone() };
        given.push(one.clone());
        want = if k < 5 { want.map(|mut w| { w.push(one); w }) } else { None };
    }
    let list: Vec<_> = given.into_iter().map(|b| b.into()).collect();
    let got = decode_transactions(&list.into()).ok().map(|l| raw(&l));
    ch.outcome(&got);
    check_eq!(got, want, "transactions");
    Ok(())
}

pub fn v09(ctx: &Ctx) {
    ctx.explore("contents of blocks", |ch| contents(ch, ctx.b(2, 3)));
    ctx.explore("extreme fields", extremes);
    ctx.explore("requests", |ch| requests(ch, ctx.b(3, 8)));
    ctx.explore("changed after sealing", changed);
    ctx.explore("transactions", |ch| transactions(ch, ctx.b(4, 5)));
}

fn hashes(l: &[B256]) -> Vec<Root> {
    l.iter().map(|b| b.0).collect()
}

/// The proof of a block at `slot`, against the branches of the reference trees.
fn proof(fork: usize, slot: u64, epochs: u64) -> Res {
    let (blocks, states, state_root) = roots();
    let mut b = sample(fork);
    b.slot = slot;
    b.payload.txs = vec![transaction(2, 0)];
    b.payload.withdrawals = vec![4];
    b.commitments = 3;
    b.requests = Requests([1, 0, 1]);
    b.seal();
    let at = (slot % SLOTS) as usize;
    let mut blocks = blocks.clone();
    let root = b.object().root();
    blocks[at] = root;
    let tree = Tree::new(&blocks, 13);
    let (h, _) = ExecutionBlockBuilder::build(&read(&b)?, &batch(&blocks, states)).map_err(|e| format!("refused: {e}"))?;
    let mut branch = tree.branch(at);
    let mut tables = Tables::new();
    if fork == 0 {
        branch.push(*state_root);
        tables.roots[epochs as usize] = node(&tree.root(), state_root);
    } else {
        tables.summaries[(epochs - CAPELLA_SLOT / SLOTS) as usize].0 = tree.root();
    }
    let got = match &h.proof {
        BlockHeaderProof::HistoricalHashes(_) => return Err("proof of a block before the merge".into()),
        BlockHeaderProof::HistoricalRoots(p) => (0, hashes(&p.beacon_block_proof), p.beacon_block_root.0, hashes(&p.execution_block_proof), p.slot),
        BlockHeaderProof::HistoricalSummariesCapella(p) => (1, hashes(&p.beacon_block_proof), p.beacon_block_root.0, hashes(&p.execution_block_proof), p.slot),
        BlockHeaderProof::HistoricalSummariesDeneb(p) => (2, hashes(&p.beacon_block_proof), p.beacon_block_root.0, hashes(&p.execution_block_proof), p.slot),
    };
    check_eq!(got.0, fork.min(2), "kind of proof");
    check_eq!(got.1, branch, "branch of the block among the roots");
    check_eq!(got.2, root, "block root");
    check_eq!(got.3, b.hash_branch(), "branch of the block hash");
    check_eq!(got.4, slot, "slot");
    let verdict = block_on(tables.validator().validate_header_with_proof(&h));
    check!(verdict.is_ok(), "the validator refuses the built proof: {verdict:?}");
    Ok(())
}

fn state(ch: &mut Ch, most: usize) -> Res {
    let fork = 2 + ch.pick(2);
    let mut s = State::new(fork, PLACE[fork].0);
    s.block_roots = roots().0.clone();
    s.state_roots = roots().1.clone();
    s.historical_roots = (0..ch.pick(3)).map(|i| filler(5, i)).collect();
    s.summaries = (0..ch.pick(most + 1)).map(|i| (filler(6, i), filler(7, i))).collect();
    let o = s.object();
    let bytes = o.encode();
    let (got, root, list) = if fork == 2 {
        let v = BeaconStateDeneb::from_ssz_bytes(&bytes).map_err(|e| format!("state refused: {e:?}"))?;
        (hashes(&v.build_historical_summaries_proof()), v.tree_hash_root(), v.historical_summaries.tree_hash_root())
    } else {
        let v = BeaconStateElectra::from_ssz_bytes(&bytes).map_err(|e| format!("state refused: {e:?}"))?;
        (hashes(&v.build_historical_summaries_proof()), v.tree_hash_root(), v.historical_summaries.tree_hash_root())
    };
    ch.outcome(&root.0);
    check_eq!(root.0, o.root(), "root of the state");
    check_eq!(got, o.branch(27), "branch of the summaries");
    let index = if fork == 2 { 32 + 27 } else { 64 + 27 };
    check_eq!(spec::merkle::fold(&list.0, &got, index), o.root(), "branch against the root");
    let whole = BeaconState::from_ssz_bytes(&bytes, NAMES[fork]).map_err(|e| format!("state refused: {e:?}"))?;
    check_eq!(whole.tree_hash_root().0, o.root(), "root of the state read by fork");
    Ok(())
}

/// A header among the records of an epoch: the record's difficulty, its branch and the number of records.
fn record(ch: &mut Ch, most: usize) -> Res {
    let n = match ch.pick(most + 3) {
        k if k < most => k + 1,
        k => [5362, 8191, 8192][k - most],
    };
    let at = if n <= most { ch.pick(n) } else { *ch.choose(&[0, 1, n / 2, n - 2, n - 1]) };
    // What stands in the header's place: its own record, that of another block, or none it has anywhere.
    let kind = ch.pick(3);
    let number = 1000 * SLOTS + at as u64;
    let header = Header { number, difficulty: alloy::primitives::U256::from(7), ..Default::default() };
    let own = header.hash_slow().0;
    let mut records: Vec<(Root, Root)> = (0..n).map(|i| (filler(11, i), spec::merkle::uint(1_000_000 + 131 * i as u64))).collect();
    match kind {
        0 => records[at].0 = own,
        1 if n > 1 => records[(at + 1) % n].0 = own,
        _ => {}
    }
    let raw: Vec<u8> = records.iter().flat_map(|r| [r.0, r.1].concat()).collect();
    let epoch = EpochAccumulator::from_ssz_bytes(&raw).map_err(|e| format!("records refused: {e:?}"))?;
    ch.note(|| format!("{n} records, place {at}, kind {kind}"));
    ch.outcome(&(n, at, kind));
    let got = vc::no_panic(|| PreMergeAccumulator::construct_proof(&header, &epoch))?;
    if kind != 0 {
        check!(got.is_err(), "a proof of a header that is not in its place among {n}");
        return Ok(());
    }
    let got = hashes(&got.map_err(|e| format!("no proof of record {at} of {n}: {e}"))?);
    let leaves: Vec<Root> = records.iter().map(|r| node(&r.0, &r.1)).collect();
    let tree = Tree::new(&leaves, 13);
    let want = [vec![records[at].1], tree.branch(at), vec![spec::merkle::uint(n as u64)]].concat();
    check_eq!(got, want, "proof of record {at} of {n}");
    check_eq!(epoch.tree_hash_root().0, spec::merkle::with_length(tree.root(), n), "root of {n} records");
    Ok(())
}

pub fn v10(ctx: &Ctx) {
    ctx.explore("headers before the merge", |ch| record(ch, ctx.b(9, 33)));
    let edges: Vec<u64> = (0..=13)
        .flat_map(|b| [1u64 << b, (1 << b) - 1, SLOTS - (1 << b)])
        .filter(|n| *n < SLOTS)
        .chain([2730, 5461])
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()
        .collect();
    let all: Vec<u64> = (0..SLOTS).step_by(7).chain(edges.iter().copied()).collect();
    let places = if ctx.b(0, 1) == 0 { edges } else { all };
    let eras: [Vec<u64>; 4] = [vec![574, 757], vec![758, 777], vec![778, 790], vec![797]];
    let cases: Vec<(usize, u64, u64)> = (0..4)
        .flat_map(|f| eras[f].iter().flat_map(|e| places.iter().map(move |p| (f, *e, *p))).collect::<Vec<_>>())
        .collect();
    ctx.range("block proofs", cases.len() as u64, |i, ch| {
        let (fork, era, place) = cases[i as usize];
        ch.outcome(&(fork, era, place));
        proof(fork, era * SLOTS + place, era)
    });
    ctx.explore("state proofs", |ch| state(ch, ctx.b(3, 9)));
    let most = ctx.b(40u64, 140);
    ctx.explore("branches", |ch| {
        let n = 1 + ch.pick(most as usize);
        let i = ch.pick(n);
        let leaves: Vec<Root> = (0..n).map(|k| filler(8, k)).collect();
        let want = Tree::new(&leaves, n.next_power_of_two().trailing_zeros() as usize).branch(i);
        let got = hashes(&build_merkle_proof_for_index(leaves, i));
        ch.outcome(&(n, i));
        check_eq!(got, want, "branch of leaf {i} of {n}");
        Ok(())
    });
}
