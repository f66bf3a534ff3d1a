//! A chain of beacon blocks and the providers that know it.
use std::{future::Future, time::Duration};

use ethportal_api::types::execution::header_with_proof::BlockHeaderProof;
use reqwest::{
    fake::Reply,
    header::{HeaderMap, HeaderValue},
};
use spec::{
    bytes,
    chain::{Block, State},
    execution,
    merkle::{sha256, Root, Tree},
    num, rlp, trie, Rlp,
};
use vc::{check, check_eq, Res};

pub const PERIOD: u64 = 8192;
pub const CAPELLA_SLOT: u64 = 6_209_536;
pub const FILE: u64 = 4;

/// Runs on a thread of its own with a clock that jumps to the next event.
pub fn run<T: Send, F: Future<Output = Result<T, String>>>(f: impl FnOnce() -> F + Send) -> Result<T, String> {
    vc::on_thread(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
        let r = rt.block_on(f());
        reqwest::fake::clear();
        aws_sdk_s3::fake::clear();
        e2store::e2hs::written();
        e2store::e2hs::set_size(0);
        r
    })?
}

pub fn reply(status: u16, kind: &'static str, body: Vec<u8>) -> Option<Reply> {
    let headers = HeaderMap::from_iter([("content-type", HeaderValue::from_static(kind))]);
    Some(Reply { status, headers, body, after: Duration::ZERO })
}
pub fn ssz(body: Vec<u8>) -> Option<Reply> {
    reply(200, "application/octet-stream", body)
}
pub fn json(text: String) -> Option<Reply> {
    reply(200, "application/json", text.into_bytes())
}
pub fn result(id: &serde_json::Value, r: &str) -> String {
    format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"result\":{r}}}")
}

pub fn hex(b: &[u8]) -> String {
    let mut s = "0x".to_string();
    b.iter().for_each(|b| s.push_str(&format!("{b:02x}")));
    s
}

pub fn filler(table: u8, i: usize) -> Root {
    sha256(&[table, i as u8, (i >> 8) as u8, 0xbb])
}

/// Receipts that differ from those of all other blocks.
pub fn receipts(number: u64) -> Vec<Vec<u8>> {
    (0..number % 3).map(|k| rlp(&Rlp::List(vec![num(1), num((21_000 + number * 4 + k).into()), bytes(&[0; 256]), Rlp::List(vec![])]))).collect()
}
pub fn receipts_text(number: u64) -> String {
    let one = |k| {
        format!(
            "{{\"type\":\"0x0\",\"status\":\"0x1\",\"cumulativeGasUsed\":\"0x{:x}\",\"logsBloom\":\"{}\",\"logs\":[]}}",
            21_000 + number * 4 + k,
            hex(&[0; 256])
        )
    };
    format!("[{}]", (0..number % 3).map(one).collect::<Vec<_>>().join(","))
}

/// A block with a body of its own.
pub fn block(fork: usize, slot: u64, number: u64, parent: Root) -> Block {
    let mut b = Block::new(fork, slot, number, number as u8);
    b.parent = parent;
    b.payload.timestamp = 1_606_824_023 + slot * 12;
    b.payload.receipts = trie::ordered_root(&receipts(number));
    if number % 4 != 1 {
        b.payload.txs = (0..number % 4 + 1).map(|k| execution::transaction(2, k as usize)).collect();
    }
    b.payload.withdrawals = vec![number, number + 1];
    b.seal();
    b
}

/// What an execution provider says about a block without transactions.
pub fn block_text(b: &Block) -> String {
    let p = &b.payload;
    let w: Vec<Vec<u8>> = p.withdrawals.iter().map(|i| rlp(&execution::withdrawal(*i))).collect();
    let one = |i: &u64| {
        let (index, validator, address, amount) = execution::withdrawal_fields(*i);
        format!("{{\"index\":\"0x{index:x}\",\"validatorIndex\":\"0x{validator:x}\",\"address\":\"{}\",\"amount\":\"0x{amount:x}\"}}", hex(&address))
    };
    let mut f = vec![
        format!("\"hash\":\"{}\"", hex(&p.hash)),
        format!("\"parentHash\":\"{}\"", hex(&p.parent)),
        format!("\"sha3Uncles\":\"{}\"", hex(&trie::keccak(&[0xc0]))),
        format!("\"miner\":\"{}\"", hex(&p.fee)),
        format!("\"stateRoot\":\"{}\"", hex(&p.state)),
        format!("\"transactionsRoot\":\"{}\"", hex(&trie::ordered_root(&p.txs))),
        format!("\"receiptsRoot\":\"{}\"", hex(&p.receipts)),
        format!("\"logsBloom\":\"{}\"", hex(&p.bloom)),
        "\"difficulty\":\"0x0\"".into(),
        format!("\"number\":\"0x{:x}\"", p.number),
        format!("\"gasLimit\":\"0x{:x}\"", p.gas_limit),
        format!("\"gasUsed\":\"0x{:x}\"", p.gas_used),
        format!("\"timestamp\":\"0x{:x}\"", p.timestamp),
        "\"extraData\":\"0x\"".into(),
        format!("\"mixHash\":\"{}\"", hex(&p.randao)),
        "\"nonce\":\"0x0000000000000000\"".into(),
        format!("\"baseFeePerGas\":\"0x{:x}\"", p.base_fee),
        "\"uncles\":[]".into(),
        "\"transactions\":[]".into(),
        format!("\"withdrawalsRoot\":\"{}\"", hex(&trie::ordered_root(&w))),
        format!("\"withdrawals\":[{}]", p.withdrawals.iter().map(one).collect::<Vec<_>>().join(",")),
    ];
    if b.fork >= 2 {
        f.push(format!("\"blobGasUsed\":\"0x{:x}\"", p.blob_gas));
        f.push(format!("\"excessBlobGas\":\"0x{:x}\"", p.excess));
        f.push(format!("\"parentBeaconBlockRoot\":\"{}\"", hex(&b.parent)));
    }
    if b.fork >= 3 {
        f.push(format!("\"requestsHash\":\"{}\"", hex(&b.requests.hash())));
    }
    format!("{{{}}}", f.join(","))
}

/// The roots of the blocks of a period.
pub struct Roots {
    pub all: Vec<Root>,
    pub tree: Tree,
}

/// The roots of the period that starts at the slot, with the given blocks in it.
pub fn roots<'a>(start: u64, blocks: impl Iterator<Item = &'a Block>) -> Roots {
    let mut all: Vec<Root> = (0..PERIOD as usize).map(|i| filler(start.div_euclid(PERIOD) as u8, i)).collect();
    for b in blocks.filter(|b| b.slot / PERIOD == start / PERIOD) {
        all[(b.slot % PERIOD) as usize] = b.object().root();
    }
    let tree = Tree::new(&all, 13);
    Roots { all, tree }
}

const MARK: [u8; 64] = [0xa7; 64];

/// The encoding of a state at the start of a period, and where its last summary is.
pub fn template(fork: usize, slot: u64) -> (Vec<u8>, usize) {
    let mut s = State::new(fork, slot);
    let n = ((slot - CAPELLA_SLOT) / PERIOD) as usize;
    s.summaries = (0..n).map(|i| (filler(6, i), filler(7, i))).collect();
    s.summaries[n - 1] = ([0xa7; 32], [0xa7; 32]);
    s.state_roots = (0..PERIOD as usize).map(|i| filler(9, i)).collect();
    let b = s.object().encode();
    let at = b.len() - b.windows(64).rev().position(|w| w == MARK).expect("the mark") - 64;
    (b, at)
}

/// Fills in a state: its slot, the block roots and the summary of the period before.
pub fn fill(t: &(Vec<u8>, usize), slot: u64, roots: &[Root], summary: Root) -> Vec<u8> {
    let mut b = t.0.clone();
    b[40..48].copy_from_slice(&slot.to_le_bytes());
    b[176..176 + 32 * PERIOD as usize].copy_from_slice(&roots.concat());
    b[t.1..t.1 + 32].copy_from_slice(&summary);
    b[t.1 + 32..t.1 + 64].copy_from_slice(&filler(8, 0));
    b
}

/// Whether the archive has the blocks with their proofs.
pub fn same(got: &e2store::e2hs::Written, want: &[Block], roots: &[(u64, &Roots)]) -> Res {
    check_eq!(got.blocks.len(), want.len(), "blocks in the archive");
    for (t, b) in got.blocks.iter().zip(want) {
        let n = b.payload.number;
        let h = &t.header_with_proof.header_with_proof;
        check!(alloy_rlp::encode(&h.header) == b.header(), "header of block {n}");
        let hashes = |v: &[alloy::primitives::B256]| v.iter().map(|h| h.0).collect::<Vec<Root>>();
        let p = match &h.proof {
            BlockHeaderProof::HistoricalSummariesCapella(p) => (1, hashes(&p.beacon_block_proof), p.beacon_block_root.0, hashes(&p.execution_block_proof), p.slot),
            BlockHeaderProof::HistoricalSummariesDeneb(p) => (2, hashes(&p.beacon_block_proof), p.beacon_block_root.0, hashes(&p.execution_block_proof), p.slot),
            p => return Err(format!("proof of block {n}: {p:?}")),
        };
        let tree = &roots.iter().find(|r| r.0 / PERIOD == b.slot / PERIOD).expect("roots").1.tree;
        check_eq!(p.0, b.fork.min(2), "kind of proof of block {n}");
        check_eq!(p.4, b.slot, "slot of block {n}");
        check_eq!(p.2, b.object().root(), "beacon root of block {n}");
        check_eq!(p.3, b.hash_branch(), "branch of the hash of block {n}");
        check_eq!(p.1, tree.branch((b.slot % PERIOD) as usize), "branch of the root of block {n}");
        let list = |v: Vec<Vec<u8>>| execution::raw_list(&v);
        let body = list(vec![
            list(b.payload.txs.iter().map(|t| execution::wrapped(t)).collect()),
            vec![0xc0],
            list(b.payload.withdrawals.iter().map(|i| rlp(&execution::withdrawal(*i))).collect()),
        ]);
        check!(alloy_rlp::encode(&t.body.body) == body, "body of block {n}");
        check!(alloy_rlp::encode(&t.receipts.receipts) == list(receipts(n)), "receipts of block {n}");
    }
    Ok(())
}
