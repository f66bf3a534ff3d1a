//! Bodies and receipts against headers, and the content of the legacy history network.
use crate::headers::{block_on, decode_header, Parts, Tables, CANCUN, PARIS, SHANGHAI};
use alloy::{consensus::Header, primitives::B256};
use ethportal_api::{
    types::{
        content_key::legacy_history::{EphemeralHeaderOfferKey, EphemeralHeadersFindContentKey},
        execution::{block_body::BlockBody, receipts::Receipts},
        jsonrpc::{endpoints::LegacyHistoryEndpoint, request::LegacyHistoryJsonRpcRequest},
        portal::GetContentInfo,
    },
    ContentValue, HistoryContentKey, HistoryContentValue, LegacyHistoryContentKey, OverlayContentKey,
};
use spec::{
    bytes, container,
    execution::*,
    hash, list,
    merkle::Root,
    num, rlp,
    trie::{keccak, ordered_root},
    Part::Var,
    Rlp,
};
use ssz::Decode;
use std::sync::{Arc, OnceLock};
use tokio::sync::{mpsc, RwLock};
use trin_legacy_history::validation::LegacyHistoryValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vc::{check, check_eq, Ch, Ctx, Res};

#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    pub txs: Vec<Vec<u8>>,
    pub uncles: Vec<Vec<u8>>,
    pub withdrawals: Option<Vec<Vec<u8>>>,
}

impl Body {
    pub fn commit(&self, h: &mut Header) {
        h.transactions_root = B256::from(ordered_root(&self.txs));
        h.ommers_hash = B256::from(keccak(&raw_list(&self.uncles)));
        h.withdrawals_root = self.withdrawals.as_ref().map(|w| B256::from(ordered_root(w)));
    }
    /// As legacy history content; uncles and withdrawals exclude each other there.
    pub fn ssz(&self) -> Option<Vec<u8>> {
        match &self.withdrawals {
            None => Some(container(&[Var(list(&self.txs)), Var(raw_list(&self.uncles))])),
            Some(w) if self.uncles.is_empty() => Some(container(&[Var(list(&self.txs)), Var(vec![0xc0]), Var(list(w))])),
            Some(_) => None,
        }
    }
    /// As history content.
    pub fn rlp(&self) -> Vec<u8> {
        let mut parts = vec![raw_list(&self.txs.iter().map(|t| wrapped(t)).collect::<Vec<_>>()), raw_list(&self.uncles)];
        parts.extend(self.withdrawals.as_ref().map(|w| raw_list(w)));
        raw_list(&parts)
    }
}

/// All lists of at most `n` of the items.
fn lists(items: &[Vec<u8>], n: usize) -> Vec<Vec<Vec<u8>>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l| items.iter().map(move |i| [l.clone(), vec![i.clone()]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

struct BodyCase {
    body: Body,
    decoded: Vec<HistoryContentValue>,
    legacy: Option<BlockBody>,
    header: Header,
}

fn body_case(body: Body, base: &Header) -> Result<BodyCase, String> {
    let key = HistoryContentKey::new_block_body(1);
    let decoded = HistoryContentValue::decode(&key, &body.rlp()).map_err(|e| format!("a body is refused: {e:?}"))?;
    let legacy = match body.ssz() {
        None => None,
        Some(raw) => Some(BlockBody::from_ssz_bytes(&raw).map_err(|e| format!("a body is refused: {e:?}"))?),
    };
    let mut header = base.clone();
    body.commit(&mut header);
    Ok(BodyCase { body, decoded: vec![decoded], legacy, header })
}

fn judge_body(ch: &mut Ch, b: &BodyCase, h: &BodyCase) -> Res {
    let differs = (b.body.txs != h.body.txs, b.body.uncles != h.body.uncles, b.body.withdrawals != h.body.withdrawals);
    let want = differs == (false, false, false);
    ch.eval();
    for v in &b.decoded {
        check_eq!(v.validate(&h.header), want, "verdict on a body, {:?}", differs);
    }
    if let Some(l) = &b.legacy {
        check_eq!(l.validate_against_header(&h.header).is_ok(), want, "verdict on a legacy body, {:?}", differs);
    }
    ch.outcome(&differs);
    Ok(())
}

/// A receipt for the trie and as history content.
fn receipts_pool() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut all = vec![];
    for (kind, status, n) in [(0u8, 0u128, 0usize), (0, 1, 2), (1, 1, 1), (2, 1, 1), (3, 0, 0), (4, 1, 2), (2, 1, 2)] {
        let short = rlp(&Rlp::List(vec![num(kind as u128), num(status), num(21_000 * (n as u128 + 1)), logs(n)]));
        all.push((receipt(kind, status, n), short));
    }
    // Before Byzantium receipts had a state root in place of the status.
    let old = |salt: u8| {
        let long = rlp(&Rlp::List(vec![bytes(&hash(salt)), num(21_000), bytes(&[0; 256]), Rlp::List(vec![])]));
        let short = rlp(&Rlp::List(vec![num(0), bytes(&hash(salt)), num(21_000), Rlp::List(vec![])]));
        (long, short)
    };
    all.extend([old(9), old(10)]);
    all
}

struct ReceiptsCase {
    items: Vec<usize>,
    root: Root,
    legacy: Receipts,
    value: HistoryContentValue,
}

fn receipts_case(items: Vec<usize>, pool: &[(Vec<u8>, Vec<u8>)]) -> Result<ReceiptsCase, String> {
    let long: Vec<Vec<u8>> = items.iter().map(|i| pool[*i].0.clone()).collect();
    let short: Vec<Vec<u8>> = items.iter().map(|i| pool[*i].1.clone()).collect();
    let legacy = Receipts::from_ssz_bytes(&list(&long)).map_err(|e| format!("receipts are refused: {e:?}"))?;
    let key = HistoryContentKey::new_block_receipts(1);
    let value = HistoryContentValue::decode(&key, &raw_list(&short)).map_err(|e| format!("receipts are refused: {e:?}"))?;
    Ok(ReceiptsCase { items, root: ordered_root(&long), legacy, value })
}

fn long_lists(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let all: Vec<usize> = (0..n).collect();
    let mut l = vec![("itself", all.clone())];
    if n > 0 {
        l.push(("last dropped", all[..n - 1].to_vec()));
        l.push(("first dropped", all[1..].to_vec()));
        l.push(("last doubled", [&all[..], &[n - 1]].concat()));
        let mut x = all.clone();
        x[n / 2] = n + 7;
        l.push(("middle replaced", x));
    }
    for i in [1, 16, 127, 128, 129, 255, 256] {
        if i < n {
            let mut x = all.clone();
            x.swap(i - 1, i);
            l.push(("neighbours swapped", x));
            let mut x = all.clone();
            x.swap(0, i);
            l.push(("swapped with the first", x));
            let mut x = all.clone();
            x.remove(i);
            l.push(("one dropped", x));
        }
    }
    l.push(("empty", vec![]));
    l
}

pub fn v03(ctx: &Ctx) {
    let base = decode_header(&header(5, 6, 3, 2));
    let txs = [transaction(0, 0), transaction(2, 1), transaction(3, 2)];
    let uncles = [header(1, 9, 0, 0), header(2, 9, 1, 1)];
    let withdrawals = [rlp(&withdrawal(0)), rlp(&withdrawal(200))];
    let mut w: Vec<Option<Vec<Vec<u8>>>> = lists(&withdrawals, 2).into_iter().map(Some).collect();
    w.push(None);
    let mut bodies = vec![];
    for t in lists(&txs, ctx.b(2, 3)) {
        for u in lists(&uncles, 2) {
            for w in &w {
                bodies.push(Body { txs: t.clone(), uncles: u.clone(), withdrawals: w.clone() });
            }
        }
    }
    let cases: OnceLock<Result<Vec<BodyCase>, String>> = OnceLock::new();
    ctx.range("bodies against headers", bodies.len() as u64, |i, ch| {
        let cases = cases.get_or_init(|| bodies.iter().map(|b| body_case(b.clone(), &base)).collect()).as_ref().map_err(|e| e.clone())?;
        ch.note(|| format!("body {i}"));
        for h in cases {
            judge_body(ch, &cases[i as usize], h)?;
        }
        Ok(())
    });
    let counts: &[usize] = &[1, 2, 15, 16, 17, 18, 127, 128, 129, 130, 255, 256, 257, 300];
    ctx.range("long bodies", counts.len() as u64, |i, ch| {
        let n = counts[i as usize];
        let tx = |i: &usize| {
            let l = vec![num(*i as u128), num(7), num(21_000), bytes(&spec::ramp(20, 20)), num(5), bytes(&[]), num(27), bytes(&spec::ramp(25, 32)), bytes(&spec::ramp(26, 32))];
            rlp(&Rlp::List(l))
        };
        for part in 0..2 {
            let cases: Vec<(&str, BodyCase)> = long_lists(n)
                .into_iter()
                .map(|(what, l)| {
                    let body = if part == 0 {
                        Body { txs: l.iter().map(tx).collect(), uncles: vec![], withdrawals: Some(vec![]) }
                    } else {
                        Body { txs: vec![], uncles: vec![], withdrawals: Some(l.iter().map(|i| rlp(&withdrawal(*i as u64))).collect()) }
                    };
                    Ok((what, body_case(body, &base)?))
                })
                .collect::<Result<_, String>>()?;
            ch.note(|| format!("{n} items in part {part}"));
            for (what, b) in &cases {
                if let Err(e) = judge_body(ch, b, &cases[0].1) {
                    vc::fail!("{n} items, {what}: {e}");
                }
                ch.outcome(&(n, part, *what));
            }
        }
        Ok(())
    });
    let pool = receipts_pool();
    let mut items: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..pool.len() {
        items.push(vec![a]);
        for b in 0..pool.len() {
            items.push(vec![a, b]);
            if ctx.b(false, true) {
                items.extend((0..pool.len()).map(|c| vec![a, b, c]));
            }
        }
    }
    let cases: OnceLock<Result<Vec<ReceiptsCase>, String>> = OnceLock::new();
    ctx.range("receipts against headers", items.len() as u64, |i, ch| {
        let cases = cases.get_or_init(|| items.iter().map(|b| receipts_case(b.clone(), &pool)).collect()).as_ref().map_err(|e| e.clone())?;
        let r = &cases[i as usize];
        ch.note(|| format!("receipts {:?}", r.items));
        check_eq!(r.legacy.root(), B256::from(r.root), "root of receipts {:?}", r.items);
        for h in cases {
            let mut header = base.clone();
            header.receipts_root = B256::from(h.root);
            ch.eval();
            check_eq!(r.value.validate(&header), r.items == h.items, "verdict on receipts {:?} for {:?}", r.items, h.items);
            ch.outcome(&(r.items.len(), h.items.len(), r.items == h.items));
        }
        Ok(())
    });
    ctx.range("long lists of receipts", counts.len() as u64, |i, ch| {
        let n = counts[i as usize];
        let receipt = |i: &usize| {
            let gas = num(21_000 + *i as u128);
            let long = rlp(&Rlp::List(vec![num(1), gas.clone(), bytes(&[0; 256]), Rlp::List(vec![])]));
            let short = rlp(&Rlp::List(vec![num(0), num(1), gas, Rlp::List(vec![])]));
            (long, short)
        };
        let pool: Vec<_> = (0..n + 8).map(|i| receipt(&i)).collect();
        let all = long_lists(n);
        let first = receipts_case(all[0].1.clone(), &pool)?;
        let mut header = base.clone();
        header.receipts_root = B256::from(first.root);
        for (what, l) in all {
            let r = receipts_case(l, &pool)?;
            ch.eval();
            check_eq!(r.legacy.root(), B256::from(r.root), "root of {n} receipts, {what}");
            check_eq!(r.value.validate(&header), what == "itself", "verdict on {n} receipts, {what}");
            ch.outcome(&(n, what));
        }
        Ok(())
    });
}

// ---- content of the legacy history network -----------------------------------------------------

struct Block {
    header: Header,
    /// Content under the header keys.
    with_proof: Vec<u8>,
    parts: Parts,
    body: Body,
    receipts: Vec<u8>,
}

struct World {
    tables: Tables,
    blocks: Vec<Block>,
}

fn with_proof(h: &Header, p: &Parts) -> Vec<u8> {
    container(&[Var(alloy::rlp::encode(h)), Var(p.encode())])
}

fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let mut tables = Tables::new();
        let mut blocks = vec![];
        let capella = 6_209_536;
        let eras = [
            (0usize, 8193u64, 1_438_271_000u64, 0usize, 8193u64),
            (1, PARIS + 9, 1_663_300_000, 0, 575 * 8192 + 3),
            (2, 17_034_870, SHANGHAI, 2, capella + 4 * 8192 + 1),
            (3, 19_426_587, CANCUN, 5, capella + 20 * 8192 + 2),
        ];
        for (i, (kind, number, timestamp, optional, at)) in eras.into_iter().enumerate() {
            let mut h = decode_header(&header(number, timestamp, 3, optional));
            let body = Body {
                txs: vec![transaction(0, i % 3), transaction(2, i % 2)][..1 + i % 2].to_vec(),
                uncles: if kind == 0 { vec![spec::execution::header(1, 9, 0, 0)] } else { vec![] },
                withdrawals: (kind >= 2).then(|| vec![rlp(&withdrawal(i as u64))]),
            };
            body.commit(&mut h);
            let r = vec![receipt(0, 1, i)];
            h.receipts_root = B256::from(ordered_root(&r));
            let hash = keccak(&alloy::rlp::encode(&h));
            let parts = tables.enter(kind, hash, at);
            blocks.push(Block { with_proof: with_proof(&h, &parts), header: h, parts, body, receipts: list(&r) });
        }
        World { tables, blocks }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Answer {
    Header(usize),
    Garbage,
    Empty,
    WrongShape,
    Error,
    Dropped,
    NoNetwork,
    Gone,
}

/// Runs a validation while answering the lookups it makes; returns the keys asked for.
fn validate(v: &LegacyHistoryValidator, mut rx: mpsc::UnboundedReceiver<LegacyHistoryJsonRpcRequest>, answer: Answer, key: &LegacyHistoryContentKey, value: &[u8]) -> (ValidationResult, Vec<LegacyHistoryContentKey>) {
    block_on(async {
        if answer == Answer::Gone {
            rx.close();
        }
        let mut asked = vec![];
        let work = v.validate_content(key, value);
        tokio::pin!(work);
        loop {
            tokio::select! {
                biased;
                got = &mut work => return (got, asked),
                Some(req) = rx.recv() => {
                    if let LegacyHistoryEndpoint::GetContent(k) = req.endpoint {
                        asked.push(k);
                    }
                    let content = |c: Vec<u8>| Ok(serde_json::json!(GetContentInfo { content: c.into(), utp_transfer: false }));
                    let reply = match answer {
                        Answer::Header(i) => content(world().blocks[i].with_proof.clone()),
                        Answer::Garbage => content(vec![8, 0, 0, 0, 9]),
                        Answer::Empty => content(vec![]),
                        Answer::WrongShape => Ok(serde_json::json!("0x00")),
                        Answer::Error => Err("content not found".to_owned()),
                        _ => continue,
                    };
                    let _ = req.resp.send(reply);
                }
            }
        }
    })
}

pub fn v04(ctx: &Ctx) {
    let w = world();
    // Keys: of every block and of an unknown one, of every kind.
    let mut keys: Vec<(usize, usize, LegacyHistoryContentKey)> = vec![];
    for (i, b) in w.blocks.iter().map(Some).chain([None]).enumerate() {
        let hash = b.map(|b| b.header.hash_slow()).unwrap_or(B256::repeat_byte(7));
        let number = b.map(|b| b.header.number).unwrap_or(12);
        keys.extend([
            (0, i, LegacyHistoryContentKey::new_block_header_by_hash(hash)),
            (1, i, LegacyHistoryContentKey::new_block_header_by_number(number)),
            (2, i, LegacyHistoryContentKey::new_block_body(hash)),
            (3, i, LegacyHistoryContentKey::new_block_receipts(hash)),
            (4, i, LegacyHistoryContentKey::EphemeralHeaderOffer(EphemeralHeaderOfferKey { block_hash: hash.0 })),
            (5, i, LegacyHistoryContentKey::EphemeralHeadersFindContent(EphemeralHeadersFindContentKey { block_hash: hash.0, ancestor_count: 0 })),
        ]);
    }
    // Values: of every block and kind, broken ones, headers with a broken proof.
    #[derive(Clone, Debug)]
    enum V {
        Header(usize),
        BadProof(usize),
        Body(usize),
        Receipts(usize),
        Raw(Vec<u8>),
    }
    let mut values = vec![];
    for i in 0..w.blocks.len() {
        values.extend([V::Header(i), V::BadProof(i), V::Body(i), V::Receipts(i)]);
        let b = &w.blocks[i];
        for raw in [&b.with_proof[..], &b.body.ssz().unwrap(), &b.receipts] {
            values.push(V::Raw(raw[..raw.len() - 1].to_vec()));
            values.push(V::Raw([raw, &[0]].concat()));
        }
        values.push(V::Raw(alloy::rlp::encode(&b.header)));
        values.push(V::Raw(container(&[Var(alloy::rlp::encode(&b.header))])));
        values.push(V::Raw(list(&[alloy::rlp::encode(&b.header)])));
    }
    values.push(V::Raw(vec![]));
    let raw = |v: &V| match v {
        V::Header(i) => w.blocks[*i].with_proof.clone(),
        V::BadProof(i) => {
            let b = &w.blocks[*i];
            let mut p = b.parts.clone();
            p.beacon[3][5] ^= 1;
            with_proof(&b.header, &p)
        }
        V::Body(i) => w.blocks[*i].body.ssz().unwrap(),
        V::Receipts(i) => w.blocks[*i].receipts.clone(),
        V::Raw(r) => r.clone(),
    };
    let answers: Vec<Answer> = (0..w.blocks.len())
        .map(Answer::Header)
        .chain([Answer::Garbage, Answer::Empty, Answer::WrongShape, Answer::Error, Answer::Dropped, Answer::NoNetwork, Answer::Gone])
        .collect();
    ctx.range("keys, values and answers", keys.len() as u64, |k, ch| {
        let (kind, of, key) = &keys[k as usize];
        for v in &values {
            let value = raw(v);
            for &answer in &answers {
                // The node's own lookup gives the header it was asked for or nothing.
                if matches!(answer, Answer::Header(i) if i != *of && *of < w.blocks.len()) && matches!(v, V::Body(j) | V::Receipts(j) if answer == Answer::Header(*j)) {
                    continue;
                }
                ch.note(|| format!("{key:?} with {v:?} when the lookup gives {answer:?}"));
                let (tx, rx) = mpsc::unbounded_channel();
                let oracle = HeaderOracle {
                    legacy_history_jsonrpc_tx: (answer != Answer::NoNetwork).then_some(tx),
                    ..HeaderOracle::default()
                };
                let validator = LegacyHistoryValidator { header_oracle: Arc::new(RwLock::new(oracle)), header_validator: VALIDATOR.with(|v| v.clone()) };
                let (got, asked) = validate(&validator, rx, answer, key, &value);
                ch.eval();
                let want = match (kind, v) {
                    (0 | 1, V::Header(i)) => i == of,
                    (2, V::Body(i)) | (3, V::Receipts(i)) => answer == Answer::Header(*i),
                    _ => false,
                };
                let accepted = !matches!(got, ValidationResult::Invalid(_));
                check_eq!(accepted, want, "acceptance of {v:?} under {key:?} when the lookup gives {answer:?}");
                if want {
                    check!(matches!(got, ValidationResult::CanonicallyValid), "proven content is not canonical: {got:?}");
                }
                for a in &asked {
                    let own = keys.iter().find(|x| x.0 == 0 && x.1 == *of).unwrap();
                    check_eq!(a.to_bytes(), own.2.to_bytes(), "the header looked up for {key:?}");
                }
                ch.outcome(&(kind, std::mem::discriminant(v), answer, want));
            }
        }
        Ok(())
    });
}

thread_local! {
    static VALIDATOR: trin_validation::header_validator::HeaderValidator = world().tables.validator();
}
