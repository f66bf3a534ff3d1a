//! The client of execution providers.

use std::{cell::RefCell, collections::BTreeMap, rc::Rc, time::Duration};

use alloy::eips::eip2718::Encodable2718;
use ethereum_rpc_client::execution::ExecutionApi;
use ethportal_api::{ContentValue, OverlayContentKey};
use reqwest::fake::Reply;
use serde_json::Value;
use spec::{
    bytes,
    chain::{Payload, Requests},
    container, execution, hash, num, ramp, rlp, short, trie, Rlp, Var,
};
use ssz::Encode;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{address, answers, consensus::credentials, hex, reply, run, Asked};

fn quantity(n: impl Into<u128>) -> String {
    format!("\"0x{:x}\"", n.into())
}

fn bare(n: usize) -> String {
    format!(
        "{{\"type\":\"0x0\",\"status\":\"0x1\",\"cumulativeGasUsed\":\"0x{n:x}\",\"logsBloom\":\"{}\",\"logs\":[]}}",
        hex(&[0; 256])
    )
}

/// Receipts of a block that differ from those of all others: text and encoding.
fn receipts(number: u64) -> (String, Vec<u8>) {
    let gas = |k: u64| 21_000 + (number * 4 + k) as usize;
    let n = number % 3;
    let text = (0..n).map(|k| bare(gas(k))).collect::<Vec<_>>().join(",");
    let one = |k| rlp(&Rlp::List(vec![num(1), num(gas(k) as u128), bytes(&[0; 256]), Rlp::List(vec![])]));
    (format!("[{text}]"), spec::list(&(0..n).map(one).collect::<Vec<_>>()))
}

/// What is wrong with a block.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Fine,
    Empty,
    NoWithdrawals,
    OtherTransactions,
    FewerTransactions,
    OtherWithdrawals,
    LeftOutWithdrawals,
}
const KINDS: [Kind; 7] = [
    Kind::Fine,
    Kind::Empty,
    Kind::NoWithdrawals,
    Kind::OtherTransactions,
    Kind::FewerTransactions,
    Kind::OtherWithdrawals,
    Kind::LeftOutWithdrawals,
];

struct Block {
    json: String,
    header: Vec<u8>,
    txs: Vec<Vec<u8>>,
    withdrawals: Option<Vec<u64>>,
}

/// Transactions as of `execution::transaction` with a receiver.
fn transaction(kind: u8, variant: usize) -> String {
    let data = hex(&ramp(21, [0, 1, 60][variant % 3]));
    let access = if variant > 0 {
        format!("[{{\"address\":\"{}\",\"storageKeys\":[\"{}\",\"{}\"]}}]", hex(&ramp(22, 20)), hex(&hash(23)), hex(&hash(24)))
    } else {
        "[]".into()
    };
    let to = hex(&ramp(20, 20));
    let sig = format!("\"r\":\"{}\",\"s\":\"{}\"", hex(&ramp(25, 32)), hex(&ramp(26, 32)));
    let gas = "\"gas\":\"0x5208\"";
    if kind == 0 {
        let v = [27u8, 28, 37][variant % 3];
        return format!(
            "{{\"type\":\"0x0\",\"nonce\":{},\"gasPrice\":\"0x3b9aca07\",{gas},\"to\":\"{to}\",\"value\":\"0x5\",\"input\":\"{data}\",\"v\":{},{sig}}}",
            quantity(variant as u64 * 200),
            quantity(v)
        );
    }
    format!(
        "{{\"type\":\"0x2\",\"chainId\":\"0x1\",\"nonce\":\"0x3\",\"maxPriorityFeePerGas\":\"0x2\",\"maxFeePerGas\":\"0x3b9aca07\",{gas},\"to\":\"{to}\",\"value\":{},\"input\":\"{data}\",\"accessList\":{access},\"v\":{},{sig}}}",
        quantity(1u128 << 100),
        quantity(variant as u64 % 2)
    )
}

fn block(number: u64, kind: Kind) -> Block {
    let mut p = Payload::new(number, number as u8);
    p.timestamp = 1_700_000_000;
    let mut l: Vec<(u8, usize)> = if kind == Kind::Empty { vec![] } else { vec![(0, 0), (2, 2), (0, 2)] };
    p.txs = l.iter().map(|(k, v)| execution::transaction(*k, *v)).collect();
    let merged = kind != Kind::NoWithdrawals;
    let mut w: Vec<u64> = if kind == Kind::Empty || !merged { vec![] } else { vec![number, number + 1] };
    p.withdrawals = w.clone();
    let fork = usize::from(merged);
    let header = p.header(fork, [0; 32], &Requests::default());
    let (txs_root, w_root) = (
        trie::ordered_root(&p.txs),
        trie::ordered_root(&w.iter().map(|i| rlp(&execution::withdrawal(*i))).collect::<Vec<_>>()),
    );
    match kind {
        Kind::OtherTransactions => l.swap(0, 2),
        Kind::FewerTransactions => drop(l.pop()),
        Kind::OtherWithdrawals => w.reverse(),
        _ => {}
    }
    let mut fields = vec![
        format!("\"hash\":\"{}\"", hex(&trie::keccak(&header))),
        format!("\"parentHash\":\"{}\"", hex(&p.parent)),
        format!("\"sha3Uncles\":\"{}\"", hex(&trie::keccak(&[0xc0]))),
        format!("\"miner\":\"{}\"", hex(&p.fee)),
        format!("\"stateRoot\":\"{}\"", hex(&p.state)),
        format!("\"transactionsRoot\":\"{}\"", hex(&txs_root)),
        format!("\"receiptsRoot\":\"{}\"", hex(&p.receipts)),
        format!("\"logsBloom\":\"{}\"", hex(&p.bloom)),
        "\"difficulty\":\"0x0\"".into(),
        format!("\"number\":{}", quantity(number)),
        format!("\"gasLimit\":{}", quantity(p.gas_limit)),
        format!("\"gasUsed\":{}", quantity(p.gas_used)),
        format!("\"timestamp\":{}", quantity(p.timestamp)),
        "\"extraData\":\"0x\"".into(),
        format!("\"mixHash\":\"{}\"", hex(&p.randao)),
        "\"nonce\":\"0x0000000000000000\"".into(),
        format!("\"baseFeePerGas\":{}", quantity(p.base_fee)),
        "\"uncles\":[]".into(),
        format!("\"transactions\":[{}]", l.iter().map(|(k, v)| transaction(*k, *v)).collect::<Vec<_>>().join(",")),
    ];
    if merged {
        fields.push(format!("\"withdrawalsRoot\":\"{}\"", hex(&w_root)));
        if kind != Kind::LeftOutWithdrawals {
            let one = |i: &u64| {
                let (index, validator, address, amount) = execution::withdrawal_fields(*i);
                format!(
                    "{{\"index\":{},\"validatorIndex\":{},\"address\":\"{}\",\"amount\":{}}}",
                    quantity(index), quantity(validator), hex(&address), quantity(amount)
                )
            };
            fields.push(format!("\"withdrawals\":[{}]", w.iter().map(one).collect::<Vec<_>>().join(",")));
        }
    }
    Block {
        json: format!("{{{}}}", fields.join(",")),
        header,
        txs: l.iter().map(|(k, v)| execution::transaction(*k, *v)).collect(),
        withdrawals: (merged && kind != Kind::LeftOutWithdrawals).then_some(w),
    }
}

/// How a provider answers a single request.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Good,
    Null,
    Error,
    Other,
    Nothing,
    Broken,
    Html,
    Late,
}
use How::*;
const HOWS: [How; 8] = [Good, Null, Error, Other, Nothing, Broken, Html, Late];

impl How {
    /// How long it takes to find out that there is no answer.
    fn takes(self) -> u64 {
        if self == Late {
            3000
        } else {
            0
        }
    }
    /// Whether it is no answer at all, so that the other provider is asked.
    fn none(self) -> bool {
        matches!(self, Nothing | Broken | Html | Late)
    }
    fn reply(self, id: &Value, result: &str) -> Option<Reply> {
        let ok = |r: &str| reply(200, Some("application/json"), format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"result\":{r}}}").into_bytes());
        match self {
            Good => ok(result),
            Null => ok("null"),
            Error => reply(
                200,
                Some("application/json"),
                format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"error\":{{\"code\":-32000,\"message\":\"no\"}}}}").into_bytes(),
            ),
            Other => ok("{\"something\":\"else\"}"),
            Nothing => None,
            Broken => reply(200, Some("application/json"), b"{\"jsonrpc\":".to_vec()),
            Html => reply(502, Some("text/html"), b"<html>bad gateway</html>".to_vec()),
            Late => {
                let mut r = ok(result)?;
                r.after = Duration::from_millis(3001);
                Some(r)
            }
        }
    }
}

async fn client() -> Result<ExecutionApi, String> {
    ExecutionApi::new(address("one.test"), address("two.test"), 3).await.map_err(|e| format!("no client: {e}"))
}

/// A number as providers take it: without leading zeros.
fn number_of(text: &str) -> Option<u64> {
    let n = u64::from_str_radix(text.strip_prefix("0x")?, 16).ok()?;
    (text.to_lowercase() == format!("0x{n:x}")).then_some(n)
}

fn provider(a: &Asked) -> Option<usize> {
    ["http://one.test/", "http://two.test/"].iter().position(|u| *u == a.url)
}

/// Blocks and the latest number: one request, and one to the second provider if the first one has
/// no answer.
fn single(ch: &mut Ch) -> Res {
    let latest = ch.flag();
    let number = *ch.choose(&[15_537_393u64, 15_537_394, 20_000_000]);
    let kind = if latest { Kind::Fine } else { *ch.choose(&KINDS) };
    let a = *ch.choose(&HOWS);
    let b = if a.none() { *ch.choose(&HOWS) } else { Nothing };
    ch.steps(2);
    ch.note(|| format!("latest {latest}, {number}, {kind:?}: {a:?}, then {b:?}"));
    ch.state(&(latest, number, kind, a, b));
    let who = if a.none() { 1 } else { 0 };
    let good = [a, b][who] == Good && (latest || number >= 15_537_394);
    ch.outcome(&(good, who, kind));
    run(move || async move {
        drop(answers(|_| None));
        let api = client().await?;
        let log = answers(move |r| {
            let k = provider(r)?;
            let body: Value = serde_json::from_slice(&r.body).ok()?;
            if body["method"] != "eth_getBlockByNumber" {
                return None;
            }
            let asked = body["params"][0].as_str()?;
            let full = body["params"][1].as_bool()?;
            let n = if latest {
                (asked == "latest" && !full).then_some(number)?
            } else {
                full.then(|| number_of(asked))??
            };
            // The second provider is ahead.
            let n = if latest { n + k as u64 } else { n };
            [a, b][k].reply(&body["id"], &block(n, kind).json)
        });
        let e = |e| format!("{e}");
        if latest {
            match api.get_latest_block_number().await.map_err(e) {
                Ok(n) => check!(good && n == number + who as u64, "latest is {n}"),
                Err(e) => check!(!good, "no latest block: {e}"),
            }
        } else {
            match api.get_block(number).await.map_err(e) {
                Err(e) => check!(!good, "no block: {e}"),
                Ok(got) => {
                    check!(good, "a block, though there is none");
                    let want = block(number, kind);
                    let mut header = vec![];
                    alloy_rlp_encode(&got.header, &mut header);
                    check!(header == want.header, "header {} instead of {}", short(&header), short(&want.header));
                    let txs: Vec<Vec<u8>> = got.body.transactions.iter().map(|t| t.encoded_2718()).collect();
                    check_eq!(txs, want.txs, "transactions");
                    let w = got.body.withdrawals.as_ref().map(|w| w.iter().map(|w| w.index).collect::<Vec<_>>());
                    check_eq!(w, want.withdrawals, "withdrawals");
                    check!(got.body.ommers.is_empty(), "uncles");
                    body(&api, &got, &want, kind).await?;
                }
            }
        }
        let times: Vec<(Option<usize>, u64)> = log.borrow().iter().map(|r| (provider(r), r.at)).collect();
        check_eq!(times, if a.none() { vec![(Some(0), 0), (Some(1), 5000 + a.takes())] } else { vec![(Some(0), 0)] }, "requests");
        Ok(())
    })
}

fn alloy_rlp_encode(h: &alloy::consensus::Header, out: &mut Vec<u8>) {
    out.extend(alloy::rlp::encode(h));
}

/// The body of a block is given if it belongs to the header.
async fn body(api: &ExecutionApi, got: &alloy::consensus::Block<alloy::consensus::TxEnvelope>, want: &Block, kind: Kind) -> Res {
    let fine = matches!(kind, Kind::Fine | Kind::Empty | Kind::NoWithdrawals);
    match api.get_block_body(got).await {
        Err(e) => check!(!fine, "body refused: {e}"),
        Ok((key, value)) => {
            check!(fine, "a body that does not belong to the header");
            check_eq!(key.to_bytes().to_vec(), [&[1], &trie::keccak(&want.header)[..]].concat(), "key");
            let mut parts = vec![Var(spec::list(&want.txs)), Var(vec![0xc0])];
            if let Some(w) = &want.withdrawals {
                parts.push(Var(spec::list(&w.iter().map(|i| rlp(&execution::withdrawal(*i))).collect::<Vec<_>>())));
            }
            check_eq!(value.encode().to_vec(), container(&parts), "value");
        }
    }
    Ok(())
}

/// Receipts of one block: null answers are tried again.
fn retries(ch: &mut Ch) -> Res {
    let number = *ch.choose(&[0u64, 10, 22_000_001]);
    let mut plan: Vec<(How, How)> = vec![];
    let mut good = false;
    for _ in 0..5 {
        let a = *ch.choose(&HOWS);
        let b = if a.none() { *ch.choose(&HOWS) } else { Nothing };
        plan.push((a, b));
        let last = if a.none() { b } else { a };
        if last != Null {
            good = last == Good;
            break;
        }
    }
    ch.steps(plan.len() as u64);
    ch.note(|| format!("{number}: {plan:?}"));
    ch.state(&plan);
    ch.outcome(&(good, plan.len()));
    run(move || async move {
        drop(answers(|_| None));
        let api = client().await?;
        let turn = Rc::new(RefCell::new(0usize));
        let (script, t) = (plan.clone(), turn.clone());
        let log = answers(move |r| {
            let k = provider(r)?;
            let body: Value = serde_json::from_slice(&r.body).ok()?;
            let n = number_of(body["params"][0].as_str()?)?;
            if body["method"] != "eth_getBlockReceipts" || n != number {
                return None;
            }
            if k == 0 {
                *t.borrow_mut() += 1;
            }
            // Good as soon as the script is over.
            let (a, b) = script.get(*t.borrow() - 1).copied().unwrap_or((Good, Good));
            [a, b][k].reply(&body["id"], &receipts(n).0)
        });
        match api.get_receipts(number).await {
            Ok(r) => check!(good && r.as_ssz_bytes() == receipts(number).1, "receipts {}", short(&r.as_ssz_bytes())),
            Err(e) => check!(!good, "no receipts: {e}"),
        }
        let mut want = vec![];
        let mut t = 0;
        for (a, b) in &plan {
            want.push((0, t));
            if a.none() {
                t += 5000 + a.takes();
                want.push((1, t));
            }
            if (if a.none() { b } else { a }) == &Null {
                t += 1000;
            }
        }
        let times: Vec<(usize, u64)> = log.borrow().iter().map(|r| (provider(r).unwrap_or(9), r.at)).collect();
        check_eq!(times, want, "requests");
        Ok(())
    })
}

/// What happens to the answer to a batch.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Change {
    None,
    Reversed,
    Rotated,
    FirstLast,
    Missing(usize),
    Null(usize),
    Error(usize),
    Surplus,
    Empty,
    Nothing,
    Broken,
    NoList,
}

fn ranges(ch: &mut Ch, sizes: &[u64]) -> Res {
    let n = *ch.choose(sizes);
    let start = *ch.choose(&[0u64, 7, 22_000_000]);
    let batches = n.div_ceil(10) as usize;
    let at = if batches > 0 { ch.pick(batches) } else { 0 };
    let size = (n as usize).saturating_sub(at * 10).min(10);
    let mut changes = vec![
        Change::None,
        Change::Reversed,
        Change::Rotated,
        Change::FirstLast,
        Change::Surplus,
        Change::Empty,
        Change::Nothing,
        Change::Broken,
        Change::NoList,
    ];
    for k in 0..size {
        changes.extend([Change::Missing(k), Change::Null(k), Change::Error(k)]);
    }
    let change = *ch.choose(&changes);
    let also = if matches!(change, Change::Nothing | Change::Broken | Change::NoList) {
        *ch.choose(&[Change::None, Change::Reversed, Change::Nothing])
    } else {
        Change::None
    };
    ch.steps(batches as u64);
    ch.note(|| format!("{n} from {start}, batch {at} {change:?}, second provider {also:?}"));
    ch.state(&(n, start, at, change, also));
    let good = n == 0
        || match change {
            Change::None | Change::Reversed | Change::Rotated | Change::FirstLast | Change::Surplus => true,
            Change::Nothing | Change::Broken | Change::NoList => also != Change::Nothing,
            _ => false,
        };
    ch.outcome(&(n, good));
    run(move || async move {
        drop(answers(|_| None));
        let api = client().await?;
        let count = Rc::new(RefCell::new(0usize));
        let c = count.clone();
        let log = answers(move |r| {
            let k = provider(r)?;
            let requests: Vec<Value> = serde_json::from_slice(&r.body).ok()?;
            let turn = *c.borrow();
            if k == 0 {
                *c.borrow_mut() += 1;
            }
            let change = match k {
                0 if turn == at => change,
                0 => Change::None,
                _ => also,
            };
            let mut out: Vec<String> = vec![];
            for (i, q) in requests.iter().enumerate() {
                if q["method"] != "eth_getBlockReceipts" {
                    return None;
                }
                let n = number_of(q["params"][0].as_str()?)?;
                out.push(match change {
                    Change::Missing(k) if k == i => continue,
                    Change::Error(k) if k == i => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"error\":{{\"code\":1,\"message\":\"no\"}}}}", q["id"]),
                    Change::Null(k) if k == i => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":null}}", q["id"]),
                    _ => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":{}}}", q["id"], receipts(n).0),
                });
            }
            match change {
                Change::Reversed => out.reverse(),
                Change::Rotated => out.rotate_left(1),
                Change::FirstLast => {
                    let l = out.len() - 1;
                    out.swap(0, l);
                }
                Change::Surplus => out.insert(0, format!("{{\"jsonrpc\":\"2.0\",\"id\":4000,\"result\":{}}}", receipts(1).0)),
                Change::Empty => out.clear(),
                Change::Nothing => return None,
                Change::Broken => return reply(200, Some("application/json"), b"[".to_vec()),
                Change::NoList => return reply(200, Some("application/json"), b"{\"error\":\"too many\"}".to_vec()),
                _ => {}
            }
            reply(200, Some("application/json"), format!("[{}]", out.join(",")).into_bytes())
        });
        match api.get_receipts_range(start..start + n).await {
            Err(e) => check!(!good, "no receipts: {e}"),
            Ok(got) => {
                check!(good, "receipts of {} blocks, though one answer is missing", got.len());
                let got: BTreeMap<u64, Vec<u8>> = got.into_iter().map(|(k, v)| (k, v.as_ssz_bytes())).collect();
                for (k, v) in &got {
                    let (inside, same) = ((start..start + n).contains(k), *v == receipts(*k).1);
                    check!(inside && same, "block {k} has receipts {}, not {}", short(v), short(&receipts(*k).1));
                }
                check_eq!(got.len() as u64, n, "blocks");
            }
        }
        for r in log.borrow().iter() {
            let l: Vec<Value> = serde_json::from_slice(&r.body).map_err(|e| e.to_string())?;
            check!(l.len() <= 10, "a batch of {}", l.len());
            let ids: std::collections::BTreeSet<String> = l.iter().map(|q| q["id"].to_string()).collect();
            check_eq!(ids.len(), l.len(), "ids in a batch");
        }
        if n > 0 {
            // Up to where it failed, and after five seconds from the second provider.
            let second = matches!(change, Change::Nothing | Change::Broken | Change::NoList);
            let mut want: Vec<(usize, u64)> = (0..batches).map(|k| (0, if second && k > at { 5000 } else { 0 })).collect();
            if !good {
                want.truncate(at + 1);
            }
            if second {
                want.insert(at + 1, (1, 5000));
            }
            let times: Vec<(usize, u64)> = log.borrow().iter().map(|r| (provider(r).unwrap_or(9), r.at)).collect();
            check_eq!(times, want, "requests");
        }
        Ok(())
    })
}

pub fn r02(ctx: &Ctx) {
    ctx.explore("blocks", single);
    ctx.explore("receipts", retries);
    let all: Vec<u64> = if ctx.b(0, 1) == 1 { (0..32).collect() } else { vec![0, 1, 2, 9, 10, 11, 19, 20, 21, 25] };
    ctx.explore("ranges", |ch| ranges(ch, &all));
    let hosts = [("one.test", false), ("nimbus.ethpandaops.io", true), ("pandaops.test", false)];
    ctx.explore("credentials", |ch| {
        let first = *ch.choose(&hosts);
        let second = *ch.choose(&hosts);
        let range = ch.flag();
        ch.outcome(&(first.1, second.1));
        run(move || async move {
            let log = answers(|_| None);
            let api = ExecutionApi::new(address(first.0), address(second.0), 5).await.map_err(|e| e.to_string())?;
            if range {
                let _ = api.get_receipts_range(0..3).await;
            } else {
                let _ = api.get_receipts(3).await;
            }
            if log.borrow().len() != 3 {
                fail!("{} requests", log.borrow().len());
            }
            let log = log.borrow();
            credentials(&log, &[first, second])
        })
    });
}
