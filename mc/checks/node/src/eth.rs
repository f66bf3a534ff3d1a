//! The execution layer's methods, answered from what the networks have.

use std::{collections::BTreeMap, sync::OnceLock};

use ethportal_api::types::network::Subnetwork;
use serde_json::{json, Value};
use spec::{bytes, container, execution, list, num, rlp, trie, Fixed, Rlp, Var};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{
    blocks::{empty_root, Hash, Head},
    contents::hex,
    world::*,
};

const HISTORY: Subnetwork = Subnetwork::LegacyHistory;

async fn store(node: &Node, net: Subnetwork, key: &[u8], value: &[u8]) -> Res {
    let said = node.on(net, "Store", json!([hex(key), hex(value)])).now().await?;
    check_eq!(said.map_err(|e| format!("{} is not stored: {e}", hex(key)))?, json!(true), "stored");
    Ok(())
}

/// The header under both of its keys.
async fn store_header(node: &Node, head: &Head) -> Res {
    store(node, HISTORY, &[&[0][..], &head.hash()].concat(), &head.content()).await?;
    store(node, HISTORY, &[&[3][..], &head.number.to_le_bytes()].concat(), &head.content()).await
}

fn number(n: u128) -> Value {
    json!(format!("{n:#x}"))
}

fn blocks(ch: &mut Ch) -> Res {
    let fork = ch.pick(5);
    let head = Head::of(fork);
    let kinds: &[u8] = match fork {
        0 => &[0],
        1..=3 => &[0, 1, 2],
        _ => &[0, 3],
    };
    let transactions: Vec<Vec<u8>> = (0..ch.pick(3)).map(|i| execution::transaction(*ch.choose(kinds), i)).collect();
    let uncles: Vec<Vec<u8>> = if fork < 2 { (0..ch.pick(3) as u64).map(|i| Head::at(900 + i).rlp()).collect() } else { vec![] };
    let withdrawals: Option<Vec<u64>> = (fork > 2).then(|| (0..ch.pick(3) as u64).collect());
    let by_hash = ch.flag();
    // Something that is missing, or that cannot be had.
    let lack = ch.pick(6);
    ch.note(|| format!("fork {fork}, {} transactions, {} uncles, {withdrawals:?}, by hash {by_hash}, lack {lack}", transactions.len(), uncles.len()));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let uncle_list = execution::raw_list(&uncles);
        let mut parts = vec![Var(list(&transactions)), Var(uncle_list.clone())];
        let given: Option<Vec<Vec<u8>>> = withdrawals.as_ref().map(|w| w.iter().map(|i| rlp(&execution::withdrawal(*i))).collect());
        if let Some(g) = &given {
            parts.push(Var(list(g)));
        }
        if lack != 1 {
            store_header(&node, &head).await?;
        }
        if lack != 2 {
            store(&node, HISTORY, &[&[1][..], &head.hash()].concat(), &container(&parts)).await?;
        }
        let full = lack == 3;
        let call = match (lack, by_hash) {
            (4, true) => node.begin("eth_getBlockByHash", json!([hex(&[1; 32]), full])),
            (4, false) => node.begin("eth_getBlockByNumber", json!(["0x5", full])),
            (5, _) => node.begin("eth_getBlockByNumber", json!([if by_hash { "latest" } else { "earliest" }, full])),
            (_, true) => node.begin("eth_getBlockByHash", json!([hex(&head.hash()), full])),
            (_, false) => node.begin("eth_getBlockByNumber", json!([number(head.number.into()), full])),
        };
        let got = call.now().await?;
        ch.eval();
        ch.outcome(&(fork, transactions.len(), uncles.len(), &withdrawals, lack));
        if lack > 0 {
            check!(got.is_err(), "what cannot be had is given");
            return Ok(());
        }
        let got = got.map_err(|e| format!("no block: {e}"))?;
        let wrapped: Vec<Vec<u8>> = transactions.iter().map(|t| execution::wrapped(t)).collect();
        let mut whole = vec![head.rlp(), execution::raw_list(&wrapped), uncle_list];
        if let Some(g) = &given {
            whole.push(execution::raw_list(g));
        }
        let mut want = json!({
            "hash": hex(&head.hash()),
            "parentHash": hex(&[0x99; 32]),
            "sha3Uncles": hex(&head.uncles),
            "miner": hex(&head.beneficiary),
            "stateRoot": hex(&head.state),
            "transactionsRoot": hex(&head.transactions),
            "receiptsRoot": hex(&head.receipts),
            "difficulty": number(head.difficulty),
            "number": number(head.number.into()),
            "gasLimit": number(head.gas_limit.into()),
            "gasUsed": number(head.gas_used.into()),
            "timestamp": number(head.timestamp.into()),
            "extraData": hex(&head.extra),
            "mixHash": hex(&head.mix),
            "nonce": hex(&[0x77; 8]),
            "size": number(execution::raw_list(&whole).len() as u128),
            "transactions": transactions.iter().map(|t| hex(&trie::keccak(t))).collect::<Vec<_>>(),
            "uncles": uncles.iter().map(|u| hex(&trie::keccak(u))).collect::<Vec<_>>(),
        });
        if let Some(fee) = head.base_fee {
            want["baseFeePerGas"] = number(fee.into());
        }
        if let Some((used, excess, root)) = head.blobs {
            want["blobGasUsed"] = number(used.into());
            want["excessBlobGas"] = number(excess.into());
            want["parentBeaconBlockRoot"] = json!(hex(&root));
        }
        for (name, w) in want.as_object().expect("an object") {
            check_eq!(&got[name], w, "{name}");
        }
        check_eq!(got["withdrawals"].is_array(), withdrawals.is_some(), "there is a list of withdrawals");
        let got: Vec<(Value, Value)> = got["withdrawals"].as_array().into_iter().flatten().map(|w| (w["address"].clone(), w["index"].clone())).collect();
        let want: Vec<(Value, Value)> = withdrawals.iter().flatten().map(|i| (json!(hex(&execution::withdrawal_fields(*i).2)), number((*i).into()))).collect();
        check_eq!(got, want, "withdrawals");
        Ok(())
    })
}

/// An account: nonce, balance, storage and code.
#[derive(Clone)]
struct Account {
    nonce: u64,
    balance: u128,
    storage: BTreeMap<u64, Vec<u8>>,
    code: Vec<u8>,
}

fn packed(path: &[u8]) -> Vec<u8> {
    let (mut out, rest) = if path.len() % 2 == 1 { (vec![0x10 | path[0]], &path[1..]) } else { (vec![0], path) };
    out.extend(rest.chunks(2).map(|p| p[0] << 4 | p[1]));
    out
}

fn slot(n: u64) -> [u8; 32] {
    let mut s = [0; 32];
    s[24..].copy_from_slice(&n.to_be_bytes());
    s
}

/// A state: its root, and what the network has of it.
struct State {
    root: Hash,
    /// Key and value, and the reads that need it.
    nodes: Vec<(Vec<u8>, Vec<u8>, Vec<Read>)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Read {
    Balance(u8),
    Code(u8),
    Storage(u8, u64),
}

const SLOTS: [u64; 4] = [0, 1, 2, 9];

fn address(a: u8) -> [u8; 20] {
    [a; 20]
}

fn reads(people: u8) -> Vec<Read> {
    let mut l = vec![];
    for a in 0..people {
        l.extend([Read::Balance(a), Read::Code(a)]);
        l.extend(SLOTS.map(|s| Read::Storage(a, s)));
    }
    l
}

fn follows(path: &[u8], of: &[u8]) -> bool {
    trie::nibbles(of).starts_with(path)
}

fn state(accounts: &BTreeMap<u8, Account>, people: u8) -> State {
    let mut nodes = vec![];
    let mut world = BTreeMap::new();
    let all = reads(people);
    for (a, it) in accounts {
        let at = trie::keccak(&address(*a));
        let slots: trie::Map = it.storage.iter().map(|(s, v)| (trie::nibbles(&trie::keccak(&slot(*s))), rlp(&bytes(v)))).collect();
        let root = trie::build(&slots);
        for (path, _, node) in root.iter().flat_map(|r| r.all()) {
            let key = [&[0x21][..], &at, &68u32.to_le_bytes(), &node.hash(), &packed(&path)].concat();
            let value = container(&[Var(list(&[node.encode()])), Var(list(&[vec![0xc0]])), Fixed(vec![3; 32])]);
            let needed = all.iter().filter(|r| matches!(r, Read::Storage(b, s) if b == a && follows(&path, &trie::keccak(&slot(*s)))));
            nodes.push((key, value, needed.copied().collect()));
        }
        let code = trie::keccak(&it.code);
        if !it.code.is_empty() {
            let key = [&[0x22][..], &at, &code].concat();
            let value = container(&[Var(it.code.clone()), Var(list(&[vec![0xc0]])), Fixed(vec![3; 32])]);
            nodes.push((key, value, vec![Read::Code(*a)]));
        }
        let storage = root.map_or(empty_root(), |r| r.hash());
        let leaf = Rlp::List(vec![num(it.nonce.into()), num(it.balance), bytes(&storage), bytes(&code)]);
        world.insert(trie::nibbles(&at), rlp(&leaf));
    }
    let root = trie::build(&world).expect("someone");
    for (path, _, node) in root.all() {
        let key = [&[0x20][..], &36u32.to_le_bytes(), &node.hash(), &packed(&path)].concat();
        let value = container(&[Var(list(&[node.encode()])), Fixed(vec![3; 32])]);
        let needed = all.iter().filter(|r| {
            let (Read::Balance(a) | Read::Code(a) | Read::Storage(a, _)) = r;
            follows(&path, &trie::keccak(&address(*a)))
        });
        nodes.push((key, value, needed.copied().collect()));
    }
    State { root: root.hash(), nodes }
}

/// The accounts there can be; three of five kinds.
fn kinds() -> &'static Vec<Account> {
    static KINDS: OnceLock<Vec<Account>> = OnceLock::new();
    KINDS.get_or_init(|| {
        let of = |nonce, balance, storage: &[(u64, Vec<u8>)], code: &[u8]| Account {
            nonce,
            balance,
            storage: storage.iter().cloned().collect(),
            code: code.to_vec(),
        };
        vec![
            of(0, 0, &[], &[]),
            of(3, 1 << 100, &[], &[]),
            of(1, 5, &[], &[0x60, 1]),
            of(1, 0, &[(0, vec![7])], &[0x60, 1]),
            of(1, 9, &[(0, vec![0xff; 32]), (1, vec![1, 0]), (2, vec![0x80])], &[0xfe; 100]),
        ]
    })
}

/// Answer to a read, in the form of the method.
fn truth(accounts: &BTreeMap<u8, Account>, read: Read) -> Value {
    match read {
        Read::Balance(a) => number(accounts.get(&a).map_or(0, |i| i.balance)),
        Read::Code(a) => json!(hex(accounts.get(&a).map_or(&[], |i| &i.code))),
        Read::Storage(a, s) => {
            let mut v = [0; 32];
            if let Some(it) = accounts.get(&a).and_then(|i| i.storage.get(&s)) {
                v[32 - it.len()..].copy_from_slice(it);
            }
            json!(hex(&v))
        }
    }
}

fn ask(read: Read, block: &Value) -> (&'static str, Value) {
    match read {
        Read::Balance(a) => ("eth_getBalance", json!([hex(&address(a)), block])),
        Read::Code(a) => ("eth_getCode", json!([hex(&address(a)), block])),
        Read::Storage(a, s) => ("eth_getStorageAt", json!([hex(&address(a)), number(s.into()), block])),
    }
}

/// A search for what nobody has ends with an error.
async fn answer(call: Call) -> Result<Answer, String> {
    call.now().await
}

fn accounts(ch: &mut Ch, people: u8) -> Result<BTreeMap<u8, Account>, ()> {
    let mut all = BTreeMap::new();
    for a in 0..people {
        let k = ch.pick(kinds().len() + 1);
        if k > 0 {
            all.insert(a, kinds()[k - 1].clone());
        }
    }
    if all.is_empty() { Err(()) } else { Ok(all) }
}

fn reading(ch: &mut Ch, people: u8) -> Res {
    let Ok(all) = accounts(ch, people) else { return Ok(()) };
    let by_hash = ch.flag();
    let it = state(&all, people);
    // One node that nobody has.
    let lost = ch.pick(it.nodes.len() + 1);
    ch.note(|| {
        let l: Vec<(u8, u128, Vec<u64>, usize)> = all.iter().map(|(a, i)| (*a, i.balance, i.storage.keys().copied().collect(), i.code.len())).collect();
        format!("accounts (balance, slots, code) {l:?}, by hash {by_hash}, node {lost} of {} lost", it.nodes.len())
    });
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let mut head = Head::at(1000);
        head.state = it.root;
        store_header(&node, &head).await?;
        for (i, (key, value, _)) in it.nodes.iter().enumerate() {
            if i + 1 != lost {
                store(&node, Subnetwork::State, key, value).await?;
            }
        }
        let block = if by_hash { json!({"blockHash": hex(&head.hash())}) } else { json!("0x3e8") };
        for read in reads(people) {
            ch.eval();
            let (method, params) = ask(read, &block);
            let got = answer(node.begin(method, params)).await?;
            let hidden = lost > 0 && it.nodes[lost - 1].2.contains(&read);
            // A node that is the same for another key may still be there.
            match got {
                Ok(v) => {
                    check!(!hidden, "{read:?} gives {v} without a node that it needs");
                    check_eq!(v, truth(&all, read), "{read:?}");
                }
                Err(e) => check!(hidden, "{read:?} fails: {e}"),
            }
        }
        ch.outcome(&(it.root, lost, by_hash));
        Ok(())
    })
}

/// What is needed to read at all.
fn needs(ch: &mut Ch) -> Res {
    let which = ch.pick(4);
    let all: BTreeMap<u8, Account> = [(0, kinds()[1].clone()), (1, kinds()[4].clone())].into();
    let it = state(&all, 2);
    run(|| async {
        let nets = if which == 0 { vec![Subnetwork::LegacyHistory, Subnetwork::Beacon] } else { NETS.to_vec() };
        let node = Node::start(Setup::of(&nets)).await?;
        let mut head = Head::at(1000);
        head.state = it.root;
        if which != 1 {
            store_header(&node, &head).await?;
        }
        if which != 0 {
            for (key, value, _) in &it.nodes {
                store(&node, Subnetwork::State, key, value).await?;
            }
        }
        let blocks = match which {
            2 => vec![json!("latest"), json!("safe"), json!("pending"), json!("finalized"), json!("earliest")],
            3 => vec![json!("0x3e9"), json!({"blockHash": hex(&[0; 32])})],
            _ => vec![json!("0x3e8"), json!({"blockHash": hex(&head.hash())})],
        };
        for block in blocks {
            for read in reads(2) {
                ch.eval();
                let (method, params) = ask(read, &block);
                let got = answer(node.begin(method, params)).await?;
                check!(got.is_err(), "{read:?} at {block} gives {got:?}");
            }
            let got = node.begin("eth_call", json!([{}, block])).finally().await?;
            check!(got.is_err(), "a call at {block} gives {got:?}");
        }
        check_eq!(node.call("eth_chainId", json!([])).await?.map_err(|e| e.to_string())?, json!("0x1"), "chain");
        ch.outcome(&which);
        Ok(())
    })
}

/// A call: what runs gets the block, the transaction and the state.
fn calls(ch: &mut Ch) -> Res {
    let fork = ch.pick(5);
    let gas = *ch.choose(&[None, Some(123u64)]);
    let price = ch.pick(3);
    let end = ch.pick(5);
    let from = ch.flag();
    ch.note(|| format!("fork {fork} gas {gas:?} price {price} end {end}"));
    let all: BTreeMap<u8, Account> = [(0, kinds()[1].clone()), (1, kinds()[4].clone()), (2, kinds()[2].clone())].into();
    let it = state(&all, 4);
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let mut head = Head::of(fork);
        head.state = it.root;
        store_header(&node, &head).await?;
        for (key, value, _) in &it.nodes {
            store(&node, Subnetwork::State, key, value).await?;
        }
        let mut input = vec![];
        let mut want: Vec<Value> = vec![];
        for a in 0..4u8 {
            input.extend([&[1][..], &address(a)].concat());
            want.push(json!(all.get(&a).map_or("no account".into(), |i| format!("{} {} {}", i.balance, i.nonce, hex(&trie::keccak(&i.code))))));
            for s in SLOTS {
                input.extend([&[2][..], &address(a), &slot(s)].concat());
                let v = truth(&all, Read::Storage(a, s)).as_str().unwrap_or("").to_string();
                let zero = v.trim_start_matches("0x").chars().all(|c| c == '0');
                want.push(if zero { json!("0") } else { json!(v) });
            }
            input.extend([&[3][..], &address(a)].concat());
            want.push(if all.contains_key(&a) { truth(&all, Read::Code(a)) } else { json!("no account") });
        }
        match end {
            1 => input.push(0xfd),
            2 => input.push(0xfe),
            3 => input.extend([4, 0, 0, 0, 0, 0, 0, 0, 1]),
            _ => {}
        }
        let mut tx = json!({"from": hex(&[0x21; 20]), "to": hex(&address(1)), "input": hex(&input), "value": "0x77"});
        if end == 4 {
            // The older name of the input.
            tx = json!({"from": hex(&[0x21; 20]), "to": hex(&address(1)), "data": hex(&input), "value": "0x77"});
        }
        if !from {
            tx.as_object_mut().map(|o| o.remove("from"));
        }
        if let Some(g) = gas {
            tx["gas"] = number(g.into());
        }
        match price {
            1 => tx["gasPrice"] = json!("0x63"),
            2 => tx["maxFeePerGas"] = json!("0x64"),
            _ => {}
        }
        let got = node.begin("eth_call", json!([tx, number(head.number.into())])).finally().await?;
        ch.eval();
        ch.outcome(&(fork, gas, price, end));
        match (got, end) {
            (Err(e), 1) => check_eq!((e.code(), e.message()), (-32000, "Reverted"), "error"),
            (Err(e), 2) => check_eq!((e.code(), e.message()), (-32000, "OpcodeNotFound"), "error"),
            (Err(_), 3) => {}
            (Ok(v), 0 | 4) => {
                let raw = v.as_str().and_then(|s| alloy::hex::decode(s).ok()).ok_or("output is not hex")?;
                let out: Value = serde_json::from_slice(&raw).map_err(|e| e.to_string())?;
                let got: Vec<Value> = out["reads"].as_array().cloned().unwrap_or_default();
                check_eq!(got.len(), want.len(), "reads");
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    // Numbers are printed in tens.
                    let w = match w.as_str() {
                        Some(w) if i % 6 > 0 && i % 6 < 5 && w.starts_with("0x") => {
                            let n: alloy::primitives::U256 = w.parse().map_err(|e| format!("{e:?}"))?;
                            json!(n.to_string())
                        }
                        _ => w.clone(),
                    };
                    check_eq!(*g, w, "read {i}");
                }
                let text = |name: &str| out[name].as_str().unwrap_or("").to_string();
                let spec = ["FRONTIER", "LONDON", "MERGE", "SHANGHAI", "CANCUN"][fork];
                check_eq!(text("spec"), spec, "rules");
                let price = match price {
                    0 => head.base_fee.unwrap_or(0),
                    1 => 0x63,
                    _ => 0x64,
                };
                let has = |what: &str, part: String| -> Res {
                    check!(text(what).contains(&part), "{what} {} has no {part}", text(what));
                    Ok(())
                };
                has("tx", format!("gas_limit: {}", gas.unwrap_or(head.gas_limit)))?;
                has("tx", format!("gas_price: {price},"))?;
                has("tx", format!("caller: {}", hex(&if from { [0x21; 20] } else { [0; 20] })))?;
                has("tx", format!("value: {},", 0x77))?;
                has("block", format!("number: {},", head.number))?;
                has("block", format!("timestamp: {},", head.timestamp))?;
                has("block", format!("basefee: {},", head.base_fee.unwrap_or(0)))?;
                has("block", format!("beneficiary: {},", hex(&head.beneficiary)))?;
            }
            (got, end) => return Err(format!("call that ends with {end} gives {got:?}")),
        }
        Ok(())
    })
}

pub fn n06(ctx: &Ctx) {
    ctx.explore("blocks", blocks);
    ctx.explore("needs", needs);
    for n in 1..=ctx.b(2, 3) {
        ctx.explore(&format!("reading {n}"), |ch| reading(ch, n));
    }
    ctx.explore("calls", calls);
}
