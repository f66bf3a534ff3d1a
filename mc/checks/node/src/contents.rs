//! Content by JSON-RPC.

use std::{collections::BTreeMap, sync::OnceLock};

use ethportal_api::types::network::Subnetwork;
use serde_json::json;
use sha2::{Digest, Sha256};
use spec::{beacon, container, execution, list, trie, Fixed, Var};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::world::*;

pub fn hex(b: &[u8]) -> String {
    b.iter().fold("0x".into(), |s: String, x| s + &format!("{x:02x}"))
}

/// A value for a key, and what a store keeps of it.
#[derive(Clone)]
pub struct Item {
    pub name: &'static str,
    pub net: Subnetwork,
    pub key: Vec<u8>,
    pub value: Vec<u8>,
    pub kept: Kept,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kept {
    /// This is kept.
    As(Vec<u8>),
    /// It is not a value of the key at all.
    Malformed,
    /// It is well formed, but does not belong to the key.
    Refused,
}
use Kept::*;

const BLOCK: [u8; 32] = [0x42; 32];

fn header(salt: u8) -> Vec<u8> {
    container(&[Var(execution::header(1000, 1_500_000_000, 3, 0)), Var(beacon::hashes(salt, 15))])
}

pub fn bootstrap() -> (beacon::Header, Vec<u8>) {
    let h = beacon::Header::at(11_000_000, 3);
    (h.clone(), beacon::Bootstrap::at(beacon::ELECTRA, h).encode())
}

/// Keys and values of all networks. Keys of one network share what can be shared.
pub fn items() -> &'static Vec<Item> {
    static ITEMS: OnceLock<Vec<Item>> = OnceLock::new();
    ITEMS.get_or_init(|| {
        let key = |kind: u8, rest: &[&[u8]]| [&[kind][..], &rest.concat()].concat();
        let mut all = vec![];
        let mut add = |name, net, key: &Vec<u8>, value: Vec<u8>, kept| {
            let kept = match kept {
                1 => As(value.clone()),
                2 => Malformed,
                _ => Refused,
            };
            all.push(Item { name, net, key: key.clone(), value, kept });
        };
        let net = Subnetwork::LegacyHistory;
        let by_hash = key(0, &[&BLOCK]);
        add("a header", net, &by_hash, header(1), 1);
        add("the same header with another proof", net, &by_hash, header(2), 1);
        add("bytes for a header", net, &by_hash, vec![1, 2, 3], 2);
        add("a header by number", net, &key(3, &[&1000u64.to_le_bytes()]), header(1), 1);
        let body = key(1, &[&BLOCK]);
        let (none, uncles) = (vec![], vec![0xc0]);
        add("a body", net, &body, container(&[Var(none.clone()), Var(uncles.clone())]), 1);
        add("a body with withdrawals", net, &body, container(&[Var(none.clone()), Var(uncles), Var(none)]), 1);
        let receipts = list(&[execution::receipt(2, 1, 1)]);
        add("receipts", net, &key(2, &[&BLOCK]), receipts.clone(), 1);
        add("receipts cut short", net, &key(2, &[&BLOCK]), receipts[..receipts.len() - 1].to_vec(), 2);

        let net = Subnetwork::State;
        let nodes: Vec<Vec<u8>> = (0..2u8).map(|i| {
            let leaf = [(spec::hash(i).to_vec(), spec::ramp(i, 70))];
            let map = leaf.iter().map(|(k, v)| (trie::nibbles(k), v.clone())).collect();
            trie::build(&map).expect("a leaf").encode()
        }).collect();
        let hash = trie::keccak(&nodes[0]);
        let account = key(0x20, &[&36u32.to_le_bytes(), &hash, &[0]]);
        let proof = |l: &[&Vec<u8>]| list(&l.iter().map(|n| n.to_vec()).collect::<Vec<_>>());
        let with = |p: Vec<u8>| container(&[Var(p), Fixed(vec![3; 32])]);
        add("an account node", net, &account, with(proof(&[&nodes[1], &nodes[0]])), 0);
        add("another account node", net, &account, with(proof(&[&nodes[0], &nodes[1]])), 0);
        add("an account node without proof", net, &account, with(vec![]), 0);
        let address = [0x51u8; 32];
        let storage = key(0x21, &[&address, &68u32.to_le_bytes(), &hash, &[0x11]]);
        let with = |s, a| container(&[Var(s), Var(a), Fixed(vec![3; 32])]);
        add("a storage node", net, &storage, with(proof(&[&nodes[0]]), proof(&[&nodes[1]])), 0);
        add("another storage node", net, &storage, with(proof(&[&nodes[1]]), proof(&[&nodes[0]])), 0);
        let code = key(0x22, &[&address, &hash]);
        let with = |c: &Vec<u8>, a| container(&[Var(c.clone()), Var(a), Fixed(vec![3; 32])]);
        add("code", net, &code, with(&nodes[0], proof(&[&nodes[1]])), 0);
        add("other code", net, &code, with(&nodes[1], proof(&[&nodes[0]])), 0);
        add("bytes for code", net, &code, vec![9; 20], 2);

        let net = Subnetwork::Beacon;
        let (h, bootstrap) = bootstrap();
        let boot = key(0x10, &[&h.root()]);
        let mut other = beacon::Bootstrap::at(beacon::ELECTRA, h);
        other.committee = beacon::committee(99);
        add("a bootstrap", net, &boot, bootstrap.clone(), 1);
        add("another bootstrap", net, &boot, other.encode(), 1);
        add("a bootstrap cut short", net, &boot, bootstrap[..100].to_vec(), 2);
        let update = |i: u64| {
            let (attested, finalized) = (beacon::Header::at(13_000_000 + i, 20), beacon::Header::at(12_000_000 + i, 30));
            beacon::Update::at(beacon::ELECTRA, attested, finalized, 13_000_010 + i).encode()
        };
        for (name, start, i) in [("an update", 7u64, 0), ("another update", 7, 1), ("the next update", 8, 0)] {
            let k = key(0x11, &[&start.to_le_bytes(), &1u64.to_le_bytes()]);
            add(name, net, &k, beacon::range(&[update(i)]), 1);
        }
        for i in all.iter_mut() {
            let node = |n: &Vec<u8>| As(container(&[Var(n.clone())]));
            match i.name {
                "an account node" | "a storage node" | "code" => i.kept = node(&nodes[0]),
                _ => {}
            }
        }
        all
    })
}

fn id(key: &[u8]) -> String {
    // A header by number has an id of its own form; everything else is hashed.
    if key[0] == 3 {
        return String::new();
    }
    hex(&Sha256::digest(key))
}

type Model = BTreeMap<Vec<u8>, Vec<u8>>;

fn keys() -> Vec<(Subnetwork, Vec<u8>)> {
    let mut l: Vec<(Subnetwork, Vec<u8>)> = vec![];
    for i in items() {
        if !l.iter().any(|(_, k)| *k == i.key) {
            l.push((i.net, i.key.clone()));
        }
    }
    l
}

async fn observe(node: &Node, m: &Model, nets: &[Subnetwork], ch: &mut Ch) -> Res {
    for (net, key) in keys().into_iter().filter(|(n, _)| nets.contains(n)) {
        ch.eval();
        let want = m.get(&key).map(|v| hex(v));
        let (k, what) = (json!([hex(&key)]), format!("{} {}", word(net), spec::short(&key)));
        match (node.on(net, "LocalContent", k.clone()).now().await?, &want) {
            (Ok(v), Some(w)) => check!(v == json!(w), "local content of {what} differs"),
            (Err(e), None) => check_eq!(e.code(), -32099, "code of the error for absent {what}"),
            (r, w) => return Err(format!("local content of {what}: {}, kept {}", r.is_ok(), w.is_some())),
        }
        match (node.on(net, "GetContent", k.clone()).now().await?, &want) {
            (Ok(v), Some(w)) => check!(v == json!({"content": w, "utpTransfer": false}), "content of {what} is {v}"),
            (Err(e), None) => check_eq!(e.code(), -39001, "code of the error for absent {what}"),
            (r, w) => return Err(format!("content of {what}: {:?}, kept {}", r.is_ok(), w.is_some())),
        }
        let trace = match (node.on(net, "TraceGetContent", k).now().await?, &want) {
            (Ok(v), Some(w)) => {
                check!(v["content"] == json!(w) && v["utpTransfer"] == json!(false), "traced content of {what} is {v}");
                v["trace"].clone()
            }
            (Err(e), None) => {
                check_eq!(e.code(), -39001, "code of the error for absent traced {what}");
                continue;
            }
            (r, w) => return Err(format!("traced content of {what}: {:?}, kept {}", r.is_ok(), w.is_some())),
        };
        check_eq!(trace["origin"], json!(hex(&node.me.raw())), "origin of the trace of {what}");
        check_eq!(trace["receivedFrom"], json!(hex(&node.me.raw())), "sender in the trace of {what}");
        if !id(&key).is_empty() {
            check_eq!(trace["targetId"], json!(id(&key)), "target in the trace of {what}");
        }
    }
    for net in nets {
        if *net == Subnetwork::Beacon {
            continue;
        }
        let mut want: Vec<String> = keys().iter().filter(|(n, k)| n == net && m.contains_key(k)).map(|(_, k)| hex(k)).collect();
        want.sort();
        let page = |offset: usize, limit: usize| node.on(*net, "PaginateLocalContentKeys", json!([offset, limit]));
        for size in 1..=want.len() + 1 {
            let mut got = vec![];
            for start in (0..=want.len()).step_by(size) {
                ch.eval();
                let p = page(start, size).now().await?.map_err(|e| format!("no page of {}: {e}", word(*net)))?;
                check_eq!(p["totalEntries"], json!(want.len()), "number of keys of {}", word(*net));
                let l: Vec<String> = serde_json::from_value(p["contentKeys"].clone()).map_err(|e| e.to_string())?;
                check_eq!(l.len(), size.min(want.len() - start), "length of page {start} of {size}");
                got.extend(l);
            }
            got.sort();
            check_eq!(got, want, "keys on the pages of size {size} of {}", word(*net));
        }
    }
    check!(node.take_talk().is_none(), "the node asks someone");
    Ok(())
}

fn history(ch: &mut Ch, length: usize, choice: &[Item], nets: &[Subnetwork]) -> Res {
    let ops: Vec<(bool, Item)> = (0..ch.pick(length) + 1).map(|_| (ch.flag(), ch.choose(choice).clone())).collect();
    ch.note(|| ops.iter().map(|(p, i)| format!("{} {}", if *p { "put" } else { "store" }, i.name)).collect::<Vec<_>>().join(", "));
    run(|| async {
        let node = Node::start(Setup::of(nets)).await?;
        let mut m = Model::new();
        for (put, i) in &ops {
            ch.steps(1);
            let params = json!([hex(&i.key), hex(&i.value)]);
            let said = node.on(i.net, if *put { "PutContent" } else { "Store" }, params).now().await?;
            let held = m.contains_key(&i.key);
            match (&i.kept, said) {
                (Malformed, said) => check!(said.is_err(), "{} is taken", i.name),
                (As(kept), Ok(said)) => {
                    m.entry(i.key.clone()).or_insert(kept.clone());
                    let want = if *put { json!({"peerCount": 0, "storedLocally": !held}) } else { json!(true) };
                    check_eq!(said, want, "answer for {}", i.name);
                }
                (As(_), Err(e)) => return Err(format!("{} is refused: {e}", i.name)),
                (Refused, said) if *put => {
                    let said = said.map_err(|e| format!("{} cannot be sent: {e}", i.name))?;
                    check_eq!(said, json!({"peerCount": 0, "storedLocally": false}), "answer for {}", i.name);
                }
                (Refused, said) => check!(said.is_err(), "{} is stored", i.name),
            }
            ch.outcome(&(i.name, put, held));
        }
        ch.state(&m);
        observe(&node, &m, nets, ch).await
    })
}

pub fn n02(ctx: &Ctx) {
    let deep = ctx.b(2, 3);
    for net in NETS {
        let own: Vec<Item> = items().iter().filter(|i| i.net == net).cloned().collect();
        ctx.explore(word(net), |ch| history(ch, deep, &own, &[net]));
    }
    let some: Vec<Item> = items().iter().filter(|i| matches!(i.name, "a header" | "a body" | "an account node" | "another account node" | "code" | "a bootstrap" | "an update")).cloned().collect();
    let deep = ctx.b(2, 3);
    ctx.explore("all networks", |ch| history(ch, deep, &some, &NETS));
}
