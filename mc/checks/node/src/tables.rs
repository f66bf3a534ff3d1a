//! Records of peers by JSON-RPC.

use std::collections::BTreeMap;

use discv5::{enr::NodeId, Enr};
use ethportal_api::types::{
    enr::SszEnr,
    network::Subnetwork,
    portal_wire::{Accept, Nodes, Request, Response},
};
use serde_json::json;
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{contents::hex, peers, world::*};

/// The tables of the node: of its networks, and the one below them.
pub const TABLES: [Option<Subnetwork>; 4] =
    [Some(Subnetwork::LegacyHistory), Some(Subnetwork::State), Some(Subnetwork::Beacon), None];

fn ask(node: &Node, table: Option<Subnetwork>, method: &str, params: serde_json::Value) -> Call {
    match table {
        Some(net) => node.on(net, method, params),
        None => node.begin(&format!("discv5_{}{}", method[..1].to_lowercase(), &method[1..]), params),
    }
}

pub fn ids(node: NodeId) -> String {
    hex(&node.raw())
}

pub async fn listed(node: &Node, table: Option<Subnetwork>) -> Result<Vec<Vec<String>>, String> {
    let info = ask(node, table, "RoutingTableInfo", json!([])).now().await?.map_err(|e| format!("no table: {e}"))?;
    check_eq!(info["localNodeId"], json!(ids(node.me)), "owner of the table");
    serde_json::from_value(info["buckets"].clone()).map_err(|e| e.to_string())
}

type Model = BTreeMap<[u8; 32], Enr>;

async fn observe(node: &Node, table: Option<Subnetwork>, m: &Model, below: &Model, known: &[u16], ch: &mut Ch) -> Res {
    let name = table.map(word).unwrap_or("discv5");
    let buckets = listed(node, table).await?;
    check_eq!(buckets.len(), 256, "number of buckets");
    for (i, b) in buckets.iter().enumerate() {
        let mut b = b.clone();
        b.sort();
        let mut want: Vec<String> = m.keys().filter(|k| peers::log_distance(k, &node.me.raw()) == i as u16 + 1).map(|k| hex(k)).collect();
        want.sort();
        check_eq!(b, want, "peers of {name} at distance {}", i + 1);
    }
    for k in known {
        ch.eval();
        let id = peers::id(*k);
        let got = ask(node, table, "GetEnr", json!([ids(id)])).now().await?;
        let want = match m.get(&id.raw()) {
            None if id == node.me && table.is_some() => Some(&node.enr),
            w => w,
        };
        match (got, want) {
            (Ok(v), Some(w)) => check_eq!(v, json!(w), "record of peer {k} in {name}"),
            (Err(e), None) => check_eq!(e.code(), -32099, "code of the error"),
            (got, want) => return Err(format!("record of peer {k} in {name}: {got:?} instead of {want:?}")),
        }
        if let (Some(net), Some(w)) = (table, want) {
            let got = node.on(net, "RecursiveFindNodes", json!([ids(id)])).now().await?;
            let got = got.map_err(|e| e.to_string())?;
            // The record may come from the table below the networks.
            let below = below.get(&id.raw()).is_some_and(|b| got == json!([b]));
            check!(below || got == json!([w]), "nodes found for known peer {k} in {name}: {got}");
        }
    }
    Ok(())
}

fn histories(ch: &mut Ch, length: usize, tables: &[Option<Subnetwork>], known: &[u16]) -> Res {
    let mut changes: Vec<(u16, u64)> = vec![];
    for k in known {
        changes.extend([(*k, 0), (*k, 1), (*k, 2)]);
    }
    let ops: Vec<(Option<Subnetwork>, (u16, u64))> = (0..length).map(|_| (*ch.choose(tables), *ch.choose(&changes))).collect();
    ch.note(|| format!("{ops:?}; sequence number 0 stands for removal"));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let mut m: Vec<Model> = TABLES.iter().map(|_| Model::new()).collect();
        for (table, (k, seq)) in &ops {
            ch.steps(1);
            let t = TABLES.iter().position(|t| t == table).expect("a table");
            let id = peers::id(*k);
            let me = id == node.me;
            if *seq == 0 {
                let said = ask(&node, *table, "DeleteEnr", json!([ids(id)])).now().await?.map_err(|e| format!("removal: {e}"))?;
                check_eq!(said, json!(m[t].remove(&id.raw()).is_some()), "answer to the removal of {k}");
            } else {
                let enr = peers::record(*k, *seq);
                let said = ask(&node, *table, "AddEnr", json!([enr])).now().await?;
                match (said, me) {
                    (Ok(v), true) => check_eq!((v, *table), (json!(false), None), "answer to adding the node itself"),
                    (Err(_), true) => check!(table.is_some(), "an error for adding the node itself"),
                    (said, false) => {
                        check_eq!(said.ok(), Some(json!(true)), "answer to adding {k}");
                        m[t].insert(id.raw(), enr);
                    }
                }
            }
            ch.outcome(&(t, k, seq, m[t].len()));
        }
        ch.state(&m.iter().map(|t| t.iter().map(|(k, e)| (*k, e.seq())).collect::<Vec<_>>()).collect::<Vec<_>>());
        for (t, table) in TABLES.iter().enumerate() {
            observe(&node, *table, &m[t], &m[3], known, ch).await?;
        }
        check!(node.take_talk().is_none(), "the node asks someone");
        Ok(())
    })
}

/// A bucket of a network takes sixteen connected peers.
fn full(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let (gone, again) = (ch.pick(18), ch.flag());
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let far = peers::at_distance(256, 18);
        let mut m = Model::new();
        for k in &far[..16] {
            let said = node.on(net, "AddEnr", json!([peers::record(*k, 1)])).now().await?;
            check_eq!(said.ok(), Some(json!(true)), "answer to adding {k}");
            m.insert(peers::id(*k).raw(), peers::record(*k, 1));
        }
        let said = node.on(net, "AddEnr", json!([peers::record(far[16], 1)])).now().await?;
        check!(said.is_err(), "a seventeenth peer is added");
        let near = peers::at_distance(254, 1)[0];
        check_eq!(node.on(net, "AddEnr", json!([peers::record(near, 1)])).now().await?.ok(), Some(json!(true)), "answer to adding a near peer");
        m.insert(peers::id(near).raw(), peers::record(near, 1));
        let said = node.on(net, "DeleteEnr", json!([ids(peers::id(far[gone]))])).now().await?;
        check_eq!(said.ok(), Some(json!(gone < 16)), "answer to a removal");
        m.remove(&peers::id(far[gone]).raw());
        if again {
            let said = node.on(net, "AddEnr", json!([peers::record(far[17], 1)])).now().await?;
            check_eq!(said.is_ok(), gone < 16, "room for another peer");
            if gone < 16 {
                m.insert(peers::id(far[17]).raw(), peers::record(far[17], 1));
            }
        }
        ch.outcome(&(word(net), gone < 16, again));
        ch.state(&m.keys().cloned().collect::<Vec<_>>());
        for table in TABLES {
            let none = Model::new();
            observe(&node, table, if table == Some(net) { &m } else { &none }, &none, &far, ch).await?;
        }
        Ok(())
    })
}

/// The newest record of a peer is found by asking it.
fn lookup(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let (k, other) = (2, 3);
    let answers: [Option<Vec<(u16, u64)>>; 9] = [
        None,
        Some(vec![]),
        Some(vec![(k, 3)]),
        Some(vec![(k, 4)]),
        Some(vec![(k, 5)]),
        Some(vec![(other, 9)]),
        Some(vec![(other, 9), (k, 5)]),
        Some(vec![(k, 3), (k, 5)]),
        Some(vec![(k, 5), (k, 3)]),
    ];
    let known = ch.flag();
    let answer = ch.choose(&answers).clone();
    let wrong = answer.is_none() && ch.flag();
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let asked = if known { k } else { other };
        for n in NETS {
            // The other networks know nothing that helps.
            let records = if n == net { vec![peers::record(asked, 4)] } else { vec![] };
            for r in records {
                node.on(n, "AddEnr", json!([r])).now().await?.map_err(|e| e.to_string())?;
            }
        }
        let call = node.on(net, "LookupEnr", json!([ids(peers::id(k))]));
        let (mut first, mut waited) = (true, 0);
        while call.waits().await {
            let Some(talk) = node.take_talk() else {
                waited += 1;
                check!(waited < 120, "the lookup does not end");
                pass(1000).await;
                continue;
            };
            ch.steps(1);
            check_eq!(talk.protocol, protocol(net), "protocol of the question");
            let Request::FindNodes(question) = talk.request()? else { return Err("not a question for records".into()) };
            if first {
                check_eq!(talk.to, peers::id(asked), "the peer that is asked first");
                if known {
                    check_eq!(question.distances, vec![0], "distances asked of the peer itself");
                }
            }
            match &answer {
                None if wrong => talk.answer(Response::Accept(Accept { connection_id: 0, content_keys: vec![0].into() })),
                None => talk.fail(),
                // Peers found on the way know no one.
                Some(_) if !first => talk.answer(Response::Nodes(Nodes { total: 1, enrs: vec![] })),
                Some(l) => talk.answer(Response::Nodes(Nodes { total: 1, enrs: l.iter().map(|(k, s)| SszEnr(peers::record(*k, *s))).collect() })),
            }
            first = false;
        }
        let got = call.now().await?;
        ch.eval();
        ch.outcome(&(word(net), known, &answer, got.is_ok()));
        let told = answer.iter().flatten().filter(|(p, _)| *p == k).map(|(_, s)| *s).max();
        match (known, told) {
            (true, told) => check_eq!(got.ok(), Some(json!(peers::record(k, told.unwrap_or(0).max(4)))), "record found"),
            (false, Some(_)) => {
                let l: Vec<_> = answer.iter().flatten().filter(|(p, _)| *p == k).map(|(_, s)| json!(peers::record(k, *s))).collect();
                let got = got.map_err(|e| format!("no record found: {e}"))?;
                check!(l.contains(&got), "the record found is not the one the network gave");
            }
            (false, None) => check!(got.is_err(), "a record is found that nobody gave"),
        }
        let mine = node.on(net, "LookupEnr", json!([ids(node.me)])).now().await?;
        check_eq!(mine.ok(), Some(json!(node.enr)), "own record");
        Ok(())
    })
}

pub fn n03(ctx: &Ctx) {
    let near = peers::at_distance(256, 2);
    let far = peers::at_distance(255, 1);
    let known = [near[0], near[1], far[0], 1];
    let deep = ctx.b(2, 3);
    ctx.explore("all tables", |ch| histories(ch, deep, &TABLES, &[near[0], 1]));
    let deep = ctx.b(2, 3);
    for t in TABLES {
        ctx.explore(t.map(word).unwrap_or("discv5"), |ch| histories(ch, deep, &[t], &known));
    }
    ctx.explore("full bucket", full);
    ctx.explore("lookup", lookup);
}
