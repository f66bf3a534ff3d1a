//! The services of the node below its networks, and where they are offered.

use discv5::{fake::Basic, Enr};
use ethportal_api::types::network::Subnetwork;
use serde_json::{json, Value};
use trin_utils::cli::Web3TransportType;
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{contents::hex, peers, tables::ids, world::*};

const COMMON: [&str; 18] = [
    "AddEnr", "DeleteEnr", "FindContent", "FindNodes", "GetContent", "GetEnr", "LocalContent", "LookupEnr", "Offer",
    "PaginateLocalContentKeys", "Ping", "PutContent", "Radius", "RecursiveFindNodes", "RoutingTableInfo", "Store",
    "TraceGetContent", "TraceOffer",
];
const BEACON: [&str; 6] = [
    "FinalityUpdate", "FinalizedHeader", "FinalizedStateRoot", "LightClientStore", "OptimisticStateRoot",
    "OptimisticUpdate",
];
const ALWAYS: [&str; 12] = [
    "discv5_addEnr", "discv5_deleteEnr", "discv5_findNode", "discv5_getEnr", "discv5_lookupEnr", "discv5_nodeInfo",
    "discv5_ping", "discv5_recursiveFindNodes", "discv5_routingTableInfo", "discv5_talkReq", "discv5_updateNodeInfo",
    "web3_clientVersion",
];
const ETH: [&str; 7] = [
    "eth_call", "eth_chainId", "eth_getBalance", "eth_getBlockByHash", "eth_getBlockByNumber", "eth_getCode",
    "eth_getStorageAt",
];

/// Every method, with the network it needs.
fn methods() -> Vec<(String, Option<Subnetwork>)> {
    let mut l: Vec<_> = ALWAYS.iter().map(|m| (m.to_string(), None)).collect();
    for net in NETS {
        l.extend(COMMON.iter().map(|m| (format!("portal_{}{m}", word(net)), Some(net))));
    }
    l.extend(BEACON.iter().map(|m| (format!("portal_beacon{m}"), Some(Subnetwork::Beacon))));
    l.extend(ETH.iter().map(|m| (m.to_string(), Some(Subnetwork::LegacyHistory))));
    l
}

/// The networks that run decide what can be called; the configuration decides where.
fn offered(ch: &mut Ch) -> Res {
    let mask = ch.subset(3);
    let nets: Vec<Subnetwork> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| NETS[i]).collect();
    let mut rpc = rpc_config(Web3TransportType::IPC);
    let way = ch.pick(5);
    let want: Vec<(&str, &str)> = match way {
        0 => vec![("ipc", "/nowhere/trin.ipc")],
        1 => {
            rpc.web3_ipc_path = "/nowhere/else".into();
            vec![("ipc", "/nowhere/else")]
        }
        n => {
            rpc = rpc_config(Web3TransportType::HTTP);
            rpc.ws = n > 2;
            rpc.ws_port = 9999;
            if n == 4 {
                rpc.web3_http_address = "http://0.0.0.0:9999".parse().expect("url");
            }
            match n {
                2 => vec![("http", "127.0.0.1:8545")],
                3 => vec![("http", "127.0.0.1:8545"), ("ws", "0.0.0.0:9999")],
                // One server for both.
                _ => vec![("both", "0.0.0.0:9999")],
            }
        }
    };
    ch.note(|| format!("{nets:?} {want:?}"));
    run(|| async {
        let node = Node::start(Setup { nets: nets.clone(), rpc, bootnodes: vec![] }).await?;
        let mut got: Vec<String> = node.servers.iter().map(|s| s.address.clone()).collect();
        got.sort();
        let mut addresses: Vec<String> = want.iter().map(|w| w.1.to_string()).collect();
        addresses.sort();
        check_eq!(got, addresses, "servers");
        for (kind, address) in &want {
            let s = node.servers.iter().find(|s| s.address == *address).ok_or("no server")?;
            check_eq!(s.kind == "ipc", *kind == "ipc", "kind of the server at {address}");
            // A server for both refuses neither.
            let fits = match *kind {
                "both" => s.kind != "http" && s.kind != "ws" && s.kind != "ipc",
                k => s.kind == k || s.kind == "http+ws",
            };
            check!(fits, "{} server at {address} instead of {kind}", s.kind);
            for (m, needs) in methods() {
                ch.eval();
                let there = s.methods.method_names().any(|n| n == m);
                let expected = needs.is_none_or(|n| nets.contains(&n));
                check_eq!(there, expected, "{m} at {address}");
                let found = match s.methods.dispatch(&m, Some(json!([{"no": "value"}]))).await {
                    Err(e) => e.code() != -32601,
                    Ok(_) => true,
                };
                check_eq!(found, expected, "{m} at {address} can be called");
            }
        }
        ch.outcome(&(nets.len(), way));
        Ok(())
    })
}

/// Address and ports in the record.
fn socket(enr: &Enr) -> (Option<String>, Option<u16>, Option<u16>) {
    (enr.ip4().map(|i| i.to_string()), enr.udp4(), enr.tcp4())
}

fn identity(ch: &mut Ch, length: usize) -> Res {
    let changes = [
        ("10.1.2.3:4000", false),
        ("10.1.2.3:4000", true),
        ("10.1.2.4:4000", false),
        ("10.1.2.3:4001", true),
        ("10.1.2.3", false),
        ("nonsense", true),
    ];
    let ops: Vec<(&str, bool)> = (0..length).map(|_| *ch.choose(&changes)).collect();
    ch.note(|| format!("{ops:?}"));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let (mut now, mut seq) = (socket(&node.enr), node.enr.seq());
        for step in 0..=ops.len() {
            let said = match step.checked_sub(1).map(|i| ops[i]) {
                None => node.call("discv5_nodeInfo", json!([])).await?,
                Some((text, tcp)) => {
                    let said = node.call("discv5_updateNodeInfo", json!([text, tcp])).await?;
                    let change = text.split_once(':').map(|(ip, port)| (ip, port.parse::<u16>().expect("port")));
                    let old = now.clone();
                    match change {
                        Some((_, port)) if tcp => now.2 = Some(port),
                        Some((ip, port)) => (now.0, now.1) = (Some(ip.to_string()), Some(port)),
                        None => {
                            check!(said.is_err(), "address {text} is taken");
                        }
                    }
                    if now == old {
                        // Whether saying the same again is an error is open.
                        node.call("discv5_nodeInfo", json!([])).await?
                    } else {
                        said
                    }
                }
            };
            ch.eval();
            let said = said.map_err(|e| format!("no information: {e}"))?;
            let enr: Enr = serde_json::from_value(said["enr"].clone()).map_err(|e| e.to_string())?;
            check_eq!(socket(&enr), now, "address in the record");
            check!(enr.verify(), "the record is not signed");
            check!(enr.seq() >= seq, "the sequence number goes back");
            seq = enr.seq();
            check_eq!(said["nodeId"], json!(ids(node.me)), "id");
            check_eq!(said["ip"], json!(now.0.clone().unwrap_or("None".into())), "ip");
            for net in NETS {
                let own = node.on(net, "GetEnr", json!([ids(node.me)])).now().await?.map_err(|e| e.to_string())?;
                check_eq!(own, said["enr"], "own record by {}", word(net));
            }
            ch.state(&(now.clone(), step));
        }
        let version = node.call("web3_clientVersion", json!([])).await?.map_err(|e| e.to_string())?;
        check!(version.as_str().is_some_and(|v| v.starts_with("trin v")), "version {version}");
        Ok(())
    })
}

/// Requests to one peer, of the protocol below the networks.
fn basic(ch: &mut Ch) -> Res {
    let ask = ch.pick(3);
    let answer = ch.pick(4);
    let kinds = [("LegacyHistory", Subnetwork::LegacyHistory), ("State", Subnetwork::State), ("Beacon", Subnetwork::Beacon)];
    let (name, net) = *ch.choose(&kinds);
    let bytes: Vec<u8> = (0..ch.pick(3) as u8 * 40).collect();
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let to = peers::record(2, 1);
        let records: Vec<Enr> = (0..answer as u16).map(|i| peers::record(10 + i, 1)).collect();
        let distances = [json!([]), json!([256]), json!([0, 255, 3])][bytes.len() / 40].clone();
        let call = match ask {
            0 => node.begin("discv5_ping", json!([to])),
            1 => node.begin("discv5_findNode", json!([to, distances])),
            _ => node.begin("discv5_talkReq", json!([to, name, bytes])),
        };
        settle().await;
        ch.eval();
        let want = match (ask, node.take_talk(), node.take_basic()) {
            (0, None, Some(Basic::Ping { to: t, respond })) if t == to => {
                let ip = "192.0.2.7".parse().expect("ip");
                let port = std::num::NonZeroU16::new(4 + answer as u16).expect("port");
                let pong = discv5::service::Pong { enr_seq: 9, ip, port: port.into() };
                let _ = respond.send(if answer < 3 { Ok(pong) } else { Err(discv5::RequestError::Timeout) });
                json!({"enrSeq": 9, "ip": "192.0.2.7", "port": 4 + answer})
            }
            (1, None, Some(Basic::FindNodes { to: t, distances: d, respond })) if t == to => {
                check_eq!(json!(d), distances, "distances");
                let _ = respond.send(if answer < 3 { Ok(records.clone()) } else { Err(discv5::RequestError::Timeout) });
                json!(records)
            }
            (2, Some(talk), None) if talk.to == to.node_id() => {
                check_eq!(talk.protocol, protocol(net), "protocol");
                check_eq!(talk.body, bytes, "request");
                let back: Vec<u8> = (0..answer as u8 * 30).rev().collect();
                match answer {
                    3 => talk.fail(),
                    _ => talk.raw(back.clone()),
                }
                json!(back)
            }
            (_, t, b) => return Err(format!("request {ask}: {} {}", t.is_some(), b.is_some())),
        };
        let got = call.now().await?;
        ch.outcome(&(ask, answer, name, bytes.len()));
        match got {
            Ok(v) => {
                check!(answer < 3, "no answer gives {v}");
                let same = v == want || (ask == 2 && v == json!(hex(&want.as_array().map(|l| l.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect::<Vec<_>>()).unwrap_or_default())));
                check!(same, "answer {v} instead of {want}");
            }
            Err(e) => check!(answer == 3, "the answer is refused: {e}"),
        }
        Ok(())
    })
}

/// A record is looked for at the peers that are known.
fn lookup(ch: &mut Ch, known: usize) -> Res {
    let n = ch.pick(known + 1);
    // What each says: nothing, others, the record among others, no answer at all.
    let says: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
    let target = 50u16;
    let have = ch.flag();
    ch.note(|| format!("peers say {says:?}, the record is in the table: {have}"));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        for k in 0..n as u16 {
            node.call("discv5_addEnr", json!([peers::record(20 + k, 1)])).await?.map_err(|e| e.to_string())?;
        }
        if have {
            node.call("discv5_addEnr", json!([peers::record(target, 1)])).await?.map_err(|e| e.to_string())?;
        }
        let call = node.begin("discv5_lookupEnr", json!([ids(peers::id(target))]));
        let mut asked = 0;
        while call.waits().await {
            let Some(Basic::FindNodes { to, respond, .. }) = node.take_basic() else {
                return Err("the lookup waits for nothing".into());
            };
            asked += 1;
            check!(asked <= n + have as usize, "more questions than peers");
            let says = (0..n).find(|k| peers::id(20 + *k as u16) == to.node_id()).map_or(0, |k| says[k]);
            let records = match says {
                0 => vec![],
                1 => vec![peers::record(60, 1), peers::record(61, 1)],
                2 => vec![peers::record(60, 1), peers::record(target, 3)],
                _ => {
                    let _ = respond.send(Err(discv5::RequestError::Timeout));
                    continue;
                }
            };
            let _ = respond.send(Ok(records));
        }
        ch.eval();
        let got: Option<Value> = call.now().await?.ok();
        let from: Vec<Value> = [have.then_some(1), says.contains(&2).then_some(3)].into_iter().flatten().map(|s| json!(peers::record(target, s))).collect();
        ch.outcome(&(n, asked, got.is_some()));
        match got {
            Some(g) => check!(from.contains(&g), "record {g}"),
            None => check!(from.is_empty(), "no record, though a peer that was known has it"),
        }
        Ok(())
    })
}

pub fn n05(ctx: &Ctx) {
    ctx.explore("offered", offered);
    for n in 0..=ctx.b(2, 3) {
        ctx.explore(&format!("identity {n}"), |ch| identity(ch, n));
    }
    ctx.explore("basic", basic);
    ctx.explore("lookup", |ch| lookup(ch, ctx.b(3, 4)));
}
