//! Calls that ask peers.

use discv5::Enr;
use ethportal_api::types::{
    enr::SszEnr,
    network::Subnetwork,
    portal_wire::{Accept, Content, Nodes, Pong, Request, Response},
};
use serde_json::{json, Value};
use spec::{container, Fixed, Var};
use utp_rs::fake::Side;
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{
    blocks::Head,
    contents::{hex, items, Item, Kept},
    peers::{self, Look},
    tables::ids,
    world::*,
};

fn peer(k: u16, versions: bool) -> Enr {
    peers::dressed(k, Look { seq: 1, pad: 0, versions: versions.then(|| vec![0, 1]) })
}

/// Answers that say nothing about the question.
const NOTHING: usize = 3;

/// The one request the node sends for a call.
async fn sent(node: &Node, net: Subnetwork, to: &Enr) -> Result<(Talk, Request), String> {
    settle().await;
    let talk = node.take_talk().ok_or("nothing is sent")?;
    check!(node.take_talk().is_none(), "two requests are sent");
    check_eq!(talk.protocol, protocol(net), "protocol of the request");
    check_eq!(talk.to, to.node_id(), "peer that is asked");
    let request = talk.request()?;
    Ok((talk, request))
}

fn no_answer(talk: Talk, which: usize) {
    match which {
        0 => talk.fail(),
        1 => talk.raw(vec![]),
        _ => talk.raw(vec![1, 2, 3]),
    }
}

/// A ping payload: type, bytes and JSON form.
fn payloads() -> Vec<(u16, Vec<u8>, Value)> {
    let radius: Vec<u8> = (1..=32).collect();
    let text = {
        let mut b = radius.clone();
        b.reverse();
        hex(&b)
    };
    let name = "trin/v0.1.1-892ad575/linux-x86_64/rustc1.81.0";
    vec![
        (
            0,
            container(&[Var(name.into()), Fixed(radius.clone()), Var(vec![0, 0, 1, 0])]),
            json!({"clientInfo": name, "dataRadius": text, "capabilities": [0, 1]}),
        ),
        (1, radius.clone(), json!({"dataRadius": text})),
        (2, [radius.clone(), vec![5, 1]].concat(), json!({"dataRadius": text, "ephemeralHeaderCount": 261})),
        (65535, container(&[Fixed(vec![1, 0]), Var(b"no".to_vec())]), json!({"errorCode": 1, "message": [110, 111]})),
    ]
}

fn ping(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let supported: &[u16] = if net == Subnetwork::LegacyHistory { &[0, 2, 65535] } else { &[0, 1, 65535] };
    let all = payloads();
    let kind = *ch.choose(&[None, Some(0u16), Some(1), Some(2), Some(65535), Some(7)]);
    let given = match ch.pick(all.len() + 2) {
        0 => None,
        1 => Some(json!({"dataRadius": [], "x": 1})),
        n => Some(all[n - 2].2.clone()),
    };
    // How the peer answers.
    let answer = ch.pick(all.len() + NOTHING + 3);
    ch.note(|| format!("{} type {kind:?} payload {given:?} answer {answer}", word(net)));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let to = peer(2, false);
        let call = node.on(net, "Ping", json!([to, kind, given]));
        let fits = given.as_ref().and_then(|g| all.iter().find(|p| kind == Some(p.0) && p.2 == *g));
        let code = match (kind, &given) {
            (Some(7), _) => Some((-39004, Some("client"))),
            (Some(k), _) if !supported.contains(&k) => Some((-39004, Some("subnetwork"))),
            (None, Some(_)) => Some((-39006, None)),
            // JSON with more than is needed is understood.
            (Some(1), Some(g)) if g.get("dataRadius").is_some_and(|r| r.is_string()) => None,
            (Some(_), Some(_)) if fits.is_none() => Some((-39005, None)),
            // An error is only for answers.
            (Some(65535), None) => Some((-32099, None)),
            _ => None,
        };
        ch.eval();
        if let Some((code, data)) = code {
            let e = call.now().await?.err().ok_or("a ping that cannot be sent is answered")?;
            check_eq!(e.code(), code, "code of the error");
            if let Some(d) = data {
                let got = e.data().map(|d| d.get().to_lowercase()).unwrap_or_default();
                check!(got.contains(d), "reason {got} instead of {d}");
            }
            check!(node.take_talk().is_none(), "something is sent");
            ch.outcome(&(word(net), code, data));
            return Ok(());
        }
        let (talk, request) = sent(&node, net, &to).await?;
        let Request::Ping(p) = request else { return Err("not a ping".into()) };
        check_eq!(p.enr_seq, node.enr.seq(), "sequence number in the ping");
        let number = kind.unwrap_or(0);
        check_eq!(u16::from(p.payload_type), number, "type of the ping");
        let payload = p.payload.payload.to_vec();
        match (fits, number) {
            (Some(f), _) => check_eq!(payload, f.1, "payload of the ping"),
            (None, 0) => {
                check!(payload.len() > 40 && payload[4..36] == [0xff; 32], "radius in the ping");
                let at = u32::from_le_bytes(payload[36..40].try_into().expect("four")) as usize;
                let l: Vec<u16> = payload[at..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                check_eq!(l, supported.to_vec(), "capabilities in the ping");
                let name = String::from_utf8_lossy(&payload[40..at]).to_string();
                check!(name.starts_with("trin/"), "client {name}");
            }
            (None, 1) if given.is_some() => check_eq!(payload, (1..=32).collect::<Vec<u8>>(), "radius in the ping"),
            (None, 1) => check_eq!(payload, vec![0xff; 32], "radius in the ping"),
            (None, 2) => check_eq!(payload, [vec![0xff; 32], vec![0, 0]].concat(), "radius in the ping"),
            _ => return Err("an error is sent as a ping".into()),
        }
        let pong = |kind: u16, payload: Vec<u8>| {
            Response::Pong(Pong { enr_seq: 5, payload_type: kind.into(), payload: payload.into() })
        };
        let want = all.get(answer).map(|p| json!({"enrSeq": 5, "payloadType": p.0, "payload": p.2}));
        match answer.checked_sub(all.len()) {
            None => talk.answer(pong(all[answer].0, all[answer].1.clone())),
            Some(n) if n < NOTHING => no_answer(talk, n),
            Some(n) if n == NOTHING => talk.answer(pong(7, vec![1; 32])),
            Some(n) if n == NOTHING + 1 => talk.answer(pong(1, vec![1; 31])),
            _ => talk.answer(Response::Nodes(Nodes { total: 1, enrs: vec![] })),
        }
        let got = call.now().await?;
        ch.outcome(&(word(net), number, answer));
        match want {
            Some(w) => check_eq!(got.map_err(|e| format!("the pong is refused: {e}"))?, w, "the pong"),
            None => check!(got.is_err(), "no pong gives {got:?}"),
        }
        Ok(())
    })
}

fn find_nodes(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let many: Vec<u16> = (1..=256).collect();
    let lists: [(Vec<u16>, bool); 10] = [
        (vec![], false),
        (vec![0], true),
        (vec![256], true),
        (vec![257], false),
        (vec![5, 3, 256], true),
        (vec![3, 3], false),
        (vec![1, 2, 1], false),
        (many.clone(), true),
        ([many.clone(), vec![0]].concat(), false),
        (vec![1, 300], false),
    ];
    let (distances, fine) = ch.choose(&lists).clone();
    let answer = ch.pick(NOTHING + 4);
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let to = peer(2, false);
        let call = node.on(net, "FindNodes", json!([to, distances]));
        ch.eval();
        if !fine {
            check!(call.now().await?.is_err(), "{distances:?} is taken");
            check!(node.take_talk().is_none(), "something is sent");
            return Ok(());
        }
        let (talk, request) = sent(&node, net, &to).await?;
        let Request::FindNodes(f) = request else { return Err("not a question for records".into()) };
        check_eq!(f.distances, distances, "distances asked for");
        let records: Vec<Enr> = (0..answer).map(|i| peer(10 + i as u16, i == 1)).collect();
        let answered = answer < 3;
        if answered {
            talk.answer(Response::Nodes(Nodes { total: 1, enrs: records.iter().cloned().map(SszEnr).collect() }));
        } else if answer < 3 + NOTHING {
            no_answer(talk, answer - 3);
        } else {
            talk.answer(Response::Content(Content::Enrs(vec![])));
        }
        let got = call.now().await?;
        ch.outcome(&(word(net), answer, distances.len()));
        check_eq!(got.is_ok(), answered, "success");
        if answered {
            check_eq!(got.ok(), Some(json!(records)), "records given");
        }
        Ok(())
    })
}

/// A key with a good value, which the validation of the network accepts, and a bad one.
struct Wanted {
    key: Vec<u8>,
    good: Vec<u8>,
    bad: Vec<u8>,
}

/// The node gets what the validation needs.
async fn wanted(node: &Node, net: Subnetwork) -> Result<Wanted, String> {
    let item = |name: &str| items().iter().find(|i| i.name == name).expect("a value");
    Ok(match net {
        Subnetwork::LegacyHistory => {
            let head = Head::at(1000);
            let key = |kind: u8| [&[kind][..], &head.hash()].concat();
            let said = node.on(net, "Store", json!([hex(&key(0)), hex(&head.content())])).now().await?;
            said.map_err(|e| format!("no header: {e}"))?;
            let good = item("a body").value.clone();
            Wanted { key: key(1), good, bad: item("a body with withdrawals").value.clone() }
        }
        Subnetwork::State => {
            let i = item("an account node");
            let Kept::As(good) = i.kept.clone() else { unreachable!() };
            Wanted { key: i.key.clone(), good, bad: container(&[Var(vec![0xc2, 1, 2])]) }
        }
        _ => {
            let i = item("an update");
            Wanted { key: i.key.clone(), good: i.value.clone(), bad: i.value[..100].to_vec() }
        }
    })
}

fn varint(n: usize) -> Vec<u8> {
    if n < 0x80 { vec![n as u8] } else { [vec![n as u8 | 0x80], varint(n >> 7)].concat() }
}

/// The ways a peer can give content.
const GIVEN: usize = 6;

/// Answers a request for content; whether the content was good, if any was given, and by transfer.
async fn give(node: &Node, talk: Talk, to: &Enr, w: &Wanted, versions: bool, way: usize) -> Result<Option<bool>, String> {
    let framed = |v: &Vec<u8>| if versions { [varint(v.len()), v.clone()].concat() } else { v.clone() };
    let good = w.good.clone();
    if way < 2 {
        talk.answer(Response::Content(Content::Content(if way == 0 { good } else { w.bad.clone() }.into())));
        return Ok((way == 0).then_some(false));
    }
    let cid = 0x1234u16;
    talk.answer(Response::Content(Content::ConnectionId(cid.to_be())));
    settle().await;
    let open = node.take_open().ok_or("no transfer is opened")?;
    check!(node.take_open().is_none(), "two transfers are opened");
    check!(open.side == Side::Connect, "the node waits for a transfer");
    check_eq!((open.recv, open.send, open.peer), (cid, cid + 1, to.node_id()), "the transfer");
    match way {
        2 => open.deliver(framed(&good)),
        3 => open.deliver(framed(&w.bad)),
        4 => open.refuse(),
        _ if versions => open.deliver([framed(&good), vec![0]].concat()),
        _ => open.deliver([vec![0], good].concat()),
    }
    Ok((way == 2).then_some(true))
}

fn find_content(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let versions = ch.flag();
    let way = ch.pick(GIVEN + 2 + NOTHING + 1);
    ch.note(|| format!("{} versions {versions} way {way}", word(net)));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let w = wanted(&node, net).await?;
        let to = peer(2, versions);
        let call = node.on(net, "FindContent", json!([to, hex(&w.key)]));
        let (talk, request) = sent(&node, net, &to).await?;
        let Request::FindContent(f) = request else { return Err("not a question for content".into()) };
        check_eq!(f.content_key.to_vec(), w.key, "key asked for");
        ch.eval();
        let records: Vec<Enr> = (0..way.saturating_sub(GIVEN)).map(|i| peer(10 + i as u16, false)).collect();
        let want = if way < GIVEN {
            let given = give(&node, talk, &to, &w, versions, way).await?;
            given.map(|transfer| json!({"content": hex(&w.good), "utpTransfer": transfer}))
        } else if way < GIVEN + 2 {
            talk.answer(Response::Content(Content::Enrs(records.iter().cloned().map(SszEnr).collect())));
            Some(json!({"enrs": records}))
        } else if way < GIVEN + 2 + NOTHING {
            no_answer(talk, way - GIVEN - 2);
            None
        } else {
            talk.answer(Response::Nodes(Nodes { total: 1, enrs: vec![] }));
            None
        };
        let got = call.now().await?;
        ch.outcome(&(word(net), versions, way));
        match want {
            Some(w) => check_eq!(got.map_err(|e| format!("the answer is refused: {e}"))?, w, "the answer"),
            None => check!(got.is_err(), "no content gives {got:?}"),
        }
        Ok(())
    })
}

/// Content the node does not have is asked of the peers it knows.
fn get_content(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let versions = ch.flag();
    let trace = ch.flag();
    let way = ch.pick(GIVEN + 2);
    ch.note(|| format!("{} versions {versions} way {way} trace {trace}", word(net)));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let w = wanted(&node, net).await?;
        let to = peer(2, versions);
        node.on(net, "AddEnr", json!([to])).now().await?.map_err(|e| e.to_string())?;
        let call = node.on(net, if trace { "TraceGetContent" } else { "GetContent" }, json!([hex(&w.key)]));
        let (talk, request) = sent(&node, net, &to).await?;
        let Request::FindContent(f) = request else { return Err("not a question for content".into()) };
        check_eq!(f.content_key.to_vec(), w.key, "key asked for");
        let given = if way < GIVEN {
            give(&node, talk, &to, &w, versions, way).await?
        } else {
            match way - GIVEN {
                0 => talk.answer(Response::Content(Content::Enrs(vec![]))),
                _ => talk.fail(),
            }
            None
        };
        let mut waited = 0;
        while call.waits().await {
            check!(waited < 120, "the search does not end");
            check!(node.take_talk().is_none(), "something else is sent");
            pass(1000).await;
            waited += 1;
        }
        let got = call.now().await?;
        ch.eval();
        ch.outcome(&(word(net), way, versions, trace));
        let (me, peer) = (json!(ids(node.me)), json!(ids(to.node_id())));
        let log = match (given, got) {
            (Some(transfer), Ok(v)) => {
                check_eq!(v["content"], json!(hex(&w.good)), "the content");
                check_eq!(v["utpTransfer"], json!(transfer), "by transfer");
                trace.then(|| v["trace"].clone())
            }
            (None, Err(e)) => {
                check_eq!(e.code(), -39001, "code of the error");
                match (e.data(), trace) {
                    (Some(d), true) => Some(serde_json::from_str(d.get()).map_err(|e| e.to_string())?),
                    (None, true) => return Err("the error has no trace".into()),
                    _ => None,
                }
            }
            (given, got) => return Err(format!("{got:?} for good content {given:?}")),
        };
        if let Some(log) = log {
            check_eq!(log["origin"], me, "origin in the trace");
            check_eq!(log["receivedFrom"], if given.is_some() { peer } else { Value::Null }, "sender in the trace");
            check!(log["metadata"].get(ids(to.node_id())).is_some(), "the peer is not in the trace");
        }
        // What was found is kept.
        let local = node.on(net, "LocalContent", json!([hex(&w.key)])).now().await?;
        if given.is_none() {
            check!(local.is_err(), "something is kept");
        } else if net != Subnetwork::State {
            // State is given in a form that cannot be kept.
            check_eq!(local.ok(), Some(json!(hex(&w.good))), "what is kept");
        }
        Ok(())
    })
}

fn offered(net: Subnetwork, n: usize) -> Vec<Item> {
    let all: Vec<Item> = items().iter().filter(|i| i.net == net && matches!(i.kept, Kept::As(_))).cloned().collect();
    (0..n).map(|i| all[i % all.len()].clone()).collect()
}

/// The codes on the wire, and as they are reported.
fn encoded(codes: &[u8], versions: bool) -> (Vec<u8>, Vec<u8>) {
    if versions {
        return (codes.to_vec(), codes.to_vec());
    }
    let mut bits: Vec<bool> = codes.iter().map(|c| *c == 0).collect();
    bits.push(true);
    let bytes = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |b, (i, x)| b | (*x as u8) << i)).collect();
    (bytes, codes.iter().map(|c| (*c != 0) as u8).collect())
}

fn offer(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let versions = ch.flag();
    let n = *ch.choose(&[0usize, 1, 2, 3, 64, 65]);
    let spoiled = n > 0 && n < 4 && ch.flag();
    let spoil = if spoiled { ch.pick(n) } else { 0 };
    let one = n == 1 && ch.flag();
    let fine = (1..=64).contains(&n) && !spoiled;
    let nothing = if fine { ch.pick(NOTHING + 2) } else { 0 };
    let codes: Vec<u8> = match n {
        _ if !fine || nothing > 0 => vec![1; n],
        1..=3 => (0..n).map(|_| *ch.choose(&[0u8, 1, 2, 5])).collect(),
        _ => (0..n).map(|i| (i * 7 % 3) as u8).collect(),
    };
    let accepted: Vec<usize> = (0..n).filter(|i| codes[*i] == 0).collect();
    let refuse = nothing == 0 && fine && !accepted.is_empty() && ch.flag();
    ch.note(|| format!("{} versions {versions} {n} items, spoiled {spoiled} at {spoil}, traced {one}, codes {codes:?}, refuse {refuse}", word(net)));
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        let to = peer(2, versions);
        let items = offered(net, n);
        let mut given: Vec<(String, String)> = items.iter().map(|i| (hex(&i.key), hex(&i.value))).collect();
        if spoiled {
            given[spoil].1 = "0x0102".into();
        }
        let call = match one {
            true => node.on(net, "TraceOffer", json!([to, given[0].0, given[0].1])),
            false => node.on(net, "Offer", json!([to, given])),
        };
        ch.eval();
        if !fine {
            check!(call.now().await?.is_err(), "the offer is taken");
            check!(node.take_talk().is_none(), "something is sent");
            return Ok(());
        }
        let (talk, request) = sent(&node, net, &to).await?;
        let Request::Offer(o) = request else { return Err("not an offer".into()) };
        let keys: Vec<Vec<u8>> = o.content_keys.iter().map(|k| k.to_vec()).collect();
        check_eq!(keys, items.iter().map(|i| i.key.clone()).collect::<Vec<_>>(), "keys offered");
        ch.outcome(&(word(net), versions, n.min(4), one, nothing, &codes[..n.min(4)], refuse));
        if nothing > 0 {
            match nothing - 1 {
                w if w < NOTHING => no_answer(talk, w),
                _ => talk.answer(Response::Nodes(Nodes { total: 1, enrs: vec![] })),
            }
            let got = call.now().await?;
            check!(got.is_err() || got.as_ref().ok() == Some(&json!("Failed")), "no answer gives {got:?}");
            check!(node.take_open().is_none(), "a transfer is opened");
            return Ok(());
        }
        let cid = 0x2233u16;
        let (wire, reported) = encoded(&codes, versions);
        talk.answer(Response::Accept(Accept { connection_id: cid.to_be(), content_keys: wire.into() }));
        settle().await;
        match node.take_open() {
            None => check!(accepted.is_empty(), "what was accepted is not sent"),
            Some(open) => {
                check!(!accepted.is_empty(), "a transfer of nothing");
                check!(node.take_open().is_none(), "two transfers are opened");
                check!(open.side == Side::Connect, "the node waits for a transfer");
                check_eq!((open.recv, open.send, open.peer), (cid, cid + 1, to.node_id()), "the transfer");
                if refuse {
                    open.refuse();
                } else {
                    let got = open.take().await;
                    let want: Vec<u8> = accepted.iter().flat_map(|i| [varint(items[*i].value.len()), items[*i].value.clone()].concat()).collect();
                    check!(got == want, "{} bytes are sent instead of {}", got.len(), want.len());
                }
            }
        }
        let got = call.now().await?.map_err(|e| format!("the offer fails: {e}"))?;
        let want = match (one, refuse) {
            (false, _) => json!(hex(&reported)),
            (true, true) => json!("Failed"),
            (true, false) => json!({"Success": reported[0]}),
        };
        check_eq!(got, want, "answer to the offer");
        for i in &items {
            check!(node.on(net, "LocalContent", json!([hex(&i.key)])).now().await?.is_err(), "what was offered is kept");
        }
        Ok(())
    })
}

/// Content is offered to the known peers that want it.
fn put(ch: &mut Ch) -> Res {
    let net = *ch.choose(&NETS);
    let n = ch.pick(4);
    // Peers of another network are not asked.
    let elsewhere = ch.flag();
    let all = offered(net, 3);
    let i = ch.choose(&all).clone();
    run(|| async {
        let node = Node::start(Setup::of(&NETS)).await?;
        for k in 0..n {
            node.on(net, "AddEnr", json!([peer(20 + k as u16, k == 1)])).now().await?.map_err(|e| e.to_string())?;
        }
        if elsewhere {
            for other in NETS.iter().filter(|o| **o != net) {
                node.on(*other, "AddEnr", json!([peer(30, false)])).now().await?.map_err(|e| e.to_string())?;
            }
        }
        let said = node.on(net, "PutContent", json!([hex(&i.key), hex(&i.value)])).now().await?.map_err(|e| e.to_string())?;
        ch.eval();
        check_eq!(said, json!({"peerCount": n, "storedLocally": true}), "answer");
        let mut to = vec![];
        while let Some(talk) = node.take_talk() {
            check_eq!(talk.protocol, protocol(net), "protocol of the offer");
            let Request::Offer(o) = talk.request()? else { return Err("not an offer".into()) };
            check_eq!(o.content_keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>(), vec![i.key.clone()], "keys offered");
            to.push(talk.to.raw());
        }
        to.sort();
        let mut want: Vec<[u8; 32]> = (0..n).map(|k| peers::id(20 + k as u16).raw()).collect();
        want.sort();
        check_eq!(to, want, "peers that get an offer");
        ch.outcome(&(word(net), n, elsewhere, i.name));
        Ok(())
    })
}

pub fn n04(ctx: &Ctx) {
    ctx.explore("ping", ping);
    ctx.explore("find nodes", find_nodes);
    ctx.explore("find content", find_content);
    ctx.explore("get content", get_content);
    ctx.explore("offer", offer);
    ctx.explore("put content", put);
}
