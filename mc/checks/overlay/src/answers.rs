//! O04, O05: what the node answers to requests for content and for nodes.

use discv5::{enr::NodeId, Enr};
use ethportal_api::{
    types::portal_wire::{Content, FindContent, FindNodes, Message, Request, Response},
    OverlayContentKey, RawContentKey,
};
use portalnet::overlay::config::OverlayConfig;
use ssz::Encode;
use utp_rs::fake::Side;
use vc::{check, check_eq, fail, Ctx, Res};

use crate::{
    peers::{self, at_distance, dressed, id, log_distance, record, xor, Look, TestKey},
    world::*,
};

/// A talk message leaves this much of a 1280 byte packet to the overlay.
pub const PACKET: usize = 1280 - 109;

/// A content value is sent inline up to this size.
const INLINE: usize = PACKET - 6;

pub fn key(radius: bool) -> TestKey {
    TestKey { id: peers::secret(900), radius }
}

fn size(r: &Response) -> usize {
    Message::from(r.clone()).as_ssz_bytes().len()
}

/// The versions a record can announce, with the version in common with us.
pub const VERSIONS: [(Option<&[u8]>, Option<u8>); 6] = [
    (None, Some(0)),
    (Some(&[0]), Some(0)),
    (Some(&[0, 1]), Some(1)),
    (Some(&[1]), Some(1)),
    (Some(&[7]), None),
    (Some(&[]), None),
];

pub fn speaking(k: u16, versions: Option<&[u8]>) -> Enr {
    dressed(k, Look { seq: 1, pad: 0, versions: versions.map(|v| v.to_vec()) })
}

/// The unsigned LEB128 encoding.
pub fn varint(mut n: usize) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}

/// Values as they travel in one transfer, each preceded by its length.
pub fn payload(values: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for v in values {
        out.extend(varint(v.len()));
        out.extend_from_slice(v);
    }
    out
}

/// Makes the service see a failed request to a node, so that it counts as disconnected.
pub async fn lose(w: &World, enr: &Enr) {
    let overlay = w.overlay.clone();
    let enr = enr.clone();
    let ping = tokio::spawn(async move { overlay.send_ping(enr, None, None).await.is_err() });
    settle().await;
    w.take_talk().expect("a ping is sent").fail();
    settle().await;
    assert!(ping.await.expect("ping"), "a failed ping succeeds");
}

fn find(key: &TestKey) -> Request {
    Request::FindContent(FindContent { content_key: key.to_bytes() })
}

pub fn o04(ctx: &Ctx) {
    ctx.explore("content we hold", |ch| {
        let len = *ch.choose(&[33, 1000, INLINE - 1, INLINE, INLINE + 1, PACKET + 1, 5000]);
        let radius = ch.flag();
        let (versions, common) = *ch.choose(&VERSIONS);
        let known = ch.pick(3);
        let slots = ch.pick(3);
        let broken = ch.flag();
        let k = key(radius);
        let value = content(&k, 1, len);
        let kind = run(|| async move {
            let w = World::new(Setup {
                config: OverlayConfig {
                    utp_transfer_limit: [0, 1, 2][slots],
                    disable_poke: true,
                    ..Default::default()
                },
                ..Default::default()
            })
            .await;
            let asker = speaking(20, versions);
            let other = speaking(21, None);
            match known {
                0 => {}
                1 => w.session(&asker),
                _ => w.connect(&asker),
            }
            w.connect(&other);
            w.store(|s| s.held.insert(k.clone(), value.clone()));
            w.store(|s| s.broken = broken);
            let got = w.ask(asker.node_id(), find(&k)).await;
            settle().await;
            let opened = w.take_open();
            if let Ok(r) = &got {
                check!(size(r) <= PACKET, "the answer takes {} bytes", size(r));
            }
            if broken {
                check!(got.is_err(), "storage fails and the request is answered with {got:?}");
                check!(opened.is_none(), "storage fails and a transfer is opened");
                return Ok("broken");
            }
            if slots == 0 {
                let Ok(Response::Content(Content::Enrs(enrs))) = got else {
                    fail!("without a transfer slot the request is answered with {got:?}");
                };
                let ids: Vec<NodeId> = enrs.iter().map(|e| e.node_id()).collect();
                let want = if radius { vec![other.node_id()] } else { vec![] };
                check_eq!(ids, want, "peers named without a transfer slot");
                return Ok("no slot");
            }
            if len <= INLINE {
                let Ok(Response::Content(Content::Content(c))) = got else {
                    fail!("{len} bytes of content are answered with {got:?}");
                };
                check!(c[..] == value[..], "the content sent is not the content held");
                check!(opened.is_none(), "content is sent inline and a transfer is opened");
                return Ok("inline");
            }
            if known == 0 || common.is_none() {
                check!(got.is_err(), "a transfer to a peer of unknown record or version is announced: {got:?}");
                check!(opened.is_none(), "a transfer to a peer of unknown record or version is opened");
                return Ok("refused");
            }
            let Ok(Response::Content(Content::ConnectionId(c))) = got else {
                fail!("{len} bytes of content are answered with {got:?}");
            };
            let Some(open) = opened else { fail!("a transfer is announced and not opened") };
            check_eq!(open.side, Side::Accept, "side of the transfer");
            check_eq!(open.peer, asker.node_id(), "peer of the transfer");
            check_eq!(open.send, u16::from_be(c), "connection id announced");
            check_eq!(open.recv, open.send.wrapping_add(1), "connection id expected");
            let sent = open.take().await;
            let want = if common == Some(1) { payload(&[value]) } else { value };
            check!(sent == want, "the transfer carries {} bytes, not the {} of the content", sent.len(), want.len());
            check!(w.take_open().is_none(), "a second transfer is opened");
            Ok("transfer")
        })?;
        ch.evals(4);
        ch.outcome(&(kind, len, slots));
        Ok(())
    });

    let n = ctx.b(6, 8);
    ctx.explore("content we lack", |ch| {
        // Each node is absent, small, large, huge or disconnected.
        let faces: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
        let requester = ch.pick(3);
        let count = run(|| async move {
            let w = World::new(Setup::default()).await;
            let k = key(true);
            let mut here: Vec<Enr> = vec![];
            let mut lost = vec![];
            for (i, face) in faces.iter().enumerate() {
                let pad = [0, 0, 60 + i, 0][*face];
                let enr = dressed(30 + i as u16, Look { seq: 1, pad, versions: None });
                match face {
                    0 => continue,
                    3 => lost.push(enr.clone()),
                    _ => here.push(enr.clone()),
                }
                w.connect(&enr);
            }
            for enr in &lost {
                lose(&w, enr).await;
            }
            let from = match requester {
                0 => id(30),
                1 => {
                    w.session(&record(50, 1));
                    id(50)
                }
                _ => id(51),
            };
            let got = w.ask(from, find(&k)).await;
            here.retain(|e| e.node_id() != from);
            here.sort_by_key(|e| xor(&k.id, &e.node_id().raw()));
            let Ok(r @ Response::Content(Content::Enrs(enrs))) = &got else {
                fail!("content we lack is answered with {got:?}");
            };
            check!(size(r) <= PACKET, "the answer takes {} bytes", size(r));
            let named: Vec<&Enr> = enrs.iter().map(|e| &e.0).collect();
            check!(named.len() <= here.len(), "more peers than known: {named:?}");
            for e in &here[..named.len()] {
                check!(named.contains(&e), "a closer peer is left out: {named:?}, known {here:?}");
            }
            if named.len() < here.len() {
                let mut more = enrs.clone();
                more.push(ethportal_api::types::enr::SszEnr(here[named.len()].clone()));
                let wider = size(&Response::Content(Content::Enrs(more)));
                check!(wider > PACKET - 4, "a peer is left out of an answer with room: {wider} bytes with it");
            }
            settle().await;
            check!(w.take_open().is_none(), "a transfer is opened without content");
            Ok((named.len(), here.len()))
        })?;
        ch.evals(4);
        ch.outcome(&count);
        Ok(())
    });

    ctx.explore("content not affected by radius", |ch| {
        let held = ch.flag();
        let peers_known = ch.flag();
        run(|| async move {
            let w = World::new(Setup::default()).await;
            let k = key(false);
            if held {
                w.store(|s| s.held.insert(k.clone(), content(&k, 1, 40)));
            }
            if peers_known {
                w.connect(&record(30, 1));
            }
            match w.ask(id(20), find(&k)).await {
                Ok(Response::Content(Content::Content(c))) if held => {
                    check!(c[..] == content(&k, 1, 40)[..], "wrong content")
                }
                Ok(Response::Content(Content::Enrs(e))) if !held => {
                    check!(e.is_empty(), "peers are named although none is closer: {e:?}")
                }
                other => fail!("answered with {other:?}"),
            }
            Ok(())
        })
    });

    let short = ctx.b(3, 4);
    ctx.explore("malformed keys", |ch| {
        let len = ch.pick(40);
        let first = ch.pick(4) as u8;
        if len == 33 && first < 2 {
            return Ok(());
        }
        let r = run(|| async move {
            let w = World::new(Setup::default()).await;
            w.connect(&record(30, 1));
            let mut b = vec![0x11; len];
            if len > 0 {
                b[0] = first;
            }
            let r = w
                .ask(id(20), Request::FindContent(FindContent { content_key: RawContentKey::from(b) }))
                .await;
            match r {
                Err(_) => Ok("error"),
                Ok(Response::Content(Content::Enrs(e))) if e.is_empty() => Ok("empty"),
                other => Err(format!("a malformed key is answered with {other:?}")),
            }
        })?;
        ch.evals(1);
        ch.outcome(&r);
        Ok(())
    });
    ctx.explore("malformed messages", |ch| {
        let len = ch.pick(short + 1);
        let bytes: Vec<u8> = (0..len)
            .map(|i| if i == 0 { *ch.choose(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 255]) } else { *ch.choose(&[0, 1, 4, 8, 12, 255]) })
            .collect();
        let r = run(|| async move {
            let w = World::new(Setup::default()).await;
            w.session(&record(20, 1));
            let r = w.ask_raw(id(20), bytes.clone()).await;
            // The service still answers.
            let k = key(true);
            check!(w.ask(id(20), find(&k)).await.is_ok(), "no answer after {bytes:?}");
            Ok(r.is_ok())
        })?;
        ch.evals(1);
        ch.outcome(&r);
        Ok(())
    });
}

pub fn o05(ctx: &Ctx) {
    let per = 2;
    let far = &[256u16, 255, 254][..ctx.b(2, 3)];
    ctx.explore("distances", |ch| {
        // Which nodes are there, and how large or connected they are.
        let faces: Vec<usize> = (0..far.len() * per).map(|_| ch.pick(4)).collect();
        let wanted = ch.subset(5);
        let requester = ch.pick(3);
        distances(ch, far.to_vec(), per, faces, wanted, requester)
    });
    let max = ctx.b(3, 4);
    ctx.explore("orders and repetitions", |ch| {
        let len = ch.pick(max + 1);
        let list: Vec<u16> = (0..len).map(|_| *ch.choose(&[0, 1, 254, 255, 256, 257, 65535])).collect();
        let from = *ch.choose(&[20u16, 0]);
        let n = run(|| async move {
            let w = World::new(Setup::default()).await;
            let all: Vec<u16> = [256, 255, 254].iter().flat_map(|d| at_distance(*d, 2)).collect();
            for k in &all {
                w.connect(&record(*k, 1));
            }
            let from = if from == 0 { id(all[0]) } else { id(from) };
            nodes(&w, &all.iter().map(|k| record(*k, 1)).collect::<Vec<_>>(), from, &list).await
        })?;
        ch.evals(4);
        ch.outcome(&n);
        Ok(())
    });
    ctx.explore("full buckets", |ch| {
        let full = ch.subset(3);
        let pad = ch.pick(3) * 70;
        let wanted = ch.subset(4);
        let n = run(|| async move {
            let w = World::new(Setup::default()).await;
            let mut all = vec![];
            for (i, d) in [256u16, 255, 254].iter().enumerate() {
                for k in at_distance(*d, if full >> i & 1 == 1 { 16 } else { 3 }) {
                    let enr = dressed(k, Look { seq: 1, pad, versions: None });
                    w.connect(&enr);
                    all.push(enr);
                }
            }
            let list: Vec<u16> = [256, 255, 254, 0]
                .iter()
                .enumerate()
                .filter(|(i, _)| wanted >> i & 1 == 1)
                .map(|(_, d)| *d)
                .collect();
            nodes(&w, &all, id(20), &list).await
        })?;
        ch.evals(4);
        ch.outcome(&n);
        Ok(())
    });
}

/// Asks for the nodes at these distances and compares with the connected ones.
async fn nodes(w: &World, connected: &[Enr], from: NodeId, list: &[u16]) -> Result<(usize, usize), String> {
    let got = w.ask(from, Request::FindNodes(FindNodes { distances: list.to_vec() })).await;
    let Ok(r @ Response::Nodes(reply)) = &got else { fail!("answered with {got:?}") };
    check!(size(r) <= PACKET, "the answer takes {} bytes", size(r));
    check_eq!(reply.total, 1, "number of messages announced");
    let mut left: Vec<Enr> = connected
        .iter()
        .filter(|e| list.contains(&log_distance(&w.me.raw(), &e.node_id().raw())))
        .filter(|e| e.node_id() != from)
        .cloned()
        .collect();
    if list.contains(&0) && from != w.me {
        left.push(w.overlay.local_enr());
    }
    let all = left.len();
    for e in &reply.enrs {
        let Some(at) = left.iter().position(|x| *x == e.0) else {
            fail!("node {} at distance {} is not asked for, not connected, the asker or named twice", e.node_id(), log_distance(&w.me.raw(), &e.node_id().raw()));
        };
        left.swap_remove(at);
    }
    if !left.is_empty() && reply.enrs.len() < 32 {
        let fits = left.iter().all(|e| {
            let mut more = reply.clone();
            more.enrs.push(ethportal_api::types::enr::SszEnr(e.clone()));
            size(&Response::Nodes(more)) <= PACKET
        });
        check!(!fits, "{} nodes are left out although there is room", left.len());
    }
    Ok((reply.enrs.len(), all))
}

fn distances(ch: &mut vc::Ch, far: Vec<u16>, per: usize, faces: Vec<usize>, wanted: u32, requester: usize) -> Res {
    let n = run(|| async move {
        let w = World::new(Setup::default()).await;
        let mut here = vec![];
        let mut lost = vec![];
        let mut i = 0;
        for d in &far {
            for k in at_distance(*d, per) {
                let face = faces[i];
                i += 1;
                let enr = dressed(k, Look { seq: 1, pad: if face == 2 { 100 + i } else { 0 }, versions: None });
                match face {
                    0 => continue,
                    3 => lost.push(enr.clone()),
                    _ => here.push(enr.clone()),
                }
                w.connect(&enr);
            }
        }
        for enr in &lost {
            lose(&w, enr).await;
        }
        let from = match requester {
            0 => id(at_distance(far[0], 1)[0]),
            1 => {
                // A node with a session enters the table by asking.
                let k = at_distance(far[0], per + 1)[per];
                w.session(&record(k, 1));
                id(k)
            }
            _ => id(3999),
        };
        let list: Vec<u16> = [256, 255, 254, 253, 0]
            .iter()
            .enumerate()
            .filter(|(i, _)| wanted >> i & 1 == 1)
            .map(|(_, d)| *d)
            .collect();
        nodes(&w, &here, from, &list).await
    })?;
    ch.evals(4);
    ch.outcome(&n);
    Ok(())
}
