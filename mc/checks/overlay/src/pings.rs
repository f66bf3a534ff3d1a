//! O09: pings, pongs and what they change.

use discv5::enr::NodeId;
use ethportal_api::types::{
    enr::SszEnr,
    ping_extensions::{decode::PingExtension, extension_types::PingExtensionType},
    portal_wire::{CustomPayload, Nodes, Ping, Pong, Request, Response},
};
use portalnet::overlay::config::OverlayConfig;
use std::time::Duration;
use vc::{check, check_eq, fail, Ctx};

use crate::{
    peers::{id, record, xor, TestKey},
    world::*,
};

const SUPPORTED: [PingExtensionType; 3] = [
    PingExtensionType::Capabilities,
    PingExtensionType::BasicRadius,
    PingExtensionType::HistoryRadius,
];

/// Little-endian bytes of the radius reaching this log distance.
fn radius(d: u16) -> Vec<u8> {
    let mut b = [0u8; 32];
    for i in 0..d as usize {
        b[i / 8] |= 1 << (i % 8);
    }
    b.to_vec()
}

fn capabilities(info: &[u8], d: u16, list: &[u16]) -> Vec<u8> {
    let mut out = 40u32.to_le_bytes().to_vec();
    out.extend(radius(d));
    out.extend((40 + info.len() as u32).to_le_bytes());
    out.extend_from_slice(info);
    for c in list {
        out.extend(c.to_le_bytes());
    }
    out
}

fn history(d: u16, count: u16) -> Vec<u8> {
    let mut out = radius(d);
    out.extend(count.to_le_bytes());
    out
}

/// What a peer says about itself: type, payload, and what we know of it afterwards.
#[derive(Clone)]
struct Word {
    kind: u16,
    payload: Vec<u8>,
    radius: Option<u16>,
    list: Option<Vec<u16>>,
}

fn words(all: bool) -> Vec<Word> {
    let mut out = vec![];
    let mut add = |kind, payload, radius, list: Option<&[u16]>| {
        out.push(Word { kind, payload, radius, list: list.map(|l| l.to_vec()) })
    };
    add(0, capabilities(b"", 100, &[0, 1]), Some(100), Some(&[0, 1]));
    add(0, capabilities(b"", 200, &[0]), Some(200), Some(&[0]));
    add(0, capabilities(b"trin/0.1.1-2b00d730/linux-x86_64/rustc1.81.0", 100, &[2, 0, 1]), Some(100), Some(&[2, 0, 1]));
    add(1, radius(100), Some(100), None);
    add(1, radius(200), Some(200), None);
    add(2, history(0, 7), Some(0), None);
    // Nothing to be learnt from these.
    add(0, capabilities(b"", 100, &[0, 1])[..43].to_vec(), None, None);
    add(1, radius(100)[..31].to_vec(), None, None);
    add(2, radius(100), None, None);
    add(65535, vec![1, 0, 6, 0, 0, 0], None, None);
    add(7, radius(100), None, None);
    if all {
        add(0, capabilities(b"\xff", 0, &[0]), None, None);
        add(0, capabilities(b"", 0, &[0, 1])[..39].to_vec(), None, None);
        add(0, capabilities(b"", 256, &[]), Some(256), Some(&[]));
        add(1, history(100, 0), None, None);
        add(1, vec![], None, None);
        add(2, vec![0; 35], None, None);
        add(2, history(200, 65535), Some(200), None);
        add(65535, vec![], None, None);
        add(65534, radius(0), None, None);
    }
    out
}

#[derive(Clone)]
enum Op {
    Ping(Word, u64),
    Pong(Word, u64),
    /// A ping of a node that is not in the table.
    Stranger(Word),
    OurRadius(u16),
}

/// A key at this log distance from a node.
fn at(node: NodeId, d: u16) -> TestKey {
    let mut mask = [0u8; 32];
    mask[31 - (d as usize - 1) / 8] |= 1 << ((d - 1) % 8);
    TestKey { id: xor(&node.raw(), &mask), radius: true }
}

async fn reply(w: &World, from: NodeId, word: &Word, seq: u64, ours: u16) -> Result<(), String> {
    let got = w
        .ask(
            from,
            Request::Ping(Ping {
                enr_seq: seq,
                payload_type: PingExtensionType::from(word.kind),
                payload: CustomPayload::from(word.payload.clone()),
            }),
        )
        .await;
    let Ok(Response::Pong(pong)) = got else { fail!("a ping is answered with {got:?}") };
    check_eq!(pong.enr_seq, w.overlay.local_enr().seq(), "sequence number in the pong");
    let kind = u16::from(pong.payload_type);
    let bytes = pong.payload.payload.to_vec();
    match word.kind {
        0 => {
            check_eq!(kind, 0, "type of the answer to a ping of type 0");
            let got = PingExtension::decode_ssz(PingExtensionType::Capabilities, pong.payload);
            let Ok(PingExtension::Capabilities(c)) = got else { fail!("undecodable pong {bytes:?}") };
            check_eq!(c.data_radius, reach(ours), "radius in the answer to a ping of type 0");
            check_eq!(c.capabilities.to_vec(), SUPPORTED.to_vec(), "extensions announced");
        }
        1 => {
            check_eq!(kind, 1, "type of the answer to a ping of type 1");
            check_eq!(bytes, radius(ours), "payload of the answer to a ping of type 1");
        }
        2 => {
            check_eq!(kind, 2, "type of the answer to a ping of type 2");
            check_eq!(bytes, history(ours, 0), "payload of the answer to a ping of type 2");
        }
        other => {
            check_eq!(kind, 65535, "type of the answer to an unsupported ping of type {other}");
            check_eq!(bytes[..2], [0, 0], "error code of the answer to an unsupported ping of type {other}");
        }
    }
    Ok(())
}

/// The extension with which we ping a peer that told us this list.
fn ours(list: &Option<Vec<u16>>) -> u16 {
    match list {
        None => 0,
        Some(l) if l.contains(&2) => 2,
        Some(l) if l.contains(&1) => 1,
        Some(_) => 0,
    }
}

async fn history_of(ops: Vec<Op>, answer_record: bool) -> Result<(u16, u16, u64), String> {
    let w = World::new(Setup {
        config: OverlayConfig {
            disable_poke: true,
            ping_queue_interval: Some(Duration::from_secs(20)),
            ..Default::default()
        },
        ping: SUPPORTED.to_vec(),
        reach: 256,
    })
    .await;
    let peer = record(40, 1);
    let p = peer.node_id();
    w.session(&peer);
    // The peer enters the table.
    let hello = Word { kind: 1, payload: vec![], radius: None, list: None };
    reply(&w, p, &hello, 0, 256).await?;
    settle().await;
    check!(w.take_talk().is_none(), "a first ping makes us send something");
    let mut known = (256u16, None::<Vec<u16>>, 1u64);
    let mut our_radius = 256;
    for op in &ops {
        let mut asked_for = None;
        match op {
            Op::Ping(word, seq) => {
                reply(&w, p, word, *seq, our_radius).await?;
                asked_for = Some(*seq > known.2);
                if let Some(r) = word.radius {
                    known.0 = r;
                }
                if let Some(l) = &word.list {
                    known.1 = Some(l.clone());
                }
            }
            Op::Pong(word, seq) => {
                let overlay = w.overlay.clone();
                let to = peer.clone();
                let sent = tokio::spawn(async move {
                    overlay.send_ping(to, Some(PingExtensionType::BasicRadius), None).await
                });
                settle().await;
                let Some(talk) = w.take_talk() else { fail!("no ping is sent") };
                let Request::Ping(ping) = &talk.request else { fail!("not a ping: {:?}", talk.request) };
                check_eq!(ping.payload.payload.to_vec(), radius(our_radius), "radius in our ping");
                check_eq!(ping.enr_seq, w.overlay.local_enr().seq(), "sequence number in our ping");
                let pong = Pong {
                    enr_seq: *seq,
                    payload_type: PingExtensionType::from(word.kind),
                    payload: CustomPayload::from(word.payload.clone()),
                };
                talk.answer(Response::Pong(pong.clone()));
                settle().await;
                match sent.await.expect("ping") {
                    Ok(got) => check_eq!(got, pong, "pong reported"),
                    Err(e) => fail!("the ping is answered but reported as {e}"),
                }
                asked_for = Some(*seq > known.2);
                if let Some(r) = word.radius {
                    known.0 = r;
                }
                if let Some(l) = &word.list {
                    known.1 = Some(l.clone());
                }
            }
            Op::Stranger(word) => reply(&w, id(41), word, 9, our_radius).await?,
            Op::OurRadius(d) => {
                our_radius = *d;
                w.store(|s| s.radius = reach(*d));
            }
        }
        settle().await;
        match (w.take_talk(), asked_for.unwrap_or(false)) {
            (None, false) => {}
            (None, true) => fail!("a newer sequence number is announced and the record is not asked for"),
            (Some(t), false) => fail!("without reason we send {:?} to {}", t.request, t.to),
            (Some(t), true) => {
                let Request::FindNodes(f) = &t.request else { fail!("not a request for the record: {:?}", t.request) };
                check_eq!(f.distances, vec![0], "distances asked for");
                check_eq!(t.to, p, "node asked for its record");
                if answer_record {
                    t.answer(Response::Nodes(Nodes { total: 1, enrs: vec![SszEnr(record(40, 3))] }));
                    settle().await;
                    known.2 = 3;
                    check_eq!(w.overlay.get_enr(p).map(|e| e.seq()).unwrap_or(0), 3, "sequence number of the record kept");
                } else {
                    std::mem::forget(t);
                }
            }
        }
        check!(w.take_talk().is_none(), "more than one message is sent");
    }
    // What is known of the peer shows in what we offer it and how we ping it.
    for d in [1u16, 90, 100, 101, 190, 200, 201, 256] {
        let key = at(p, d);
        let sent = w.overlay.propagate_put_content(key.clone(), content(&key, 1, 40).into());
        check_eq!(sent.peer_count, (d <= known.0) as u32, "content at distance {d} offered to a peer of radius {}", known.0);
    }
    settle().await;
    w.talks.borrow_mut().drain(..).for_each(std::mem::forget);
    vc::clock::advance_ms(20_500);
    settle().await;
    let mut pings = vec![];
    while let Some(t) = w.take_talk() {
        if let Request::Ping(ping) = &t.request {
            check_eq!(t.to, p, "node pinged");
            pings.push(u16::from(ping.payload_type));
        }
        std::mem::forget(t);
    }
    check_eq!(pings, vec![ours(&known.1)], "pings sent after the interval to a peer that told {:?}", known.1);
    Ok((known.0, ours(&known.1), known.2))
}

fn explore(ctx: &Ctx, space: &str, max: usize, all: bool) {
    let words = words(all);
    ctx.explore(space, |ch| {
        let n = 1 + ch.pick(max);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(match ch.pick(4) {
                0 => Op::Ping(ch.choose(&words).clone(), *ch.choose(&[1, 2])),
                1 => Op::Pong(ch.choose(&words).clone(), *ch.choose(&[1, 2])),
                2 => Op::Stranger(ch.choose(&words).clone()),
                _ => Op::OurRadius(*ch.choose(&[0, 150])),
            });
        }
        let answer = ch.flag();
        let s = run(|| history_of(ops, answer))?;
        ch.evals(10 * n as u64);
        ch.state(&s);
        ch.outcome(&s);
        Ok(())
    });
}

pub fn o09(ctx: &Ctx) {
    explore(ctx, "every payload", ctx.b(1, 2), true);
    explore(ctx, "histories", ctx.b(2, 3), false);
}
