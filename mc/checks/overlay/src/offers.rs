//! O02, O08: answering offers, and what becomes of the content received through them.

use std::collections::{BTreeMap, BTreeSet};

use discv5::{enr::NodeId, Enr};
use ethportal_api::{
    types::portal_wire::{
        Accept, Content, FindContent, Offer, Pong, Request, Response,
    },
    OverlayContentKey, RawContentKey,
};
use portalnet::overlay::config::OverlayConfig;
use utp_rs::fake::Side;
use vc::{check, check_eq, fail, Ch, Ctx};

use crate::{
    answers::{payload, speaking, VERSIONS},
    peers::{id, secret, xor, TestKey},
    world::*,
};

pub const ACCEPTED: u8 = 0;
pub const DECLINED: u8 = 1;
pub const STORED: u8 = 2;
pub const FAR: u8 = 3;
pub const LIMITED: u8 = 4;
pub const BUSY: u8 = 5;

/// Key number `n` at log distance `d` from us.
pub fn near(n: u8, d: u16, radius: bool) -> TestKey {
    let mut mask = [0u8; 32];
    mask[31 - (d as usize - 1) / 8] |= 1 << ((d - 1) % 8);
    mask[31] ^= n;
    TestKey { id: xor(&secret(1), &mask), radius }
}

pub fn value(k: &TestKey) -> Vec<u8> {
    content(k, 1, 40 + k.id[31] as usize % 3)
}

/// The codes of an answer in the encoding of a version: version 0 only tells accepted from
/// declined.
pub fn codes(a: &Accept, version: u8) -> Result<Vec<u8>, String> {
    let b = a.content_keys.to_vec();
    if version == 1 {
        return Ok(b);
    }
    let Some(last) = b.last().filter(|l| **l != 0) else { return Err(format!("not a bit list: {b:?}")) };
    let bits = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
    Ok((0..bits).map(|i| if b[i / 8] >> (i % 8) & 1 == 1 { ACCEPTED } else { DECLINED }).collect())
}

/// The answer of a version to an offer.
pub fn accept(version: u8, connection: u16, list: &[u8]) -> Accept {
    let bytes = if version == 1 {
        list.to_vec()
    } else {
        let mut b = vec![0u8; list.len() / 8 + 1];
        for (i, c) in list.iter().enumerate() {
            if *c == ACCEPTED {
                b[i / 8] |= 1 << (i % 8);
            }
        }
        b[list.len() / 8] |= 1 << (list.len() % 8);
        b
    };
    Accept { connection_id: connection.to_be(), content_keys: bytes.into() }
}

pub fn offer(keys: &[TestKey]) -> Request {
    Request::Offer(Offer { content_keys: keys.iter().map(|k| k.to_bytes()).collect() })
}

/// What the code of a key looks like in a version.
fn seen(version: u8, code: u8) -> u8 {
    if version == 1 || code == ACCEPTED {
        code
    } else {
        DECLINED
    }
}

fn setup(limit: usize) -> Setup {
    Setup {
        config: OverlayConfig { utp_transfer_limit: limit, disable_poke: true, ..Default::default() },
        reach: 255,
        ..Default::default()
    }
}

pub fn o02(ctx: &Ctx) {
    let max = ctx.b(3, 4);
    ctx.explore("one offer", |ch| {
        let len = ch.pick(max + 1);
        let list: Vec<usize> = (0..len).map(|_| ch.pick(6)).collect();
        let (versions, common) = *ch.choose(&VERSIONS);
        let known = ch.flag();
        let before = ch.pick(3);
        let broken = ch.flag();
        let kind = run(|| async move {
            let w = World::new(setup(if before == 1 { 2 } else { 1 })).await;
            let source = speaking(20, versions);
            if known {
                w.session(&source);
            }
            let other = speaking(21, None);
            w.session(&other);
            let wanted = near(1, 200, true);
            let second = near(2, 201, true);
            let far = near(3, 256, true);
            let held = near(4, 202, true);
            let free = near(5, 256, false);
            w.store(|s| s.held.insert(held.clone(), value(&held)));
            // Before: nothing, one key is being received, or all slots are in use.
            if before > 0 {
                let r = w.ask(other.node_id(), offer(&[wanted.clone()])).await;
                check!(r.is_ok(), "a first offer is answered with {r:?}");
                settle().await;
                let Some(open) = w.take_open() else { fail!("a first offer opens no transfer") };
                std::mem::forget(open.connect(None, Ok(())));
                settle().await;
            }
            w.store(|s| s.broken = broken);
            let raw: Vec<RawContentKey> = list
                .iter()
                .map(|i| match i {
                    0 => wanted.to_bytes(),
                    1 => second.to_bytes(),
                    2 => far.to_bytes(),
                    3 => held.to_bytes(),
                    4 => free.to_bytes(),
                    _ => RawContentKey::from(vec![9u8; 5]),
                })
                .collect();
            let got = w.ask(source.node_id(), Request::Offer(Offer { content_keys: raw })).await;
            settle().await;
            let opened = w.take_open();
            check!(w.take_open().is_none(), "two transfers are opened");
            let Some(version) = common.filter(|_| known) else {
                check!(got.is_err(), "an offer of a peer of unknown record or version is answered with {got:?}");
                check!(opened.is_none(), "a transfer is opened for a peer of unknown record or version");
                return Ok("unknown");
            };
            let full = before == 2;
            if list.contains(&5) || (broken && !list.is_empty()) {
                match &got {
                    Err(_) => {}
                    Ok(Response::Accept(a)) if full => {
                        let c = codes(a, version)?;
                        check!(c.iter().all(|c| *c == seen(version, LIMITED)), "codes {c:?} without a free slot");
                    }
                    other => fail!("an offer with a malformed key, or with failing storage, is answered with {other:?}"),
                }
                check!(opened.is_none(), "a transfer is opened for an offer that cannot be judged");
                return Ok("error");
            }
            let Ok(Response::Accept(a)) = &got else { fail!("an offer is answered with {got:?}") };
            let mut taken: BTreeSet<usize> = BTreeSet::new();
            if before == 1 {
                taken.insert(0);
            }
            let want: Vec<u8> = list
                .iter()
                .map(|i| match i {
                    _ if full => LIMITED,
                    2 => FAR,
                    3 => STORED,
                    i if taken.insert(*i) => ACCEPTED,
                    _ => BUSY,
                })
                .collect();
            let got = codes(a, version)?;
            let told: Vec<u8> = want.iter().map(|c| seen(version, *c)).collect();
            check_eq!(got, told, "codes for {list:?}");
            let accepted: Vec<&TestKey> = list
                .iter()
                .zip(&want)
                .filter(|(_, c)| **c == ACCEPTED)
                .map(|(i, _)| [&wanted, &second, &far, &held, &free][*i])
                .collect();
            if accepted.is_empty() {
                check_eq!(a.connection_id, 0, "connection id of a declined offer");
                check!(opened.is_none(), "nothing is accepted and a transfer is opened");
                return Ok("declined");
            }
            let Some(open) = opened else { fail!("keys are accepted and no transfer is opened") };
            check_eq!(open.side, Side::Accept, "side of the transfer");
            check_eq!(open.peer, source.node_id(), "peer of the transfer");
            check_eq!(open.send, u16::from_be(a.connection_id), "connection id announced");
            check_eq!(open.recv, open.send.wrapping_add(1), "connection id expected");
            open.deliver(payload(&accepted.iter().map(|k| value(k)).collect::<Vec<_>>()));
            settle().await;
            for k in &accepted {
                check!(w.store(|s| s.held.get(*k).cloned()) == Some(value(k)), "an accepted item is not stored");
            }
            check_eq!(w.store(|s| s.puts.len()), accepted.len(), "items stored");
            Ok("accepted")
        })?;
        ch.evals(4);
        ch.outcome(&kind);
        Ok(())
    });

    let steps = ctx.b(4, 5);
    ctx.explore("histories", |ch| {
        let limit = 1 + ch.pick(2);
        let version = ch.pick(2) as u8;
        let n = 1 + ch.pick(steps);
        let s = run(|| history(ch, limit, version, n))?;
        ch.evals(n as u64);
        ch.outcome(&s);
        Ok(())
    });
}

/// Offers by two peers, ends of transfers and time.
async fn history(ch: &mut Ch, limit: usize, version: u8, n: usize) -> Result<Vec<u8>, String> {
    let w = World::new(setup(limit)).await;
    let peers: Vec<Enr> = [20, 21].iter().map(|k| speaking(*k, Some(&[version]))).collect();
    for p in &peers {
        w.session(p);
    }
    let keys = [near(1, 200, true), near(2, 201, true)];
    let lists: [&[usize]; 4] = [&[0], &[1], &[0, 1], &[1, 0, 1]];
    // Keys being received, keys stored; transfers not yet connected and transfers stalled.
    let mut busy: BTreeMap<usize, u64> = BTreeMap::new();
    let mut held: BTreeSet<usize> = BTreeSet::new();
    let mut rivals: BTreeMap<usize, BTreeSet<NodeId>> = BTreeMap::new();
    let mut waiting: Vec<(Vec<usize>, usize, Open)> = vec![];
    let mut stalled = vec![];
    let mut now = 0u64;
    let mut last = vec![];
    for _ in 0..n {
        match ch.pick(7) {
            i @ 0..=3 => {
                let p = ch.pick(2);
                let list = lists[i];
                let got = w.ask(peers[p].node_id(), offer(&list.iter().map(|k| keys[*k].clone()).collect::<Vec<_>>())).await;
                settle().await;
                let Ok(Response::Accept(a)) = &got else { fail!("an offer is answered with {got:?}") };
                let got = codes(a, version)?;
                let mut accepted = vec![];
                let full = waiting.len() + stalled.len() >= limit;
                let want: Vec<u8> = list
                    .iter()
                    .map(|k| {
                        if full {
                            LIMITED
                        } else if held.contains(k) {
                            STORED
                        } else if busy.contains_key(k) {
                            rivals.entry(*k).or_default().insert(peers[p].node_id());
                            BUSY
                        } else {
                            busy.insert(*k, now);
                            accepted.push(*k);
                            rivals.remove(k);
                            ACCEPTED
                        }
                    })
                    .collect();
                check_eq!(got, want.iter().map(|c| seen(version, *c)).collect::<Vec<_>>(), "codes for {list:?}");
                last = want;
                match (w.take_open(), accepted.is_empty()) {
                    (None, true) => {}
                    (Some(open), false) => {
                        // Offers of the peer the content comes from give no alternative to it.
                        for k in &accepted {
                            rivals.remove(k);
                        }
                        check_eq!(open.send, u16::from_be(a.connection_id), "connection id announced");
                        waiting.push((accepted, p, open));
                    }
                    (o, _) => fail!("accepted {accepted:?}, transfer opened: {}", o.is_some()),
                }
                check!(w.take_open().is_none(), "two transfers are opened");
            }
            4 if !waiting.is_empty() => {
                let (list, _, open) = waiting.remove(0);
                open.deliver(payload(&list.iter().map(|k| value(&keys[*k])).collect::<Vec<_>>()));
                settle().await;
                for k in list {
                    busy.remove(&k);
                    held.insert(k);
                }
                // The content is passed on; nobody wants it.
                while let Some(t) = w.take_talk() {
                    check!(matches!(t.request, Request::Offer(_)), "unexpected request {:?}", t.request);
                    t.fail();
                }
                settle().await;
            }
            5 if !waiting.is_empty() => {
                let (list, p, open) = waiting.remove(0);
                if ch.flag() {
                    open.refuse();
                    settle().await;
                    let mut asked = BTreeSet::new();
                    while let Some(t) = w.take_talk() {
                        let Request::FindContent(FindContent { content_key }) = &t.request else {
                            fail!("unexpected request {:?}", t.request);
                        };
                        let k = keys.iter().position(|k| k.to_bytes() == *content_key);
                        let Some(k) = k else { fail!("unknown key asked for") };
                        check!(list.contains(&k), "a key is asked for that was not lost");
                        asked.insert((k, t.to));
                        t.fail();
                        settle().await;
                    }
                    for k in &list {
                        let mut others = rivals.remove(k).unwrap_or_default();
                        others.remove(&peers[p].node_id());
                        let want: BTreeSet<_> = others.into_iter().map(|o| (*k, o)).collect();
                        let got: BTreeSet<_> = asked.iter().filter(|(a, _)| a == k).copied().collect();
                        check_eq!(got, want, "peers asked for key {k} after its transfer failed");
                        busy.remove(k);
                    }
                } else {
                    stalled.push(open.connect(None, Ok(())));
                    settle().await;
                }
            }
            6 if waiting.is_empty() => {
                vc::clock::advance_ms(125_000);
                settle().await;
                now += 125;
                busy.retain(|_, at| now - *at < 120);
                // Peers are looked for and pinged meanwhile.
                w.talks.borrow_mut().clear();
                settle().await;
            }
            _ => return Ok(vec![]),
        }
    }
    Ok(last)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Arrives {
    Refused,
    Broken,
    /// Cut short by one byte.
    Cut,
    Fewer,
    More,
    Swapped,
    Items,
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Help {
    Silent,
    Good,
    Bad,
    OnlyValid,
    Peers,
    WrongMessage,
    Transfer,
    TransferBad,
    TransferRefused,
    TransferCut,
}

const HELP: [Help; 10] = [
    Help::Silent,
    Help::Good,
    Help::Bad,
    Help::OnlyValid,
    Help::Peers,
    Help::WrongMessage,
    Help::Transfer,
    Help::TransferBad,
    Help::TransferRefused,
    Help::TransferCut,
];

pub fn o08(ctx: &Ctx) {
    let max = ctx.b(3, 4);
    ctx.explore("received content", |ch| {
        let n = 1 + ch.pick(max);
        let free = ch.pick(2) == 1;
        let both = ch.subset(n);
        let version = ch.pick(2) as u8;
        let arrives = *ch.choose(&[
            Arrives::Refused,
            Arrives::Broken,
            Arrives::Cut,
            Arrives::Fewer,
            Arrives::More,
            Arrives::Swapped,
            Arrives::Items,
        ]);
        if arrives == Arrives::Swapped && n < 2 {
            return Ok(());
        }
        let kinds: Vec<u8> = if arrives == Arrives::Items {
            (0..n).map(|_| *ch.choose(&[1, 0, 2])).collect()
        } else {
            vec![1; n]
        };
        let s = run(|| received(ch, n, free, both, version, arrives, kinds))?;
        ch.evals(6);
        ch.outcome(&s);
        Ok(())
    });
    ctx.explore("content pushed out", |ch| {
        let gossip = ch.flag();
        let room = ch.pick(3);
        let good = ch.flag();
        let s = run(|| async move {
            let mut s = setup(50);
            s.config.gossip_dropped = gossip;
            let w = World::new(s).await;
            let p = speaking(20, Some(&[1]));
            w.session(&p);
            let old = [near(8, 100, true), near(9, 101, true)];
            for k in &old {
                w.store(|s| s.held.insert(k.clone(), value(k)));
            }
            w.store(|s| s.room = 1 + room);
            let k = near(1, 200, true);
            let r = w.ask(p.node_id(), offer(&[k.clone()])).await;
            check!(r.is_ok(), "answered with {r:?}");
            settle().await;
            let Some(open) = w.take_open() else { fail!("no transfer is opened") };
            open.deliver(payload(&[content(&k, good as u8, 40)]));
            settle().await;
            let passed = passed_on(&w).await?;
            let gone: Vec<TestKey> = old.iter().filter(|o| w.store(|s| !s.held.contains_key(*o))).cloned().collect();
            let mut want: BTreeSet<TestKey> = BTreeSet::new();
            if good {
                want.insert(k);
                if gossip {
                    want.extend(gone.iter().cloned());
                }
            }
            check_eq!(passed, want, "content passed on (room for {})", 1 + room);
            Ok((passed.len(), gone.len()))
        })?;
        ch.evals(1);
        ch.outcome(&s);
        Ok(())
    });
}

/// Accepts everything that is offered to other peers, checks the items and returns their keys.
pub async fn passed_on(w: &World) -> Result<BTreeSet<TestKey>, String> {
    let mut keys = BTreeSet::new();
    while let Some(t) = w.take_talk() {
        let Request::Offer(o) = &t.request else { fail!("unexpected request {:?}", t.request) };
        let offered: Vec<TestKey> = o
            .content_keys
            .iter()
            .map(|k| TestKey::try_from_bytes(k).map_err(|e| format!("bad key offered: {e:?}")))
            .collect::<Result<_, _>>()?;
        let version = if t.enr.get_decodable::<discv5_bytes::Raw>("pv").is_some() { versions_of(&t.enr) } else { 0 };
        let n = offered.len();
        let to = t.to;
        t.answer(Response::Accept(accept(version, 777, &vec![ACCEPTED; n])));
        settle().await;
        let Some(open) = w.take_open() else { fail!("an accepted offer opens no transfer") };
        check_eq!(open.side, Side::Connect, "side of the transfer");
        check_eq!(open.peer, to, "peer of the transfer");
        check_eq!((open.recv, open.send), (777, 778), "connection ids of the transfer");
        let sent = open.take().await;
        let mut rest = &sent[..];
        for k in &offered {
            let len = rest.first().copied().unwrap_or(0) as usize;
            check!(len >= 33 && len < 0x80 && rest.len() > len, "cut payload passed on");
            let item = &rest[1..1 + len];
            check!(item[..32] == k.id && item[32] == 1, "invalid content is passed on: {item:?}");
            rest = &rest[1 + len..];
        }
        check!(rest.is_empty(), "more content than keys is passed on");
        keys.extend(offered);
    }
    Ok(keys)
}

/// Reading the versions entry without the code under test.
mod discv5_bytes {
    pub struct Raw;
    impl alloy::rlp::Decodable for Raw {
        fn decode(buf: &mut &[u8]) -> alloy::rlp::Result<Self> {
            let h = alloy::rlp::Header::decode(buf)?;
            *buf = &buf[h.payload_length..];
            Ok(Raw)
        }
    }
}

/// The version in common with a node made by `speaking`.
pub fn versions_of(enr: &Enr) -> u8 {
    for (v, common) in VERSIONS {
        if (0..60u16).any(|k| id(k) == enr.node_id() && speaking(k, v) == *enr) {
            return common.unwrap_or(0);
        }
    }
    0
}

async fn received(
    ch: &mut Ch,
    n: usize,
    free: bool,
    both: u32,
    version: u8,
    arrives: Arrives,
    kinds: Vec<u8>,
) -> Result<(usize, usize, usize), String> {
    let w = World::new(setup(50)).await;
    let a = speaking(20, Some(&[1]));
    let b = speaking(21, Some(&[version]));
    let c = speaking(22, Some(&[1]));
    for p in [&a, &b, &c] {
        w.session(p);
    }
    let keys: Vec<TestKey> = (0..n).map(|i| near(i as u8, 200, !(free && i + 1 == n))).collect();
    let got = w.ask(a.node_id(), offer(&keys)).await;
    settle().await;
    let Ok(Response::Accept(reply)) = &got else { fail!("an offer is answered with {got:?}") };
    check_eq!(codes(reply, 1)?, vec![ACCEPTED; n], "codes of wanted content");
    let Some(open) = w.take_open() else { fail!("no transfer is opened") };
    let rival: Vec<TestKey> = (0..n).filter(|i| both >> i & 1 == 1).map(|i| keys[i].clone()).collect();
    if !rival.is_empty() {
        let got = w.ask(b.node_id(), offer(&rival)).await;
        let Ok(Response::Accept(reply)) = &got else { fail!("an offer is answered with {got:?}") };
        check_eq!(codes(reply, version)?, vec![seen(version, BUSY); rival.len()], "codes of content being received");
    }
    check!(w.take_open().is_none(), "a declined offer opens a transfer");
    let mut values: Vec<Vec<u8>> = keys.iter().zip(&kinds).map(|(k, kind)| content(k, *kind, 40)).collect();
    let mut good: BTreeSet<usize> = BTreeSet::new();
    match arrives {
        Arrives::Refused => open.refuse(),
        Arrives::Broken => open.break_off(),
        Arrives::Cut => {
            let mut p = payload(&values);
            p.pop();
            open.deliver(p)
        }
        Arrives::Fewer => open.deliver(payload(&values[..n - 1])),
        Arrives::More => {
            values.push(content(&keys[0], 1, 40));
            open.deliver(payload(&values))
        }
        Arrives::Swapped => {
            values.reverse();
            for i in 0..n {
                if values[i][..32] == keys[i].id {
                    good.insert(i);
                }
            }
            open.deliver(payload(&values))
        }
        Arrives::Items => {
            good.extend((0..n).filter(|i| kinds[*i] == 1));
            open.deliver(payload(&values))
        }
    }
    settle().await;
    // Content that did not arrive is fetched from the other peer that offered it.
    let mut missing: BTreeSet<usize> =
        (0..n).filter(|i| !good.contains(i) && both >> i & 1 == 1 && keys[*i].radius).collect();
    let mut others = vec![];
    let mut helped = 0;
    loop {
        let Some(t) = w.take_talk() else { break };
        let Request::FindContent(f) = &t.request else {
            others.push(t);
            continue;
        };
        check_eq!(t.to, b.node_id(), "peer asked for content that did not arrive");
        let Some(i) = keys.iter().position(|k| k.to_bytes() == f.content_key) else { fail!("an unknown key is asked for") };
        check!(missing.remove(&i), "key {i} is asked for without need, or twice");
        let k = &keys[i];
        let wrap = |v: Vec<u8>| if version == 1 { payload(&[v]) } else { v };
        let help = *ch.choose(&HELP);
        match help {
            Help::Silent => t.fail(),
            Help::Good => {
                good.insert(i);
                helped += 1;
                t.answer(Response::Content(Content::Content(content(k, 1, 41).into())))
            }
            Help::Bad => t.answer(Response::Content(Content::Content(content(k, 0, 41).into()))),
            Help::OnlyValid => t.answer(Response::Content(Content::Content(content(k, 2, 41).into()))),
            Help::Peers => t.answer(Response::Content(Content::Enrs(vec![]))),
            Help::WrongMessage => t.answer(Response::Pong(Pong {
                enr_seq: 1,
                payload_type: 1u16.into(),
                payload: vec![0xff; 32].into(),
            })),
            _ => {
                t.answer(Response::Content(Content::ConnectionId(555u16.to_be())));
                settle().await;
                let Some(open) = w.take_open() else { fail!("an announced transfer is not opened") };
                check_eq!(open.side, Side::Connect, "side of the transfer");
                check_eq!((open.peer, open.recv, open.send), (b.node_id(), 555, 556), "ids of the transfer");
                match help {
                    Help::Transfer => {
                        good.insert(i);
                        helped += 1;
                        open.deliver(wrap(content(k, 1, 41)))
                    }
                    Help::TransferBad => open.deliver(wrap(content(k, 0, 41))),
                    Help::TransferCut => {
                        let mut v = wrap(content(k, 1, 33));
                        v.pop();
                        open.deliver(v)
                    }
                    _ => open.refuse(),
                }
            }
        }
        settle().await;
    }
    check!(missing.is_empty(), "keys {missing:?} did not arrive and are not asked for elsewhere");
    w.talks.borrow_mut().extend(others);
    let passed = passed_on(&w).await?;
    let want: BTreeSet<TestKey> = good.iter().map(|i| keys[*i].clone()).collect();
    check_eq!(passed, want, "content passed on");
    let held = w.store(|s| s.held.clone());
    check_eq!(held.keys().cloned().collect::<BTreeSet<_>>(), want, "content stored");
    for (k, v) in &held {
        check!(v[..32] == k.id && v[32] == 1, "invalid content is stored");
    }
    // Nothing is left in progress.
    let got = w.ask(c.node_id(), offer(&keys)).await;
    let Ok(Response::Accept(reply)) = &got else { fail!("an offer is answered with {got:?}") };
    let want: Vec<u8> = (0..n).map(|i| if good.contains(&i) { STORED } else { ACCEPTED }).collect();
    check_eq!(codes(reply, 1)?, want, "codes of the same keys offered once all is over");
    Ok((good.len(), helped, n))
}
