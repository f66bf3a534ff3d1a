//! O03: the number of transfers in progress, and O10: sending what was accepted.

use std::{collections::VecDeque, io};

use ethportal_api::{
    types::{
        portal_wire::{
            Content, FindContent, OfferTrace, OfferTraceMultipleItems, Pong, Request, Response,
        },
        protocol_versions::ProtocolVersion,
        accept_code::AcceptCodeList,
    },
    OverlayContentKey, RawContentKey, RawContentValue,
};
use portalnet::overlay::config::OverlayConfig;
use utp_rs::fake::Side;
use vc::{check, check_eq, fail, Ch, Ctx};

use crate::{
    answers::{payload, speaking, VERSIONS},
    offers::{accept, codes, near, offer, ACCEPTED, DECLINED, LIMITED},
    transfers,
    world::*,
};

pub fn o03(ctx: &Ctx) {
    let max = ctx.b(7, 9);
    ctx.explore("slots", |ch| {
        let limit = ch.pick(4);
        let c = transfers::controller(limit);
        let mut held = [vec![], vec![]];
        let n = 1 + ch.pick(max);
        for _ in 0..n {
            match ch.pick(4) {
                d @ 0..=1 => {
                    let got = if d == 0 { c.get_inbound_semaphore() } else { c.get_outbound_semaphore() };
                    check_eq!(got.is_some(), held[d].len() < limit, "a slot is granted with {} of {limit} in use", held[d].len());
                    held[d].extend(got);
                }
                d => {
                    let d = d - 2;
                    if held[d].is_empty() {
                        return Ok(());
                    }
                    let slot = held[d].remove(0);
                    if ch.flag() {
                        slot.drop();
                    } else {
                        drop(slot);
                    }
                }
            }
        }
        ch.evals(n as u64);
        ch.state(&(limit, held[0].len(), held[1].len()));
        ch.outcome(&(limit, held[0].len(), held[1].len()));
        Ok(())
    });

    let steps = ctx.b(6, 8);
    ctx.explore("transfers of the service", |ch| {
        let limit = 1 + ch.pick(2);
        let n = 1 + ch.pick(steps);
        let s = run(|| service(ch, limit, n))?;
        ch.evals(n as u64);
        ch.state(&s);
        ch.outcome(&s);
        Ok(())
    });
}

struct Slots {
    w: World,
    inbound: VecDeque<(u8, Open)>,
    outbound: VecDeque<Open>,
    offers: VecDeque<Talk>,
    upkeep: Vec<Talk>,
    limit: usize,
    next: u8,
}

impl Slots {
    fn in_use(&self) -> (usize, usize) {
        (self.inbound.len(), self.outbound.len() + self.offers.len())
    }

    /// Collects the offers by which received content is passed on.
    async fn collect(&mut self) -> Result<(), String> {
        settle().await;
        while let Some(t) = self.w.take_talk() {
            match t.request {
                Request::Offer(_) => self.offers.push_back(t),
                // Upkeep of the routing table; not answered here.
                Request::Ping(_) | Request::FindNodes(_) => self.upkeep.push(t),
                _ => fail!("unexpected request {:?}", t.request),
            }
        }
        check!(self.w.take_open().is_none(), "an unexpected transfer is opened");
        let (i, o) = self.in_use();
        check!(i <= self.limit && o <= self.limit, "{i} inbound and {o} outbound transfers in progress, limit {}", self.limit);
        Ok(())
    }

    async fn serve(&mut self) -> Result<(), String> {
        let big = near(100, 150, true);
        let free = self.in_use().1 < self.limit;
        let got = self.w.ask(crate::peers::id(20), Request::FindContent(FindContent { content_key: big.to_bytes() })).await;
        settle().await;
        match (&got, free) {
            (Ok(Response::Content(Content::ConnectionId(_))), true) => {
                let Some(open) = self.w.take_open() else { fail!("an announced transfer is not opened") };
                self.outbound.push_back(open);
            }
            (Ok(Response::Content(Content::Enrs(_))), false) => {}
            _ => fail!("with {} of {} outbound slots in use a request is answered with {got:?}", self.in_use().1, self.limit),
        }
        self.collect().await
    }

    async fn receive(&mut self) -> Result<(), String> {
        let k = near(self.next, 200, true);
        let free = self.inbound.len() < self.limit;
        let got = self.w.ask(crate::peers::id(20), offer(&[k])).await;
        settle().await;
        let Ok(Response::Accept(a)) = &got else { fail!("an offer is answered with {got:?}") };
        let code = codes(a, 1)?[0];
        check_eq!(code, if free { ACCEPTED } else { LIMITED }, "code with {} of {} inbound slots in use", self.inbound.len(), self.limit);
        if free {
            let Some(open) = self.w.take_open() else { fail!("an accepted offer opens no transfer") };
            self.inbound.push_back((self.next, open));
        }
        self.next += 1;
        self.collect().await
    }
}

async fn service(ch: &mut Ch, limit: usize, n: usize) -> Result<(usize, usize, usize), String> {
    let w = World::new(Setup {
        config: OverlayConfig { utp_transfer_limit: limit, disable_poke: true, ..Default::default() },
        ..Default::default()
    })
    .await;
    w.session(&speaking(20, Some(&[1])));
    w.connect(&speaking(23, Some(&[1])));
    let big = near(100, 150, true);
    w.store(|s| s.held.insert(big.clone(), content(&big, 1, 3000)));
    let mut s = Slots { w, inbound: VecDeque::new(), outbound: VecDeque::new(), offers: VecDeque::new(), upkeep: vec![], limit, next: 1 };
    for _ in 0..n {
        match ch.pick(6) {
            0 => s.serve().await?,
            1 => s.receive().await?,
            2 => {
                let Some((k, open)) = s.inbound.pop_front() else { break };
                let k = near(k, 200, true);
                match ch.pick(4) {
                    0 => open.deliver(payload(&[content(&k, 1, 40)])),
                    1 => open.deliver(vec![0xff; 4]),
                    2 => open.refuse(),
                    _ => open.break_off(),
                }
                s.collect().await?;
            }
            3 => {
                let Some(open) = s.outbound.pop_front() else { break };
                let reset = || io::Error::from(io::ErrorKind::ConnectionReset);
                let flow = match ch.pick(5) {
                    0 => open.connect(None, Ok(())),
                    1 => open.connect(Some(Err(reset())), Ok(())),
                    2 => open.connect(Some(Ok(1)), Ok(())),
                    3 => open.connect(None, Err(reset())),
                    _ => {
                        open.refuse();
                        s.collect().await?;
                        continue;
                    }
                };
                let _ = flow.gate.send(true);
                s.collect().await?;
            }
            4 => {
                let Some(t) = s.offers.pop_front() else { break };
                match ch.pick(6) {
                    0 => t.fail(),
                    1 => t.answer(Response::Accept(accept(1, 0, &[DECLINED]))),
                    2 => t.raw(vec![9, 9, 9]),
                    3 => t.answer(Response::Accept(accept(1, 300, &[77]))),
                    4 => t.answer(Response::Pong(Pong { enr_seq: 1, payload_type: 1u16.into(), payload: vec![0xff; 32].into() })),
                    _ => {
                        t.answer(Response::Accept(accept(1, 300, &[ACCEPTED])));
                        settle().await;
                        let Some(open) = s.w.take_open() else { fail!("an accepted offer opens no transfer") };
                        check_eq!(open.side, Side::Connect, "side of the transfer");
                        s.outbound.push_back(open);
                    }
                }
                s.collect().await?;
            }
            _ => {
                // No one connects.
                if s.inbound.is_empty() && s.outbound.is_empty() {
                    break;
                }
                s.inbound.clear();
                s.outbound.clear();
                pass(10_500).await;
                s.collect().await?;
            }
        }
    }
    let reached = (limit, s.in_use().0, s.in_use().1);
    // Everything ends; then all slots are free again.
    loop {
        if let Some((_, open)) = s.inbound.pop_front() {
            open.refuse();
        } else if let Some(open) = s.outbound.pop_front() {
            open.refuse();
        } else if let Some(t) = s.offers.pop_front() {
            t.fail();
        } else {
            break;
        }
        s.collect().await?;
    }
    for _ in 0..=limit {
        s.serve().await?;
        s.receive().await?;
    }
    check_eq!(s.in_use(), (limit, limit), "slots in use at the end");
    Ok(reached)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Offer,
    Trace,
    TraceOne,
    Put,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Says {
    Codes,
    Fewer,
    More,
    Nothing,
    Garbage,
    WrongMessage,
    BadCodes,
}

fn told(list: &AcceptCodeList) -> Vec<u8> {
    list.encode(ProtocolVersion::V1).map(|b| b.to_vec()).unwrap_or_default()
}

pub fn o10(ctx: &Ctx) {
    let max = ctx.b(3, 4);
    ctx.explore("offers we make", |ch| {
        let call = *ch.choose(&[Call::Offer, Call::Trace, Call::TraceOne, Call::Put]);
        let n = if matches!(call, Call::TraceOne | Call::Put) { 1 } else { ch.pick(max + 1) };
        let (versions, common) = *ch.choose(&VERSIONS);
        let says = *ch.choose(&[
            Says::Codes,
            Says::Fewer,
            Says::More,
            Says::Nothing,
            Says::Garbage,
            Says::WrongMessage,
            Says::BadCodes,
        ]);
        let mut list: Vec<u8> = (0..n)
            .map(|_| ch.pick(if common == Some(1) { 7 } else { 2 }) as u8)
            .collect();
        match says {
            Says::Fewer if n > 0 => {
                list.pop();
            }
            Says::More => list.push(ch.pick(2) as u8),
            Says::Codes => {}
            _ if list.iter().any(|c| *c != 0) => return Ok(()),
            Says::Fewer => return Ok(()),
            _ => {}
        }
        let end = ch.pick(6);
        let s = run(|| async move {
            let w = World::new(Setup::default()).await;
            let peer = speaking(20, versions);
            let keys: Vec<_> = (0..n as u8).map(|i| near(i, 200 + i as u16, true)).collect();
            let values: Vec<Vec<u8>> = keys.iter().map(|k| content(k, 1, 33 + k.id[31] as usize)).collect();
            let items: Vec<(RawContentKey, RawContentValue)> =
                keys.iter().zip(&values).map(|(k, v)| (k.to_bytes(), v.clone().into())).collect();
            let overlay = w.overlay.clone();
            let to = peer.clone();
            let mine = items.clone();
            let key0 = keys.first().cloned();
            if call == Call::Put {
                w.connect(&peer);
            }
            // Result: the codes, a failure, or an error.
            let task = tokio::spawn(async move {
                match call {
                    Call::Offer => overlay.send_offer(to, mine).await.map(|l| Some(told(&l))).map_err(|_| ()),
                    Call::Trace => match overlay.send_offer_trace_with_multiple_items(to, mine).await {
                        Ok(OfferTraceMultipleItems::Success(l)) => Ok(Some(told(&l))),
                        Ok(OfferTraceMultipleItems::Failed) => Ok(None),
                        Err(_) => Err(()),
                    },
                    Call::TraceOne => {
                        let (k, v) = mine[0].clone();
                        match overlay.send_offer_trace(to, k, v).await {
                            Ok(OfferTrace::Success(c)) => {
                                let mut l = AcceptCodeList::new(1).expect("list");
                                l.set(0, c);
                                Ok(Some(told(&l)))
                            }
                            Ok(OfferTrace::Failed) => Ok(None),
                            Err(_) => Err(()),
                        }
                    }
                    Call::Put => {
                        let (_, v) = mine[0].clone();
                        overlay.propagate_put_content(key0.expect("key"), v);
                        Ok(None)
                    }
                }
            });
            settle().await;
            let Some(t) = w.take_talk() else {
                check!(call == Call::Offer && common.is_none(), "no offer is sent");
                check!(task.is_finished(), "an offer that is not sent never ends");
                check_eq!(task.await.expect("offer"), Err(()), "result of an offer that is not sent");
                return Ok("not sent");
            };
            check_eq!(t.to, peer.node_id(), "peer the offer is sent to");
            let Request::Offer(o) = &t.request else { fail!("not an offer: {:?}", t.request) };
            check_eq!(o.content_keys, keys.iter().map(|k| k.to_bytes()).collect::<Vec<_>>(), "keys offered");
            let version = common.unwrap_or(1);
            match says {
                Says::Codes | Says::Fewer | Says::More => {
                    t.answer(Response::Accept(accept(version, 4321, &list)))
                }
                Says::Nothing => t.fail(),
                Says::Garbage => t.raw(vec![0xee, 1, 2]),
                Says::WrongMessage => t.answer(Response::Pong(Pong { enr_seq: 1, payload_type: 1u16.into(), payload: vec![0xff; 32].into() })),
                // No end mark in version 0, too many codes in version 1.
                Says::BadCodes => {
                    let mut a = accept(version, 4321, &[]);
                    a.content_keys = if version == 1 { vec![0u8; 65].into() } else { vec![1, 0].into() };
                    t.answer(Response::Accept(a))
                }
            }
            settle().await;
            let readable = matches!(says, Says::Codes | Says::Fewer | Says::More) && common.is_some();
            let accepted: Vec<Vec<u8>> = list
                .iter()
                .zip(&values)
                .filter(|(c, _)| **c == ACCEPTED)
                .map(|(_, v)| v.clone())
                .collect();
            let wants = readable && list.contains(&ACCEPTED);
            let mut arrived = true;
            match w.take_open() {
                None => check!(!wants, "codes {list:?} open no transfer"),
                Some(open) => {
                    check!(wants, "a transfer is opened although nothing is accepted");
                    check_eq!((open.side, open.peer, open.recv, open.send), (Side::Connect, peer.node_id(), 4321, 4322), "transfer opened");
                    let reset = || io::Error::from(io::ErrorKind::ConnectionReset);
                    arrived = end == 0;
                    let flow = match end {
                        0 => Some(open.connect(None, Ok(()))),
                        1 => Some(open.connect(Some(Err(reset())), Ok(()))),
                        2 => Some(open.connect(Some(Ok(1)), Ok(()))),
                        3 => Some(open.connect(None, Err(reset()))),
                        4 => {
                            open.refuse();
                            None
                        }
                        _ => {
                            drop(open);
                            pass(10_500).await;
                            None
                        }
                    };
                    if let Some(mut flow) = flow {
                        let _ = flow.gate.send(true);
                        settle().await;
                        let sent = flow.written.try_recv().unwrap_or_default();
                        let want = payload(&accepted);
                        // A transfer of nothing can only follow a list of codes of wrong length.
                        if end == 2 && want.len() <= 1 {
                            arrived = want.len() == 1;
                        }
                        check!(sent == want, "{} bytes are sent for codes {list:?}, not the {} of the accepted items", sent.len(), want.len());
                    }
                }
            }
            settle().await;
            check!(w.take_open().is_none(), "a second transfer is opened");
            check!(task.is_finished(), "the offer never ends");
            let got = task.await.expect("offer");
            // Codes without a meaning are reported as unspecified.
            let told: Vec<u8> = list.iter().map(|c| if *c > 5 { 255 } else { *c }).collect();
            let want: Result<Option<Vec<u8>>, ()> = match call {
                Call::Put => return Ok("put"),
                _ if !readable => {
                    // Either way of reporting failure will do.
                    check!(matches!(got, Err(()) | Ok(None)), "an unreadable answer is reported as {got:?}");
                    return Ok("unreadable");
                }
                Call::Offer => Ok(Some(told.clone())),
                Call::Trace if wants && !arrived => Ok(None),
                Call::Trace => Ok(Some(told.clone())),
                Call::TraceOne if wants && !arrived => Ok(None),
                Call::TraceOne if list.len() != 1 => Err(()),
                Call::TraceOne => Ok(Some(told.clone())),
            };
            check_eq!(got, want, "result reported for {call:?} with codes {list:?}");
            Ok(if wants { "accepted" } else { "declined" })
        })?;
        ch.evals(6);
        ch.outcome(&(s, n));
        Ok(())
    });
}
