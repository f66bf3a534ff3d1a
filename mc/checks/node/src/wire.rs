//! Requests of peers, and events of networks, reach the right network.

use ethportal_api::types::{
    network::Subnetwork,
    portal_wire::{Content, Message, Response},
};
use portalnet::events::{EventEnvelope, OverlayEvent, OverlayRequest, PortalnetEvents};
use serde_json::json;
use spec::{container, Fixed, Var};
use tokio::sync::{broadcast, mpsc};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{contents::{hex, items, Item, Kept}, peers, tables::listed, world::*};

fn item(net: Subnetwork) -> &'static Item {
    items().iter().find(|i| i.net == net && matches!(i.kept, Kept::As(_))).expect("a value")
}

/// What a peer sends.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Body {
    Ping,
    FindNodes,
    /// For content only the named network has.
    FindContent(usize),
    Offer(usize),
    /// An answer instead of a request.
    Answer,
    Unknown,
    Cut,
    Empty,
}

fn encode(b: Body) -> Vec<u8> {
    let with = |kind: u8, rest: Vec<u8>| [vec![kind], rest].concat();
    let ping = container(&[
        Fixed(1u64.to_le_bytes().to_vec()),
        Fixed(vec![0, 0]),
        Var(container(&[Var(vec![]), Fixed(vec![0xff; 32]), Var(vec![0, 0])])),
    ]);
    match b {
        Body::Ping => with(0, ping),
        Body::FindNodes => with(2, container(&[Var(vec![0, 0])])),
        Body::FindContent(n) => with(4, container(&[Var(item(NETS[n]).key.clone())])),
        Body::Offer(n) => {
            let i = items().iter().filter(|i| i.net == NETS[n] && i.key != item(NETS[n]).key).last().expect("another");
            with(6, container(&[Var(spec::list(&[i.key.clone()]))]))
        }
        Body::Answer => with(3, container(&[Fixed(vec![1]), Var(vec![])])),
        Body::Unknown => vec![9, 1, 2, 3],
        Body::Cut => with(0, ping[..5].to_vec()),
        Body::Empty => vec![],
    }
}

fn requests(ch: &mut Ch) -> Res {
    let set = ch.pick(7) + 1;
    let nets: Vec<Subnetwork> = NETS.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, n)| *n).collect();
    let protocols = [
        vec![0x50, 0x0b], vec![0x50, 0x0a], vec![0x50, 0x0c], vec![0x50, 0x0d], vec![0x50, 0x0e], vec![0x50, 0x0f],
        vec![0x50, 0x00], b"utp".to_vec(), vec![0x50, 0x4b], vec![0x50, 0x10], vec![], vec![0x50], vec![0x50, 0x0b, 0], vec![0x0b, 0x50],
    ];
    let named = ch.pick(protocols.len());
    let mut bodies = vec![Body::Ping, Body::FindNodes, Body::Answer, Body::Unknown, Body::Cut, Body::Empty];
    for n in 0..3 {
        bodies.extend([Body::FindContent(n), Body::Offer(n)]);
    }
    let body = *ch.choose(&bodies);
    let known = ch.flag();
    ch.note(|| format!("networks {nets:?}, protocol {}, {body:?}, session {known}", hex(&protocols[named])));
    run(|| async {
        let node = Node::start(Setup::of(&nets)).await?;
        for net in &nets {
            let i = item(*net);
            node.on(*net, "Store", json!([hex(&i.key), hex(&i.value)])).now().await?.map_err(|e| e.to_string())?;
        }
        let peer = peers::record(2, 1);
        if known {
            node.session(&peer).await;
        }
        let answer = node.asked(peer.node_id(), protocols[named].clone(), encode(body)).await;
        // What is meant for the transfers waits for their socket.
        let answer = if protocols[named] == b"utp" { answer.unwrap_or_default() } else { answer.ok_or("no answer")? };
        ch.eval();
        let net = NETS.get(named).filter(|n| nets.contains(n));
        ch.outcome(&(named, body, nets.len(), answer.len()));
        let response = match answer.is_empty() {
            true => None,
            false => Some(Message::try_from(answer).ok().and_then(|m| Response::try_from(m).ok()).ok_or("a malformed answer")?),
        };
        let wanted = match body {
            _ if net.is_none() => None,
            Body::FindContent(n) | Body::Offer(n) if NETS[n] != NETS[named] => None,
            Body::Answer | Body::Unknown | Body::Cut | Body::Empty => None,
            b => Some(b),
        };
        match (wanted, response) {
            (None, None) => {}
            // No transfer is possible with a peer without a session.
            (Some(Body::Offer(_)), None) if !known => {}
            (Some(Body::FindContent(n)), None) if !known && item(NETS[n]).value.len() > 1000 => {}
            (Some(Body::Ping), Some(Response::Pong(p))) => check_eq!(p.enr_seq, node.enr.seq(), "sequence number in the pong"),
            (Some(Body::FindNodes), Some(Response::Nodes(n))) => {
                check_eq!(n.enrs.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), vec![node.enr.clone()], "records given");
            }
            (Some(Body::FindContent(n)), Some(Response::Content(c))) => {
                let Kept::As(kept) = &item(NETS[n]).kept else { unreachable!() };
                match c {
                    Content::Content(c) => check!(c.to_vec() == *kept, "other content is given"),
                    Content::ConnectionId(_) => check!(kept.len() > 1000, "a transfer is offered for a short value"),
                    Content::Enrs(_) => return Err("content the network has is not given".into()),
                }
            }
            (Some(Body::Offer(_)), Some(Response::Accept(a))) => {
                check!(!a.content_keys.is_empty(), "an acceptance of nothing");
            }
            (wanted, got) => return Err(format!("{got:?} is answered, expected {wanted:?}")),
        }
        // Only the network that was asked may know the peer now.
        for n in &nets {
            let peers: usize = listed(&node, Some(*n)).await?.iter().map(|b| b.len()).sum();
            let touched = Some(n) == net && well_formed(body);
            check!(peers == 0 || (touched && known), "{} has a peer now", word(*n));
            if touched && known && wanted.is_some() {
                check_eq!(peers, 1, "peers of {}", word(*n));
            }
        }
        Ok(())
    })
}

fn well_formed(body: Body) -> bool {
    !matches!(body, Body::Answer | Body::Unknown | Body::Cut | Body::Empty)
}

/// Events go to the networks they are meant for, other than the one they come from.
fn events(ch: &mut Ch) -> Res {
    let on = ch.pick(7) + 1;
    let senders: Vec<usize> = (0..3).filter(|i| on >> i & 1 == 1).collect();
    let sender = *ch.choose(&senders);
    let choice = [Subnetwork::LegacyHistory, Subnetwork::State, Subnetwork::Beacon, Subnetwork::Utp];
    let destination = if ch.flag() {
        let set = ch.pick(16);
        Some(choice.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, n)| *n).collect::<Vec<_>>())
    } else {
        None
    };
    let payload = if ch.flag() { OverlayEvent::LightClientFinalityUpdate } else { OverlayEvent::LightClientOptimisticUpdate };
    ch.note(|| format!("networks {on:03b}, from {sender}, to {destination:?}"));
    run(|| async {
        let (_talk, talks) = mpsc::channel(10);
        let (utp, mut utps) = mpsc::unbounded_channel();
        let mut ends = vec![];
        let mut channels = vec![];
        for i in 0..3 {
            if on >> i & 1 == 1 {
                let (tx, rx) = mpsc::unbounded_channel::<OverlayRequest>();
                let (events, stream) = broadcast::channel(10);
                channels.push((Some(tx), Some(stream)));
                ends.push(Some((rx, events)));
            } else {
                channels.push((None, None));
                ends.push(None);
            }
        }
        let beacon = channels.pop().expect("three");
        let state = channels.pop().expect("three");
        let history = channels.pop().expect("three");
        let events = PortalnetEvents::new(talks, history, state, beacon, utp).await;
        tokio::spawn(events.start());
        settle().await;
        let event = EventEnvelope::new(payload, NETS[sender], destination.clone());
        ends[sender].as_ref().expect("the sender").1.send(event.clone()).map_err(|e| e.to_string())?;
        settle().await;
        for i in 0..3 {
            let Some((rx, _)) = &mut ends[i] else { continue };
            let wanted = i != sender && destination.as_ref().map_or(true, |d| d.contains(&NETS[i]));
            ch.eval();
            match rx.try_recv() {
                Ok(OverlayRequest::Event(e)) => {
                    check!(wanted, "{} gets an event it should not get", word(NETS[i]));
                    check_eq!(e, event, "event for {}", word(NETS[i]));
                }
                Ok(_) => return Err("not an event".into()),
                Err(_) => check!(!wanted, "{} does not get the event", word(NETS[i])),
            }
            check!(rx.try_recv().is_err(), "{} gets the event twice", word(NETS[i]));
            ch.outcome(&(i, wanted));
        }
        check!(utps.try_recv().is_err(), "the transfers get an event");
        Ok(())
    })
}

pub fn n01(ctx: &Ctx) {
    ctx.explore("requests", requests);
    ctx.explore("events", events);
}
