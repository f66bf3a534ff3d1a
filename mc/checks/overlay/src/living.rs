//! O12: which peers count as connected, and when they are pinged.

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use ethportal_api::types::{
    enr::SszEnr,
    portal_wire::{FindNodes, Nodes, Ping, Pong, Request, Response},
};
use portalnet::overlay::config::OverlayConfig;
use vc::{check, check_eq, fail, Ch, Ctx};

use crate::{
    peers::{id, log_distance, record},
    world::*,
};

const PEERS: [u16; 2] = [20, 21];
const HELPER: u16 = 24;
const STRANGER: u16 = 33;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Stands {
    Connected,
    Disconnected,
}

fn nodes(enrs: Vec<SszEnr>) -> Response {
    Response::Nodes(Nodes { total: 1, enrs })
}

/// Sends a request of ours; the reply is up to `f`.
async fn request(w: &World, k: u16, f: impl FnOnce(Talk)) -> Result<(), String> {
    let overlay = w.overlay.clone();
    let task = tokio::spawn(async move { overlay.send_find_nodes(record(k, 1), vec![3]).await.is_ok() });
    settle().await;
    let Some(t) = w.take_talk() else { fail!("a request is not sent") };
    check!(t.to == id(k) && matches!(t.request, Request::FindNodes(_)), "unexpected request {:?}", t.request);
    f(t);
    settle().await;
    check!(task.is_finished(), "a request never ends");
    Ok(())
}

async fn history(ch: &mut Ch, n: usize, peers: usize, sessions: u32) -> Result<BTreeMap<u16, (Stands, bool)>, String> {
    let w = World::new(Setup {
        config: OverlayConfig {
            ping_queue_interval: Some(Duration::from_secs(20)),
            disable_poke: true,
            ..Default::default()
        },
        ..Default::default()
    })
    .await;
    for (i, k) in PEERS.iter().enumerate() {
        if sessions >> i & 1 == 1 {
            w.session(&record(*k, 1));
        }
    }
    // How each known peer stands, and whether its liveness must be watched.
    let mut model: BTreeMap<u16, (Stands, bool)> = BTreeMap::new();
    let mut kept = vec![];
    for _ in 0..n {
        let i = ch.pick(peers);
        let k = PEERS[i];
        let known = model.get(&k).copied();
        match ch.pick(6) {
            // It asks us something.
            0 => {
                let got = w.ask(id(k), Request::FindNodes(FindNodes { distances: vec![0] })).await;
                check!(got.is_ok(), "a request is answered with {got:?}");
                settle().await;
                match known {
                    Some((s, watched)) => {
                        model.insert(k, (Stands::Connected, watched && s == Stands::Connected));
                    }
                    None if sessions >> i & 1 == 1 => {
                        model.insert(k, (Stands::Connected, true));
                    }
                    None => {}
                }
            }
            // It answers us.
            1 => {
                request(&w, k, |t| t.answer(nodes(vec![]))).await?;
                let watched = match known {
                    Some((Stands::Connected, watched)) => watched,
                    _ => true,
                };
                model.insert(k, (Stands::Connected, watched));
            }
            // It fails us.
            how @ 2..=3 => {
                request(&w, k, |t| if how == 2 { t.fail() } else { t.raw(vec![0xee]) }).await?;
                if known.is_some() {
                    model.insert(k, (Stands::Disconnected, false));
                }
            }
            // Another peer names it.
            4 => {
                request(&w, HELPER, |t| t.answer(nodes(vec![SszEnr(record(k, 2))]))).await?;
                if known.is_none() {
                    model.insert(k, (Stands::Disconnected, true));
                }
            }
            // Time passes; pings are answered or not.
            _ => {
                let lost = ch.subset(peers);
                let mut pinged = BTreeSet::new();
                for _ in 0..2 {
                    pass(10_500).await;
                    settle().await;
                    while let Some(t) = w.take_talk() {
                        if !matches!(t.request, Request::Ping(Ping { .. })) {
                            // Upkeep of the table; no answer yet.
                            kept.push(t);
                            continue;
                        }
                        let Some(j) = PEERS.iter().position(|p| id(*p) == t.to) else {
                            t.answer(Response::Pong(Pong { enr_seq: 1, payload_type: 1u16.into(), payload: vec![0xff; 32].into() }));
                            continue;
                        };
                        pinged.insert(PEERS[j]);
                        if lost >> j & 1 == 1 {
                            t.fail();
                            model.insert(PEERS[j], (Stands::Disconnected, false));
                        } else {
                            t.answer(Response::Pong(Pong { enr_seq: 1, payload_type: 1u16.into(), payload: vec![0xff; 32].into() }));
                            let s = model.get(&PEERS[j]).map(|m| m.0);
                            let watched = s == Some(Stands::Disconnected) || model.get(&PEERS[j]).map_or(true, |m| m.1);
                            model.insert(PEERS[j], (Stands::Connected, watched));
                        }
                        settle().await;
                    }
                }
                for (k, (_, watched)) in &model {
                    check!(!watched || pinged.contains(k), "node {k} is not pinged");
                }
            }
        }
    }
    let distances: BTreeSet<u16> = PEERS.iter().map(|k| log_distance(&id(1).raw(), &id(*k).raw())).collect();
    let got = w.ask(id(STRANGER), Request::FindNodes(FindNodes { distances: distances.into_iter().collect() })).await;
    let Ok(Response::Nodes(list)) = got else { fail!("a request for nodes is answered with {got:?}") };
    let got: BTreeSet<u16> = PEERS.iter().copied().filter(|k| list.enrs.iter().any(|e| e.node_id() == id(*k))).collect();
    let want: BTreeSet<u16> = model.iter().filter(|(_, m)| m.0 == Stands::Connected).map(|(k, _)| *k).collect();
    check_eq!(got, want, "connected peers handed out");
    let table: BTreeSet<u16> =
        PEERS.iter().copied().filter(|k| w.overlay.get_enr(id(*k)).is_ok()).collect();
    check_eq!(table, model.keys().copied().collect(), "peers in the routing table");
    Ok(model)
}

pub fn o12(ctx: &Ctx) {
    let steps = ctx.b(3, 4);
    ctx.explore("liveness", |ch| {
        let n = 1 + ch.pick(steps);
        let sessions = ch.subset(2);
        let s = run(|| history(ch, n, 2, sessions))?;
        ch.evals(2);
        ch.state(&s);
        ch.outcome(&s);
        Ok(())
    });
    let steps = ctx.b(5, 7);
    ctx.explore("liveness of one peer", |ch| {
        let n = 1 + ch.pick(steps);
        let sessions = ch.subset(1);
        let s = run(|| history(ch, n, 1, sessions))?;
        ch.evals(2);
        ch.state(&s);
        ch.outcome(&s);
        Ok(())
    });
}
