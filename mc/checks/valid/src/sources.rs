//! What the light client gets from its two sources: the portal network and a beacon node.
use crate::{chain::*, headers::block_on, light::*};
use alloy::primitives::B256;
use ethportal_api::{
    light_client::{
        bootstrap::LightClientBootstrapElectra, finality_update::LightClientFinalityUpdateElectra, optimistic_update::LightClientOptimisticUpdateElectra,
        update::LightClientUpdateElectra,
    },
    types::content_key::beacon::{LightClientFinalityUpdateKey, LightClientOptimisticUpdateKey},
    BeaconContentKey, LightClientBootstrapKey, LightClientUpdatesByRangeKey, OverlayContentKey,
};
use light_client::consensus::rpc::{nimbus_rpc::NimbusRpc, portal_rpc::PortalRpc, ConsensusRpc};
use portalnet::overlay::{command::OverlayCommand, errors::OverlayRequestError};
use serde_json::{json, Value};
use spec::beacon::{self, Header};
use ssz::Decode;
use std::{cell::RefCell, rc::Rc};
use vc::{check_eq, fail, Ctx};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum What {
    Bootstrap,
    Updates(u64, u8),
    Finality,
    Optimistic,
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Bootstrap(LightClientBootstrapElectra),
    Updates(Vec<LightClientUpdateElectra>),
    Finality(LightClientFinalityUpdateElectra),
    Optimistic(LightClientOptimisticUpdateElectra),
}

async fn ask(rpc: &impl ConsensusRpc, what: What, root: B256) -> Result<Got, String> {
    match what {
        What::Bootstrap => rpc.get_bootstrap(root).await.map(Got::Bootstrap),
        What::Updates(period, count) => rpc.get_updates(period, count).await.map(Got::Updates),
        What::Finality => rpc.get_finality_update().await.map(Got::Finality),
        What::Optimistic => rpc.get_optimistic_update().await.map(Got::Optimistic),
    }
    .map_err(|e| e.to_string())
}

fn update(fork: usize, salt: u8) -> beacon::Update {
    beacon::Update::at(fork, Header::at(P + 50 + salt as u64, salt), Header::at(P + 32, salt + 1), P + 60)
}

/// The bytes of a content item of the fork.
fn content(what: What, fork: usize) -> Vec<u8> {
    match what {
        What::Bootstrap => beacon::Bootstrap::at(fork, Header::at(P + 40, 7)).encode(),
        What::Updates(_, n) => {
            let forks = (0..n.min(3)).map(|i| if i == 1 { fork } else { 3 }).collect::<Vec<_>>();
            let forks = if forks.len() == 1 { vec![fork] } else { forks };
            beacon::range(&forks.iter().enumerate().map(|(i, f)| update(*f, 20 + i as u8).encode()).collect::<Vec<_>>())
        }
        What::Finality => update(fork, 30).finality(),
        What::Optimistic => update(fork, 40).optimistic(),
    }
}

/// The Electra item.
fn item(what: What) -> Got {
    match what {
        What::Bootstrap => Got::Bootstrap(LightClientBootstrapElectra::from_ssz_bytes(&content(what, 3)[4..]).expect("bootstrap")),
        What::Updates(_, n) => {
            Got::Updates((0..n.min(3)).map(|i| LightClientUpdateElectra::from_ssz_bytes(&update(3, 20 + i).encode()[4..]).expect("update")).collect())
        }
        What::Finality => Got::Finality(LightClientFinalityUpdateElectra::from_ssz_bytes(&content(what, 3)[4..]).expect("finality update")),
        What::Optimistic => Got::Optimistic(LightClientOptimisticUpdateElectra::from_ssz_bytes(&content(what, 3)[4..]).expect("optimistic update")),
    }
}

fn requests() -> Vec<What> {
    let mut all = vec![What::Bootstrap, What::Finality, What::Optimistic];
    for period in [0, 1, P / PERIOD, u64::MAX] {
        for count in [0u8, 1, 2, 3, 127, 128, 129, 255] {
            all.push(What::Updates(period, count));
        }
    }
    all
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    Content(usize),
    Truncated,
    Other,
    NotFound,
    Dropped,
    Closed,
}

pub fn l06(ctx: &Ctx) {
    let root = B256::repeat_byte(0x6b);
    ctx.explore("over the portal network", |ch| {
        let what = *ch.choose(&requests());
        let reply = *ch.choose(&[
            Reply::Content(3),
            Reply::Content(0),
            Reply::Content(1),
            Reply::Content(2),
            Reply::Truncated,
            Reply::Other,
            Reply::NotFound,
            Reply::Dropped,
            Reply::Closed,
        ]);
        // The second of the slot.
        let second = *ch.choose(&[0u64, 1, 11]);
        ch.note(|| format!("{what:?}, {second} s into the slot, answered with {reply:?}"));
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<OverlayCommand<BeaconContentKey>>();
        let rpc = PortalRpc::with_portal(tx);
        if reply == Reply::Closed {
            rx.close();
        }
        let slot = P + 77;
        vc::clock::start(GENESIS_TIME + slot * 12 + second);
        let (got, asked) = vc::no_panic(|| {
            block_on(async {
                let serve = async {
                    let mut asked = vec![];
                    while let Some(command) = rx.recv().await {
                        let OverlayCommand::FindContentQuery { target, callback, .. } = command else { continue };
                        asked.push(target.to_bytes().to_vec());
                        let answer = match reply {
                            Reply::Content(fork) => Ok(content(what, fork)),
                            Reply::Truncated => Ok(content(what, 3).into_iter().take(100).collect()),
                            Reply::Other => Ok(content(if what == What::Bootstrap { What::Optimistic } else { What::Bootstrap }, 3)),
                            Reply::NotFound => Err(OverlayRequestError::Failure("nobody has it".to_owned())),
                            Reply::Dropped | Reply::Closed => continue,
                        };
                        let _ = callback.send(answer.map(|bytes| (bytes.into(), false, None)));
                    }
                    asked
                };
                let client = async {
                    let got = ask(&rpc, what, root).await;
                    drop(rpc);
                    got
                };
                tokio::join!(client, serve)
            })
        })?;
        vc::clock::stop();
        ch.eval();
        let key = match what {
            What::Bootstrap => BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: root.0 }),
            What::Updates(start_period, count) => {
                BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period, count: count as u64 })
            }
            What::Finality => BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: 0 }),
            What::Optimistic => BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: slot }),
        };
        let want: Vec<Vec<u8>> = if reply == Reply::Closed { vec![] } else { vec![key.to_bytes().to_vec()] };
        check_eq!(asked, want, "content asked for");
        let empty = matches!(what, What::Updates(_, 0));
        match (got, reply) {
            (Ok(got), Reply::Content(fork)) if fork == 3 || empty => check_eq!(got, item(what), "what is handed on"),
            // An empty list cannot be cut.
            (_, Reply::Truncated | Reply::Other) if empty => {}
            (Ok(got), _) => fail!("{reply:?} is handed on as {}", format!("{got:?}").chars().take(200).collect::<String>()),
            (Err(e), Reply::Content(fork)) if fork == 3 || empty => fail!("the content is not handed on: {e}"),
            (Err(_), _) => {}
        }
        ch.outcome(&(what, format!("{reply:?}")));
        Ok(())
    });
    ctx.explore("from a beacon node", |ch| {
        let what = *ch.choose(&requests());
        let reply = ch.pick(6);
        ch.note(|| format!("{what:?}, reply {reply}"));
        let one = |got: &Got| -> Value {
            match got {
                Got::Bootstrap(b) => json!({"version": "electra", "data": b}),
                Got::Updates(u) => json!(u.iter().map(|u| json!({"version": "electra", "data": u})).collect::<Vec<_>>()),
                Got::Finality(u) => json!({"version": "electra", "data": u}),
                Got::Optimistic(u) => json!({"version": "electra", "data": u}),
            }
        };
        let body = match reply {
            0 => Some((200, serde_json::to_vec(&one(&item(what))).expect("JSON"))),
            1 => None,
            2 => Some((404, br#"{"code": 404, "message": "not found"}"#.to_vec())),
            3 => Some((200, b"<html>".to_vec())),
            4 => Some((200, serde_json::to_vec(&json!({"data": {}})).expect("JSON"))),
            _ => {
                let other = if what == What::Bootstrap { What::Finality } else { What::Bootstrap };
                Some((200, serde_json::to_vec(&one(&item(other))).expect("JSON")))
            }
        };
        let asked = Rc::new(RefCell::new(vec![]));
        let log = asked.clone();
        reqwest::fake::set(move |url, _| {
            log.borrow_mut().push(url.to_owned());
            body.clone()
        });
        let rpc = NimbusRpc::new("http://node.example:5052");
        let got = vc::no_panic(|| block_on(ask(&rpc, what, root)))?;
        reqwest::fake::clear();
        let path = match what {
            What::Bootstrap => format!("bootstrap/{root}"),
            What::Updates(period, count) => format!("updates?start_period={period}&count={}", count.min(128)),
            What::Finality => "finality_update".to_owned(),
            What::Optimistic => "optimistic_update".to_owned(),
        };
        ch.eval();
        check_eq!(*asked.borrow(), vec![format!("http://node.example:5052/eth/v1/beacon/light_client/{path}")], "requests");
        match got {
            Ok(got) if reply == 0 => check_eq!(got, item(what), "what is handed on"),
            Err(e) if reply == 0 => fail!("the answer is not handed on: {e}"),
            Ok(got) => fail!("reply {reply} is handed on as {}", format!("{got:?}").chars().take(200).collect::<String>()),
            Err(_) => {}
        }
        ch.outcome(&(what, reply));
        Ok(())
    });
    ctx.explore("chain of a beacon node", |ch| {
        let n = *ch.choose(&[1u64, 5, 17000, u64::MAX]);
        let reply = ch.pick(4);
        ch.note(|| format!("chain {n}, reply {reply}"));
        let body = match reply {
            0 => json!({"data": {"DEPOSIT_NETWORK_ID": n.to_string(), "DEPOSIT_CHAIN_ID": "77", "PRESET_BASE": "mainnet"}}),
            1 => json!({"data": {"DEPOSIT_NETWORK_ID": "one"}}),
            2 => json!({"data": {"PRESET_BASE": "mainnet"}}),
            _ => json!({"data": {"DEPOSIT_NETWORK_ID": "-1"}}),
        };
        let asked = Rc::new(RefCell::new(vec![]));
        let log = asked.clone();
        reqwest::fake::set(move |url, _| {
            log.borrow_mut().push(url.to_owned());
            Some((200, serde_json::to_vec(&body).expect("JSON")))
        });
        let got = vc::no_panic(|| block_on(NimbusRpc::new("http://node.example").chain_id()))?;
        reqwest::fake::clear();
        ch.eval();
        check_eq!(*asked.borrow(), vec!["http://node.example/eth/v1/config/spec".to_owned()], "requests");
        check_eq!(got.ok(), (reply == 0).then_some(n), "chain id");
        let (tx, _rx) = tokio::sync::mpsc::unbounded_channel();
        check_eq!(block_on(PortalRpc::with_portal(tx).chain_id()).ok(), Some(1), "chain id of the portal network");
        ch.outcome(&(n, reply));
        Ok(())
    });
}
