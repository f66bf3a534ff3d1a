//! The head of the chain and the provider of historical summaries.
use crate::{chain::*, headers::block_on};
use alloy::primitives::Bytes;
use ethportal_api::{
    consensus::historical_summaries::HistoricalSummaries,
    light_client::{
        finality_update::{LightClientFinalityUpdate, LightClientFinalityUpdateElectra},
        optimistic_update::{LightClientOptimisticUpdate, LightClientOptimisticUpdateElectra},
        update::{LightClientUpdate, LightClientUpdateElectra},
    },
    types::{
        content_key::beacon::HistoricalSummariesWithProofKey,
        jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
    },
    BeaconContentKey,
};
use serde_json::json;
use spec::beacon;
use ssz::{Decode, Encode};
use std::sync::Arc;
use tokio::sync::{mpsc, RwLock};
use trin_validation::{
    chain_head::ChainHead,
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
    oracle::HeaderOracle,
};
use vc::{check, check_eq, Ctx};

const CAPELLA: u64 = 194_048 * 32;

fn list(n: usize, salt: u8) -> HistoricalSummaries {
    let raw: Vec<u8> = (0..n).flat_map(|i| [spec::merkle::sha256(&[salt, i as u8, (i >> 8) as u8, 0]), spec::merkle::sha256(&[salt, i as u8, (i >> 8) as u8, 1])].concat()).collect();
    HistoricalSummaries::from_ssz_bytes(&raw).expect("summaries decode")
}

fn query_slots(n: u64) -> Vec<u64> {
    let mut q = vec![0, 1, CAPELLA - 8192, CAPELLA - 1, CAPELLA, CAPELLA + 1, CAPELLA + 8191, CAPELLA + 8192, u64::MAX];
    for k in [n.saturating_sub(1), n, n + 1, n + 2, n + 3] {
        q.extend([CAPELLA + k * 8192, CAPELLA + k * 8192 + 8191]);
    }
    q
}

enum Op {
    Full(Update, LightClientUpdate),
    Finality(Update, LightClientFinalityUpdate),
    Optimistic(Update, LightClientOptimisticUpdate),
    Summaries(usize, u8),
}

pub fn v08(ctx: &Ctx) {
    let base = ChainHead::new_pectra_defaults();
    let start = base.latest_beacon_header();
    let len = (0..).find(|i| base.historical_summary(CAPELLA + i * 8192).is_none()).unwrap();
    let s0 = start.slot;
    if len < 2 || base.finalized_beacon_header() != start {
        vc::engine_error("unexpected default chain head");
    }
    let initial: Vec<_> = (0..len).map(|i| base.historical_summary(CAPELLA + i * 8192).unwrap()).collect();
    // Around the starting slot and above, with forks at the same slot.
    let u = |att: u64, fin: u64, salt: u8| Update::honest(att, fin, att + 1, 400, salt);
    let full = |x: Update| {
        let t = LightClientUpdate::Electra(LightClientUpdateElectra::from_ssz_bytes(&x.wire(3).encode()[4..]).unwrap());
        Op::Full(x, t)
    };
    let fin = |x: Update| {
        let t = LightClientFinalityUpdate::Electra(LightClientFinalityUpdateElectra::from_ssz_bytes(&x.wire(3).finality()[4..]).unwrap());
        Op::Finality(x, t)
    };
    let opt = |x: Update| {
        let t = LightClientOptimisticUpdate::Electra(LightClientOptimisticUpdateElectra::from_ssz_bytes(&x.wire(3).optimistic()[4..]).unwrap());
        Op::Optimistic(x, t)
    };
    let ops = vec![
        full(u(s0 + 100, s0 + 20, 1)),
        full(u(s0 + 50, s0 + 30, 2)),
        full(u(s0, s0, 3)),
        fin(u(s0 + 100, s0 + 30, 4)),
        fin(u(s0 + 200, s0 + 10, 5)),
        fin(u(s0 - 1, s0 - 1, 6)),
        opt(u(s0 + 200, s0 + 40, 7)),
        opt(u(s0 + 1, s0, 8)),
        opt(u(s0 + 50, s0, 9)),
        Op::Summaries(len as usize + 1, 1),
        Op::Summaries(len as usize + 1, 2),
        Op::Summaries(len as usize + 2, 3),
        Op::Summaries(len as usize, 4),
        Op::Summaries(0, 5),
    ];
    for length in 1..=ctx.b(3, 5) {
        ctx.explore(&format!("{length} updates of the chain head"), |ch| {
            let head = ChainHead::new_pectra_defaults();
            let other = head.clone();
            let mut latest = start.clone();
            let mut finalized = start.clone();
            let mut known: (usize, u8) = (len as usize, 0);
            for _ in 0..length {
                let i = ch.pick(ops.len());
                let mut see = |a: Option<&Header>, f: Option<&Header>| {
                    if let Some(h) = a.filter(|h| h.slot > latest.slot) {
                        latest = typed(h);
                    }
                    if let Some(h) = f.filter(|h| h.slot > finalized.slot) {
                        finalized = typed(h);
                    }
                };
                match &ops[i] {
                    Op::Full(x, t) => {
                        head.process_update(t.clone());
                        see(Some(&x.attested), Some(&x.finalized.as_ref().unwrap().0));
                    }
                    Op::Finality(x, t) => {
                        head.process_finality_update(t.clone());
                        see(Some(&x.attested), Some(&x.finalized.as_ref().unwrap().0));
                    }
                    Op::Optimistic(x, t) => {
                        head.process_optimistic_update(t.clone());
                        see(Some(&x.attested), None);
                    }
                    Op::Summaries(n, salt) => {
                        head.update_historical_summaries(list(*n, *salt));
                        if *n > known.0 {
                            known = (*n, *salt);
                        }
                    }
                }
                ch.note(|| format!("update {i}"));
                ch.steps(1);
            }
            check_eq!(head.latest_beacon_header(), latest, "the latest header");
            check_eq!(head.finalized_beacon_header(), finalized, "the finalized header");
            check_eq!(other.latest_beacon_header(), latest, "the latest header of a clone");
            let want: Vec<_> = if known.1 == 0 { initial.clone() } else { list(known.0, known.1).iter().cloned().collect() };
            for slot in query_slots(len) {
                let w = slot.checked_sub(CAPELLA).and_then(|d| want.get((d / 8192) as usize)).cloned();
                check_eq!(head.historical_summary(slot), w, "the summary for slot {slot}");
            }
            ch.state(&(latest.slot, finalized.slot, known));
            Ok(())
        });
    }
    // The provider over a fixed list.
    ctx.explore("a provider with a fixed list", |ch| {
        let n = ch.pick(4);
        let l = list(n, 1);
        let p = HistoricalSummariesProvider::new(HistoricalSummariesSource::HistoricalSummaries(l.clone()));
        for _ in 0..2 {
            let slot = *ch.choose(&query_slots(n as u64));
            let got = block_on(p.get_historical_summary(slot)).ok();
            let w = slot.checked_sub(CAPELLA).and_then(|d| l.get((d / 8192) as usize)).cloned();
            ch.eval();
            check_eq!(got, w, "the summary for slot {slot} from a list of {n}");
            ch.outcome(&(n, slot, w.is_some()));
        }
        Ok(())
    });
    // The provider over the node's own content: the content grows, and may be missing.
    ctx.explore("a provider over the node's own content", |ch| {
        let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
        let oracle = HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..HeaderOracle::default() };
        let p = HistoricalSummariesProvider::new(HistoricalSummariesSource::HeaderOracle(Arc::new(RwLock::new(oracle))));
        let p = [p.clone(), p];
        let truth = list(6, 1);
        let mut cached = 0;
        let mut have = 1;
        for step in 0..ctx.b(3, 4) {
            have += 2 * ch.pick(2);
            let answer = ch.pick(3);
            let slot = *ch.choose(&[CAPELLA - 1, CAPELLA + 5, CAPELLA + 8192, CAPELLA + 2 * 8192 + 8191, CAPELLA + 4 * 8192, CAPELLA + 7 * 8192]);
            let which = &p[step % 2];
            let part = list(have.min(6), 1);
            let value = beacon::summaries(beacon::ELECTRA, slot / 32, &part.as_ssz_bytes(), &[7; 192]);
            let (got, asked) = block_on(async {
                let work = which.get_historical_summary(slot);
                tokio::pin!(work);
                let mut asked = vec![];
                loop {
                    tokio::select! {
                        biased;
                        got = &mut work => return (got, asked),
                        Some(req) = rx.recv() => {
                            if let BeaconEndpoint::LocalContent(k) = req.endpoint {
                                asked.push(k);
                            }
                            let _ = req.resp.send(match answer {
                                0 => Ok(json!(Bytes::from(value.clone()))),
                                1 => Err("content not found".to_owned()),
                                _ => Ok(json!(Bytes::from(vec![1, 2, 3]))),
                            });
                        }
                    }
                }
            });
            ch.eval();
            let index = slot.checked_sub(CAPELLA).map(|d| (d / 8192) as usize);
            // Cached entries need no lookup; the rest is what the node holds now.
            let reach = if index.is_some_and(|i| i < cached) { cached } else if answer == 0 { have.min(6) } else { 0 };
            let w = index.filter(|i| *i < reach).map(|i| truth[i].clone());
            ch.note(|| format!("slot {slot}, node holds {have}, answer {answer}: {got:?}, asked {asked:?}"));
            check_eq!(got.ok(), w, "the summary for slot {slot} with {have} held and {cached} remembered, answer {answer}");
            for k in &asked {
                check_eq!(*k, BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: slot / 32 }), "the content asked for");
            }
            check!(index.is_some() || asked.is_empty(), "a lookup for a slot before Capella");
            if w.is_some() && reach > cached {
                cached = reach;
            }
            ch.state(&(cached, have));
        }
        Ok(())
    });
}
