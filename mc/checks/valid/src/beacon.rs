//! Validation of beacon content against the light client's view.
use crate::{chain::*, headers::block_on};
use alloy::primitives::B256;
use ethportal_api::types::{
    content_key::beacon::{
        HistoricalSummariesWithProofKey, LightClientBootstrapKey, LightClientFinalityUpdateKey, LightClientOptimisticUpdateKey, LightClientUpdatesByRangeKey,
    },
    jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
};
use ethportal_api::BeaconContentKey;
use serde_json::{json, Value};
use spec::{
    beacon,
    merkle::{node, sha256, with_length, Root, Tree},
};
use std::sync::Arc;
use tokio::sync::{mpsc, RwLock};
use trin_beacon::validation::BeaconValidator;
use trin_validation::{
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};
use vc::{check_eq, Ch, Ctx, Res};

/// What the light client answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum View {
    Known,
    Error,
    Dropped,
    WrongShape,
    NoNetwork,
    Gone,
}

const VIEWS: [View; 6] = [View::Known, View::Error, View::Dropped, View::WrongShape, View::NoNetwork, View::Gone];

fn validate(view: View, known: impl Fn(&BeaconEndpoint) -> Value, key: &BeaconContentKey, value: &[u8]) -> ValidationResult {
    let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
    let mut oracle = HeaderOracle::default();
    if view != View::NoNetwork {
        oracle.beacon_jsonrpc_tx = Some(tx);
    }
    let v = BeaconValidator::new(Arc::new(RwLock::new(oracle)));
    block_on(async {
        if view == View::Gone {
            rx.close();
        }
        let work = v.validate_content(key, value);
        tokio::pin!(work);
        loop {
            tokio::select! {
                biased;
                got = &mut work => return got,
                Some(req) = rx.recv() => {
                    let reply = match view {
                        View::Known => Ok(known(&req.endpoint)),
                        View::Error => Err("not yet".to_owned()),
                        View::WrongShape => Ok(json!({"slot": "x"})),
                        _ => continue,
                    };
                    let _ = req.resp.send(reply);
                }
            }
        }
    })
}

fn verdict(ch: &mut Ch, what: String, got: ValidationResult, want: bool) -> Res {
    ch.eval();
    ch.note(|| format!("{what}: {got:?}"));
    check_eq!(got != ValidationResult::Invalid(String::new()) && !matches!(got, ValidationResult::Invalid(_)), want, "acceptance of {what}");
    if want {
        check_eq!(got, ValidationResult::CanonicallyValid, "verdict on {what}");
    }
    Ok(())
}

fn store() -> Store {
    let mut s = Store::new(Header::at(P + 64, 9), 0);
    s.next = Some(1);
    s
}

fn by_endpoint(s: &Store) -> impl Fn(&BeaconEndpoint) -> Value + '_ {
    move |e| match e {
        BeaconEndpoint::LightClientStore => json!(s.typed()),
        BeaconEndpoint::FinalizedHeader => json!(typed(&s.finalized)),
        BeaconEndpoint::FinalizedStateRoot => json!(B256::from(s.finalized.state)),
        _ => Value::Null,
    }
}

/// Values that do not decode.
fn mangled(ch: &mut Ch, what: &str, key: &BeaconContentKey, value: &[u8], s: &Store) -> Res {
    let mut bad: Vec<Vec<u8>> = vec![vec![], value[..4].to_vec(), value[..value.len() / 2].to_vec()];
    let mut v = value.to_vec();
    v[0] ^= 0x55;
    if !matches!(key, BeaconContentKey::HistoricalSummariesWithProof(_)) {
        bad.push(v);
    }
    for b in &bad {
        for view in [View::Known, View::Error] {
            verdict(ch, format!("{what} cut or mangled to {} bytes, {view:?}", b.len()), validate(view, by_endpoint(s), key, b), false)?;
        }
    }
    Ok(())
}

/// Updates around one that is right, with whether a light client in the state of `store` takes them.
fn variants() -> Vec<(String, Update)> {
    let g = genesis_root();
    let mut all = vec![
        ("honest".to_owned(), Update::honest(P + 200, P + 128, P + 201, 400, 5)),
        ("of the next period".to_owned(), Update::honest(P + PERIOD + 200, P + PERIOD + 128, P + PERIOD + 201, 342, 5)),
        ("of the period after".to_owned(), Update::honest(P + 2 * PERIOD + 200, P + 2 * PERIOD + 128, P + 2 * PERIOD + 201, 342, 5)),
        ("already known".to_owned(), Update::honest(P + 64, P, P + 65, 400, 5)),
        ("one signature".to_owned(), Update::honest(P + 200, P + 128, P + 201, 1, 5)),
        ("no signature".to_owned(), Update::honest(P + 200, P + 128, P + 201, 0, 5)),
        ("signed too early".to_owned(), Update::honest(P + 200, P + 128, P + 200, 400, 5)),
    ];
    let honest = all[0].1.clone();
    let mut change = |name: &str, f: &dyn Fn(&mut Update)| {
        let mut u = honest.clone();
        f(&mut u);
        all.push((name.to_owned(), u));
    };
    change("signature edited", &|u| u.signature[90] ^= 1);
    change("signed by the next committee", &|u| u.sign(1, ELECTRA, &g));
    change("signed for Deneb", &|u| u.sign(0, DENEB, &g));
    change("signed for another chain", &|u| u.sign(0, ELECTRA, &[1; 32]));
    change("attested header edited", &|u| u.attested.body[0] ^= 1);
    change("finality branch edited", &|u| u.finalized.as_mut().unwrap().1[6][0] ^= 1);
    change("finalized header edited", &|u| u.finalized.as_mut().unwrap().0.parent[0] ^= 1);
    change("committee branch edited", &|u| u.next.as_mut().unwrap().1[5][0] ^= 1);
    change("another next committee", &|u| u.next.as_mut().unwrap().0 = 4);
    all
}

fn summary_list(n: usize) -> (Vec<u8>, Root) {
    let mut raw = vec![];
    let mut leaves = vec![];
    for i in 0..n {
        let (a, b) = (sha256(&[1, i as u8]), sha256(&[2, i as u8]));
        raw.extend([a, b].concat());
        leaves.push(node(&a, &b));
    }
    (raw, with_length(Tree::new(&leaves, 24).root(), n))
}

pub fn v07(ctx: &Ctx) {
    let s = store();
    let now = P + 2 * PERIOD + 300;
    ctx.explore("bootstraps", |ch| {
        const MONTHS: u64 = 4 * 30 * 7200;
        vc::clock::start(GENESIS_TIME + 12 * now + ch.pick(2) as u64 * 11);
        let slot = *ch.choose(&[now, now - 1, now - MONTHS + 1, now - MONTHS, now - MONTHS - 1, now - 2 * MONTHS, 0, now + 1, P + 64]);
        let fork = *ch.choose(&[beacon::ELECTRA, beacon::ELECTRA - 1]);
        let header = Header::at(slot, 9);
        // The known finalized header: this one, or one that differs in one field.
        let mut known = s.clone();
        known.finalized = header.clone();
        let differs = ch.pick(6);
        match differs {
            0 => {}
            1 => known.finalized.slot ^= 1,
            2 => known.finalized.proposer ^= 1,
            3 => known.finalized.parent[0] ^= 1,
            4 => known.finalized.state[31] ^= 1,
            _ => known.finalized.body[9] ^= 1,
        }
        let view = *ch.choose(&VIEWS);
        let b = beacon::Bootstrap::at(fork, header.clone());
        let value = b.encode();
        let key = BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: header.root() });
        let want = slot >= now - MONTHS && (view != View::Known || differs == 0);
        verdict(ch, format!("a bootstrap at {slot}, now {now}, known header differs in {differs}, {view:?}"), validate(view, by_endpoint(&known), &key, &value), want)?;
        if want && differs == 0 {
            mangled(ch, "a bootstrap", &key, &value, &known)?;
        }
        ch.outcome(&("bootstrap", slot, fork, view, differs, want));
        vc::clock::stop();
        Ok(())
    });
    let all = variants();
    let wire: Vec<[(Vec<u8>, Vec<u8>, Vec<u8>); 2]> = all
        .iter()
        .map(|(_, u)| [beacon::ELECTRA, beacon::ELECTRA - 1].map(|f| (u.wire(f).encode(), u.wire(f).finality(), u.wire(f).optimistic())))
        .collect();
    let fine = |u: &Update| s.broken_rules(u, now, ELECTRA, &genesis_root()).is_empty();
    ctx.explore("batches of updates", |ch| {
        let first = ch.pick(all.len());
        vc::clock::start(GENESIS_TIME + 12 * now);
        let size = ch.pick(4);
        let mut batch: Vec<(usize, usize)> = vec![];
        if size > 0 {
            batch.push((first, ch.pick(2)));
        }
        if size > 1 {
            batch.push((ch.pick(all.len()), 0));
        }
        if size > 2 {
            batch.push((*ch.choose(&[0, 1, 7]), 0));
        }
        let count = *ch.choose(&[0u64, 1, 2, 3, 4, u64::MAX]);
        let view = *ch.choose(if size > 1 { &VIEWS[..2] } else { &VIEWS[..] });
        let items: Vec<Vec<u8>> = batch.iter().map(|(i, f)| wire[*i][*f].0.clone()).collect();
        let value = beacon::range(&items);
        let key = BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: P / PERIOD, count });
        let good = batch.iter().all(|(i, f)| *f == 0 && fine(&all[*i].1));
        let want = count == size as u64 && (view != View::Known || good);
        let names: Vec<_> = batch.iter().map(|(i, f)| (&all[*i].0, f)).collect();
        verdict(ch, format!("updates {names:?} under count {count}, {view:?}"), validate(view, by_endpoint(&s), &key, &value), want)?;
        ch.outcome(&("updates", batch.clone(), count, view, want));
        vc::clock::stop();
        Ok(())
    });
    ctx.explore("finality and optimistic updates", |ch| {
        let i = ch.pick(all.len());
        let u = &all[i].1;
        let optimistic = ch.flag();
        let fork = ch.pick(2);
        let view = *ch.choose(&VIEWS);
        // The clock: far ahead, at the signature slot, one before it.
        let now = match ch.pick(3) {
            0 => now,
            1 => u.signature_slot,
            _ => u.signature_slot - 1,
        };
        vc::clock::start(GENESIS_TIME + 12 * now);
        let own = if optimistic { u.signature_slot } else { u.finalized.as_ref().unwrap().0.slot };
        let asked = *ch.choose(&[own, own - 1, own + 1, 0, u64::MAX]);
        let value = if optimistic { &wire[i][fork].2 } else { &wire[i][fork].1 };
        let (key, key_ok, u) = if optimistic {
            (BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: asked }), asked == own, u.as_optimistic())
        } else {
            (BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: asked }), asked <= own, u.as_finality())
        };
        let good = s.broken_rules(&u, now, ELECTRA, &genesis_root()).is_empty();
        let want = fork == 0 && key_ok && (view != View::Known || good);
        let what = format!("{} update ({}) of slot {own} under {asked} at {now}, fork choice {fork}, {view:?}", if optimistic { "an optimistic" } else { "a finality" }, all[i].0);
        verdict(ch, what, validate(view, by_endpoint(&s), &key, value), want)?;
        if want && i == 0 {
            mangled(ch, "an update", &key, value, &s)?;
        }
        ch.outcome(&(optimistic, i, fork, view, asked, want));
        vc::clock::stop();
        Ok(())
    });
    ctx.explore("historical summaries", |ch| {
        vc::clock::start(GENESIS_TIME + 12 * now);
        let n = ch.pick(4);
        let (raw, root) = summary_list(n);
        let mut l: Vec<Root> = (0..37).map(|i| sha256(&[33, i])).collect();
        l[27] = root;
        let tree = Tree::new(&l, 6);
        let mut known = s.clone();
        known.finalized.state = tree.root();
        let mut proof = tree.branch(27).concat();
        let mut raw = raw;
        let mut good = true;
        let change = ch.pick(12);
        match change {
            0 => {}
            c @ 1..=6 => {
                proof[32 * (c - 1) + 5 * (c - 1)] ^= 1;
                good = false;
            }
            7 => {
                if n > 0 {
                    raw[64 * (n - 1) + 3] ^= 1;
                    good = false;
                }
            }
            8 => {
                if n > 0 {
                    raw[63] ^= 0x80;
                    good = false;
                }
            }
            9 => {
                raw.extend([0; 64]);
                good = false;
            }
            10 => {
                if n > 0 {
                    raw.truncate(64 * (n - 1));
                    good = false;
                }
            }
            _ => {
                known.finalized.state[0] ^= 1;
                good = false;
            }
        }
        let view = *ch.choose(&VIEWS);
        let epoch = P / 32;
        let asked = *ch.choose(&[epoch, epoch - 1, epoch + 1, 0]);
        let value = beacon::summaries(beacon::ELECTRA, epoch, &raw, &proof);
        let key = BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: asked });
        let want = asked == epoch && (view != View::Known || good);
        verdict(ch, format!("{n} summaries, change {change}, epoch {epoch} under {asked}, {view:?}"), validate(view, by_endpoint(&known), &key, &value), want)?;
        if want && change == 0 && n > 0 {
            mangled(ch, "summaries", &key, &value, &known)?;
        }
        ch.outcome(&("summaries", n, change, view, asked, want));
        vc::clock::stop();
        Ok(())
    });
}
