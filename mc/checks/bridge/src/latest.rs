//! What the beacon bridge offers, and when.

use std::{cell::RefCell, rc::Rc, time::Duration};

use alloy::primitives::B256;
use ethereum_rpc_client::consensus::ConsensusApi;
use ethportal_api::{
    light_client::update::LightClientUpdateElectra,
    types::{distance::Distance, network::Subnetwork, portal_wire::OfferTrace},
};
use reqwest::fake::Reply;
use spec::{
    beacon::{self, Bootstrap, Header, Update, ELECTRA},
    chain::State,
    short,
};
use ssz::Decode;
use vc::{check, check_eq, Ctx, Res};

use crate::{
    bridge::beacon::BeaconBridge,
    known::{Account, Event, CODES},
    peers::{id, record},
    types::mode::BridgeMode,
    world::{self, fine, json, now, ssz, until, Offered, Shared},
};

const NET: Subnetwork = Subnetwork::Beacon;
const GENESIS: u64 = 1_606_824_023;
const SLOT_MS: u64 = 12_000;
/// A slot of a time long after the last fork, at the start of a period of 8192 slots.
const BASE: u64 = 8192 * 1500;

/// One bootstrap, update and so on, by number.
fn root(n: u8) -> B256 {
    B256::from(spec::hash(n ^ 0x5a))
}
fn bootstrap(n: u8) -> Vec<u8> {
    Bootstrap::at(ELECTRA, Header::at(BASE + n as u64, n)).encode()
}
fn update(finalized: u64, n: u8) -> Update {
    Update::at(ELECTRA, Header::at(finalized + 64, n), Header::at(finalized, n ^ 1), finalized + 65 + n as u64)
}

/// Content as encoded for peers; providers leave out the leading digest.
fn plain(b: &[u8]) -> Vec<u8> {
    b[4..].to_vec()
}

/// An offer expected: when, key and value.
type Want = (u64, Vec<u8>, Vec<u8>);

fn key(selector: u8, rest: &[u8]) -> Vec<u8> {
    [&[selector], rest].concat()
}

/// Runs the bridge for a number of slots against a provider and compares the offers made with
/// those wanted. Both are told the time of the first update.
async fn serve(
    slots: u64,
    provider: impl Fn(u64, usize, &str) -> Option<Reply> + 'static,
    wanted: impl FnOnce(u64) -> Vec<Want>,
) -> Res {
    let (net, first) = launch(&[2], provider).await?;
    until(first + slots * SLOT_MS - 100).await;
    let mut want = wanted(first);
    want.retain(|w| w.0 < first + slots * SLOT_MS - 1000);
    let mut got: Vec<Want> =
        net.borrow().offers.iter().map(|o| (o.at, o.items[0].0.clone(), o.items[0].1.clone())).collect();
    got.sort();
    want.sort();
    let show = |l: &[Want]| -> Vec<String> {
        l.iter().map(|w| format!("{} ms: {} = {}", w.0 as i64 - first as i64, short(&w.1), short(&w.2))).collect()
    };
    let same = got.len() == want.len()
        && got.iter().zip(&want).all(|(g, w)| g.1 == w.1 && g.2 == w.2 && g.0 >= w.0 && g.0 <= w.0 + 500);
    check!(same, "offered {:#?}, expected {:#?}", show(&got), show(&want));
    check!(net.borrow().offers.iter().all(|o| o.network == NET && o.to == id(2)), "offered to others");
    Ok(())
}

/// Starts a bridge; the script of the provider gets the time since the first update is due, the
/// number of the slot, and what is asked for. Returns the time of the first update.
async fn launch(
    peers: &[u16],
    provider: impl Fn(u64, usize, &str) -> Option<Reply> + 'static,
) -> Result<(Shared, u64), String> {
    let net = world::network();
    for k in peers {
        net.borrow_mut().plan(id(*k), vec![fine(5, Distance::MAX)]);
    }
    net.borrow_mut().found.insert(NET, peers.iter().map(|k| record(*k, 5)).collect());
    let (mut census, overlays) = world::census(8);
    census.init([NET]).await.map_err(|e| format!("not started: {e}"))?;
    until(PREPARED).await;
    let first: Rc<RefCell<Option<u64>>> = Default::default();
    let told = first.clone();
    world::provider(move |url| {
        let Some(path) = url.strip_prefix("http://one.test") else { return None };
        let start = (*told.borrow())?;
        let t = now();
        if t < start {
            return None;
        }
        provider(t - start, ((t - start) / SLOT_MS) as usize, path)
    });
    let url = |s: &str| url::Url::parse(s).expect("an address");
    let api = ConsensusApi::new(url("http://one.test/"), url("http://two.test/"), 5).await.map_err(|e| e.to_string())?;
    let bridge = BeaconBridge::new(api, BridgeMode::Latest, overlays.beacon().expect("all"), census);
    // Updates are due four seconds into each slot.
    let t = world::unix_ms() - GENESIS * 1000;
    let wait = (SLOT_MS + 4000 - t % SLOT_MS) % SLOT_MS;
    *first.borrow_mut() = Some(now() + wait);
    tokio::spawn(async move { bridge.launch().await });
    Ok((net, now() + wait))
}

/// Milliseconds from the start of an execution to the start of the bridge.
const PREPARED: u64 = 100_000;

/// Unix time at which an execution starts so that the bridge starts in the given slot.
fn begin(slot: u64, into: u64) -> u64 {
    GENESIS + 12 * slot + into - PREPARED / 1000
}

const FINALIZED: &str = "/eth/v1/beacon/blocks/finalized/root";
const STATE_ROOT: &str = "/eth/v1/beacon/states/finalized/root";
const STATE: &str = "/eth/v2/debug/beacon/states/finalized";
const OPTIMISTIC: &str = "/eth/v1/beacon/light_client/optimistic_update";
const FINALITY: &str = "/eth/v1/beacon/light_client/finality_update";

fn root_reply(n: u8) -> Option<Reply> {
    json(format!("{{\"data\":{{\"root\":\"{}\"}}}}", root(n)), 100)
}

/// Root of the finalized block and failure (1: of the root, 2: of the bootstrap) in each slot.
fn bootstraps(slots: Vec<(u8, u8)>) -> Res {
    let model = slots.clone();
    world::run(7, begin(BASE, 2), move || {
        let script = slots.clone();
        serve(
            slots.len() as u64,
            move |_, k, path| {
                let (r, fails) = script[k.min(script.len() - 1)];
                match path {
                    FINALIZED if fails != 1 => root_reply(r),
                    _ => {
                        let n = (1..3).find(|n| path == format!("/eth/v1/beacon/light_client/bootstrap/{}", root(*n)))?;
                        if fails == 2 {
                            return None;
                        }
                        ssz(plain(&bootstrap(n)), 100)
                    }
                }
            },
            move |first| {
                let (mut want, mut busy, mut served) = (vec![], 0, 0);
                for k in 0..model.len() {
                    let t = k as u64 * SLOT_MS;
                    let (r, fails) = model[k];
                    if t < busy || fails == 1 || r == served {
                        continue;
                    }
                    // Asked for two slots later.
                    busy = t + 24_100;
                    let Some(then) = model.get(k + 2) else { continue };
                    if then.1 != 2 {
                        busy += 100;
                        served = r;
                        want.push((first + busy, key(0x10, &root(r).0), bootstrap(r)));
                    }
                }
                want
            },
        )
    })
}

pub fn b06(ctx: &Ctx) {
    ctx.explore("bootstraps", |ch| {
        let slots: Vec<(u8, u8)> = (0..ctx.b(4, 6)).map(|_| (ch.pick(2) as u8 + 1, ch.pick(3) as u8)).collect();
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        ch.note(|| format!("{slots:?}"));
        bootstraps(slots)
    });
    ctx.explore("more bootstraps", |ch| {
        // Chosen is only what the bridge should look at; it would find something else in between.
        let mut slots = vec![];
        let mut served = 0;
        while slots.len() < ctx.b(9, 12) {
            let r = ch.pick(3) as u8;
            slots.push((r.max(1), u8::from(r == 0)));
            if r > 0 && r != served {
                let fails = ch.flag();
                slots.extend([(3 - r, 0), (3 - r, if fails { 2 } else { 0 })]);
                if !fails {
                    served = r;
                }
            }
        }
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        ch.note(|| format!("{slots:?}"));
        bootstraps(slots)
    });
    ctx.explore("updates", |ch| {
        let slots: Vec<usize> = (0..ctx.b(4, 6)).map(|_| ch.pick(5)).collect();
        // The period ends after so many slots.
        let before = ch.pick(4) as u64;
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        ch.note(|| format!("{slots:?}, the period ends after {before}"));
        let period = move |k: usize| 1500 - u64::from((k as u64) < before);
        // In its period at the start and at the end, in the previous one, in the next one.
        let finalized = move |k: usize, kind: usize| match kind {
            0 if k % 2 == 0 => period(k) * 8192,
            0 => period(k) * 8192 + 8191,
            1 => period(k) * 8192 - 1,
            _ => (period(k) + 1) * 8192,
        };
        let model = slots.clone();
        world::run(7, begin(BASE - before, 2), move || {
            let script = slots.clone();
            serve(
                slots.len() as u64,
                move |_, k, path| {
                    let kind = *script.get(k)?;
                    if path != format!("/eth/v1/beacon/light_client/updates?start_period={}&count=1", period(k)) {
                        return None;
                    }
                    match kind {
                        3 => None,
                        4 => json("[{\"version\":\"electra\",\"data\":{}}]".into(), 100),
                        _ => {
                            let u = update(finalized(k, kind), k as u8);
                            let u = LightClientUpdateElectra::from_ssz_bytes(&plain(&u.encode())).expect("an update");
                            let u = serde_json::to_string(&u).expect("an update");
                            json(format!("[{{\"version\":\"electra\",\"data\":{u}}}]"), 100)
                        }
                    }
                },
                move |first| {
                    let (mut want, mut served) = (vec![], 0);
                    for (k, kind) in model.iter().enumerate() {
                        if *kind == 0 && served != period(k) {
                            served = period(k);
                            let value = beacon::range(&[update(finalized(k, 0), k as u8).encode()]);
                            let rest = [period(k).to_le_bytes(), 1u64.to_le_bytes()].concat();
                            want.push((first + k as u64 * SLOT_MS + 100, key(0x11, &rest), value));
                        }
                    }
                    want
                },
            )
        })
    });
    ctx.explore("finality updates", |ch| {
        let slots: Vec<usize> = (0..ctx.b(5, 7)).map(|_| ch.pick(4)).collect();
        let into = *ch.choose(&[0u64, 1, 2, 3, 11]);
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        let model = slots.clone();
        world::run(7, begin(BASE, into), move || {
            let script = slots.clone();
            serve(
                slots.len() as u64,
                move |_, k, path| match (path, script.get(k)?) {
                    (FINALITY, 3) => None,
                    (FINALITY, n) => ssz(plain(&update(BASE - 128 + 32 * *n as u64, k as u8).finality()), 100),
                    _ => None,
                },
                move |first| {
                    let (mut want, mut served) = (vec![], 0);
                    for (k, n) in model.iter().enumerate() {
                        let f = BASE - 128 + 32 * *n as u64;
                        if *n != 3 && f > served {
                            served = f;
                            let at = first + k as u64 * SLOT_MS + 100;
                            want.push((at, key(0x12, &f.to_le_bytes()), update(f, k as u8).finality()));
                        }
                    }
                    want
                },
            )
        })
    });
    ctx.explore("optimistic updates", |ch| {
        let slots: Vec<usize> = (0..ctx.b(5, 7)).map(|_| ch.pick(3)).collect();
        let into = *ch.choose(&[0u64, 2, 11]);
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        let model = slots.clone();
        let make = |k: usize, n: usize| update(BASE + if n == 0 { k as u64 } else { 0 }, n as u8);
        world::run(7, begin(BASE, into), move || {
            let script = slots.clone();
            serve(
                slots.len() as u64,
                move |_, k, path| match (path, script.get(k)?) {
                    (OPTIMISTIC, 2) => None,
                    (OPTIMISTIC, n) => ssz(plain(&make(k, *n).optimistic()), 100),
                    _ => None,
                },
                move |first| {
                    let of = |(k, n): (usize, &usize)| {
                        let u = make(k, *n);
                        let at = first + k as u64 * SLOT_MS + 100;
                        (at, key(0x13, &u.signature_slot.to_le_bytes()), u.optimistic())
                    };
                    model.iter().enumerate().filter(|o| *o.1 != 2).map(of).collect()
                },
            )
        })
    });
    let states: Vec<(Vec<u8>, Want)> = (1..3u8)
        .map(|n| {
            let mut s = State::new(ELECTRA, BASE + 64 * n as u64 + 31 * (n as u64 - 1));
            s.summaries = (0..n).map(|i| (spec::hash(i), spec::hash(i ^ 0x80))).collect();
            let epoch = s.slot / 32;
            let o = s.object();
            let roots: Vec<u8> = s.summaries.iter().flat_map(|(a, b)| [*a, *b].concat()).collect();
            let value = beacon::summaries(ELECTRA, epoch, &roots, &o.branch(27).concat());
            (o.encode(), (0, key(0x14, &epoch.to_le_bytes()), value))
        })
        .collect();
    ctx.explore("summaries", |ch| {
        let slots: Vec<(usize, usize)> = (0..ctx.b(3, 5)).map(|_| (ch.pick(2), ch.pick(3))).collect();
        let long = *ch.choose(&[100u64, 20_000]);
        ch.steps(slots.len() as u64);
        ch.state(&slots);
        ch.note(|| format!("state and failure (1: of the root, 2: of the state) in each slot: {slots:?}, {long} ms"));
        let (model, have) = (slots.clone(), states.clone());
        world::run(7, begin(BASE, 2), move || {
            let script = slots.clone();
            let give = have.clone();
            serve(
                slots.len() as u64 + 2,
                move |_, k, path| {
                    let (s, fails) = *script.get(k)?;
                    match path {
                        STATE_ROOT if fails != 1 => root_reply(s as u8 + 1),
                        STATE if fails != 2 => ssz(give[s].0.clone(), long),
                        _ => None,
                    }
                },
                move |first| {
                    let (mut want, mut busy, mut served) = (vec![], 0, 9);
                    for (k, (s, fails)) in model.iter().enumerate() {
                        let t = k as u64 * SLOT_MS;
                        if t < busy || *fails != 0 || *s == served {
                            continue;
                        }
                        served = *s;
                        busy = t + 100 + long;
                        want.push((first + busy, have[*s].1 .1.clone(), have[*s].1 .2.clone()));
                    }
                    want
                },
            )
        })
    });
    ctx.explore("results", |ch| {
        // How one of two peers reacts to every offer.
        let kind = ch.pick(11);
        let slots = ctx.b(60, 140);
        ch.steps(slots);
        ch.outcome(&kind);
        world::run(7, begin(BASE, 2), move || results(kind, slots))
    });
}

/// Every result counts for the peer that gave it, at the time it is known.
async fn results(kind: usize, slots: u64) -> Res {
    let (net, first) = launch(&[2, 3], move |t, k, path| {
        let _ = t;
        (path == OPTIMISTIC).then(|| ssz(plain(&update(BASE + k as u64, 1).optimistic()), 100)).flatten()
    })
    .await?;
    let (after, result, event) = match kind {
        0..=6 => (50, Ok(OfferTrace::Success(CODES[kind])), Event::Code(kind as u8)),
        7 => (50, Ok(OfferTrace::Failed), Event::Failed),
        8 => (50, Err("no connection"), Event::Failed),
        9 => (119_000, Ok(OfferTrace::Success(CODES[0])), Event::Code(0)),
        _ => (500_000, Ok(OfferTrace::Success(CODES[0])), Event::Failed),
    };
    net.borrow_mut().offer = Some(Rc::new(move |o| {
        if o.to == id(2) {
            Offered { after, result: result.clone().map_err(str::to_string) }
        } else {
            Offered { after: 10, result: Ok(OfferTrace::Success(CODES[0])) }
        }
    }));
    let mut account = Account::default();
    let mut offers = 0;
    for k in 0..slots {
        let at = first + k * SLOT_MS + 100;
        until(at - 50).await;
        // Results known by now.
        let known = Account {
            offers: account.offers.iter().filter(|(t, _)| *t <= at).cloned().collect(),
        };
        let checks: Vec<u64> = net.borrow().checks(id(2)).into_iter().filter(|t| *t <= at).collect();
        let before = net.borrow().offers.len();
        until(at + 50).await;
        let w = known.weight_at(at, &checks, false);
        let made: Vec<_> = net.borrow().offers[before..].iter().map(|o| (o.to, o.items[0].0.clone())).collect();
        let want = key(0x13, &update(BASE + k, 1).signature_slot.to_le_bytes());
        check!(made.iter().all(|m| m.1 == want), "offered in slot {k}");
        let mine = made.iter().filter(|m| m.0 == id(2)).count();
        check_eq!(mine, usize::from(w > 0), "offers to the peer of weight {w} in slot {k}");
        check_eq!(made.len() - mine, 1, "offers to the other peer in slot {k}");
        if w > 0 {
            offers += 1;
            account.offers.push((at + after.min(120_000), event));
        }
    }
    check!(offers > 0, "nothing was offered");
    let _ = Duration::ZERO;
    Ok(())
}
