//! What the bridge knows about its peers: when it checks them, when it forgets them, and which of
//! them it chooses to receive content.

use std::time::Duration;

use alloy::primitives::U256;
use discv5::enr::NodeId;
use ethportal_api::types::{
    accept_code::AcceptCode,
    client_type::ClientType,
    distance::Distance,
    network::Subnetwork,
    ping_extensions::{
        extension_types::PingExtensionType,
        extensions::{
            type_1::BasicRadius,
            type_2::HistoryRadius,
            type_65535::{ErrorCodes, PingError},
        },
    },
    portal_wire::{CustomPayload, OfferTrace},
};
use vc::{check, check_eq, fail, Ctx, Res};

use crate::{
    census::{Census, CensusError},
    peers::{id, record, xor, TestKey},
    world::{self, capabilities, fine, now, pong, until, Alive, Shared, DEAD, START},
};

const NET: Subnetwork = Subnetwork::LegacyHistory;
/// Seconds between checks of a peer.
const DUE: u64 = 300_000;
const FORGET: usize = 10;

/// Peers known, as (node number, sequence number of the record, client).
fn known(census: &Census, network: Subnetwork, nodes: &[u16]) -> Result<Vec<(u16, u64, ClientType)>, String> {
    let mut l = match census.select_random_peers(network) {
        Ok(l) => {
            check!(!l.is_empty(), "peers are known but none of them can be chosen");
            l
        }
        Err(CensusError::NoPeers) => vec![],
        Err(e) => fail!("choosing failed: {e}"),
    };
    l.sort_by_key(|p| p.enr.node_id().raw());
    let mut out = vec![];
    for p in l {
        let Some(k) = nodes.iter().find(|k| id(**k) == p.enr.node_id()) else { fail!("unknown peer {}", p.enr) };
        out.push((*k, p.enr.seq(), p.client_type));
    }
    out.sort_by_key(|o| o.0);
    Ok(out)
}

fn ids(l: &[(u16, u64, ClientType)]) -> Vec<u16> {
    l.iter().map(|p| p.0).collect()
}

async fn start(limit: usize, net: &Shared, found: &[u16]) -> Result<Census, String> {
    let (mut census, _) = world::census(limit);
    net.borrow_mut().found.insert(NET, found.iter().map(|k| record(*k, 5)).collect());
    begin(&mut census, &[NET]).await?;
    Ok(census)
}

/// Starts the census; with peers that can be found this does not take long.
async fn begin(census: &mut Census, networks: &[Subnetwork]) -> Res {
    match tokio::time::timeout(Duration::from_secs(3600), census.init(networks.iter().copied())).await {
        Ok(r) => r.map(|_| ()).map_err(|e| format!("not started: {e}")),
        Err(_) => fail!("still not started after an hour"),
    }
}

fn result(ok: bool) -> Alive {
    if ok {
        fine(5, Distance::MAX)
    } else {
        DEAD
    }
}

/// Does this history of results end in a forgotten peer?
fn gone(results: &[bool]) -> bool {
    results.len() >= FORGET && results[results.len() - FORGET..].iter().all(|r| !r)
}

pub fn b03(ctx: &Ctx) {
    let len = ctx.b(11, 14);
    ctx.explore("one peer", |ch| {
        let mut results = vec![true];
        while results.len() <= len && !gone(&results) {
            results.push(ch.flag());
        }
        ch.outcome(&results);
        ch.state(&results);
        ch.steps(results.len() as u64);
        let run = results.clone();
        world::run(7, START, move || one_peer(run))
    });
    let len = ctx.b(4, 6);
    ctx.explore("two peers", |ch| {
        let a: Vec<bool> = (0..len).map(|_| ch.flag()).collect();
        let b: Vec<bool> = (0..len).map(|_| ch.flag()).collect();
        let later = ch.pick(3) as u64;
        ch.steps(2 * len as u64);
        ch.outcome(&(a.clone(), b.clone()));
        world::run(7, START, move || two_peers(a, b, later))
    });
    ctx.explore("long failures", |ch| {
        // Failures, a success, and then only failures.
        let shape = |k: usize| {
            let mut l = vec![false; k];
            l.push(true);
            l.extend([false; FORGET]);
            l
        };
        let (a, b) = (ch.pick(FORGET), ch.pick(FORGET));
        let later = ch.pick(2) as u64;
        ch.steps(2 * FORGET as u64);
        ch.outcome(&(a, b));
        world::run(7, START, move || two_peers(shape(a), shape(b), later))
    });
    ctx.explore("found again", |ch| {
        let results: Vec<bool> = (0..ctx.b(3, 5)).map(|_| ch.flag()).collect();
        let seq = 4 + ch.pick(3) as u64;
        let lookup = *ch.choose(&[0u64, 1000, 7000, 59_000]);
        let ping = *ch.choose(&[0u64, 500]);
        let seed = ch.pick(ctx.b(2, 8)) as u64;
        ch.steps(results.len() as u64);
        ch.outcome(&(lookup, ping, seq));
        world::run(seed, START, move || found_again(results, seq, lookup, ping))
    });
}

async fn one_peer(results: Vec<bool>) -> Res {
    let net = world::network();
    net.borrow_mut().plan(id(2), results.iter().map(|r| result(*r)).collect());
    let census = start(8, &net, &[2]).await?;
    net.borrow_mut().found.clear();
    let first = net.borrow().checks(id(2));
    check_eq!(first.len(), 1, "checks while the peer is being found");
    for k in 1..results.len() {
        let due = first[0] + k as u64 * DUE;
        until(due - 1).await;
        check_eq!(net.borrow().checks(id(2)).len(), k, "checks before check {k} is due");
        until(due + 5000).await;
        let checks = net.borrow().checks(id(2));
        check_eq!(checks.len(), k + 1, "checks once check {k} was due, at {due}");
        check!(checks[k] >= due && checks[k] <= due + 2000, "check {k} came at {} instead of {due}", checks[k]);
        let want: Vec<u16> = if gone(&results[..=k]) { vec![] } else { vec![2] };
        check_eq!(ids(&known(&census, NET, &[2])?), want, "peers known after {:?}", &results[..=k]);
    }
    if !gone(&results) {
        return Ok(());
    }
    // Forgotten: not checked any more, and a stranger when found again.
    let made = net.borrow().checks(id(2)).len();
    until(now() + 2 * DUE).await;
    check_eq!(net.borrow().checks(id(2)).len(), made, "checks of a forgotten peer");
    check!(known(&census, NET, &[2])?.is_empty(), "a forgotten peer came back by itself");
    net.borrow_mut().plan(id(2), vec![result(true), DEAD]);
    net.borrow_mut().found.insert(NET, vec![record(2, 5)]);
    until(now() + 120_000).await;
    net.borrow_mut().found.clear();
    let checks = net.borrow().checks(id(2));
    check_eq!(checks.len(), made + 1, "checks of a peer found again");
    for k in 1..=FORGET {
        let want: Vec<u16> = vec![2];
        check_eq!(ids(&known(&census, NET, &[2])?), want, "peers known after {} failures", k - 1);
        until(checks[made] + k as u64 * DUE + 5000).await;
    }
    check!(known(&census, NET, &[2])?.is_empty(), "still known after ten failures in a row");
    Ok(())
}

/// The second peer joins some minutes later; both keep their own counts and times.
async fn two_peers(a: Vec<bool>, b: Vec<bool>, later: u64) -> Res {
    let net = world::network();
    let plan = |l: &[bool]| [&[true], l].concat();
    let (a, b) = (plan(&a), plan(&b));
    net.borrow_mut().plan(id(2), a.iter().map(|r| result(*r)).collect());
    net.borrow_mut().plan(id(3), b.iter().map(|r| result(*r)).collect());
    let census = start(8, &net, &[2]).await?;
    net.borrow_mut().found.clear();
    until(now() + 30_000 + later * 60_000).await;
    net.borrow_mut().found.insert(NET, vec![record(3, 5)]);
    until(now() + 60_000).await;
    net.borrow_mut().found.clear();
    let first = [net.borrow().checks(id(2))[0], net.borrow().checks(id(3))[0]];
    let count = |k: usize, t: u64| if t < first[k] { 0 } else { ((t - first[k]) / DUE + 1) as usize };
    let rounds = a.len();
    for round in 1..rounds {
        for (me, other) in [(0, 1), (1, 0)] {
            let results = [&a, &b];
            until((first[me] + round as u64 * DUE + 5000).max(now())).await;
            let t = now() - 5000;
            let mut want = vec![];
            for (k, node) in [(me, 2 + me as u16), (other, 2 + other as u16)] {
                let n = count(k, t).min(results[k].len());
                let end = (1..=n).find(|n| gone(&results[k][..*n]));
                if end.is_none() {
                    want.push(node);
                }
                if count(k, t) <= results[k].len() {
                    let made = net.borrow().checks(id(node)).len();
                    check_eq!(made, end.unwrap_or(n), "checks of peer {k} in round {round}");
                }
            }
            want.sort();
            if count(other, t) <= results[other].len() {
                check_eq!(ids(&known(&census, NET, &[2, 3])?), want, "peers known in round {round}");
            }
        }
    }
    Ok(())
}

/// Lookups keep finding the peer, with an older, the same or a newer record.
async fn found_again(results: Vec<bool>, seq: u64, lookup: u64, ping: u64) -> Res {
    let net = world::network();
    let results = [&[true], &results[..]].concat();
    net.borrow_mut().plan(id(2), results.iter().map(|r| result(*r)).collect());
    let census = start(8, &net, &[2]).await?;
    net.borrow_mut().found.insert(NET, vec![record(2, seq)]);
    net.borrow_mut().lookup_ms = lookup;
    net.borrow_mut().ping_ms = ping;
    let slack = lookup + 2 * ping + 1000;
    let mut last = net.borrow().checks(id(2))[0];
    for k in 1..results.len() {
        until(last + DUE - 1).await;
        check_eq!(net.borrow().checks(id(2)).len(), k, "checks before check {k} is due");
        until(last + DUE + slack).await;
        let checks = net.borrow().checks(id(2));
        check_eq!(checks.len(), k + 1, "checks once check {k} was due");
        check!(checks[k] >= last + DUE, "check {k} came {} ms after the previous one", checks[k] - last);
        last = checks[k];
        let l = known(&census, NET, &[2])?;
        check_eq!(ids(&l), vec![2], "peers known");
        check!(l[0].1 >= 5, "record {} replaced record 5", l[0].1);
    }
    Ok(())
}

/// How a peer answers a check, relative to the record `seq` it is asked with.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Silent,
    Same,
    Older,
    Newer,
    NewerWithOthers,
    NewerStale,
    NewerOutdated,
    NewerSilent,
    NewerNone,
    NewerOther,
    Unnamed,
    Basic,
    History,
    Error,
    Unsupported,
    Garbage,
}
const HOWS: [How; 16] = [
    How::Silent,
    How::Same,
    How::Older,
    How::Newer,
    How::NewerWithOthers,
    How::NewerStale,
    How::NewerOutdated,
    How::NewerSilent,
    How::NewerNone,
    How::NewerOther,
    How::Unnamed,
    How::Basic,
    How::History,
    How::Error,
    How::Unsupported,
    How::Garbage,
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Known {
    seq: u64,
    client: Option<&'static str>,
    radius: usize,
}

fn distance(b: [u8; 32]) -> Distance {
    Distance::from(U256::from_be_bytes(b))
}

/// Distance of the nearer of the two keys used.
fn near() -> [u8; 32] {
    let mut b = [0x11; 32];
    b[0] = 0;
    b
}

fn radius(n: usize) -> Distance {
    match n {
        0 => distance({
            let mut b = near();
            b[31] -= 1;
            b
        }),
        1 => distance(near()),
        _ => Distance::MAX,
    }
}

/// The answer, and what is known afterwards if the check passes.
fn how(node: u16, h: How, seq: u64, step: usize) -> (Alive, Option<Known>) {
    let r = (2 * step + h as usize) % 3;
    let client = ["trin", "fluffy", "shisui"][(step + h as usize) % 3];
    let caps = |seq, name| pong(seq, PingExtensionType::Capabilities, capabilities(name, radius(r)));
    let pass = |seq| Some(Known { seq, client: Some(client), radius: r });
    let newer = seq + 1;
    let own = record(node, newer);
    let (p, fetched, after) = match h {
        How::Silent => (None, None, None),
        How::Same => (Some(caps(seq, Some(client))), None, pass(seq)),
        How::Older => (Some(caps(seq - 1, Some(client))), None, pass(seq)),
        How::Newer => (Some(caps(newer, Some(client))), Some(vec![own]), pass(newer)),
        How::NewerWithOthers => {
            (Some(caps(newer, Some(client))), Some(vec![record(9, 1), own, record(8, 3)]), pass(newer))
        }
        How::NewerStale => (Some(caps(newer, Some(client))), Some(vec![record(node, seq)]), pass(seq)),
        How::NewerOutdated => (Some(caps(newer, Some(client))), Some(vec![record(node, seq - 1)]), pass(seq)),
        How::NewerSilent => (Some(caps(newer, Some(client))), None, None),
        How::NewerNone => (Some(caps(newer, Some(client))), Some(vec![]), None),
        How::NewerOther => (Some(caps(newer, Some(client))), Some(vec![record(9, newer)]), None),
        How::Unnamed => (Some(caps(seq, None)), None, Some(Known { seq, client: None, radius: r })),
        How::Basic => {
            let e: CustomPayload = BasicRadius::new(radius(r)).into();
            (Some(pong(seq, PingExtensionType::BasicRadius, e)), None, None)
        }
        How::History => {
            let e: CustomPayload = HistoryRadius::new(radius(r), 3).into();
            (Some(pong(seq, PingExtensionType::HistoryRadius, e)), None, None)
        }
        How::Error => {
            let e: CustomPayload = PingError::new(ErrorCodes::SystemError).into();
            (Some(pong(seq, PingExtensionType::Error, e)), None, None)
        }
        How::Unsupported => {
            let e = capabilities(Some(client), radius(r));
            (Some(pong(seq, PingExtensionType::NonSupportedExtension(42), e)), None, None)
        }
        How::Garbage => {
            let e = CustomPayload::from(vec![1u8, 2, 3]);
            (Some(pong(seq, PingExtensionType::Capabilities, e)), None, None)
        }
    };
    (Alive { pong: p, record: fetched }, after)
}

pub fn b05(ctx: &Ctx) {
    let len = ctx.b(3, 4);
    ctx.explore("answers to checks", |ch| {
        let n = 1 + ch.pick(len);
        let hows: Vec<How> = (0..n).map(|_| *ch.choose(&HOWS)).collect();
        let network = if n < len { *ch.choose(&world::subnetworks()) } else { NET };
        ch.steps(n as u64);
        ch.note(|| format!("{hows:?} on {network}"));
        let last = world::run(7, START, move || checks(hows, network))?;
        ch.state(&last);
        ch.outcome(&last);
        Ok(())
    });
    ctx.explore("an answer repeated", |ch| {
        let h = *ch.choose(&HOWS);
        let before = *ch.choose(&HOWS);
        ch.steps(FORGET as u64);
        ch.note(|| format!("{h:?} after {before:?}"));
        world::run(7, START, move || repeated(before, h))
    });
    ctx.explore("the newest record found", |ch| {
        let order = ch.permutation(3);
        let only = ch.flag();
        ch.outcome(&(order.clone(), only));
        world::run(7, START, move || newest(order, only))
    });
}

/// A second peer keeps the bridge going while the first one is being looked for.
const ANCHOR: u16 = 7;

async fn checks(hows: Vec<How>, network: Subnetwork) -> Result<Option<Known>, String> {
    let net = world::network();
    net.borrow_mut().plan(id(ANCHOR), vec![fine(5, Distance::MAX)]);
    let (mut census, _) = world::census(8);
    net.borrow_mut().found.insert(network, vec![record(ANCHOR, 5)]);
    begin(&mut census, &[network]).await?;
    let mut state: Option<Known> = None;
    let me = id(2);
    for (step, h) in hows.iter().enumerate() {
        // A stranger that gives away an older record than others know of it is left out.
        let h = if state.is_none() && *h == How::NewerOutdated { &How::NewerStale } else { h };
        let (answer, after) = how(2, *h, state.as_ref().map_or(5, |s| s.seq), step);
        net.borrow_mut().plan(me, vec![answer]);
        let made = net.borrow().checks(me);
        let asked = net.borrow().asked_records.len();
        match &state {
            None => {
                net.borrow_mut().found.insert(network, vec![record(ANCHOR, 5), record(2, 5)]);
                until(now() + 60_000).await;
                net.borrow_mut().found.clear();
            }
            Some(_) => {
                let due = made.last().expect("checked before") + DUE;
                until(due - 1).await;
                check_eq!(net.borrow().checks(me).len(), made.len(), "checks before the next one is due");
                until(due + 3000).await;
            }
        }
        let checks = net.borrow().checks(me);
        check_eq!(checks.len(), made.len() + 1, "checks made by step {step} of {hows:?}");
        check!(net.borrow().pings.iter().all(|p| p.1 == network), "asked in another network");
        let fetched = net.borrow().asked_records[asked..].to_vec();
        let newer = format!("{h:?}").starts_with("Newer");
        check_eq!(fetched, if newer { vec![(me, vec![0])] } else { vec![] }, "requests for records after {h:?}");
        if let Some(k) = after {
            state = Some(k);
        }
        let mut want = vec![];
        if let Some(k) = &state {
            want.push((2, k.seq, k.client.map_or(ClientType::Unknown(None), ClientType::from)));
        }
        want.push((ANCHOR, 5, ClientType::Trin));
        check_eq!(known(&census, network, &[2, ANCHOR])?, want, "peers known after step {step} of {hows:?}");
        // Which content the peer would be offered.
        for (n, d) in [near(), [0xff; 32]].into_iter().enumerate() {
            for by_radius in [true, false] {
                let key = TestKey { id: xor(&me.raw(), &d), radius: by_radius };
                let chosen = census.select_peers(network, &key).map_err(|e| e.to_string())?;
                let got = chosen.iter().any(|p| p.enr.node_id() == me);
                let want = state.as_ref().is_some_and(|k| !by_radius || k.radius > n);
                check_eq!(got, want, "offered content {n} (by radius: {by_radius}) in {state:?}");
            }
        }
    }
    Ok(state)
}

/// After one answer, the same other answer to every check: either the peer stays or it is
/// forgotten at the tenth failure.
async fn repeated(before: How, h: How) -> Res {
    let net = world::network();
    net.borrow_mut().plan(id(ANCHOR), vec![fine(5, Distance::MAX)]);
    net.borrow_mut().plan(id(2), vec![result(true)]);
    let census = start(8, &net, &[2, ANCHOR]).await?;
    net.borrow_mut().found.clear();
    let first = net.borrow().checks(id(2))[0];
    let mut seq = 5;
    let mut results = vec![true];
    for step in 0..=FORGET {
        let (answer, after) = how(2, if step == 0 { before } else { h }, seq, step);
        net.borrow_mut().plan(id(2), vec![answer]);
        until(first + (step as u64 + 1) * DUE + 3000).await;
        results.push(after.is_some());
        if let Some(k) = after {
            seq = k.seq;
        }
        check_eq!(net.borrow().checks(id(2)).len(), results.len(), "checks made");
        let got = known(&census, NET, &[2, ANCHOR])?.iter().any(|p| p.0 == 2);
        check_eq!(got, !gone(&results), "known after {results:?}");
        if gone(&results) {
            break;
        }
    }
    Ok(())
}

/// Of several records of one node that lookups return, the newest is used.
async fn newest(order: Vec<usize>, only: bool) -> Res {
    let net = world::network();
    net.borrow_mut().plan(id(2), vec![fine(9, Distance::MAX)]);
    net.borrow_mut().plan(id(ANCHOR), vec![fine(5, Distance::MAX)]);
    let (mut census, _) = world::census(8);
    let mut found: Vec<_> = order.iter().map(|k| record(2, [3, 6, 9][*k])).collect();
    if !only {
        found.insert(1, record(ANCHOR, 5));
    }
    net.borrow_mut().found.insert(NET, found);
    begin(&mut census, &[NET]).await?;
    check_eq!(net.borrow().checks(id(2)).len(), 1, "checks while being found");
    check!(net.borrow().asked_records.is_empty(), "the newest record was asked for though it was found");
    let l = known(&census, NET, &[2, ANCHOR])?;
    check_eq!(l[0].1, 9, "record kept");
    Ok(())
}

/// An entry of the record kept about a peer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Failed,
    Code(u8),
}

pub const CODES: [AcceptCode; 7] = [
    AcceptCode::Accepted,
    AcceptCode::Declined,
    AcceptCode::AlreadyStored,
    AcceptCode::NotWithinRadius,
    AcceptCode::RateLimited,
    AcceptCode::InboundTransferInProgress,
    AcceptCode::Unspecified,
];
const WORTH: [i64; 7] = [5, -5, 0, -10, -2, -2, -5];

impl Event {
    fn trace(self) -> OfferTrace {
        match self {
            Event::Failed => OfferTrace::Failed,
            Event::Code(n) => OfferTrace::Success(CODES[n as usize]),
        }
    }
    fn worth(self) -> i64 {
        match self {
            Event::Failed => -10,
            Event::Code(n) => WORTH[n as usize],
        }
    }
}
const ACCEPTED: Event = Event::Code(0);
const LIMITED: Event = Event::Code(4);

const WINDOW: u64 = 900_000;

/// The reference: a peer's events, and what they add up to.
#[derive(Clone, Default)]
pub struct Account {
    pub offers: Vec<(u64, Event)>,
}

impl Account {
    fn add(&mut self, census: &Census, node: NodeId, e: Event) {
        self.offers.push((now(), e));
        census.record_offer_result(NET, node, 100, Duration::from_millis(1), &e.trace());
    }
    /// `checks` are the times of the checks of the peer, all of which it passed or, from the
    /// second on, did not.
    fn weight(&self, checks: &[u64], dead: bool) -> i64 {
        self.weight_at(now(), checks, dead)
    }
    pub fn weight_at(&self, t: u64, checks: &[u64], dead: bool) -> i64 {
        let mut w = 200;
        let n = self.offers.len();
        for (at, e) in &self.offers[n.saturating_sub(255)..] {
            if t - at <= WINDOW {
                w += e.worth();
            }
        }
        let n = checks.len();
        for (k, at) in checks.iter().enumerate().skip(n.saturating_sub(10)) {
            if t - at <= WINDOW {
                w += if k > 0 && dead { -10 } else { 5 };
            }
        }
        w
    }
}

fn chosen(census: &Census, node: NodeId) -> Result<bool, String> {
    let l = census.select_random_peers(NET).map_err(|e| format!("choosing failed: {e}"))?;
    Ok(l.iter().any(|p| p.enr.node_id() == node))
}

/// Adds events until the reference stands at exactly 0, and looks at both sides of it.
fn pin(net: &Shared, census: &Census, account: &mut Account, dead: bool) -> Res {
    let node = id(2);
    let checks = net.borrow().checks(node);
    for _ in 0..2000 {
        let w = account.weight(&checks, dead);
        check_eq!(chosen(census, node)?, w > 0, "chosen with weight {w}");
        let e = match w {
            0 => break,
            10.. => Event::Failed,
            2..=9 if w % 2 == 0 => LIMITED,
            5.. => Event::Code(1),
            _ => ACCEPTED,
        };
        account.add(census, node, e);
    }
    let seen = account.weight(&checks, dead);
    if seen != 0 {
        vc::engine_error(&format!("the reference did not reach 0 but {seen}"));
    }
    for e in [ACCEPTED, LIMITED, LIMITED, LIMITED, Event::Failed, ACCEPTED, ACCEPTED, ACCEPTED] {
        account.add(census, node, e);
        let w = account.weight(&checks, dead);
        check_eq!(chosen(census, node)?, w > 0, "chosen with weight {w}");
    }
    Ok(())
}

pub fn b04(ctx: &Ctx) {
    let len = ctx.b(3, 4);
    ctx.explore("events and time", |ch| {
        let dead = ch.flag();
        let n = ch.pick(len + 1);
        let ops: Vec<usize> = (0..n).map(|_| ch.pick(11)).collect();
        let aligned = ch.flag();
        ch.steps(n as u64);
        let w = world::run(7, START, move || events(ops, dead, aligned))?;
        ch.state(&w);
        ch.outcome(&w);
        Ok(())
    });
    ctx.explore("many events", |ch| {
        let counts: &[usize] = ctx.b(&[0, 1, 21, 45, 60, 255, 256], &[0, 1, 20, 21, 40, 41, 234, 254, 255, 256, 300]);
        let kinds: &[usize] = ctx.b(&[0, 1, 3, 6], &[0, 1, 2, 3, 4, 5, 6, 7]);
        let a = (*ch.choose(kinds), *ch.choose(counts));
        let b = (*ch.choose(kinds), *ch.choose(counts));
        ch.steps((a.1 + b.1) as u64);
        let w = world::run(7, START, move || many(a, b))?;
        ch.outcome(&w);
        Ok(())
    });
    ctx.explore("the oldest event", |ch| {
        let kind = ch.pick(8);
        let total = *ch.choose(&[253usize, 254, 255, 256, 257, 258, 300]);
        ch.steps(total as u64);
        ch.outcome(&(kind, total));
        world::run(7, START, move || oldest(kind, total))
    });
    ctx.explore("populations", |ch| {
        let nodes: Vec<usize> = (0..ctx.b(3, 4)).map(|_| ch.pick(4)).collect();
        let limit = ch.pick(nodes.len() + 2);
        let by = ch.pick(3);
        let seed = ch.pick(ctx.b(4, 16)) as u64;
        ch.outcome(&(nodes.clone(), limit, by));
        world::run(seed, START, move || population(nodes, limit, by))
    });
    ctx.explore("the largest weight", |ch| {
        // Whoever has more than the largest weight is treated like one who has just that.
        let seed = ch.pick(ctx.b(24, 96)) as u64;
        let extra = *ch.choose(&[1usize, 2, 60, 180]);
        // 200 to start with and 5 for the check passed.
        let base = world::run(seed, START, move || contest(39, 8))?;
        let more = world::run(seed, START, move || contest(39 + extra, 8))?;
        ch.outcome(&base);
        check_eq!(more, base, "order of the peers chosen, with {extra} more accepted offers than count");
        Ok(())
    });
    ctx.once("greater weights", |ch| {
        // Over the same seeds, a peer is chosen more often the greater its weight is.
        let seeds = ctx.b(16u64, 64);
        let mut counts = vec![];
        for accepted in [0usize, 39] {
            let mut n = 0;
            for seed in 0..seeds {
                let l = world::run(seed, START, move || contest(accepted, 128))?;
                ch.evals(l.len() as u64);
                check!(l.contains(&true), "never chosen in {} tries", l.len());
                check!(l.contains(&false), "chosen in each of {} tries", l.len());
                n += l.iter().filter(|c| **c).count();
            }
            counts.push(n);
        }
        ch.outcome(&counts);
        check!(counts[0] < counts[1], "chosen {counts:?} times with weights 205 and 400");
        Ok(())
    });
    ctx.explore("networks", |ch| {
        let on = 1 + ch.pick(7) as u32;
        let twice = ch.flag();
        ch.outcome(&(on, twice));
        world::run(7, START, move || networks(on, twice))
    });
}

async fn events(ops: Vec<usize>, dead: bool, aligned: bool) -> Result<i64, String> {
    let net = world::network();
    net.borrow_mut().plan(id(2), vec![result(true), result(!dead)]);
    net.borrow_mut().plan(id(ANCHOR), vec![result(true)]);
    let census = start(8, &net, &[2, ANCHOR]).await?;
    net.borrow_mut().found.clear();
    let mut account = Account::default();
    if aligned {
        let first = net.borrow().checks(id(2))[0];
        until(first + WINDOW / 2).await;
    }
    for op in ops {
        match op {
            0..=6 => account.add(&census, id(2), Event::Code(op as u8)),
            7 => account.add(&census, id(2), Event::Failed),
            _ => until(now() + [449_999, 450_000, 450_001][op - 8]).await,
        }
        // The results of others do not matter.
        census.record_offer_result(NET, id(ANCHOR), 100, Duration::ZERO, &OfferTrace::Success(AcceptCode::Accepted));
        census.record_offer_result(NET, id(9), 100, Duration::ZERO, &OfferTrace::Failed);
        census.record_offer_result(Subnetwork::Beacon, id(2), 100, Duration::ZERO, &OfferTrace::Failed);
        census.record_offer_result(Subnetwork::State, id(2), 100, Duration::ZERO, &OfferTrace::Failed);
    }
    let w = account.weight(&net.borrow().checks(id(2)), dead);
    pin(&net, &census, &mut account, dead)?;
    Ok(w)
}

async fn many(a: (usize, usize), b: (usize, usize)) -> Result<i64, String> {
    let net = world::network();
    net.borrow_mut().plan(id(2), vec![result(true)]);
    net.borrow_mut().plan(id(ANCHOR), vec![result(true)]);
    let census = start(8, &net, &[2, ANCHOR]).await?;
    let mut account = Account::default();
    for (kind, count) in [a, b] {
        for _ in 0..count {
            let e = if kind == 7 { Event::Failed } else { Event::Code(kind as u8) };
            account.add(&census, id(2), e);
        }
    }
    let checks = net.borrow().checks(id(2));
    let w = account.weight(&checks, false);
    check_eq!(chosen(&census, id(2))?, w > 0, "chosen with weight {w}");
    Ok(w)
}

/// One event, then others that bring the rest of the account to the edge, then some that count
/// for nothing.
async fn oldest(kind: usize, total: usize) -> Res {
    let net = world::network();
    net.borrow_mut().plan(id(2), vec![result(true)]);
    net.borrow_mut().plan(id(ANCHOR), vec![result(true)]);
    let census = start(8, &net, &[2, ANCHOR]).await?;
    let mut account = Account::default();
    let checks = net.borrow().checks(id(2));
    let first = if kind == 7 { Event::Failed } else { Event::Code(kind as u8) };
    account.add(&census, id(2), first);
    for _ in 0..20 {
        account.add(&census, id(2), Event::Failed);
    }
    match first.worth() {
        1.. => account.add(&census, id(2), Event::Code(1)),
        _ => {
            account.add(&census, id(2), LIMITED);
            account.add(&census, id(2), LIMITED);
        }
    }
    while account.offers.len() < total {
        account.add(&census, id(2), Event::Code(2));
        let w = account.weight(&checks, false);
        check_eq!(chosen(&census, id(2))?, w > 0, "chosen with weight {w} after {} events", account.offers.len());
    }
    Ok(())
}

/// Conditions: 0 interested, 1 not interested by its radius, 2 of weight zero, 3 not known.
async fn population(nodes: Vec<usize>, limit: usize, by: usize) -> Res {
    let net = world::network();
    let me: Vec<u16> = (0..nodes.len() as u16).map(|k| k + 2).collect();
    let key = TestKey { id: [0; 32], radius: by == 1 };
    for (k, c) in me.iter().zip(&nodes) {
        let r = if *c == 1 { Distance::ZERO } else { Distance::MAX };
        net.borrow_mut().plan(id(*k), vec![if *c == 3 { DEAD } else { fine(5, r) }]);
    }
    if nodes.iter().all(|c| *c == 3) {
        return Ok(());
    }
    let census = start(limit, &net, &me).await?;
    for (k, c) in me.iter().zip(&nodes) {
        if *c == 2 {
            for _ in 0..21 {
                census.record_offer_result(NET, id(*k), 1, Duration::ZERO, &OfferTrace::Failed);
            }
        }
    }
    let chosen = match by {
        2 => census.select_random_peers(NET),
        _ => census.select_peers(NET, &key),
    }
    .map_err(|e| format!("choosing failed: {e}"))?;
    let eligible: Vec<NodeId> = me
        .iter()
        .zip(&nodes)
        .filter(|(_, c)| **c == 0 || (**c == 1 && by != 1))
        .map(|(k, _)| id(*k))
        .collect();
    let mut got: Vec<NodeId> = chosen.iter().map(|p| p.enr.node_id()).collect();
    got.sort_by_key(|i| i.raw());
    check!(got.windows(2).all(|w| w[0] != w[1]), "a peer is chosen twice: {nodes:?}");
    check!(got.iter().all(|i| eligible.contains(i)), "a peer is chosen that must not be: {nodes:?}, by {by}");
    check_eq!(got.len(), eligible.len().min(limit), "number of peers chosen of {nodes:?}, limit {limit}, by {by}");
    Ok(())
}

/// Choices between a peer with many accepted offers and one without any.
async fn contest(accepted: usize, times: usize) -> Result<Vec<bool>, String> {
    let net = world::network();
    net.borrow_mut().plan(id(2), vec![result(true)]);
    net.borrow_mut().plan(id(3), vec![result(true)]);
    let census = start(1, &net, &[2, 3]).await?;
    for _ in 0..accepted {
        census.record_offer_result(NET, id(2), 1, Duration::ZERO, &OfferTrace::Success(AcceptCode::Accepted));
    }
    (0..times).map(|_| chosen(&census, id(2))).collect()
}

async fn networks(on: u32, twice: bool) -> Res {
    let net = world::network();
    let all = world::subnetworks();
    let (mut census, _) = world::census(8);
    for (k, n) in all.iter().enumerate() {
        net.borrow_mut().plan(id(2 + k as u16), vec![result(true)]);
        net.borrow_mut().found.insert(*n, vec![record(2 + k as u16, 5)]);
    }
    let wanted: Vec<Subnetwork> = (0..3).filter(|k| on >> k & 1 == 1).map(|k| all[k]).collect();
    if on == 7 {
        for n in [Subnetwork::History, Subnetwork::Utp, Subnetwork::CanonicalIndices] {
            let (mut other, _) = world::census(8);
            check!(
                matches!(other.init([Subnetwork::Beacon, n]).await, Err(CensusError::UnsupportedSubnetwork(m)) if m == n),
                "started on {n}"
            );
            check!(other.select_random_peers(n).is_err(), "peers for {n}");
            check!(other.select_peers(n, &TestKey { id: [1; 32], radius: false }).is_err(), "peers for {n}");
        }
        let (mut other, _) = world::census(8);
        check!(other.init([]).await.is_err(), "started on nothing");
        check!(net.borrow().pings.is_empty(), "peers were asked before it was known what for");
    }
    begin(&mut census, &wanted).await?;
    if twice {
        check!(
            matches!(census.init(wanted.clone()).await, Err(CensusError::AlreadyInitialized)),
            "started twice"
        );
    }
    for (k, n) in all.iter().enumerate() {
        let nodes: Vec<u16> = vec![2, 3, 4];
        let got = ids(&known(&census, *n, &nodes)?);
        let want: Vec<u16> = if wanted.contains(n) { vec![2 + k as u16] } else { vec![] };
        check_eq!(got, want, "peers of {n}");
    }
    // Each network goes on with its own peers.
    until(now() + DUE + 5000).await;
    for (k, n) in all.iter().enumerate() {
        let times = net.borrow().pings.iter().filter(|p| p.1 == *n).count();
        check_eq!(times, if wanted.contains(n) { 2 } else { 0 }, "checks in {n}");
        check_eq!(net.borrow().checks(id(2 + k as u16)).len(), times, "checks of the peer of {n}");
    }
    Ok(())
}

