//! Q04, Q05, O11: looking for content, nodes and records with other peers' help.

use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    time::Duration,
};

use discv5::{enr::NodeId, Enr};
use ethportal_api::{
    types::{
        enr::SszEnr,
        portal_wire::{Content, FindContent, Nodes, Pong, Request, Response},
    },
    OverlayContentKey,
};
use portalnet::overlay::config::{FindContentConfig, OverlayConfig};
use utp_rs::fake::Side;
use vc::{check, check_eq, fail, Ctx};

use crate::{
    answers::{payload, speaking, VERSIONS},
    offers::near,
    peers::{id, log_distance, record, TestKey},
    world::*,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Does {
    Good,
    OnlyValid,
    Bad,
    NoPeers,
    NamesAnother,
    NamesUs,
    Silent,
    Fails,
    Garbage,
    WrongMessage,
    Transfer,
    TransferOnlyValid,
    TransferBad,
    TransferGarbage,
    TransferRefused,
    TransferCut,
    TransferNever,
    TransferNoVersion,
    Late,
}

const ALL: [Does; 19] = [
    Does::Good,
    Does::OnlyValid,
    Does::Bad,
    Does::NoPeers,
    Does::NamesAnother,
    Does::NamesUs,
    Does::Silent,
    Does::Fails,
    Does::Garbage,
    Does::WrongMessage,
    Does::Transfer,
    Does::TransferOnlyValid,
    Does::TransferBad,
    Does::TransferGarbage,
    Does::TransferRefused,
    Does::TransferCut,
    Does::TransferNever,
    Does::TransferNoVersion,
    Does::Late,
];

impl Does {
    fn kind(self) -> u8 {
        match self {
            Does::Good | Does::Transfer | Does::Late => 1,
            Does::OnlyValid | Does::TransferOnlyValid => 2,
            _ => 0,
        }
    }
    fn record(self, k: u16) -> Enr {
        if self == Does::TransferNoVersion {
            speaking(k, Some(&[7]))
        } else {
            speaking(k, Some(&[1]))
        }
    }
    /// Whether the peer takes its time.
    fn slow(self) -> bool {
        matches!(self, Does::Silent | Does::Fails | Does::Garbage | Does::WrongMessage | Does::TransferNever | Does::Late)
    }
}

fn pong() -> Response {
    Response::Pong(Pong { enr_seq: 1, payload_type: 1u16.into(), payload: vec![0xff; 32].into() })
}

/// Lets the service look at its lookups, as any traffic does.
async fn nudge(w: &World) {
    settle().await;
    let stream = w.overlay.event_stream();
    let t = tokio::spawn(async move { stream.await.is_ok() });
    settle().await;
    assert!(t.is_finished(), "the service stands still");
    let stream = w.overlay.event_stream();
    let t = tokio::spawn(async move { stream.await.is_ok() });
    settle().await;
    assert!(t.is_finished(), "the service stands still");
}

const FIRST: u16 = 20;
const ANOTHER: u16 = 30;

fn value_of(key: &TestKey, kind: u8, k: u16) -> Vec<u8> {
    content(key, kind, 40 + k as usize)
}

struct Case {
    does: BTreeMap<u16, Does>,
    table: usize,
    parallel: usize,
    newest_first: bool,
    trace: bool,
    limit: Option<u64>,
    radius: bool,
    /// Log distance up to which we want content.
    reach: u16,
}

async fn content_lookup(c: Case) -> Result<(bool, usize), String> {
    let w = World::new(Setup {
        config: OverlayConfig { query_parallelism: c.parallel, disable_poke: true, ..Default::default() },
        reach: c.reach,
        ..Default::default()
    })
    .await;
    let key = near(1, 200, c.radius);
    let table: Vec<u16> = (0..c.table as u16).map(|i| FIRST + i).collect();
    for k in &table {
        w.connect(&c.does[k].record(*k));
    }
    settle().await;
    while w.take_talk().is_some() {}
    let overlay = w.overlay.clone();
    let config = FindContentConfig { is_trace: c.trace, timeout: c.limit.map(Duration::from_secs) };
    let target = key.clone();
    let task = tokio::spawn(async move { overlay.lookup_content(target, config).await });
    settle().await;
    let who = |n: NodeId| c.does.keys().copied().find(|k| id(*k) == n);
    let mut asked: BTreeSet<u16> = BTreeSet::new();
    let mut named = false;
    let mut late: VecDeque<(u64, Talk)> = VecDeque::new();
    let mut held: Vec<Talk> = vec![];
    let mut now = 0u64;
    let longest = c.limit.unwrap_or(60);
    loop {
        // Everything that can be answered is answered.
        loop {
            let mut moved = false;
            let t = if c.newest_first {
                w.talks.borrow_mut().pop_back()
            } else {
                w.take_talk()
            };
            if let Some(t) = t {
                moved = true;
                let Request::FindContent(f) = &t.request else {
                    held.push(t);
                    continue;
                };
                check_eq!(f.content_key, key.to_bytes(), "content key asked for");
                let Some(k) = who(t.to) else { fail!("a node nobody named is asked: {:?}", t.to) };
                check!(asked.insert(k), "node {k} is asked twice");
                check!(table.contains(&k) || named, "node {k} is asked before it is known");
                let d = c.does[&k];
                let answer = |a: Content| Response::Content(a);
                match d {
                    Does::Good | Does::OnlyValid | Does::Bad => {
                        t.answer(answer(Content::Content(value_of(&key, d.kind(), k).into())))
                    }
                    Does::NoPeers => t.answer(answer(Content::Enrs(vec![]))),
                    Does::NamesAnother => {
                        named = true;
                        t.answer(answer(Content::Enrs(vec![SszEnr(c.does[&ANOTHER].record(ANOTHER))])));
                    }
                    Does::NamesUs => t.answer(answer(Content::Enrs(vec![SszEnr(w.overlay.local_enr())]))),
                    Does::Silent => held.push(t),
                    Does::Fails => t.fail(),
                    Does::Garbage => t.raw(vec![0xee, 0xee]),
                    Does::WrongMessage => t.answer(pong()),
                    Does::Late => late.push_back((now + 3, t)),
                    _ => t.answer(answer(Content::ConnectionId((1000 + k).to_be()))),
                }
            } else if let Some(o) = w.take_open() {
                moved = true;
                if o.side == Side::Accept {
                    continue;
                }
                let Some(k) = who(o.peer) else { fail!("a transfer from an unknown node is opened") };
                let d = c.does[&k];
                check_eq!((o.recv, o.send), (1000 + k, 1001 + k), "connection ids of the transfer");
                match d {
                    Does::Transfer | Does::TransferOnlyValid | Does::TransferBad => {
                        o.deliver(payload(&[value_of(&key, d.kind(), k)]))
                    }
                    Does::TransferGarbage => o.deliver(vec![0xff; 5]),
                    Does::TransferRefused => o.refuse(),
                    Does::TransferCut => o.break_off(),
                    Does::TransferNever => drop(o),
                    _ => fail!("an unannounced transfer from node {k} is opened"),
                }
            }
            nudge(&w).await;
            if !moved && w.talks.borrow().is_empty() && w.opens.borrow().is_empty() {
                break;
            }
        }
        if task.is_finished() {
            break;
        }
        check!(now <= longest + 1, "no answer after {now} seconds");
        now += 1;
        pass(1000).await;
        while late.front().is_some_and(|(at, _)| *at <= now) {
            let (_, t) = late.pop_front().expect("talk");
            let k = who(t.to).expect("late node");
            t.answer(Response::Content(Content::Content(value_of(&key, 1, k).into())));
        }
        nudge(&w).await;
    }
    let Ok(Ok(result)) = task.await else { fail!("the lookup is given up") };
    // Who can help: all that are asked in the end.
    let mut known: BTreeSet<u16> = table.iter().copied().collect();
    if named {
        known.insert(ANOTHER);
    }
    let sure: Vec<u16> = known.iter().copied().filter(|k| c.does[k].kind() != 0 && c.does[k] != Does::Late).collect();
    let slow = known.iter().any(|k| c.does[k].slow());
    match result {
        Ok((value, transferred, trace)) => {
            let value = value.to_vec();
            let Some(k) = known.iter().copied().find(|k| c.does[k].kind() != 0 && value == value_of(&key, c.does[k].kind(), *k)) else {
                fail!("{} bytes that no asked node gave as valid content are returned", value.len())
            };
            check!(asked.contains(&k), "content of node {k} is returned");
            let d = c.does[&k];
            check_eq!(transferred, matches!(d, Does::Transfer | Does::TransferOnlyValid), "whether content was transferred ({d:?})");
            check_eq!(trace.is_some(), c.trace, "whether a trace is given");
            if let Some(trace) = trace {
                check_eq!(trace.received_from.map(|n| n.raw()), Some(id(k).raw()), "node the trace says content came from");
            }
            let want = d.kind() == 1 && (!c.radius || c.reach >= 200);
            let puts = w.store(|s| s.puts.clone());
            check_eq!(puts, if want { vec![(key.clone(), value)] } else { vec![] }, "content stored ({d:?})");
            Ok((true, asked.len()))
        }
        Err(e) => {
            check!(sure.is_empty() || (c.limit.is_some() && slow), "content that nodes {sure:?} have is not found ({e:?}); asked {asked:?} for {now} seconds");
            if c.limit.is_none() {
                check_eq!(asked, known, "nodes asked when nothing is found");
            }
            // Content that arrived as time ran out may have been stored.
            for (k, v) in w.store(|s| s.puts.clone()) {
                check!(c.limit.is_some(), "content is stored though none is found");
                check!(k == key && asked.iter().any(|a| c.does[a].kind() == 1 && v == value_of(&key, 1, *a)), "invalid content is stored");
            }
            Ok((false, asked.len()))
        }
    }
}

pub fn q04(ctx: &Ctx) {
    let peers = ctx.b(2, 3);
    ctx.explore("content lookups", |ch| {
        let table = 1 + ch.pick(peers);
        let mut does: BTreeMap<u16, Does> = BTreeMap::new();
        for i in 0..table as u16 {
            does.insert(FIRST + i, *ch.choose(&ALL));
        }
        if does.values().any(|d| *d == Does::NamesAnother) {
            does.insert(ANOTHER, *ch.choose(&ALL));
        }
        let case = Case {
            parallel: *ch.choose(&[1, 3]),
            newest_first: table > 1 && ch.flag(),
            trace: ch.flag(),
            limit: *ch.choose(&[None, Some(5)]),
            radius: true,
            reach: 256,
            table,
            does: does.clone(),
        };
        let s = run(|| content_lookup(case))?;
        ch.evals(3);
        ch.outcome(&(s, does.values().copied().collect::<Vec<_>>()));
        Ok(())
    });
    ctx.explore("content lookups among three", |ch| {
        // The interesting ones, in all places.
        let set = [
            Does::Transfer,
            Does::Good,
            Does::Bad,
            Does::Silent,
            Does::NamesAnother,
            Does::TransferRefused,
            Does::TransferNever,
            Does::TransferNoVersion,
            Does::Garbage,
        ];
        let mut does: BTreeMap<u16, Does> = BTreeMap::new();
        for i in 0..3 {
            does.insert(FIRST + i, *ch.choose(&set));
        }
        if does.values().any(|d| *d == Does::NamesAnother) {
            does.insert(ANOTHER, *ch.choose(&set[..5]));
        }
        let radius = ch.flag();
        let case = Case {
            parallel: *ch.choose(&[1, 2, 3]),
            newest_first: ch.flag(),
            trace: false,
            limit: None,
            radius,
            reach: if radius { *ch.choose(&[199, 200]) } else { 199 },
            table: 3,
            does: does.clone(),
        };
        let s = run(|| content_lookup(case))?;
        ch.evals(3);
        ch.outcome(&(s, does.values().copied().collect::<Vec<_>>()));
        Ok(())
    });
    ctx.explore("content lookups that ask no one", |ch| {
        let held = ch.flag();
        let lost = ch.pick(3);
        let radius = ch.flag();
        let trace = ch.flag();
        let s = run(|| async move {
            let w = World::new(Setup::default()).await;
            let key = near(1, 200, radius);
            if held {
                w.store(|s| s.held.insert(key.clone(), content(&key, 1, 50)));
            }
            for k in 0..lost as u16 {
                let e = record(FIRST + k, 1);
                w.connect(&e);
                crate::answers::lose(&w, &e).await;
            }
            let overlay = w.overlay.clone();
            let target = key.clone();
            let task = tokio::spawn(async move {
                overlay.lookup_content(target, FindContentConfig { is_trace: trace, timeout: None }).await
            });
            nudge(&w).await;
            check!(task.is_finished(), "a lookup without anyone to ask does not end");
            let Ok(Ok(got)) = task.await else { fail!("the lookup is given up") };
            match got {
                Ok((v, transferred, _)) => {
                    check!(held && v.to_vec() == content(&key, 1, 50), "content is found that we do not hold");
                    check!(!transferred, "content we hold counts as transferred");
                }
                Err(e) => check!(!held, "content we hold is not found: {e:?}"),
            }
            check!(w.take_talk().is_none(), "a node is asked");
            Ok(held)
        })?;
        ch.evals(2);
        ch.outcome(&s);
        Ok(())
    });
    node_lookups(ctx);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Lists {
    Nothing,
    Another,
    Target,
    OldTarget,
    Silent,
    Fails,
    Garbage,
    WrongMessage,
}

const LISTS: [Lists; 8] = [
    Lists::Nothing,
    Lists::Another,
    Lists::Target,
    Lists::OldTarget,
    Lists::Silent,
    Lists::Fails,
    Lists::Garbage,
    Lists::WrongMessage,
];

const TARGET: u16 = 40;

impl Lists {
    fn answers(self) -> bool {
        matches!(self, Lists::Nothing | Lists::Another | Lists::Target | Lists::OldTarget)
    }
    fn say(self, t: Talk, held: &mut Vec<Talk>) {
        let nodes = |enrs: Vec<Enr>| Response::Nodes(Nodes { total: 1, enrs: enrs.into_iter().map(SszEnr).collect() });
        match self {
            Lists::Nothing => t.answer(nodes(vec![])),
            Lists::Another => t.answer(nodes(vec![record(ANOTHER, 7)])),
            Lists::Target => t.answer(nodes(vec![record(TARGET, 5)])),
            Lists::OldTarget => t.answer(nodes(vec![record(TARGET, 2)])),
            Lists::Silent => held.push(t),
            Lists::Fails => t.fail(),
            Lists::Garbage => t.raw(vec![0xee, 0xee]),
            Lists::WrongMessage => t.answer(pong()),
        }
    }
}

/// Plays the nodes until the task is done; returns who was asked.
async fn play<T>(
    w: &World,
    does: &BTreeMap<u16, Lists>,
    mut own: Option<Option<Vec<Enr>>>,
    newest_first: bool,
    task: &tokio::task::JoinHandle<T>,
) -> Result<BTreeSet<u16>, String> {
    let mut asked = BTreeSet::new();
    let mut held = vec![];
    let mut now = 0;
    loop {
        loop {
            let t = if newest_first { w.talks.borrow_mut().pop_back() } else { w.take_talk() };
            let Some(t) = t else {
                nudge(w).await;
                if w.talks.borrow().is_empty() {
                    break;
                }
                continue;
            };
            let Request::FindNodes(f) = &t.request else {
                held.push(t);
                continue;
            };
            let Some(k) = does.keys().copied().find(|k| id(*k) == t.to) else {
                fail!("a node nobody named is asked: {:?}", t.to)
            };
            if let (TARGET, true) = (k, own.is_some()) {
                // The wanted node is first asked for its record.
                check_eq!(f.distances, vec![0], "distances the wanted node is asked for");
                match own.take().flatten() {
                    Some(list) => {
                        t.answer(Response::Nodes(Nodes { total: 1, enrs: list.into_iter().map(SszEnr).collect() }))
                    }
                    None => t.fail(),
                }
            } else {
                check!(asked.insert(k), "node {k} is asked twice");
                let want = log_distance(&id(k).raw(), &id(TARGET).raw());
                check!(k == TARGET || f.distances.contains(&want), "node {k} is asked for distances {:?}, not {want}", f.distances);
                does[&k].say(t, &mut held);
            }
            nudge(w).await;
        }
        if task.is_finished() {
            return Ok(asked);
        }
        check!(now <= 61, "no answer after {now} seconds");
        now += 1;
        pass(1000).await;
        nudge(w).await;
    }
}

fn node_lookups(ctx: &Ctx) {
    let peers = ctx.b(2, 3);
    ctx.explore("node lookups", |ch| {
        let table = ch.pick(peers + 1);
        let mut does: BTreeMap<u16, Lists> = BTreeMap::new();
        for i in 0..table as u16 {
            does.insert(FIRST + i, *ch.choose(&LISTS));
        }
        does.insert(ANOTHER, *ch.choose(&LISTS));
        does.insert(TARGET, *ch.choose(&LISTS));
        let parallel = *ch.choose(&[1, 3]);
        let newest_first = table > 1 && ch.flag();
        // Reachable nodes, through those that answer.
        let mut known: BTreeSet<u16> = (0..table as u16).map(|i| FIRST + i).collect();
        loop {
            let mut more = known.clone();
            for k in known.iter().filter(|k| **k != TARGET) {
                match does[k] {
                    Lists::Another => {
                        more.insert(ANOTHER);
                    }
                    Lists::Target | Lists::OldTarget => {
                        more.insert(TARGET);
                    }
                    _ => {}
                }
            }
            if more == known {
                break;
            }
            known = more;
        }
        // Nodes that cannot matter are explored once.
        if does.iter().any(|(k, d)| !known.contains(k) && *d != Lists::Nothing) {
            return Ok(());
        }
        let all = does.clone();
        let s = run(|| async move {
            let w = World::new(Setup {
                config: OverlayConfig { query_parallelism: parallel, disable_poke: true, ..Default::default() },
                ..Default::default()
            })
            .await;
            for i in 0..table as u16 {
                w.connect(&record(FIRST + i, 1));
            }
            settle().await;
            while w.take_talk().is_some() {}
            let overlay = w.overlay.clone();
            let task = tokio::spawn(async move { overlay.lookup_node(id(TARGET)).await });
            settle().await;
            let asked = play(&w, &does, None, newest_first, &task).await?;
            // The wanted node itself need not be asked.
            let rest = |s: &BTreeSet<u16>| s.iter().copied().filter(|k| *k != TARGET).collect::<BTreeSet<u16>>();
            check_eq!(rest(&asked), rest(&known), "nodes asked");
            let got = task.await.expect("lookup");
            let mut ids: Vec<[u8; 32]> = got.iter().map(|e| e.node_id().raw()).collect();
            ids.sort();
            let mut want: Vec<[u8; 32]> = asked.iter().filter(|k| does[k].answers()).map(|k| id(*k).raw()).collect();
            want.sort();
            check_eq!(ids, want, "nodes found: those that answered");
            Ok(got.len())
        })?;
        ch.evals(2);
        ch.outcome(&(s, all.values().copied().collect::<Vec<_>>()));
        Ok(())
    });
    let places: Vec<u16> = match ctx.tier {
        vc::Tier::Quick => (1..=5).chain([8, 128]).chain(250..=256).collect(),
        vc::Tier::Thorough => (1..=256).collect(),
    };
    ctx.explore("distances a node is asked for", |ch| {
        let d = *ch.choose(&places);
        let per = *ch.choose(&[1usize, 2, 3, 4, 9]);
        ch.note(|| format!("{per} distances around {d}"));
        run(|| async move {
            let w = World::new(Setup {
                config: OverlayConfig { findnodes_query_distances_per_peer: per, disable_poke: true, ..Default::default() },
                ..Default::default()
            })
            .await;
            w.connect(&record(FIRST, 1));
            settle().await;
            while w.take_talk().is_some() {}
            // A target at exactly this distance from the node that is asked.
            let mut target = id(FIRST).raw();
            target[31 - (d as usize - 1) / 8] ^= 1 << ((d - 1) % 8);
            check_eq!(log_distance(&target, &id(FIRST).raw()), d, "distance of the target");
            let overlay = w.overlay.clone();
            let task = tokio::spawn(async move { overlay.lookup_node(NodeId::new(&target)).await });
            nudge(&w).await;
            let Some(t) = w.take_talk() else { fail!("nobody is asked") };
            let Request::FindNodes(f) = &t.request else { fail!("asked for {:?}", t.request) };
            let mut all: Vec<u16> = (0..=256).collect();
            all.sort_by_key(|x| x.abs_diff(d));
            check_eq!(f.distances.len(), per, "number of distances asked for");
            let got: BTreeSet<u16> = f.distances.iter().copied().collect();
            check_eq!(got.len(), per, "different distances in {:?}", f.distances);
            // Of two equally close ones either will do.
            let far = all[per - 1].abs_diff(d);
            check!(
                got.iter().all(|x| *x <= 256 && x.abs_diff(d) <= far),
                "a node at distance {d} from the target is asked for {:?}", f.distances
            );
            t.answer(Response::Nodes(Nodes { total: 1, enrs: vec![] }));
            nudge(&w).await;
            check!(task.is_finished(), "the lookup does not end");
            Ok(())
        })?;
        ch.evals(4);
        ch.outcome(&(d, per));
        Ok(())
    });
    ctx.explore("lookups of a known node", |ch| {
        let us = ch.flag();
        let session = ch.flag();
        let s = run(|| async move {
            let w = World::new(Setup::default()).await;
            let e = record(FIRST, 3);
            w.connect(&e);
            if session {
                w.session(&e);
            }
            let want = if us { w.overlay.local_enr() } else { e };
            let overlay = w.overlay.clone();
            let n = want.node_id();
            let task = tokio::spawn(async move { overlay.lookup_node(n).await });
            nudge(&w).await;
            check!(task.is_finished(), "the lookup of a connected node does not end");
            check_eq!(task.await.expect("lookup"), vec![want], "record of a connected node");
            Ok(us)
        })?;
        ch.evals(1);
        ch.outcome(&s);
        Ok(())
    });
}

pub fn q05(ctx: &Ctx) {
    let peers = ctx.b(2, 3);
    ctx.explore("record lookups", |ch| {
        // How the wanted node stands in the table: absent, connected, disconnected.
        let stands = ch.pick(3);
        let seq = if stands > 0 { *ch.choose(&[1u64, 4, 9]) } else { 0 };
        let session = stands > 0 && ch.flag();
        let others = ch.pick(peers + 1);
        let mut does: BTreeMap<u16, Lists> = BTreeMap::new();
        for i in 0..others as u16 {
            does.insert(FIRST + i, *ch.choose(&[Lists::Target, Lists::OldTarget, Lists::Another, Lists::Nothing, Lists::Silent]));
        }
        does.insert(ANOTHER, Lists::Nothing);
        does.insert(TARGET, *ch.choose(&[Lists::Nothing, Lists::Silent, Lists::Another]));
        // What the wanted node says about itself.
        let own: Option<Vec<Enr>> = if stands > 0 {
            match ch.pick(7) {
                0 => None,
                1 => Some(vec![]),
                2 => Some(vec![record(TARGET, 4)]),
                3 => Some(vec![record(TARGET, 9)]),
                4 => Some(vec![record(ANOTHER, 50)]),
                5 => Some(vec![record(TARGET, 6), record(ANOTHER, 50)]),
                _ => Some(vec![record(ANOTHER, 50), record(TARGET, 6), record(TARGET, 3)]),
            }
        } else {
            None
        };
        let s = run(|| async move {
            let w = World::new(Setup::default()).await;
            for i in 0..others as u16 {
                w.connect(&record(FIRST + i, 50));
            }
            if stands > 0 {
                let e = record(TARGET, seq);
                w.connect(&e);
                if session {
                    w.session(&e);
                }
                if stands == 2 {
                    crate::answers::lose(&w, &e).await;
                }
            }
            settle().await;
            while w.take_talk().is_some() {}
            let overlay = w.overlay.clone();
            let task = tokio::spawn(async move { overlay.lookup_enr(id(TARGET)).await });
            settle().await;
            play(&w, &does, (stands > 0).then(|| own.clone()), false, &task).await?;
            let got = task.await.expect("lookup");
            let told = own
                .iter()
                .flatten()
                .filter(|e| e.node_id() == id(TARGET))
                .map(|e| e.seq())
                .max()
                .unwrap_or(0);
            match got {
                Ok(e) => {
                    check_eq!(e.node_id(), id(TARGET), "node whose record is returned");
                    check!(e.seq() >= seq.max(told), "record number {} is returned; known is {seq}, told {told}", e.seq());
                    let known = [seq, 2, 5]
                        .into_iter()
                        .chain(own.iter().flatten().filter(|e| e.node_id() == id(TARGET)).map(|e| e.seq()));
                    check!(known.into_iter().any(|s| record(TARGET, s) == e), "a record no one gave is returned");
                    Ok((true, e.seq()))
                }
                Err(e) => {
                    check!(stands == 0, "no record is found ({e:?})");
                    Ok((false, 0))
                }
            }
        })?;
        ch.evals(3);
        ch.outcome(&s);
        Ok(())
    });
    ctx.once("our own record", |ch| {
        run(|| async {
            let w = World::new(Setup::default()).await;
            let overlay = w.overlay.clone();
            let me = w.me;
            let task = tokio::spawn(async move { overlay.lookup_enr(me).await });
            settle().await;
            check!(task.is_finished(), "looking up ourselves does not end");
            check_eq!(task.await.expect("lookup").ok(), Some(w.overlay.local_enr()), "our own record");
            Ok(())
        })?;
        ch.eval();
        Ok(())
    });
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Ends {
    Deliver(u8),
    DeliverTwo,
    Bare,
    Garbage,
    Refuse,
    Cut,
    Never,
}

/// Asking one peer for content.
pub fn o11(ctx: &Ctx) {
    ctx.explore("asking one peer", |ch| {
        let (versions, common) = *ch.choose(&VERSIONS);
        let radius = ch.flag();
        let key_bad = ch.pick(8) == 7;
        let how = ch.pick(7);
        let kind = if how == 0 { ch.pick(3) as u8 } else { 1 };
        let end = if how == 1 {
            *ch.choose(&[
                Ends::Deliver(1),
                Ends::Deliver(2),
                Ends::Deliver(0),
                Ends::DeliverTwo,
                Ends::Bare,
                Ends::Garbage,
                Ends::Refuse,
                Ends::Cut,
                Ends::Never,
            ])
        } else {
            Ends::Never
        };
        let conn = if how == 1 { *ch.choose(&[0u16, 1, 4321, 65535]) } else { 0 };
        let s = run(|| async move {
            let w = World::new(Setup::default()).await;
            let peer = speaking(FIRST, versions);
            let key = near(1, 200, radius);
            let mut raw = key.to_bytes().to_vec();
            if key_bad {
                raw.pop();
            }
            let overlay = w.overlay.clone();
            let (to, k) = (peer.clone(), raw.clone());
            let task = tokio::spawn(async move { overlay.send_find_content(to, k.into()).await });
            settle().await;
            let Some(t) = w.take_talk() else {
                check!(common.is_none() || key_bad, "the request is not sent");
                check!(task.is_finished(), "a request that is not sent never ends");
                check!(task.await.expect("request").is_err(), "a request that is not sent succeeds");
                return Ok("not sent");
            };
            check!(!key_bad, "a request with a bad key is sent");
            check_eq!(t.to, peer.node_id(), "peer asked");
            let Request::FindContent(FindContent { content_key }) = &t.request else {
                fail!("request sent: {:?}", t.request)
            };
            check_eq!(content_key.to_vec(), raw, "key asked for");
            let version = common.unwrap_or(0);
            let good = content(&key, kind, 40);
            let list = vec![SszEnr(record(ANOTHER, 1)), SszEnr(record(TARGET, 2))];
            // What must come back: content and whether it was transferred, or a list of records.
            let mut want: Option<(Content, bool)> = None;
            match how {
                0 => {
                    if kind != 0 {
                        want = Some((Content::Content(good.clone().into()), false));
                    }
                    t.answer(Response::Content(Content::Content(good.into())));
                }
                1 => {
                    t.answer(Response::Content(Content::ConnectionId(conn.to_be())));
                    settle().await;
                    let Some(o) = w.take_open() else { fail!("an announced transfer is not opened") };
                    check_eq!(
                        (o.side, o.peer, o.recv, o.send),
                        (Side::Connect, peer.node_id(), conn, conn.wrapping_add(1)),
                        "transfer opened"
                    );
                    let wrap = |v: Vec<u8>| if version == 1 { payload(&[v]) } else { v };
                    match end {
                        Ends::Deliver(k) => {
                            let v = content(&key, k, 3000);
                            if k != 0 {
                                want = Some((Content::Content(v.clone().into()), true));
                            }
                            o.deliver(wrap(v));
                        }
                        Ends::DeliverTwo => {
                            let v = content(&key, 1, 50);
                            o.deliver(payload(&[v.clone(), v]));
                        }
                        // The other version's way of sending.
                        Ends::Bare => {
                            let v = content(&key, 1, 50);
                            o.deliver(if version == 1 { v } else { payload(&[v]) });
                        }
                        Ends::Garbage => o.deliver(vec![0xff; 3]),
                        Ends::Refuse => o.refuse(),
                        Ends::Cut => o.break_off(),
                        Ends::Never => {
                            drop(o);
                            pass(10_500).await;
                        }
                    }
                }
                2 => {
                    want = Some((Content::Enrs(list.clone()), false));
                    t.answer(Response::Content(Content::Enrs(list)));
                }
                3 => {
                    want = Some((Content::Enrs(vec![]), false));
                    t.answer(Response::Content(Content::Enrs(vec![])));
                }
                4 => t.fail(),
                5 => t.raw(vec![5, 9, 9]),
                _ => t.answer(pong()),
            }
            settle().await;
            check!(task.is_finished(), "the request never ends");
            let got = task.await.expect("request");
            match (got, want) {
                (Ok(g), Some(x)) => check_eq!(g, x, "result"),
                (Err(_), None) => {}
                (g, x) => fail!("result {g:?} instead of {x:?}"),
            }
            check!(w.store(|s| s.puts.is_empty()), "content asked from one peer is stored");
            Ok("answered")
        })?;
        ch.evals(3);
        ch.outcome(&(s, how, end));
        Ok(())
    });
}
