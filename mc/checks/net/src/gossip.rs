//! O07: who is offered new content.

use std::{collections::BTreeMap, sync::Arc};

use discv5::Enr;
use ethportal_api::{
    types::{
        distance::{Distance, XorMetric},
        portal_wire::Request,
    },
    OverlayContentKey, RawContentValue,
};
use portalnet::{
    gossip::gossip_recipients, overlay::command::OverlayCommand, overlay::request::RequestDirection,
    put_content::propagate_put_content_cross_thread, types::kbucket::SharedKBucketsTable,
};
use tokio::sync::mpsc;
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::{
    peers::{self, xor, TestKey},
    table::{put, table},
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct P {
    k: u16,
    connected: bool,
    /// The radius reaches exactly to the content with this number (distance order), or nothing.
    reach: Reach,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Reach {
    None,
    /// Exactly the distance of the first content.
    First,
    /// One less than the distance of the first content.
    NotFirst,
    All,
}

fn number(b: &[u8; 32]) -> alloy::primitives::U256 {
    alloy::primitives::U256::from_be_bytes(*b)
}

impl P {
    fn radius(&self, first: &TestKey) -> alloy::primitives::U256 {
        let d = number(&xor(&first.id, &peers::id(self.k).raw()));
        match self.reach {
            Reach::None => number(&[0; 32]),
            Reach::First => d,
            Reach::NotFirst => d - alloy::primitives::U256::from(1),
            Reach::All => number(&[0xff; 32]),
        }
    }
    fn wants(&self, key: &TestKey, first: &TestKey) -> bool {
        self.connected && number(&xor(&key.id, &peers::id(self.k).raw())) <= self.radius(first)
    }
}

fn filled(people: &[P], first: &TestKey) -> SharedKBucketsTable {
    let t = table();
    for p in people {
        put(&t, p.k, 1, Distance::from(p.radius(first)), p.connected);
    }
    t
}

fn key(n: u8, radius: bool) -> TestKey {
    let mut id = [0x40u8; 32];
    id[0] = n.wrapping_mul(67);
    id[1] = n;
    TestKey { id, radius }
}

fn value(k: &TestKey) -> RawContentValue {
    RawContentValue::from(vec![k.id[0], k.id[1], 7])
}

type Sent = BTreeMap<u16, Vec<TestKey>>;

fn read(got: impl IntoIterator<Item = (Enr, Vec<(ethportal_api::RawContentKey, RawContentValue)>)>, people: &[P]) -> Result<Sent, String> {
    let mut out = Sent::new();
    for (enr, items) in got {
        let Some(p) = people.iter().find(|p| peers::id(p.k) == enr.node_id()) else {
            vc::fail!("content goes to a node outside the table")
        };
        let mut keys = vec![];
        for (k, v) in items {
            let k = TestKey::try_from_bytes(k).map_err(|e| format!("unknown key: {e:?}"))?;
            check!(v == value(&k), "content {k} is passed on with another value");
            keys.push(k);
        }
        check!(out.insert(p.k, keys).is_none(), "node {} is offered content twice", p.k);
    }
    Ok(out)
}

const LIMIT: usize = 64;
const CLOSEST: usize = 4;
const ALL: usize = 8;

/// Checks the recipients of a batch.
fn judge(sent: &Sent, people: &[P], batch: &[TestKey]) -> Res {
    let first = &batch[0];
    let near: Vec<&TestKey> = batch.iter().filter(|k| k.radius).collect();
    let any: Vec<&TestKey> = batch.iter().filter(|k| !k.radius).collect();
    for (k, items) in sent {
        check!(!items.is_empty(), "node {k} is offered nothing");
        check!(items.len() <= LIMIT, "node {k} is offered {} items", items.len());
        let p = people.iter().find(|p| p.k == *k).unwrap();
        check!(p.connected, "content goes to the disconnected node {k}");
        let mut places = vec![];
        for i in items {
            let Some(at) = batch.iter().position(|b| b == i) else {
                vc::fail!("node {k} is offered content {i} outside the batch")
            };
            places.push(at);
            if i.radius {
                check!(
                    p.wants(i, first),
                    "node {k} is offered content {i} outside its radius"
                );
            }
        }
        let ordered = |radius: bool| -> bool {
            let v: Vec<usize> = places.iter().copied().filter(|a| batch[*a].radius == radius).collect();
            v.windows(2).all(|w| w[0] < w[1])
        };
        check!(ordered(true) && ordered(false), "node {k} is offered items in the order {places:?}");
    }
    let gets = |k: u16, i: &TestKey| sent.get(&k).is_some_and(|v| v.contains(i));
    let full = |k: u16| sent.get(&k).is_some_and(|v| v.len() == LIMIT);
    for i in &near {
        let mut keen: Vec<&P> = people.iter().filter(|p| p.wants(i, first)).collect();
        keen.sort_by_key(|p| xor(&i.id, &peers::id(p.k).raw()));
        let count = keen.iter().filter(|p| gets(p.k, i)).count();
        let crowded = keen.iter().filter(|p| full(p.k)).count();
        let want = keen.len().min(ALL);
        check!(
            count <= want && count + crowded >= want,
            "content {i} goes to {count} of {} interested nodes, expected {want}",
            keen.len()
        );
        let sure = if keen.len() <= ALL { keen.len() } else { CLOSEST };
        for p in &keen[..sure] {
            check!(
                gets(p.k, i) || full(p.k),
                "content {i} does not go to node {}, one of the {sure} closest of {} interested nodes",
                p.k,
                keen.len()
            );
        }
    }
    if !any.is_empty() {
        let there = people.iter().filter(|p| p.connected).count();
        let takers: Vec<u16> = sent
            .iter()
            .filter(|(_, v)| v.iter().any(|i| !i.radius))
            .map(|(k, _)| *k)
            .collect();
        let crowded = people.iter().filter(|p| full(p.k)).count();
        let want = there.min(ALL);
        check!(
            takers.len() <= want && takers.len() + crowded >= want,
            "content without radius goes to {} of {there} nodes, expected {want}",
            takers.len()
        );
        for k in takers {
            for i in &any {
                check!(gets(k, i) || full(k), "node {k} is not offered content {i}");
            }
        }
    }
    Ok(())
}

fn select(people: &[P], batch: &[TestKey]) -> Result<Sent, String> {
    let t = filled(people, &batch[0]);
    let content = batch.iter().map(|k| (k.clone(), value(k))).collect();
    let got = gossip_recipients::<TestKey, XorMetric>(content, &t);
    read(got, people)
}

/// Every draw of the random source is one of these.
fn script(draws: Vec<u64>) {
    let mut at = 0usize;
    rand::script::set(move || {
        at += 1;
        match draws.get(at - 1) {
            Some(d) => *d,
            None => (at as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15),
        }
    });
}

fn tables(ch: &mut Ch, who: &[u16], most: usize) -> Res {
    let n = ch.pick(who.len() + 1);
    let kinds = [
        (true, Reach::All),
        (true, Reach::First),
        (true, Reach::NotFirst),
        (false, Reach::All),
        (true, Reach::None),
    ];
    let people: Vec<P> = who[..n]
        .iter()
        .map(|k| {
            let (connected, reach) = *ch.choose(&kinds);
            P { k: *k, connected, reach }
        })
        .collect();
    let size = 1 + ch.pick(most);
    let batch: Vec<TestKey> = (0..size).map(|i| key(i as u8, ch.flag())).collect();
    ch.note(|| format!("{people:?}, batch {batch:?}"));
    let sent = select(&people, &batch)?;
    judge(&sent, &people, &batch)?;
    ch.eval();
    ch.outcome(&(people, batch.len(), sent));
    Ok(())
}

pub fn o07(ctx: &Ctx) {
    let who: Vec<u16> = peers::at_distance(256, 8)
        .into_iter()
        .chain(peers::at_distance(255, 6))
        .chain(peers::at_distance(254, 4))
        .collect();
    let few: Vec<u16> = vec![who[0], who[1], who[8], who[14]];
    let most = ctx.b(2, 3);
    ctx.explore("tables of up to four nodes", |ch| tables(ch, &few, most));

    // More interested nodes than are served: all outcomes of the random choice.
    let steps = ctx.b(8u64, 16);
    ctx.explore("more nodes than are served", |ch| {
        let n = 7 + ch.pick(who.len() - 6);
        let away = ch.pick(3);
        let radius = ch.flag();
        let draws: Vec<u64> = (0..3).map(|_| ch.pick(steps as usize) as u64 * (u64::MAX / steps)).collect();
        let people: Vec<P> = who[..n]
            .iter()
            .enumerate()
            .map(|(i, k)| P { k: *k, connected: i >= away, reach: if i == 4 { Reach::NotFirst } else { Reach::All } })
            .collect();
        let batch = vec![key(3, radius)];
        script(draws);
        let sent = select(&people, &batch);
        rand::script::clear();
        let sent = sent?;
        judge(&sent, &people, &batch)?;
        ch.eval();
        ch.outcome(&(n, away, radius, sent.keys().copied().collect::<Vec<_>>()));
        Ok(())
    });

    // Batches around the limit of one offer.
    ctx.explore("large batches", |ch| {
        let size = *ch.choose(&[62usize, 63, 64, 65, 66, 130]);
        let n = *ch.choose(&[1usize, 2, 8, 9]);
        let mix = ch.pick(3);
        let people: Vec<P> =
            who[..n].iter().map(|k| P { k: *k, connected: true, reach: Reach::All }).collect();
        let batch: Vec<TestKey> = (0..size)
            .map(|i| key(i as u8, match mix { 0 => true, 1 => false, _ => i % 2 == 0 }))
            .collect();
        let sent = select(&people, &batch)?;
        judge(&sent, &people, &batch)?;
        if mix != 2 && n <= ALL {
            for (k, v) in &sent {
                check_eq!(v.len(), size.min(LIMIT), "items offered to node {k} of {size}");
                check!(v[..] == batch[..v.len()], "node {k} is not offered the first items in order");
            }
        }
        ch.eval();
        ch.outcome(&(size, n, mix));
        Ok(())
    });

    // The offers that are really sent.
    ctx.explore("offers", |ch| {
        let n = ch.pick(5);
        let people: Vec<P> = few[..n.min(few.len())]
            .iter()
            .map(|k| P { k: *k, connected: ch.flag(), reach: *ch.choose(&[Reach::All, Reach::NotFirst]) })
            .collect();
        let batch = vec![key(1, true), key(2, true)];
        let limited = ch.flag();
        let t = filled(&people, &batch[0]);
        let content: Vec<_> = batch.iter().map(|k| (k.clone(), value(k))).collect();
        let (tx, mut rx) = mpsc::unbounded_channel();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let permits = ch.pick(3);
        let count = rt.block_on(async {
            let controller = limited.then(|| Arc::new(crate::transfers::controller(permits)));
            propagate_put_content_cross_thread::<TestKey, XorMetric>(content, &t, tx, controller)
        });
        let mut offers = vec![];
        let mut held = vec![];
        while let Ok(command) = rx.try_recv() {
            let OverlayCommand::Request(r) = command else {
                vc::fail!("a command other than a request is sent")
            };
            let Request::PopulatedOffer(o) = r.request.clone() else {
                vc::fail!("a request other than an offer is sent")
            };
            let RequestDirection::Outgoing { destination } = &r.direction else {
                vc::fail!("the offer is not outgoing")
            };
            check_eq!(r.request_permit.is_some(), limited, "the offer carries a permit");
            offers.push((destination.clone(), o.content_items));
            held.push(r);
        }
        let sent = read(offers, &people)?;
        let whole = select(&people, &batch)?;
        let chosen = whole.len();
        check_eq!(count, chosen, "number of recipients reported");
        if limited {
            check_eq!(sent.len(), chosen.min(permits), "offers sent with {permits} permits for {chosen} nodes");
            for (k, v) in &sent {
                check!(whole.get(k) == Some(v), "node {k} is offered something else than selected");
            }
        } else {
            check!(sent == whole, "offers differ from the selection");
        }
        drop(held);
        ch.eval();
        ch.outcome(&(people, limited, permits, sent.len()));
        Ok(())
    });
}
