//! Q03: the pool that drives all running lookups.

use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

use crossbeam_channel::Sender;
use discv5::{enr::NodeId, kbucket::Key};
use ethportal_api::{IdentityContentKey, RawContentValue};
use futures::channel::oneshot;
use portalnet::find::{
    iterators::{
        findcontent::{
            FindContentQuery, FindContentQueryPending, FindContentQueryResponse, ValidatedContent,
        },
        findnodes::FindNodeQuery,
        query::{Query, QueryConfig},
    },
    query_info::{QueryInfo, QueryType},
    query_pool::{QueryId, QueryPool, QueryPoolState, QueryState},
};
use smallvec::SmallVec;
use vc::{check, fail, Ch, Ctx, Res};

use crate::lookup::{node, number};

/// Seconds of one time step and of the two time limits.
const STEP: u64 = 3;
const PEER: u64 = 6;
const TOTAL: [u64; 2] = [9, 12];

fn config(which: usize) -> QueryConfig {
    QueryConfig {
        parallelism: 2,
        num_results: 2,
        peer_timeout: Duration::from_secs(PEER),
        overall_timeout: Duration::from_secs(TOTAL[which]),
    }
}

type Verdict = Sender<Option<ValidatedContent<NodeId>>>;

/// What is known of a live query.
struct Live {
    id: QueryId,
    limit: u64,
    /// Time of the first poll.
    started: Option<u64>,
    asked: Vec<usize>,
    waiting: Vec<usize>,
    judging: Option<(usize, Verdict)>,
}

trait Kind: Query<NodeId> + Sized {
    fn make(which: usize) -> Self;
    fn info(tag: usize) -> QueryInfo<IdentityContentKey>;
    fn reply(&mut self, from: usize, how: usize);
    fn verdict(&self, from: usize) -> Option<Verdict>;
    const REPLIES: usize;
}

fn first_peers() -> Vec<Key<NodeId>> {
    vec![node(3).into(), node(4).into()]
}

impl Kind for FindNodeQuery<NodeId> {
    fn make(which: usize) -> Self {
        FindNodeQuery::with_config(config(which), node(0).into(), first_peers())
    }
    fn info(tag: usize) -> QueryInfo<IdentityContentKey> {
        QueryInfo {
            query_type: QueryType::FindNode {
                target: node(tag),
                callback: None,
                distances_to_request: 1,
            },
            untrusted_enrs: SmallVec::new(),
            trace: None,
        }
    }
    fn reply(&mut self, from: usize, how: usize) {
        match how {
            0 => self.on_success(&node(from), vec![]),
            1 => self.on_success(&node(from), vec![node(1)]),
            _ => self.on_failure(&node(from)),
        }
    }
    fn verdict(&self, _: usize) -> Option<Verdict> {
        None
    }
    const REPLIES: usize = 3;
}

impl Kind for FindContentQuery<NodeId> {
    fn make(which: usize) -> Self {
        FindContentQuery::with_config(config(which), node(0).into(), first_peers())
    }
    fn info(tag: usize) -> QueryInfo<IdentityContentKey> {
        let (callback, _) = oneshot::channel();
        QueryInfo {
            query_type: QueryType::FindContent {
                target: IdentityContentKey::new([tag as u8; 32]),
                callback,
            },
            untrusted_enrs: SmallVec::new(),
            trace: None,
        }
    }
    fn reply(&mut self, from: usize, how: usize) {
        match how {
            0 => self.on_success(&node(from), FindContentQueryResponse::ClosestNodes(vec![node(1)])),
            1 => self.on_success(
                &node(from),
                FindContentQueryResponse::Content(RawContentValue::from(vec![from as u8])),
            ),
            _ => self.on_failure(&node(from)),
        }
    }
    fn verdict(&self, from: usize) -> Option<Verdict> {
        match self.pending_validation_result(node(from)) {
            FindContentQueryPending::PendingContent { valid_content_tx, .. } => Some(valid_content_tx),
            _ => None,
        }
    }
    const REPLIES: usize = 3;
}

fn tag_of(info: &QueryInfo<IdentityContentKey>) -> usize {
    match &info.query_type {
        QueryType::FindNode { target, .. } => number(target),
        QueryType::FindContent { target, .. } => target[0] as usize,
    }
}

struct World<Q: Kind> {
    pool: QueryPool<NodeId, Q, IdentityContentKey>,
    live: BTreeMap<usize, Live>,
    added: usize,
    now: u64,
}

impl<Q: Kind> World<Q> {
    fn tag(&self, id: QueryId, info: &QueryInfo<IdentityContentKey>, what: &str) -> Result<usize, String> {
        let tag = tag_of(info);
        match self.live.get(&tag) {
            Some(l) if l.id == id => Ok(tag),
            Some(l) => fail!("{what} for query {tag} under id {id}, it was given {}", l.id),
            None => fail!("{what} for query {tag}, which is over"),
        }
    }

    /// One poll. Returns whether something happened.
    fn poll(&mut self) -> Result<bool, String> {
        let mut pool = std::mem::take(&mut self.pool);
        let now = self.now;
        let result = match pool.poll() {
            QueryPoolState::Idle => {
                check!(self.live.is_empty(), "idle with {} live queries", self.live.len());
                Ok(false)
            }
            QueryPoolState::Waiting(None) => {
                check!(!self.live.is_empty(), "waits without any query");
                // All were polled, so all have started and none is over its time.
                for l in self.live.values_mut() {
                    l.started.get_or_insert(now);
                }
                for (tag, l) in &self.live {
                    check!(
                        now - l.started.unwrap() < l.limit,
                        "query {tag} runs since {} s, it is {now} s and its limit is {} s",
                        l.started.unwrap(),
                        l.limit
                    );
                }
                Ok(false)
            }
            QueryPoolState::Waiting(Some((id, info, _, peer))) => {
                let tag = self.tag(id, info, "request")?;
                let l = self.live.get_mut(&tag).unwrap();
                l.started.get_or_insert(now);
                let p = number(&peer);
                check!(!l.asked.contains(&p), "query {tag} asks {p} twice");
                l.asked.push(p);
                l.waiting.push(p);
                Ok(true)
            }
            QueryPoolState::Validating(id, info, q, peer) => {
                let tag = self.tag(id, info, "validation")?;
                let Some(tx) = q.verdict(number(&peer)) else {
                    fail!("query {tag} judges content of {}, which supplied none", number(&peer))
                };
                let l = self.live.get_mut(&tag).unwrap();
                check!(l.judging.is_none(), "query {tag} judges two contents at once");
                l.judging = Some((number(&peer), tx));
                Ok(true)
            }
            QueryPoolState::Finished(id, info, mut q) => {
                let tag = self.tag(id, &info, "end")?;
                check!(
                    q.poll(Instant::now()) == QueryState::Finished,
                    "query {tag} is reported finished while it is not"
                );
                self.live.remove(&tag);
                Ok(true)
            }
            QueryPoolState::Timeout(id, info, _) => {
                let tag = self.tag(id, &info, "timeout")?;
                let l = self.live.remove(&tag).unwrap();
                let ran = l.started.map(|s| now - s);
                check!(
                    ran.is_some_and(|r| r >= l.limit),
                    "query {tag} is timed out after {ran:?} s, its limit is {} s",
                    l.limit
                );
                Ok(true)
            }
        };
        self.pool = pool;
        result
    }

    fn settle(&mut self) -> Res {
        for _ in 0..60 {
            if !self.poll()? {
                return Ok(());
            }
        }
        fail!("polling goes on for ever")
    }
}

fn history<Q: Kind>(ch: &mut Ch, len: usize, most: usize) -> Res {
    vc::clock::start(1_700_000_000);
    let out = steps::<Q>(ch, len, most);
    vc::clock::stop();
    out
}

fn steps<Q: Kind>(ch: &mut Ch, len: usize, most: usize) -> Res {
    let mut w = World::<Q> { pool: QueryPool::new(), live: BTreeMap::new(), added: 0, now: 0 };
    for _ in 0..len {
        // (kind of event, query, argument)
        let mut events: Vec<(u8, usize, usize)> = vec![(1, 0, 0), (2, 0, 0)];
        if w.added < most {
            events.push((0, 0, 0));
            events.push((0, 1, 0));
        }
        for (tag, l) in &w.live {
            for p in &l.waiting {
                for how in 0..Q::REPLIES {
                    events.push((3, *tag, p * 10 + how));
                }
            }
            if l.judging.is_some() {
                events.push((4, *tag, 0));
                events.push((4, *tag, 1));
            }
        }
        match *ch.choose(&events) {
            (0, which, _) => {
                w.added += 1;
                let tag = w.added;
                ch.note(|| format!("query {tag} starts, limit {} s", TOTAL[which]));
                let id = w.pool.add_query(Q::info(tag), Q::make(which));
                for (t, l) in &w.live {
                    check!(l.id != id, "id {id} of query {tag} is the id of query {t}");
                }
                w.live.insert(
                    tag,
                    Live { id, limit: TOTAL[which], started: None, asked: vec![], waiting: vec![], judging: None },
                );
            }
            (1, ..) => {
                ch.note(|| format!("{STEP} s pass"));
                vc::clock::advance_secs(STEP);
                w.now += STEP;
            }
            (2, ..) => {
                ch.note(|| "polled until quiet".into());
                w.settle()?;
            }
            (3, tag, arg) => {
                let (p, how) = (arg / 10, arg % 10);
                ch.note(|| format!("query {tag}: {p} replies in way {how}"));
                let l = w.live.get_mut(&tag).unwrap();
                l.waiting.retain(|x| *x != p);
                let id = l.id;
                let Some((_, q)) = w.pool.get_mut(id) else {
                    fail!("query {tag} is not in the pool")
                };
                q.reply(p, how);
            }
            (_, tag, valid) => {
                ch.note(|| format!("query {tag}: content {}", ["invalid", "valid"][valid]));
                let (p, tx) = w.live.get_mut(&tag).unwrap().judging.take().unwrap();
                let _ = tx.send((valid == 1).then(|| ValidatedContent {
                    content: RawContentValue::from(vec![p as u8]),
                    was_utp_transfer: false,
                    sending_peer: node(p),
                }));
            }
        }
        check!(
            w.pool.iter().count() == w.live.len(),
            "the pool holds {} queries, {} are live",
            w.pool.iter().count(),
            w.live.len()
        );
        ch.steps(1);
        let view: Vec<_> = w
            .live
            .iter()
            .map(|(t, l)| (*t, l.limit, l.started.map(|s| w.now - s), l.waiting.clone(), l.asked.clone(), l.judging.is_some()))
            .collect();
        ch.state(&view);
    }
    // Left alone, every query is over after its time.
    w.settle()?;
    for _ in 0..2 {
        vc::clock::advance_secs(TOTAL[1]);
        w.now += TOTAL[1];
        w.settle()?;
    }
    check!(w.live.is_empty(), "{} queries never end", w.live.len());
    ch.outcome(&(w.added, w.now));
    Ok(())
}

pub fn q03(ctx: &Ctx) {
    let len = ctx.b(8, 9);
    ctx.explore("node lookups", |ch| history::<FindNodeQuery<NodeId>>(ch, len, 2));
    ctx.explore("content lookups", |ch| history::<FindContentQuery<NodeId>>(ch, len, 2));
    let len = ctx.b(7, 8);
    ctx.explore("three node lookups", |ch| history::<FindNodeQuery<NodeId>>(ch, len, 3));
}
