//! Q01 and Q02: the state machines that drive one lookup.

use std::time::{Duration, Instant};

use crossbeam_channel::Sender;
use discv5::{enr::NodeId, kbucket::Key};
use ethportal_api::RawContentValue;
use portalnet::find::{
    iterators::{
        findcontent::{
            FindContentQuery, FindContentQueryPending, FindContentQueryResponse,
            FindContentQueryResult, ValidatedContent,
        },
        findnodes::FindNodeQuery,
        query::{Query, QueryConfig},
    },
    query_pool::QueryState,
};
use vc::{check, fail, Ch, Ctx, Res};

pub fn node(d: usize) -> NodeId {
    let mut raw = [0u8; 32];
    raw[31] = d as u8;
    NodeId::new(&raw)
}

pub fn number(n: &NodeId) -> usize {
    n.raw()[31] as usize
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Peer {
    Unknown,
    Known,
    /// Asked, and no longer waited for from this time on.
    Asked(u32),
    Answered,
    Failed,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Stage {
    Moving(usize),
    Stalled,
}

impl Stage {
    fn reply(&mut self, progress: bool, parallelism: usize) {
        *self = match (*self, progress) {
            (_, true) => Stage::Moving(0),
            (Stage::Moving(n), false) if n + 1 < parallelism => Stage::Moving(n + 1),
            _ => Stage::Stalled,
        };
        if parallelism == 0 {
            *self = Stage::Stalled;
        }
    }
}

enum Q {
    Nodes(FindNodeQuery<NodeId>),
    Content(FindContentQuery<NodeId>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Found {
    Inline,
    Transfer,
}

const TIMEOUT: u32 = 2;
const UNIT: Duration = Duration::from_secs(5);

struct World {
    q: Q,
    start: Instant,
    now: u32,
    n: usize,
    parallelism: usize,
    results: usize,
    peers: Vec<Peer>,
    /// Stage if every new node of a reply counts as progress, and if only the last one does.
    stage_any: Stage,
    stage_last: Stage,
    /// Content supplied and not yet judged, in order of arrival.
    supplied: Vec<(usize, Found)>,
    judging: Option<(usize, Found, Sender<Option<ValidatedContent<NodeId>>>)>,
    accepted: Option<(usize, Found)>,
    finished: bool,
    /// Nodes that still had time to answer at the end.
    left: Vec<usize>,
}

fn body(p: usize, how: Found) -> RawContentValue {
    RawContentValue::from(vec![p as u8, how as u8, 0xaa])
}

impl World {
    fn new(content: bool, n: usize, parallelism: usize, results: usize, known: &[usize]) -> Self {
        let config = QueryConfig {
            parallelism,
            num_results: results,
            peer_timeout: UNIT * TIMEOUT,
            overall_timeout: Duration::from_secs(10_000),
        };
        let target: Key<NodeId> = node(0).into();
        let keys: Vec<Key<NodeId>> = known.iter().map(|d| node(*d).into()).collect();
        let start = Instant::now();
        let q = if content {
            let mut q = FindContentQuery::with_config(config, target, keys);
            q.start(start);
            Q::Content(q)
        } else {
            let mut q = FindNodeQuery::with_config(config, target, keys);
            q.start(start);
            Q::Nodes(q)
        };
        let mut peers = vec![Peer::Unknown; n + 1];
        for d in known.iter().take(results) {
            peers[*d] = Peer::Known;
        }
        World {
            q,
            start,
            now: 0,
            n,
            parallelism,
            results,
            peers,
            stage_any: Stage::Moving(0),
            stage_last: Stage::Moving(0),
            supplied: vec![],
            judging: None,
            accepted: None,
            finished: false,
            left: vec![],
        }
    }

    fn live(&self, d: usize) -> bool {
        matches!(self.peers[d], Peer::Asked(t) if t > self.now)
    }

    fn asked(&self) -> Vec<usize> {
        (1..=self.n).filter(|d| matches!(self.peers[*d], Peer::Asked(_))).collect()
    }

    fn first_known(&self) -> Option<usize> {
        (1..=self.n).find(|d| self.peers[*d] == Peer::Known)
    }

    fn answered(&self) -> Vec<usize> {
        (1..=self.n).filter(|d| self.peers[*d] == Peer::Answered).collect()
    }

    /// Whether the lookup has nothing left to wait for.
    fn over(&self) -> bool {
        if self.accepted.is_some() {
            return true;
        }
        if self.judging.is_some() || !self.supplied.is_empty() {
            return false;
        }
        let open: Vec<usize> = (1..=self.n)
            .filter(|d| self.peers[*d] == Peer::Known || self.live(*d))
            .collect();
        if open.is_empty() {
            return true;
        }
        if let Q::Nodes(_) = self.q {
            let got = self.answered();
            return self.results > 0
                && got.len() >= self.results
                && open[0] > got[self.results - 1];
        }
        false
    }

    /// Polls until nothing changes any more and checks every step.
    fn settle(&mut self) -> Res {
        let mut quiet = 0;
        for _ in 0..20 * (self.n + 2) {
            let at = self.start + UNIT * self.now;
            let state = match &mut self.q {
                Q::Nodes(q) => q.poll(at),
                Q::Content(q) => q.poll(at),
            };
            match state {
                QueryState::Waiting(Some(p)) => {
                    quiet = 0;
                    let d = number(&p);
                    check!(!self.finished, "asks node {d} after the end");
                    check!(
                        self.peers[d] == Peer::Known,
                        "asks node {d}, which is {:?}",
                        self.peers[d]
                    );
                    let first = self.first_known();
                    check!(first == Some(d), "asks node {d} while closer node {first:?} is unasked");
                    check!(!self.over(), "asks node {d} although nothing is left to find");
                    let waiting = (1..=self.n).filter(|d| self.live(*d)).count();
                    let most = match self.stage_last {
                        Stage::Stalled => self.parallelism.max(self.results),
                        Stage::Moving(_) => self.parallelism,
                    };
                    check!(
                        waiting < most,
                        "asks node {d} while {waiting} requests are waiting, at most {most} allowed"
                    );
                    check!(self.judging.is_none(), "asks node {d} while content is being judged");
                    self.peers[d] = Peer::Asked(self.now + TIMEOUT);
                }
                QueryState::Validating(p) => {
                    quiet = 0;
                    let d = number(&p);
                    check!(self.judging.is_none(), "two contents are judged at once");
                    let Some(at) = self.supplied.iter().position(|(s, _)| *s == d) else {
                        fail!("judges content of node {d}, which supplied none");
                    };
                    let (_, how) = self.supplied.remove(at);
                    let tx = self.pending(p, d, how)?;
                    self.judging = Some((d, how, tx));
                }
                QueryState::Finished => {
                    check!(
                        self.over(),
                        "ends although something is left: {:?}, supplied {:?}, being judged {}",
                        self.peers,
                        self.supplied,
                        self.judging.is_some()
                    );
                    if !self.finished {
                        self.left = (1..=self.n).filter(|d| self.live(*d)).collect();
                    }
                    self.finished = true;
                    return Ok(());
                }
                QueryState::Waiting(None) | QueryState::WaitingAtCapacity => {
                    check!(!self.finished, "waits after the end");
                    quiet += 1;
                    if quiet > self.n + 2 {
                        return self.quiet();
                    }
                }
            }
        }
        fail!("polling goes on for ever")
    }

    /// Checks of a lookup that waits.
    fn quiet(&self) -> Res {
        check!(!self.over(), "does not end although nothing is left: {:?}", self.peers);
        check!(
            self.judging.is_some() || self.supplied.is_empty(),
            "leaves supplied content {:?} unjudged",
            self.supplied
        );
        if self.judging.is_some() {
            return Ok(());
        }
        let waiting = (1..=self.n).filter(|d| self.live(*d)).count();
        if let Some(d) = self.first_known() {
            let (p, r) = (self.parallelism, self.results);
            let room = match (self.stage_any, self.stage_last) {
                (Stage::Stalled, Stage::Stalled) => r,
                (Stage::Moving(_), Stage::Moving(_)) => p,
                _ => p.min(r),
            };
            check!(
                waiting >= room,
                "node {d} stays unasked while only {waiting} of {room} requests are waiting at time {}: {:?}",
                self.now,
                self.peers
            );
        }
        Ok(())
    }

    fn pending(
        &self,
        p: NodeId,
        d: usize,
        how: Found,
    ) -> Result<Sender<Option<ValidatedContent<NodeId>>>, String> {
        let Q::Content(q) = &self.q else {
            fail!("a node lookup judges content")
        };
        let (poke, peer, tx) = match (q.pending_validation_result(p), how) {
            (
                FindContentQueryPending::PendingContent {
                    content,
                    nodes_to_poke,
                    peer,
                    valid_content_tx,
                },
                Found::Inline,
            ) => {
                check!(content == body(d, how), "content of node {d} was changed");
                (nodes_to_poke, peer, valid_content_tx)
            }
            (
                FindContentQueryPending::Utp {
                    connection_id,
                    nodes_to_poke,
                    peer,
                    valid_content_tx,
                },
                Found::Transfer,
            ) => {
                check!(connection_id == 700 + d as u16, "connection id of node {d} was changed");
                (nodes_to_poke, peer, valid_content_tx)
            }
            (other, _) => fail!("node {d} supplied {how:?}, up for judgement is {other:?}"),
        };
        check!(peer == p, "content of node {d} is attributed to node {}", number(&peer));
        let poke: Vec<usize> = poke.iter().map(number).collect();
        let others: Vec<usize> = self.answered().into_iter().filter(|o| *o != d).take(self.results).collect();
        check!(
            poke == others,
            "nodes {poke:?} are to be told of the content of node {d}: {:?}",
            self.peers
        );
        Ok(tx)
    }

    fn learn(&mut self, nodes: &[usize]) {
        let known = |w: &World| w.peers.iter().filter(|p| **p != Peer::Unknown).count();
        let before = known(self);
        let (mut any, mut last) = (false, false);
        for d in nodes {
            if self.peers[*d] == Peer::Unknown {
                self.peers[*d] = Peer::Known;
            }
            let closest = (1..=self.n).find(|d| self.peers[*d] != Peer::Unknown);
            last = closest == Some(*d) || before < self.results;
            any |= last;
        }
        self.stage_any.reply(any, self.parallelism);
        self.stage_last.reply(last, self.parallelism);
    }

    fn reply_nodes(&mut self, d: usize, nodes: &[usize]) {
        let ids: Vec<NodeId> = nodes.iter().map(|d| node(*d)).collect();
        match &mut self.q {
            Q::Nodes(q) => q.on_success(&node(d), ids),
            Q::Content(q) => q.on_success(&node(d), FindContentQueryResponse::ClosestNodes(ids)),
        }
        if !self.finished && matches!(self.peers[d], Peer::Asked(_)) {
            self.peers[d] = Peer::Answered;
            self.learn(nodes);
        }
    }

    fn reply_content(&mut self, d: usize, how: Found) {
        let Q::Content(q) = &mut self.q else { return };
        q.on_success(
            &node(d),
            match how {
                Found::Inline => FindContentQueryResponse::Content(body(d, how)),
                Found::Transfer => FindContentQueryResponse::ConnectionId(700 + d as u16),
            },
        );
        if !self.finished && matches!(self.peers[d], Peer::Asked(_)) {
            self.peers[d] = Peer::Answered;
            self.supplied.push((d, how));
        }
    }

    fn fails(&mut self, d: usize) {
        match &mut self.q {
            Q::Nodes(q) => q.on_failure(&node(d)),
            Q::Content(q) => q.on_failure(&node(d)),
        }
        if !self.finished && matches!(self.peers[d], Peer::Asked(_)) {
            self.peers[d] = Peer::Failed;
        }
    }

    fn verdict(&mut self, valid: bool) {
        let Some((d, how, tx)) = self.judging.take() else {
            vc::engine_error("no content is being judged")
        };
        let _ = tx.send(valid.then(|| ValidatedContent {
            content: body(d, how),
            was_utp_transfer: how == Found::Transfer,
            sending_peer: node(d),
        }));
        if valid {
            self.accepted = Some((d, how));
        }
    }

    fn key(&self) -> impl std::hash::Hash {
        (
            self.now,
            self.parallelism,
            self.results,
            self.peers.clone(),
            self.stage_last,
            self.supplied.clone(),
            self.judging.as_ref().map(|(d, h, _)| (*d, *h)),
            self.accepted,
            self.finished,
        )
    }

    /// Everybody falls silent: the lookup must end by itself.
    fn drain(&mut self) -> Res {
        for _ in 0..2 * self.n + 4 {
            if self.finished {
                return Ok(());
            }
            if self.judging.is_some() {
                self.verdict(false);
            } else {
                self.now += TIMEOUT;
            }
            self.settle()?;
        }
        check!(self.finished, "does not end although all nodes are silent: {:?}", self.peers);
        Ok(())
    }

    /// Late events after the end change nothing.
    fn afterwards(&mut self) -> Res {
        for d in 1..=self.n {
            let all: Vec<usize> = (1..=self.n).collect();
            self.reply_nodes(d, &all);
            self.fails(d);
            self.reply_content(d, Found::Inline);
        }
        self.now += 10 * TIMEOUT;
        self.settle()
    }

    fn result(self) -> Result<String, String> {
        let answered = self.answered();
        match self.q {
            Q::Nodes(q) => {
                let got: Vec<usize> = q.into_result().iter().map(number).collect();
                let want: Vec<usize> = answered.into_iter().take(self.results).collect();
                check!(got == want, "the result is {got:?}, expected {want:?}");
                Ok(format!("{got:?}"))
            }
            Q::Content(q) => match (q.into_result(), self.accepted) {
                (FindContentQueryResult::NoneFound, None) => Ok("none".into()),
                (FindContentQueryResult::ValidContent(v, cancelled), Some((d, how))) => {
                    check!(
                        v.content == body(d, how)
                            && v.sending_peer == node(d)
                            && v.was_utp_transfer == (how == Found::Transfer),
                        "node {d} supplied the valid content, the result is {v:?}"
                    );
                    for c in &cancelled {
                        let c = number(c);
                        check!(
                            matches!(self.peers[c], Peer::Asked(_)),
                            "node {c} is reported as still being asked: {:?}",
                            self.peers[c]
                        );
                    }
                    let cancelled: Vec<usize> = cancelled.iter().map(number).collect();
                    check!(
                        self.left.iter().all(|l| cancelled.contains(l)),
                        "nodes {:?} could still answer at the end, reported are {cancelled:?}",
                        self.left
                    );
                    Ok(format!("{d} {how:?} {}", cancelled.len()))
                }
                (r, a) => fail!("result {r:?} where content accepted is {a:?}"),
            },
        }
    }
}

/// Replies of a peer: lists over what is of interest to a lookup.
fn menu(n: usize, d: usize, full: bool) -> Vec<Vec<usize>> {
    let others: Vec<usize> = (1..=n).filter(|o| *o != d).collect();
    if full {
        return (0..1u32 << others.len())
            .map(|s| {
                (0..others.len()).filter(|i| s >> i & 1 == 1).map(|i| others[i]).collect()
            })
            .collect();
    }
    let mut down = others.clone();
    down.reverse();
    let mut out = vec![vec![], vec![others[0]], vec![*others.last().unwrap()], others, down];
    out.dedup();
    out
}

struct Bound {
    n: usize,
    full: bool,
    /// Number of events.
    len: usize,
    /// Number of time steps among them.
    ticks: usize,
    /// Number of replies nobody waits for among them.
    strays: usize,
    parallelism: &'static [usize],
    results: &'static [usize],
}

fn run(ch: &mut Ch, content: bool, b: &Bound) -> Res {
    let parallelism = *ch.choose(b.parallelism);
    let results = *ch.choose(b.results);
    let known = ch.subset(b.n);
    let mut known: Vec<usize> = (1..=b.n).filter(|d| known >> (d - 1) & 1 == 1).collect();
    if known.is_empty() {
        // One run without anybody to start with is enough.
        known.clear();
    }
    ch.note(|| format!("parallelism {parallelism}, results {results}, starts with {known:?}"));
    let mut w = World::new(content, b.n, parallelism, results, &known);
    w.settle()?;
    ch.state(&w.key());
    let (mut ticks, mut strays) = (b.ticks, b.strays);
    for _ in 0..b.len {
        if w.finished {
            break;
        }
        let asked = w.asked();
        // Events: the end of the history, a tick, a verdict, a stray, or something from an asked peer.
        let mut events: Vec<(u8, usize)> = vec![(0, 0)];
        if ticks > 0 {
            events.push((1, 0));
        }
        if w.judging.is_some() {
            events.push((2, 0));
            events.push((2, 1));
        }
        if strays > 0 {
            for d in 1..=b.n {
                if !asked.contains(&d) {
                    events.push((3, d));
                }
            }
        }
        for d in &asked {
            events.push((4, *d));
            events.push((5, *d));
            if content {
                events.push((6, *d));
                events.push((7, *d));
            }
        }
        match *ch.choose(&events) {
            (0, _) => break,
            (1, _) => {
                ticks -= 1;
                w.now += 1;
                ch.note(|| format!("time {}", w.now));
            }
            (2, v) => {
                ch.note(|| format!("content found {}", if v == 1 { "valid" } else { "invalid" }));
                w.verdict(v == 1);
            }
            (3, d) => {
                strays -= 1;
                ch.note(|| format!("stray reply and failure of {d}"));
                let all: Vec<usize> = (1..=b.n).collect();
                w.reply_nodes(d, &all);
                w.reply_content(d, Found::Inline);
                w.fails(d);
            }
            (4, d) => {
                ch.note(|| format!("{d} fails"));
                w.fails(d);
            }
            (5, d) => {
                let replies = menu(b.n, d, b.full);
                let nodes = ch.choose(&replies).clone();
                ch.note(|| format!("{d} replies {nodes:?}"));
                w.reply_nodes(d, &nodes);
            }
            (6, d) => {
                ch.note(|| format!("{d} supplies content"));
                w.reply_content(d, Found::Inline);
            }
            (_, d) => {
                ch.note(|| format!("{d} offers a transfer"));
                w.reply_content(d, Found::Transfer);
            }
        }
        w.settle()?;
        ch.steps(1);
        ch.state(&w.key());
    }
    w.drain()?;
    w.afterwards()?;
    let r = w.result()?;
    ch.outcome(&(parallelism, results, r));
    Ok(())
}

pub fn q01(ctx: &Ctx) {
    let small = Bound {
        n: 3,
        full: true,
        len: ctx.b(6, 8),
        ticks: 4,
        strays: 1,
        parallelism: &[1, 2, 3],
        results: &[1, 2, 3],
    };
    ctx.explore("three nodes, all replies", |ch| run(ch, false, &small));
    let wide = Bound {
        n: ctx.b(4, 5),
        full: false,
        len: ctx.b(5, 6),
        ticks: 3,
        strays: ctx.b(0, 1),
        parallelism: &[1, 2],
        results: &[1, 2, 4],
    };
    ctx.explore("more nodes, chosen replies", |ch| run(ch, false, &wide));
}

pub fn q02(ctx: &Ctx) {
    let small = Bound {
        n: 3,
        full: true,
        len: ctx.b(5, 7),
        ticks: 3,
        strays: 1,
        parallelism: &[1, 2, 3],
        results: ctx.b(&[1, 3], &[1, 2, 3]),
    };
    ctx.explore("three nodes, all replies", |ch| run(ch, true, &small));
    let wide = Bound {
        n: 4,
        full: false,
        len: ctx.b(4, 6),
        ticks: ctx.b(2, 3),
        strays: 0,
        parallelism: &[1, 2],
        results: &[2, 4],
    };
    ctx.explore("more nodes, chosen replies", |ch| run(ch, true, &wide));
}
