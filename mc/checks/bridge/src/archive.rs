//! What the bridge offers of the blocks in archives, and when.

use std::{collections::BTreeMap, io::{Read, Write}, sync::OnceLock, rc::Rc, str::FromStr, time::Duration};

use discv5::enr::NodeId;
use ethportal_api::types::{distance::Distance, network::Subnetwork, portal_wire::OfferTrace};
use spec::{beacon::hashes, chain::{Payload, Requests}, container, execution, hash, merkle, rlp, short, trie, Rlp, Var};
use vc::{check, check_eq, fail, Ctx, Res};

use crate::{
    bridge::e2hs::{BlockRange, E2HSBridge},
    known::{Account, Event, CODES},
    peers::{id, record},
    world::{self, fine, html, now, raw, until, Offered, Shared, START},
};

const NET: Subnetwork = Subnetwork::LegacyHistory;
const EPOCH: u64 = 8192;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Capella,
    Deneb,
    /// No transactions, receipts or withdrawals.
    Empty,
    /// A real block from before the merge.
    Proven,
    /// Before the merge and before Capella, with a proof of something else.
    Unproven,
    UnprovenMerged,
    OtherTransactions,
    OtherWithdrawals,
    OtherUncles,
    OtherReceipts,
}
use Kind::*;
const KINDS: [Kind; 10] = [Capella, Deneb, Empty, Proven, Unproven, UnprovenMerged, OtherTransactions, OtherWithdrawals, OtherUncles, OtherReceipts];

impl Kind {
    fn good(self) -> bool {
        matches!(self, Capella | Deneb | Empty | Proven)
    }
}

#[derive(Clone)]
struct Block {
    number: u64,
    hash: [u8; 32],
    with_proof: Vec<u8>,
    /// In archives.
    body: Vec<u8>,
    receipts: Vec<u8>,
    /// In the network.
    content: [Vec<u8>; 2],
}

/// Real blocks without transactions and uncles, with their proofs, by number.
fn real() -> &'static [Block] {
    static BLOCKS: OnceLock<Vec<Block>> = OnceLock::new();
    BLOCKS.get_or_init(|| {
        let file = std::fs::read("/repo/test_assets/era1/mainnet-00000-5ec1ffb8.era1").expect("an archive");
        let mut rest = &file[..];
        let (mut headers, mut bodies, mut leaves) = (vec![], vec![], vec![]);
        while rest.len() >= 8 {
            let kind = u16::from_be_bytes([rest[0], rest[1]]);
            let n = u32::from_le_bytes(rest[2..6].try_into().unwrap()) as usize;
            let value = &rest[8..8 + n];
            rest = &rest[8 + n..];
            let unpack = || {
                let mut out = vec![];
                snap::read::FrameDecoder::new(value).read_to_end(&mut out).expect("a frame");
                out
            };
            match kind {
                0x0300 => headers.push(unpack()),
                0x0400 => bodies.push(unpack()),
                0x0600 => leaves.push(merkle::node(&trie::keccak(headers.last().unwrap()), &value.try_into().unwrap())),
                _ => {}
            }
        }
        assert_eq!(leaves.len(), EPOCH as usize);
        let tree = merkle::Tree::new(&leaves, 13);
        let mut length = [0; 32];
        length[..8].copy_from_slice(&EPOCH.to_le_bytes());
        let difficulty = |k: usize| {
            // The other half of the leaf: the total difficulty.
            let mut at = 0;
            let mut seen = 0;
            loop {
                let kind = u16::from_be_bytes([file[at], file[at + 1]]);
                let n = u32::from_le_bytes(file[at + 2..at + 6].try_into().unwrap()) as usize;
                if kind == 0x0600 {
                    if seen == k {
                        return file[at + 8..at + 8 + n].to_vec();
                    }
                    seen += 1;
                }
                at += 8 + n;
            }
        };
        (100..headers.len())
            .filter(|k| bodies[*k] == [0xc2, 0xc0, 0xc0])
            .take(5)
            .map(|k| {
                let proof = [difficulty(k), tree.branch(k).concat(), length.to_vec()].concat();
                Block {
                    number: k as u64,
                    hash: trie::keccak(&headers[k]),
                    with_proof: container(&[Var(headers[k].clone()), Var(proof)]),
                    body: bodies[k].clone(),
                    receipts: vec![0xc0],
                    content: [container(&[Var(vec![]), Var(vec![0xc0])]), vec![]],
                }
            })
            .collect()
    })
}

fn block(number: u64, kind: Kind) -> Block {
    if kind == Proven {
        return real()[number as usize].clone();
    }
    let number = if kind == UnprovenMerged { 15_600_000 + number } else { number };
    let mut p = Payload::new(number, number as u8);
    let fork = match kind {
        Unproven | UnprovenMerged => 0,
        Deneb => 2,
        _ => 1,
    };
    p.timestamp = [1_500_000_000, 1_690_000_000, 1_720_000_000][fork];
    if kind == UnprovenMerged {
        p.timestamp = 1_670_000_000;
    }
    let n = if kind == Empty { 0 } else { 2 };
    p.txs = (0..n).map(|k| execution::transaction(k, number as usize % 3)).collect();
    if fork > 0 && kind != Empty {
        p.withdrawals = vec![number, number + 1];
    }
    let mut receipts: Vec<Vec<u8>> = (0..n).map(|k| execution::receipt(k, 1, (number % 3) as usize)).collect();
    p.receipts = trie::ordered_root(&receipts);
    let header = p.header(fork, hash(9), &Requests::default());
    match kind {
        OtherTransactions => p.txs.swap(0, 1),
        OtherWithdrawals => p.withdrawals.reverse(),
        OtherReceipts => receipts.swap(0, 1),
        _ => {}
    }
    let uncles = if kind == OtherUncles { vec![execution::header(number, 1_499_999_000, 1, 0)] } else { vec![] };
    let wrap = |l: &[Vec<u8>]| execution::raw_list(&l.iter().map(|t| execution::wrapped(t)).collect::<Vec<_>>());
    let mut parts = vec![wrap(&p.txs), execution::raw_list(&uncles)];
    if fork > 0 {
        parts.push(rlp(&Rlp::List(p.withdrawals.iter().map(|w| execution::withdrawal(*w)).collect())));
    }
    let mut content = vec![Var(spec::list(&p.txs)), Var(execution::raw_list(&uncles))];
    if fork > 0 {
        let l: Vec<_> = p.withdrawals.iter().map(|w| rlp(&execution::withdrawal(*w))).collect();
        content.push(Var(spec::list(&l)));
    }
    let slot = number.to_le_bytes().to_vec();
    let proof = match fork {
        0 if kind == UnprovenMerged => [hashes(71, 14), hash(72).into(), hashes(73, 11), slot].concat(),
        0 => hashes(70, 15),
        1 => [hashes(74, 13), hash(75).into(), hashes(76, 11), slot].concat(),
        _ => [hashes(77, 13), hash(78).into(), hashes(79, 12), slot].concat(),
    };
    Block {
        number,
        hash: trie::keccak(&header),
        with_proof: container(&[Var(header), Var(proof)]),
        body: execution::raw_list(&parts),
        receipts: wrap(&receipts),
        content: [container(&content), spec::list(&receipts)],
    }
}

impl Block {
    /// Keys and values of header by hash, header by number, body and receipts.
    fn items(&self) -> [(Vec<u8>, Vec<u8>); 4] {
        let key = |s: u8, b: &[u8]| [&[s], b].concat();
        [
            (key(0, &self.hash), self.with_proof.clone()),
            (key(3, &self.number.to_le_bytes()), self.with_proof.clone()),
            (key(1, &self.hash), self.content[0].clone()),
            (key(2, &self.hash), self.content[1].clone()),
        ]
    }
}

fn archive(blocks: &[Block]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut entry = |kind: u16, value: &[u8]| {
        let at = out.len() as i64;
        out.extend(kind.to_be_bytes());
        out.extend((value.len() as u32).to_le_bytes());
        out.extend([0, 0]);
        out.extend(value);
        (at, out.len() as i64)
    };
    let pack = |b: &[u8]| {
        let mut e = snap::write::FrameEncoder::new(vec![]);
        e.write_all(b).unwrap();
        e.into_inner().map_err(|_| "frame").unwrap()
    };
    let mut end = entry(0x6532, &[]).1;
    let mut starts = vec![];
    for b in blocks {
        starts.push(entry(0x0301, &pack(&b.with_proof)).0);
        entry(0x0400, &pack(&b.body));
        end = entry(0x0500, &pack(&b.receipts)).1;
    }
    let mut index = vec![blocks.first().map_or(0, |b| b.number).to_le_bytes()];
    index.extend(starts.iter().map(|s| (s - end).to_le_bytes()));
    // The index has room for the blocks of a whole epoch.
    index.resize(EPOCH as usize + 1, [0; 8]);
    index.push((blocks.len() as u64).to_le_bytes());
    entry(0x6632, &index.concat());
    out
}

#[derive(Clone)]
struct Plan {
    /// Per archive, the numbers of its blocks within the epoch, and what they are.
    files: Vec<Vec<(u64, Kind)>>,
    start: u64,
    end: Option<u64>,
    random: bool,
    limit: usize,
    peers: Vec<u16>,
    download: u64,
}

impl Plan {
    fn simple(blocks: &[Kind], limit: usize, peers: &[u16]) -> Self {
        let blocks = blocks.iter().enumerate().map(|(i, k)| (i as u64, *k)).collect();
        Self { files: vec![blocks], start: 0, end: None, random: false, limit, peers: peers.to_vec(), download: 0 }
    }
    fn blocks(&self) -> Vec<Vec<(Block, bool)>> {
        self.files
            .iter()
            .enumerate()
            .map(|(e, l)| {
                l.iter()
                    .map(|(n, k)| {
                        let n = e as u64 * EPOCH + n;
                        (block(n, *k), k.good() && n >= self.start && self.end.is_none_or(|end| n <= end))
                    })
                    .collect()
            })
            .collect()
    }
}

/// Starts and runs the bridge to its end. Returns when it began, when it was done, and the blocks
/// it should offer.
async fn serve(plan: &Plan, net: &Shared) -> Result<(u64, u64, Vec<Block>), String> {
    for k in &plan.peers {
        net.borrow_mut().plan(id(*k), vec![fine(5, Distance::MAX)]);
    }
    // A peer that wants nothing.
    net.borrow_mut().plan(id(9), vec![fine(5, Distance::ZERO)]);
    net.borrow_mut().found.insert(NET, plan.peers.iter().chain(&[9]).map(|k| record(*k, 5)).collect());
    let (mut census, overlays) = world::census(8);
    census.init([NET]).await.map_err(|e| format!("not started: {e}"))?;
    let blocks = plan.blocks();
    let files: Vec<Vec<u8>> =
        blocks.iter().map(|l| archive(&l.iter().map(|b| b.0.clone()).collect::<Vec<_>>())).collect();
    let name = |e: usize| format!("mainnet-{e:05}-0badcafe.e2hs");
    let download = plan.download;
    world::provider(move |url| {
        let path = url.strip_prefix("https://e2hs.ethportal.net/")?;
        if path == "index.html" {
            let links = (0..files.len()).rev().map(|e| format!("<a href=\"{n}\">{n}</a>", n = name(e)));
            return html(format!("<html><a href=\"/\">top</a>{}</html>", links.collect::<String>()));
        }
        (0..files.len()).find(|e| path == name(*e)).and_then(|e| raw(files[e].clone(), download))
    });
    let range = BlockRange { start: plan.start, end: plan.end };
    let history = overlays.history().expect("all");
    let bridge = E2HSBridge::new(history, plan.limit, range, plan.random, census).await.map_err(|e| e.to_string())?;
    let began = now();
    if tokio::time::timeout(Duration::from_secs(3_000_000), bridge.launch()).await.is_err() {
        fail!("not done after a month");
    }
    let good = blocks.into_iter().flatten().filter(|b| b.1).map(|b| b.0).collect();
    Ok((began, now(), good))
}

const PATIENCE: u64 = 120_000;
const SPREAD: u64 = 2000;

/// When each offer of a content began and when the bridge knew how it went.
type Log = BTreeMap<(Vec<u8>, [u8; 32]), (u64, u64)>;

/// What holds whatever the peers do: each block's content is offered once to each peer, in order,
/// with no more offers under way than allowed.
fn judge(net: &Shared, plan: &Plan, done: u64, want: &[Block]) -> Result<Log, String> {
    let mut log = Log::new();
    let mut values = BTreeMap::new();
    for b in want {
        for (k, v) in b.items() {
            values.insert(k, v);
        }
    }
    for o in &net.borrow().offers {
        check!(o.network == NET && o.items.len() == 1, "an offer of another kind");
        check!(plan.peers.iter().any(|p| id(*p) == o.to), "an offer to a peer that wants nothing");
        let (k, v) = &o.items[0];
        let Some(want) = values.get(k) else { fail!("{} was offered", short(k)) };
        check!(v == want, "another value was offered as {}", short(k));
        let end = o.done.unwrap_or(u64::MAX).min(o.at + PATIENCE);
        check!(log.insert((k.clone(), o.to.raw()), (o.at, end)).is_none(), "{} was offered twice to a peer", short(k));
        check!(end <= done, "done at {done} before an offer was, at {end}");
    }
    for b in want {
        let mut times = vec![];
        for (k, _) in b.items() {
            let mut l = vec![];
            for p in &plan.peers {
                let Some(t) = log.get(&(k.clone(), id(*p).raw())) else { fail!("{} was not offered to peer {p}", short(&k)) };
                l.push(*t);
            }
            times.push(l);
        }
        let first = |l: &[(u64, u64)]| l.iter().map(|t| t.0).min().unwrap();
        let last = times[0].iter().map(|t| t.1).max().unwrap();
        check!(first(&times[1]) >= last, "block {}: by number offered at {} before {last}", b.number, first(&times[1]));
        for k in [2, 3] {
            let t = first(&times[k]);
            check!(t >= last + SPREAD, "block {}: content {k} offered at {t}, by hash done at {last}", b.number);
        }
    }
    // Offers under way at the start of each.
    for (s, _) in log.values() {
        let n = log.values().filter(|(a, b)| a <= s && s < b).count();
        check!(n <= plan.limit, "{n} offers under way at {s}");
    }
    Ok(log)
}

fn react(net: &Shared, f: impl Fn(NodeId, u8) -> (u64, Result<OfferTrace, String>) + 'static) {
    net.borrow_mut().offer = Some(Rc::new(move |o| {
        let (after, result) = f(o.to, o.items[0].0[0]);
        Offered { after, result }
    }));
}

const YES: OfferTrace = OfferTrace::Success(CODES[0]);

/// Time until the answer of a peer.
const SPEEDS: [u64; 4] = [10, 3000, 119_000, 999_999];

pub fn b07(ctx: &Ctx) {
    let chars = ["0", "1", "9", "-", "+", " ", "a", "18446744073709551615"];
    let len = ctx.b(5, 6);
    ctx.explore("texts", |ch| {
        let n = ch.pick(len + 1);
        let text: String = (0..n).map(|_| *ch.choose(&chars)).collect();
        let want = text.split_once('-').and_then(|(a, b)| {
            let n = |s: &str| s.parse::<u64>().ok();
            let end = if b.is_empty() { None } else { Some(n(b)?) };
            Some((n(a)?, end))
        });
        let got = BlockRange::from_str(&text).ok().map(|r| (r.start, r.end));
        check_eq!(got, want, "range in {text:?}");
        ch.eval();
        ch.outcome(&want);
        Ok(())
    });
    let edges = [0, 1, 2, EPOCH - 2, EPOCH - 1, EPOCH, EPOCH + 1, 2 * EPOCH - 1, 2 * EPOCH, 3 * EPOCH - 1];
    ctx.explore("ranges", |ch| {
        let start = *ch.choose(&edges);
        let later: Vec<u64> = edges.into_iter().filter(|e| *e >= start).collect();
        let k = ch.pick(later.len() + 1);
        let end = later.get(k).copied();
        let random = ch.flag();
        let seed = if random { ch.pick(ctx.b(2, 6)) as u64 } else { 7 };
        let download = if ch.flag() { 30_000 } else { 0 };
        let limit = *ch.choose(&[1, 2, 16]);
        ch.steps(9);
        ch.note(|| format!("{start} to {end:?}, random {random}"));
        let file = vec![(0, Capella), (1, Deneb), (EPOCH - 2, Empty), (EPOCH - 1, Capella)];
        let plan = Plan { files: vec![file; 3], start, end, random, limit, peers: vec![2], download };
        let n = world::run(seed, START, move || async move {
            let net = world::network();
            let (_, done, want) = serve(&plan, &net).await?;
            judge(&net, &plan, done, &want)?;
            Ok(want.len())
        })?;
        ch.outcome(&n);
        ch.state(&(start, end));
        Ok(())
    });
    ctx.explore("validity", |ch| {
        let n = 1 + ch.pick(ctx.b(3, 4));
        let kinds: Vec<Kind> = (0..n).map(|_| *ch.choose(&KINDS)).collect();
        ch.steps(n as u64);
        ch.note(|| format!("{kinds:?}"));
        ch.state(&kinds);
        let plan = Plan::simple(&kinds, 4, &[2]);
        let n = world::run(7, START, move || async move {
            let net = world::network();
            let (_, done, want) = serve(&plan, &net).await?;
            judge(&net, &plan, done, &want)?;
            Ok(want.len())
        })?;
        ch.outcome(&n);
        Ok(())
    });
    // Speed of a peer: one for offers of one kind of content, another one for all others.
    let speeds = |ch: &mut vc::Ch| {
        let other = *ch.choose(&SPEEDS);
        let (kind, slow) = if ch.flag() { (ch.pick(4) as u8, *ch.choose(&SPEEDS)) } else { (9, 0) };
        (other, kind, slow)
    };
    ctx.explore("limits", |ch| {
        let peers: Vec<u16> = (2..4 + ch.pick(2) as u16).collect();
        let n = 1 + ch.pick(ctx.b(2, 3));
        let limit = 1 + ch.pick(3);
        let (other, kind, slow) = speeds(ch);
        ch.steps(n as u64 * 4 * peers.len() as u64);
        ch.state(&(peers.len(), n, limit, other, kind, slow));
        ch.note(|| format!("{n} blocks, limit {limit}, {} peers, {other} ms but {slow} ms for {kind}", peers.len()));
        let plan = Plan::simple(&vec![Capella; n], limit, &peers);
        world::run(7, START, move || async move {
            let net = world::network();
            // The first peer is the one described, the others are fast.
            react(&net, move |to, k| {
                let t = match (to == id(2), k == kind) {
                    (false, _) => 10,
                    (_, true) => slow,
                    _ => other,
                };
                (t, Ok(YES))
            });
            let (began, done, want) = serve(&plan, &net).await?;
            let log = judge(&net, &plan, done, &want)?;
            let work: u64 = log.values().map(|t| t.1 - t.0).sum::<u64>() + n as u64 * SPREAD;
            check!(done <= began + work + 1000, "took {} ms for {work} ms of work", done - began);
            Ok(())
        })
    });
    ctx.explore("times", |ch| {
        let n = 1 + ch.pick(3);
        let a = speeds(ch);
        let b = if n == 1 || ctx.b(0, 1) == 1 { speeds(ch) } else { (10, 9, 0) };
        ch.steps(n as u64 * 8);
        ch.state(&(n, a, b));
        ch.note(|| format!("{n} blocks, {a:?} and {b:?}"));
        let plan = Plan::simple(&vec![Deneb; n], 64, &[2, 3]);
        world::run(7, START, move || async move {
            let net = world::network();
            let speed = move |to: NodeId, k: u8| {
                let (other, kind, slow) = if to == id(2) { a } else { b };
                if k == kind { slow } else { other }
            };
            react(&net, move |to, k| (speed(to, k), Ok(YES)));
            let (began, done, want) = serve(&plan, &net).await?;
            let log = judge(&net, &plan, done, &want)?;
            // Nothing has to wait for anything else.
            let takes = |k: u8| speed(id(2), k).min(PATIENCE).max(speed(id(3), k).min(PATIENCE));
            let second = began + takes(0);
            let third = second + SPREAD;
            let mut end = began;
            for block in &want {
                for ((key, _), (k, t)) in block.items().iter().zip([(0, began), (3, second), (1, third), (2, third)]) {
                    end = end.max(t + takes(k));
                    for p in [2, 3] {
                        let at = log[&(key.clone(), id(p).raw())].0;
                        check!(at >= t && at < t + 100, "{} offered to {p} at {at}, not {t}", short(key));
                    }
                }
            }
            check!(done >= end && done < end + 100, "done at {done}, not {end}");
            Ok(())
        })
    });
    ctx.explore("results", |ch| {
        let kind = ch.pick(11);
        let blocks = ctx.b(12, 24);
        ch.steps(blocks as u64 * 4);
        let left_out = world::run(7, START, move || results(kind, blocks))?;
        ch.outcome(&(kind, left_out));
        Ok(())
    });
}

/// One block after the other, with a peer whose answers lead to its being left out, and one that
/// accepts everything.
async fn results(kind: usize, blocks: usize) -> Result<usize, String> {
    let (after, result, event) = match kind {
        0..=6 => (50, Ok(OfferTrace::Success(CODES[kind])), Event::Code(kind as u8)),
        7 => (50, Ok(OfferTrace::Failed), Event::Failed),
        8 => (50, Err("no connection".to_string()), Event::Failed),
        9 => (119_000, Ok(YES), Event::Code(0)),
        _ => (500_000, Ok(YES), Event::Failed),
    };
    let net = world::network();
    react(&net, move |to, _| if to == id(2) { (after, result.clone()) } else { (10, Ok(YES)) });
    let plan = Plan::simple(&vec![Capella; blocks], 1, &[2, 3]);
    let (began, done, want) = serve(&plan, &net).await?;
    let offers = net.borrow().offers.clone();
    let offered = |k: &[u8], p: u16| offers.iter().any(|o| o.to == id(p) && o.items[0].0 == k);
    let after = after.min(PATIENCE);
    let checks = net.borrow().checks(id(2));
    let mut account = Account::default();
    let mut left_out = 0;
    let mut t = began;
    for b in &want {
        let items = b.items();
        // Whether a content is offered to the peer is decided when it is its turn.
        let mut decide = |t: u64, known: u64, k: usize, account: &mut Account| -> Result<u64, String> {
            let checks: Vec<u64> = checks.iter().copied().filter(|c| *c <= t).collect();
            let so_far = Account { offers: account.offers.iter().filter(|o| o.0 <= t).copied().collect() };
            let w = so_far.weight_at(t, &checks, false);
            check_eq!(offered(&items[k].0, 2), w > 0, "content {k} of block {} offered with weight {w}", b.number);
            check!(offered(&items[k].0, 3), "content {k} of block {} not offered to the other", b.number);
            if w > 0 {
                account.offers.push((known, event));
                Ok(after + 10)
            } else {
                left_out += 1;
                Ok(10)
            }
        };
        let first = decide(t, t + after, 0, &mut account)?;
        let second = t + first;
        let took = decide(second, second + after, 1, &mut account)?;
        let third = (second + SPREAD).max(second + took);
        let x = decide(second + SPREAD, third + after, 2, &mut account)?;
        let y = decide(second + SPREAD, third + after, 3, &mut account)?;
        t = third + x + y;
    }
    check!(done >= t && done < t + 500, "done at {done} instead of {t}");
    Ok(left_out)
}
