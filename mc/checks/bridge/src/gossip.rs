//! What the bridge offers of the state, block by block and from snapshots.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    panic::AssertUnwindSafe,
    rc::Rc,
    str::FromStr,
    time::Duration,
};

use alloy::primitives::{Address, B256, U256};
use discv5::enr::NodeId;
use ethportal_api::types::{accept_code::AcceptCode, distance::Distance, network::Subnetwork, portal_wire::OfferTrace};
use futures::FutureExt;
use spec::{container, list, short, trie::keccak, Fixed, Var};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    blocks::{account, archive, chain, Block, Plan, Step, Step::*, Tx, EPOCH},
    bridge::state::StateBridge,
    cli::BridgeId,
    commits::Dir,
    content::packed,
    model::{address, State},
    peers::{id, record},
    runs::prepared,
    snapshot::{family, file, snapshot, world as chain_of},
    types::mode::{BridgeMode, ModeType},
    world::{self, fine, now, Offered, Shared, START},
};

const NET: Subnetwork = Subnetwork::State;

type Contents = BTreeMap<Vec<u8>, Vec<u8>>;

/// The contents of a state that may be offered after a change, and those of them that were not
/// there before. Of accounts not worked on nothing but the trie nodes may be.
fn contents(before: &State, after: &State, block: B256, worked: &BTreeSet<Address>) -> (Contents, BTreeSet<Vec<u8>>) {
    let hashes = |t: &Option<spec::trie::Node>| -> BTreeSet<[u8; 32]> { t.iter().flat_map(|t| t.all()).map(|(_, _, n)| n.hash()).collect() };
    let (mut all, mut new) = (Contents::new(), BTreeSet::new());
    let old = hashes(&before.trie());
    let nodes = after.trie().map(|t| t.all()).unwrap_or_default();
    let block = || Fixed(block.to_vec());
    for (path, proof, node) in &nodes {
        let key = [vec![0x20], container(&[Var(packed(path)), Fixed(node.hash().to_vec())])].concat();
        if !old.contains(&node.hash()) {
            new.insert(key.clone());
        }
        all.insert(key, container(&[Var(list(proof)), block()]));
    }
    for (who, a) in &after.0 {
        let owner = keccak(who.as_slice());
        let path = spec::trie::nibbles(&owner);
        // The leaf is the longest node on the way.
        let (_, proof, _) = nodes.iter().filter(|(p, ..)| path.starts_with(p)).max_by_key(|(p, ..)| p.len()).expect("a leaf");
        let was = before.0.get(who);
        if !a.code.is_empty() {
            let key = [&[0x22][..], &owner, &keccak(&a.code)].concat();
            if was.is_none_or(|w| w.code != a.code) {
                new.insert(key.clone());
            }
            if worked.contains(who) {
                all.insert(key, container(&[Var(a.code.clone()), Var(list(proof)), block()]));
            }
        }
        let old = was.map(|w| hashes(&w.storage_trie())).unwrap_or_default();
        for (path, nodes, node) in a.storage_trie().iter().filter(|_| worked.contains(who)).flat_map(|t| t.all()) {
            let key = [vec![0x21], container(&[Fixed(owner.to_vec()), Var(packed(&path)), Fixed(node.hash().to_vec())])].concat();
            if !old.contains(&node.hash()) {
                new.insert(key.clone());
            }
            all.insert(key, container(&[Var(list(&nodes)), Var(list(proof)), block()]));
        }
        if a.storage.is_empty() {
            // The one node of a trie of nothing may be offered.
            let key = [vec![0x21], container(&[Fixed(owner.to_vec()), Var(packed(&[])), Fixed(keccak(&[0x80]).to_vec())])].concat();
            all.insert(key, container(&[Var(list(&[vec![0x80]])), Var(list(proof)), block()]));
        }
    }
    (all, new)
}

/// What programs the blocks have.
const KINDS: usize = 10;
fn programs(kind: usize) -> Vec<Vec<Step>> {
    let (c, one, two, tmp) = (address(2), address(40), address(41), address(42));
    let code = spec::ramp(3, 50);
    match kind {
        0 => vec![vec![Credit(address(43), 5)]],
        1 => vec![vec![Create(one, code), Set(one, 0, U256::from(5)), Set(one, 1, U256::MAX)]],
        2 => vec![vec![Create(two, code)]],
        3 => vec![vec![Set(c, 0, U256::from(77)), Set(c, 3, U256::from(8))]],
        4 => vec![[0, 1, 3, 7].map(|s| Set(c, s, U256::ZERO)).to_vec()],
        5 => vec![vec![Destroy(c)]],
        6 => vec![vec![Destroy(c)], vec![Create(c, spec::ramp(4, 60)), Set(c, 1, U256::from(6)), Set(c, 20, U256::from(1))]],
        7 => vec![],
        8 => vec![vec![Create(tmp, vec![1, 2, 3]), Set(tmp, 1, U256::from(1)), Destroy(tmp)]],
        _ => vec![vec![Credit(one, 3)], vec![Set(c, 7, U256::from(701)), Credit(two, 1)]],
    }
}

struct Chain {
    dir: Dir,
    blocks: Vec<Block>,
    /// The state before all, and after each block.
    states: Vec<State>,
    /// Whose code or storage each block writes.
    worked: Vec<BTreeSet<Address>>,
}
const BASE: u64 = 400;
fn built(kinds: &[usize]) -> Result<Chain, String> {
    let mut first = crate::executor::before(BASE * EPOCH);
    for n in 60..72 {
        first.0.insert(address(n), account(n as u128, 0, 0, &[]));
    }
    first.0.insert(address(80), account(1, 1, 60, &[(0, 1)]));
    let plans: Vec<Plan> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let txs = programs(*k).into_iter().enumerate().map(|(j, steps)| Tx { kind: 0, who: 3 + 2 * j as u8, steps }).collect();
            Plan { number: BASE * EPOCH + i as u64, beneficiary: address(8), txs, ..Default::default() }
        })
        .collect();
    let dir = Dir::new();
    let mut hashes = prepared(&dir, BASE, &first)?;
    let (blocks, mut states) = chain(&plans, &first, &mut hashes);
    states.insert(0, first);
    let by = |k: usize| programs(k).concat().iter().filter_map(|s| if let Set(a, ..) | Create(a, _) = s { Some(*a) } else { None }).collect();
    Ok(Chain { dir, blocks, states, worked: kinds.iter().map(|k| by(*k)).collect() })
}

/// Archives of blocks and snapshots; the addresses asked for.
fn serve(epoch: u64, blocks: Vec<u8>, snapshots: BTreeMap<u64, Vec<u8>>) -> Rc<RefCell<Vec<String>>> {
    let log: Rc<RefCell<Vec<String>>> = Default::default();
    let asked = log.clone();
    let page = |names: Vec<String>| {
        let links: String = names.iter().map(|n| format!("<a href=\"{n}\">{n}</a>")).collect();
        Some((200, format!("<html>{links}</html>").into_bytes()))
    };
    reqwest::fake::set(move |url, _| {
        asked.borrow_mut().push(url.to_string());
        let of = |e: u64| format!("mainnet-{e:05}-0badcafe.e2hs");
        let snap = |n: u64| format!("mainnet-{n:010}-0badcafe.e2ss");
        if let Some(path) = url.strip_prefix("https://e2hs.ethportal.net/") {
            if path == "index.html" {
                return page((0..=epoch).map(of).collect());
            }
            return (path == of(epoch)).then(|| (200, blocks.clone()));
        }
        let path = url.strip_prefix("https://e2ss.ethportal.net/")?;
        if path == "index.html" {
            return page(snapshots.keys().map(|n| snap(*n)).collect());
        }
        snapshots.iter().find(|(n, _)| path == snap(**n)).map(|(_, f)| (200, f.clone()))
    });
    log
}

#[derive(Clone, Debug)]
struct Setup {
    limit: usize,
    id: (u64, u64),
    peers: Vec<u16>,
}
impl Default for Setup {
    fn default() -> Self {
        Self { limit: 4, id: (1, 1), peers: vec![2, 3] }
    }
}

/// Runs the bridge to its end. Returns when it was done.
async fn launch(mode: BridgeMode, s: &Setup, data: Option<&std::path::Path>, net: &Shared) -> Result<u64, String> {
    for k in &s.peers {
        net.borrow_mut().plan(id(*k), vec![fine(5, Distance::MAX)]);
    }
    // A peer that wants nothing.
    net.borrow_mut().plan(id(9), vec![fine(5, Distance::ZERO)]);
    net.borrow_mut().found.insert(NET, s.peers.iter().chain(&[9]).map(|k| record(*k, 5)).collect());
    let (mut census, overlays) = world::census(8);
    let handle = census.init([NET]).await.map_err(|e| format!("not started: {e}"))?;
    let state = overlays.state().expect("all");
    let bridge_id = BridgeId { id: s.id.0, total: s.id.1 };
    let bridge = StateBridge::new(mode, state, s.limit, census, bridge_id, data.map(|d| d.to_path_buf())).await.map_err(|e| e.to_string())?;
    let run = AssertUnwindSafe(bridge.launch()).catch_unwind();
    let got = tokio::time::timeout(Duration::from_secs(3_000_000), run).await;
    handle.abort();
    match got {
        Err(_) => fail!("not done after a month"),
        Ok(Err(p)) => {
            let text = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
            fail!("failed: {}", text.unwrap_or_default())
        }
        Ok(Ok(())) => Ok(now()),
    }
}

/// Offers of one content: to whom, from when to when.
type Log = BTreeMap<(usize, Vec<u8>), BTreeMap<[u8; 32], (u64, u64)>>;

/// The offers by block and key; each is one of the contents, and to each peer at most once.
fn offered(net: &Shared, s: &Setup, done: u64, want: &[(Contents, BTreeSet<Vec<u8>>)]) -> Result<Log, String> {
    let mut log = Log::new();
    for o in &net.borrow().offers {
        check!(o.network == NET && o.items.len() == 1, "an offer of another kind");
        check!(s.peers.iter().any(|p| id(*p) == o.to), "an offer to a peer that wants nothing");
        let (k, v) = &o.items[0];
        let Some(block) = want.iter().position(|(all, _)| all.get(k) == Some(v)) else {
            fail!("{} was offered, which is no content of {} states", short(k), want.len())
        };
        let Some(end) = o.done else { fail!("done at {done} before the offer of {}", short(k)) };
        check!(end <= done, "done at {done} before the offer of {} at {end}", short(k));
        check!(log.entry((block, k.clone())).or_default().insert(o.to.raw(), (o.at, end)).is_none(), "{} was offered twice to a peer", short(k));
    }
    let times: Vec<_> = log.values().flat_map(|m| m.values()).copied().collect();
    for (at, _) in &times {
        let n = times.iter().filter(|(a, b)| a <= at && at < b).count();
        check!(n <= s.limit, "{n} offers under way at {at}");
    }
    Ok(log)
}

/// All that is new is offered to all peers.
fn complete(log: &Log, s: &Setup, want: &[(Contents, BTreeSet<Vec<u8>>)]) -> Res {
    for (i, (_, new)) in want.iter().enumerate() {
        for k in new {
            let n = log.get(&(i, k.clone())).map_or(0, |m| m.len());
            check_eq!(n, s.peers.len(), "peers that got {} of block {i}", short(k));
        }
    }
    check!(log.values().all(|m| m.len() == s.peers.len()), "a content offered to some peers only");
    Ok(())
}

const YES: OfferTrace = OfferTrace::Success(AcceptCode::Accepted);
fn react(net: &Shared, f: impl Fn(NodeId) -> u64 + 'static) {
    net.borrow_mut().offer = Some(Rc::new(move |o| Offered { after: f(o.to), result: Ok(YES) }));
}

fn range(from: u64, to: u64) -> BridgeMode {
    BridgeMode::Single(ModeType::BlockRange(from, to))
}

/// Blocks one after another: some are run, the others' changes are offered.
fn blocks(kinds: &[usize], skip: usize, s: Setup, speed: u64) -> Result<Log, String> {
    let c = built(kinds)?;
    world::run(7, START, move || async move {
        rocksdb::fake::seed(Some(&c.dir.path().join("rocksdb")));
        serve(BASE, archive(&c.blocks), BTreeMap::new());
        let net = world::network();
        react(&net, move |to| if to == id(2) { speed } else { 10 });
        let first = BASE * EPOCH;
        let done = launch(range(first + skip as u64, first + c.blocks.len() as u64 - 1), &s, None, &net).await?;
        let want: Vec<_> = (skip..c.blocks.len()).map(|i| contents(&c.states[i], &c.states[i + 1], c.blocks[i].header.hash_slow(), &c.worked[i])).collect();
        let log = offered(&net, &s, done, &want)?;
        if s.id.1 == 1 {
            complete(&log, &s, &want)?;
        }
        Ok(log)
    })
}

fn histories(len: usize, ch: &mut Ch) -> Res {
    let kinds: Vec<usize> = (0..len).map(|_| ch.pick(KINDS)).collect();
    let skip = 1 + ch.pick(len - 1);
    ch.note(|| format!("{kinds:?} without {skip}"));
    ch.state(&kinds);
    ch.steps(len as u64);
    let log = blocks(&kinds, skip, Setup::default(), 10)?;
    ch.outcome(&log.len());
    ch.eval();
    Ok(())
}

/// Several bridges share the work.
fn shared(most: u64, ch: &mut Ch) -> Res {
    let kinds = *ch.choose(&[[7, 1, 3], [1, 6, 2], [0, 2, 9]]);
    let total = 2 + ch.pick(most as usize - 1) as u64;
    let whole = blocks(&kinds, 1, Setup::default(), 10)?;
    let mut met = BTreeSet::new();
    for i in 1..=total {
        let log = blocks(&kinds, 1, Setup { id: (i, total), ..Default::default() }, 10)?;
        for k in log.keys() {
            check!(met.insert(k.clone()), "{} is offered by two bridges", short(&k.1));
        }
        let (most, least) = (whole.len() as u64 / total + kinds.len() as u64, (whole.len() as u64 / total).saturating_sub(kinds.len() as u64));
        check!((least..=most).contains(&(log.len() as u64)), "{} of {} contents for one of {total}", log.len(), whole.len());
        ch.eval();
    }
    check!(met == whole.keys().cloned().collect(), "what all bridges offer is {} of {}", met.len(), whole.len());
    ch.state(&(kinds, total));
    Ok(())
}

fn limits(ch: &mut Ch) -> Res {
    let limit = 1 + ch.pick(5);
    let speed = *ch.choose(&[0, 10, 3000, 50_000]);
    let peers: Vec<u16> = (2..3 + ch.pick(3) as u16).collect();
    ch.note(|| format!("limit {limit}, {speed} ms, {} peers", peers.len()));
    ch.state(&(limit, speed, peers.len()));
    let log = blocks(&[7, 1, 3], 1, Setup { limit, peers, id: (1, 1) }, speed)?;
    ch.outcome(&log.len());
    Ok(())
}

/// Starts with one directory after another snapshot.
fn snapshots(len: usize, ch: &mut Ch) -> Res {
    // Two snapshots, one that cannot be had, one that is broken.
    let sizes: [u32; 2] = *ch.choose(&[[0b001111, 0b011010], [0b000010, 0b100001], [0b000001, 0b000100]]);
    let mut states: Vec<State> = sizes.iter().map(|m| family(*m)).collect();
    states[0].0.insert(address(90), account(1, 1, 0, &[(0, 1), (5, 7)]));
    let steps: Vec<usize> = (0..len).map(|_| ch.pick(5)).collect();
    ch.note(|| format!("{sizes:?}: {steps:?}"));
    ch.steps(len as u64);
    let dir = Dir::new();
    let mut kept = None;
    for step in steps {
        let here = step % 2;
        let number = 5 + here as u64;
        let w = chain_of(states[here].clone(), number);
        let header = &w.blocks[number as usize].header;
        let whole = file(&snapshot(&states[here], header));
        let files = match step {
            0 | 1 => BTreeMap::from([(5, vec![1]), (6, vec![2]), (number, whole)]),
            2 | 3 => BTreeMap::from([(number, whole[..whole.len() * 2 / 3].to_vec())]),
            _ => BTreeMap::from([(number + 9, whole)]),
        };
        let good = step < 2 || kept == Some(number);
        let known = kept == Some(number);
        let all = contents(&State::default(), &states[here], header.hash_slow(), &states[here].0.keys().copied().collect());
        let path = dir.path().to_path_buf();
        let raw = archive(&w.blocks);
        let n = world::run(7, START, move || async move {
            let asked = serve(0, raw, files);
            let net = world::network();
            let s = Setup::default();
            let got = launch(BridgeMode::Snapshot(number), &s, Some(&path), &net).await;
            if !good {
                check!(got.is_err(), "a snapshot was offered that was not there");
                check!(net.borrow().offers.is_empty(), "offers of a state that was not taken");
                return Ok(0);
            }
            let want = [all];
            let log = offered(&net, &s, got?, &want)?;
            complete(&log, &s, &want)?;
            check_eq!(log.len(), want[0].1.len(), "contents offered");
            if known {
                check!(!asked.borrow().iter().any(|u| u.contains("e2ss")), "a snapshot was asked for again");
            }
            Ok(log.len())
        })?;
        kept = if good { Some(number) } else { None };
        ch.outcome(&n);
        ch.state(&(sizes, step, kept));
        ch.eval();
    }
    Ok(())
}

/// Real: all of the first state, to one peer.
fn genesis(ch: &mut Ch) -> Res {
    let root: B256 = "0xd7f8974fb5ac78d9ac099b9ad5018bedc2ce0a72dad1827a1709da30580f0544".parse().unwrap();
    let plan = Plan::default();
    let block = Block { header: crate::blocks::header(&plan, root, 0), plan };
    let hash = block.header.hash_slow();
    let leaves = world::run(7, START, move || async move {
        serve(0, archive(&[block]), BTreeMap::new());
        let net = world::network();
        let s = Setup { peers: vec![2], ..Default::default() };
        launch(range(0, 0), &s, None, &net).await?;
        let (mut met, mut needed, mut leaves) = (BTreeSet::new(), BTreeSet::from([root]), 0);
        for o in &net.borrow().offers {
            let (key, value) = &o.items[0];
            check!(key[0] == 0x20 && value.len() > 40 && value[4..36] == hash[..], "an offer of {}", short(key));
            let node = B256::from_slice(&key[5..37]);
            check!(met.insert(node), "{node} was offered twice");
            // The last of the nodes is the one in the key.
            let offset = |i: usize| u32::from_le_bytes(value[36 + 4 * i..40 + 4 * i].try_into().unwrap()) as usize;
            let raw = &value[36 + offset(offset(0) / 4 - 1)..];
            check_eq!(B256::from(keccak(raw)), node, "the node in {}", short(key));
            match eth_trie::decode_node(&mut &raw[..]).map_err(|e| e.to_string())? {
                eth_trie::node::Node::Leaf(_) => leaves += 1,
                eth_trie::node::Node::Branch(b) => {
                    for c in &b.read().unwrap().children {
                        if let eth_trie::node::Node::Hash(h) = c {
                            needed.insert(h.hash);
                        }
                    }
                }
                eth_trie::node::Node::Extension(e) => {
                    if let eth_trie::node::Node::Hash(h) = &e.read().unwrap().node {
                        needed.insert(h.hash);
                    }
                }
                _ => fail!("a node of another kind"),
            }
        }
        check!(met == needed, "{} nodes were offered, not {}", met.len(), needed.len());
        Ok(leaves)
    })?;
    check_eq!(leaves, 8893, "accounts of the first state");
    ch.eval();
    Ok(())
}

/// What the bridge does not do.
fn refused(i: u64, ch: &mut Ch) -> Res {
    let mode = match i {
        0 => range(0, 15_537_395),
        1 => BridgeMode::Snapshot(0),
        2 => BridgeMode::Latest,
        3 => BridgeMode::E2HS,
        4 => BridgeMode::EphemeralHistory,
        _ => range(BASE * EPOCH - 3, BASE * EPOCH),
    };
    ch.state(&i);
    let c = built(&[1, 3])?;
    world::run(7, START, move || async move {
        rocksdb::fake::seed(Some(&c.dir.path().join("rocksdb")));
        serve(BASE, archive(&c.blocks), BTreeMap::new());
        let net = world::network();
        let to = Dir::new();
        check!(launch(mode, &Setup::default(), Some(to.path()), &net).await.is_err(), "a run of what cannot be run");
        check!(net.borrow().offers.is_empty(), "offers");
        Ok(())
    })
}

/// The part of a bridge in words, and what falls to it.
fn ids(ch: &mut Ch) -> Res {
    let n = ch.pick(5);
    let text: String = (0..n).map(|_| *ch.choose(&["0", "1", "2", "7", "/", "-", "x", " "])).collect();
    let want = text.split_once('/').and_then(|(a, b)| Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?))).filter(|(a, b)| *a > 0 && a <= b);
    let got = BridgeId::from_str(&text).ok();
    check_eq!(got.as_ref().map(|i| (i.id, i.total)), want, "the bridge {text:?}");
    if let Some(got) = got {
        for index in 0..100 {
            check_eq!(got.is_selected(index), index % got.total + 1 == got.id, "{index} falls to {text:?}");
            ch.eval();
        }
    }
    ch.outcome(&want);
    Ok(())
}

pub fn b09(ctx: &Ctx) {
    // The bridge makes directories of its own below this one.
    let tmp = tempfile::tempdir().expect("a directory");
    std::env::set_var("TMPDIR", tmp.path());
    ctx.explore("blocks", |ch| histories(ctx.b(3, 4) as usize, ch));
    ctx.explore("several bridges", |ch| shared(ctx.b(3, 7) as u64, ch));
    ctx.explore("limits", limits);
    ctx.explore("snapshots", |ch| snapshots(ctx.b(2, 3) as usize, ch));
    ctx.once("the first state", genesis);
    ctx.range("refused", 6, refused);
    ctx.explore("parts", ids);
}
