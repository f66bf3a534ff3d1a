//! What the bridge offers of the blocks at the head of the chain, and when.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::{Arc, OnceLock},
};

use discv5::enr::NodeId;
use ethereum_rpc_client::{consensus::ConsensusApi, execution::ExecutionApi};
use ethportal_api::types::{distance::Distance, network::Subnetwork, portal_wire::OfferTrace};
use eventsource_client::{Event as Sse, SSE};
use reqwest::fake::Reply;
use spec::{chain, container, execution, hash, merkle, ramp, rlp, short, trie, Var};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    bridge::ephemeral_history::EphemeralHistoryBridge,
    known::{Account, Event, CODES},
    peers::{id, record},
    world::{self, fine, json, now, ssz, until, Offered, Shared, START},
};

const NET: Subnetwork = Subnetwork::LegacyHistory;
/// Blocks offered at once.
const SERIES: usize = 13;
const SPREAD: u64 = 2000;
const PATIENCE: u64 = 120_000;
/// First slot of a period.
const PERIOD: u64 = 8192 * 1501;

type Item = (Vec<u8>, Vec<u8>);

/// A block with all that is known and offered of it.
struct Block {
    parent: Option<usize>,
    slot: u64,
    number: u64,
    root: [u8; 32],
    hash: [u8; 32],
    /// Fields of the beacon header.
    fields: [String; 5],
    signed: Vec<u8>,
    receipts: String,
    header: Item,
    body: Item,
    outcome: Item,
    hash_branch: Vec<[u8; 32]>,
    execution_header: Vec<u8>,
}

fn hex(b: &[u8]) -> String {
    let mut s = "0x".to_string();
    b.iter().for_each(|b| s.push_str(&format!("{b:02x}")));
    s
}

/// The receipt of `execution::receipt` as execution nodes give it.
fn receipt_json(kind: u8, status: u8, n: usize) -> String {
    let mut bloom = [0u8; 256];
    let mut logs = vec![];
    for i in 0..n {
        execution::bloom_add(&mut bloom, &ramp(40 + i as u8, 20));
        let topics: Vec<String> = (0..i)
            .map(|t| {
                execution::bloom_add(&mut bloom, &hash(t as u8));
                format!("\"{}\"", hex(&hash(t as u8)))
            })
            .collect();
        logs.push(format!(
            "{{\"address\":\"{}\",\"topics\":[{}],\"data\":\"{}\"}}",
            hex(&ramp(40 + i as u8, 20)),
            topics.join(","),
            hex(&ramp(41, i * 30))
        ));
    }
    format!(
        "{{\"type\":\"0x{kind:x}\",\"status\":\"0x{status:x}\",\"cumulativeGasUsed\":\"0x{:x}\",\"logsBloom\":\"{}\",\"logs\":[{}]}}",
        21_000 * (n + 1),
        hex(&bloom),
        logs.join(",")
    )
}

fn key(selector: u8, rest: &[u8]) -> Vec<u8> {
    [&[selector], rest].concat()
}

/// Makes a block on top of another one.
fn make(before: &[Block], parent: Option<usize>, slot: u64, number: u64, salt: u8) -> Block {
    let mut b = chain::Block::new(3, slot, number, salt);
    if let Some(p) = parent {
        b.parent = before[p].root;
        b.payload.parent = before[p].hash;
    }
    b.payload.timestamp = 1_606_824_023 + 12 * slot;
    // One block in five is empty.
    let n = if number % 5 == 1 { 0 } else { 1 + number as u8 % 2 };
    b.payload.txs = (0..n).map(|k| execution::transaction((k * 2 + salt) % 5, salt as usize % 3)).collect();
    b.payload.withdrawals = if number % 3 == 0 { vec![] } else { vec![number, salt as u64] };
    b.requests = chain::Requests([salt % 2, number as u8 % 2, 1]);
    b.commitments = salt % 2;
    let like = |k: u8| ((k * 2 + salt) % 5, salt % 2, (number as usize + salt as usize) % 3);
    let receipts: Vec<Vec<u8>> = (0..n).map(like).map(|(a, b, c)| execution::receipt(a, b as u128, c)).collect();
    b.payload.receipts = trie::ordered_root(&receipts);
    b.seal();
    let texts: Vec<String> = (0..n).map(like).map(|(a, b, c)| receipt_json(a, b, c)).collect();
    let h = b.payload.hash;
    let withdrawals: Vec<_> = b.payload.withdrawals.iter().map(|w| rlp(&execution::withdrawal(*w))).collect();
    let body = container(&[Var(spec::list(&b.payload.txs)), Var(vec![0xc0]), Var(spec::list(&withdrawals))]);
    Block {
        parent,
        slot,
        number,
        root: b.object().root(),
        hash: h,
        fields: [slot.to_string(), b.proposer.to_string(), hex(&b.parent), hex(&b.state), hex(&b.body().root())],
        signed: b.signed(),
        receipts: format!("[{}]", texts.join(",")),
        header: (key(5, &h), container(&[Var(b.header())])),
        body: (key(1, &h), body),
        outcome: (key(2, &h), spec::list(&receipts)),
        hash_branch: b.hash_branch(),
        execution_header: b.header(),
    }
}

/// A tree of blocks, and the blocks events speak of, by name.
struct Tree {
    blocks: Vec<Block>,
    /// The state after the period, and the part of it each block needs.
    state: Vec<u8>,
    roots: merkle::Tree,
}

/// Blocks by slot and parent.
fn tree(plan: &[(u64, Option<usize>)]) -> Tree {
    let mut blocks: Vec<Block> = vec![];
    for (k, (slot, parent)) in plan.iter().enumerate() {
        let number = parent.map_or(22_500_000, |p| blocks[p].number + 1);
        blocks.push(make(&blocks, *parent, *slot, number, k as u8 + 1));
    }
    let mut s = chain::State::new(3, PERIOD);
    for b in &blocks {
        if b.slot < PERIOD {
            s.block_roots[b.slot as usize % 8192] = b.root;
        }
    }
    s.state_roots[3] = hash(99);
    Tree { blocks, state: s.object().encode(), roots: merkle::Tree::new(&s.block_roots, 13) }
}

impl Tree {
    /// The block and the ones before it.
    fn line(&self, b: usize) -> Vec<usize> {
        let mut l = vec![b];
        while let Some(p) = self.blocks[l[l.len() - 1]].parent {
            l.push(p);
        }
        l
    }
    fn find(&self, root: &str) -> Option<usize> {
        self.blocks.iter().position(|b| hex(&b.root) == root)
    }
    fn bundle(&self, line: &[usize]) -> (Vec<Item>, Vec<Item>) {
        let l: Vec<&Block> = line.iter().map(|k| &self.blocks[*k]).collect();
        let headers = l.iter().map(|b| b.header.clone()).collect();
        (headers, l.iter().flat_map(|b| [b.body.clone(), b.outcome.clone()]).collect())
    }
    fn proven(&self, k: usize) -> [Item; 2] {
        let b = &self.blocks[k];
        let proof = [
            self.roots.branch(b.slot as usize % 8192).concat(),
            b.root.to_vec(),
            b.hash_branch.concat(),
            b.slot.to_le_bytes().to_vec(),
        ]
        .concat();
        let value = container(&[Var(b.execution_header.clone()), Var(proof)]);
        [(key(0, &b.hash), value.clone()), (key(3, &b.number.to_le_bytes()), value)]
    }
}

/// Trunk of 14 blocks, and on its last one two branches of two blocks: A, C and B, D.
const TRUNK: usize = 14;
const A: usize = 14;
const B: usize = 15;
const C: usize = 16;
const D: usize = 17;

fn branches() -> &'static Arc<Tree> {
    static TREE: OnceLock<Arc<Tree>> = OnceLock::new();
    TREE.get_or_init(|| {
        let at = PERIOD + 1000;
        let mut plan: Vec<_> = (0..TRUNK).map(|k| (at + k as u64 + u64::from(k > 5), k.checked_sub(1))).collect();
        plan.extend([(at + 20, Some(13)), (at + 21, Some(13)), (at + 22, Some(A)), (at + 23, Some(B))]);
        Arc::new(tree(&plan))
    })
}

fn line() -> &'static Arc<Tree> {
    static TREE: OnceLock<Arc<Tree>> = OnceLock::new();
    TREE.get_or_init(|| {
        let plan: Vec<_> = (0..120).map(|k| (PERIOD + 1000 + k as u64, usize::checked_sub(k, 1))).collect();
        Arc::new(tree(&plan))
    })
}

/// Trunk of 14 blocks up to the last slot of a period, with a branch of two blocks at its end,
/// then three blocks from the first slot of the next period on.
const ASIDE: usize = 15;
const FIRST: usize = 16;
fn boundary() -> &'static Arc<Tree> {
    static TREE: OnceLock<Arc<Tree>> = OnceLock::new();
    TREE.get_or_init(|| {
        let at = PERIOD - 20;
        let mut plan: Vec<_> = (0..TRUNK).map(|k| (at + k as u64 + if k > 5 { 6 } else { 0 }, k.checked_sub(1))).collect();
        plan.extend([(PERIOD - 12, Some(11)), (PERIOD - 11, Some(14))]);
        plan.extend([(PERIOD, Some(13)), (PERIOD + 1, Some(FIRST)), (PERIOD + 2, Some(FIRST + 1))]);
        Arc::new(tree(&plan))
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    None,
    /// The first provider fails, the second one does not.
    FirstFails,
    NoBlock,
    BadBlock,
    /// As often as given.
    NoReceipts(u8),
    BadReceipts,
    RefusedReceipts,
    OtherReceipts,
}

/// What the providers do.
struct Providers {
    tree: Arc<Tree>,
    /// Tip of the chain of the execution provider.
    tip: usize,
    /// What goes wrong with a block.
    fault: (usize, Fault),
    /// A block, and another one given in its place.
    liar: Option<(usize, usize)>,
    state_ms: u64,
    /// Blocks asked for.
    blocks: BTreeSet<usize>,
}

const STATE_ROOT: u8 = 0x77;

fn provide(p: &mut Providers, url: &str, body: &[u8]) -> Option<Reply> {
    let tree = p.tree.clone();
    if let Some(path) = url.strip_prefix("http://one.test").or(url.strip_prefix("http://two.test")) {
        let first = url.starts_with("http://one.test");
        if path == format!("/eth/v2/debug/beacon/states/{}", hex(&hash(STATE_ROOT))) {
            return ssz(tree.state.clone(), p.state_ms);
        }
        let k = tree.find(path.strip_prefix("/eth/v2/beacon/blocks/")?)?;
        p.blocks.insert(k);
        if let Some((_, other)) = p.liar.filter(|l| l.0 == k) {
            return ssz(tree.blocks[other].signed.clone(), 100);
        }
        return match p.fault {
            (f, Fault::FirstFails) if f == k && first => None,
            (f, Fault::NoBlock) if f == k => None,
            (f, Fault::BadBlock) if f == k => ssz(tree.blocks[k].signed[..200].to_vec(), 100),
            _ => ssz(tree.blocks[k].signed.clone(), 100),
        };
    }
    let first = url.starts_with("http://three.test");
    let body: serde_json::Value = serde_json::from_slice(body).ok()?;
    if body["method"] != "eth_getBlockReceipts" {
        return None;
    }
    let number = body["params"][0].as_str().and_then(|s| u64::from_str_radix(s.strip_prefix("0x")?, 16).ok())?;
    let have = tree.line(p.tip).into_iter().find(|k| tree.blocks[*k].number == number);
    let mut result = have.map_or("null".to_string(), |k| tree.blocks[k].receipts.clone());
    if have == Some(p.fault.0) {
        match &mut p.fault.1 {
            Fault::FirstFails if first => return None,
            Fault::NoReceipts(0) => {}
            Fault::NoReceipts(n) => {
                *n -= 1;
                result = "null".into();
            }
            Fault::BadReceipts => result = "[{}]".into(),
            Fault::RefusedReceipts => return json("{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-1,\"message\":\"no\"}}".into(), 100),
            Fault::OtherReceipts => result = format!("[{}]", receipt_json(0, 0, 2)),
            _ => {}
        }
    }
    json(format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":{result}}}", body["id"]), 100)
}

struct Rig {
    net: Shared,
    tree: Arc<Tree>,
    providers: Rc<RefCell<Providers>>,
    source: futures::channel::mpsc::UnboundedSender<eventsource_client::fake::Item>,
}

/// What a node tells the bridge.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Told {
    /// A new head, and the tip of the chain of the execution provider at that time.
    Head(usize, usize),
    Attested(usize),
    /// Block and epoch.
    Finalized(usize, u64),
    FinalizedUnknown(u64),
    Reorg,
    Nonsense,
    Broken,
}
use Told::*;

impl Rig {
    async fn new(tree: &Arc<Tree>, peers: &[u16], limits: (usize, usize)) -> Result<Self, String> {
        let net = world::network();
        for k in peers {
            net.borrow_mut().plan(id(*k), vec![fine(5, Distance::MAX)]);
        }
        // A peer that takes nothing but headers not yet proven.
        net.borrow_mut().plan(id(9), vec![fine(5, Distance::ZERO)]);
        net.borrow_mut().found.insert(NET, peers.iter().chain(&[9]).map(|k| record(*k, 5)).collect());
        let (mut census, overlays) = world::census(8);
        census.init([NET]).await.map_err(|e| format!("not started: {e}"))?;
        let providers = Rc::new(RefCell::new(Providers {
            tree: tree.clone(),
            tip: 0,
            fault: (0, Fault::None),
            state_ms: 100,
            blocks: BTreeSet::new(),
            liar: None,
        }));
        let shared = providers.clone();
        reqwest::fake::set_full(move |c| provide(&mut shared.borrow_mut(), c.url, c.body));
        let url = |s: &str| url::Url::parse(&format!("http://{s}.test/")).expect("an address");
        let consensus = ConsensusApi::new(url("one"), url("two"), 5).await.map_err(|e| e.to_string())?;
        let execution = ExecutionApi::new(url("three"), url("four"), 5).await.map_err(|e| e.to_string())?;
        let source = eventsource_client::fake::source();
        let history = overlays.history().expect("all");
        let bridge = EphemeralHistoryBridge::new(history, limits.0, limits.1, consensus, execution, census)
            .await
            .map_err(|e| e.to_string())?;
        tokio::spawn(bridge.launch());
        world::settle().await;
        let asked = eventsource_client::fake::asked();
        check_eq!(asked.len(), 1, "streams opened");
        let topics: BTreeSet<&str> =
            asked[0].0.strip_prefix("http://one.test/eth/v1/events?topics=").unwrap_or("").split(',').collect();
        check_eq!(topics, BTreeSet::from(["head", "light_client_optimistic_update", "finalized_checkpoint"]), "topics");
        Ok(Self { net, tree: tree.clone(), providers, source })
    }

    fn tell(&self, t: Told) {
        let zero = hex(&[0; 32]);
        let (kind, data) = match t {
            Head(b, tip) => {
                self.providers.borrow_mut().tip = tip;
                let b = &self.tree.blocks[b];
                let data = format!(
                    "{{\"slot\":\"{}\",\"block\":\"{}\",\"state\":\"{}\",\"epoch_transition\":false,\"previous_duty_dependent_root\":\"{zero}\",\"current_duty_dependent_root\":\"{zero}\",\"execution_optimistic\":false}}",
                    b.slot, hex(&b.root), b.fields[3]
                );
                ("head", data)
            }
            Attested(b) => {
                let b = &self.tree.blocks[b];
                let [slot, proposer, parent, state, body] = &b.fields;
                let data = format!(
                    "{{\"version\":\"electra\",\"data\":{{\"attested_header\":{{\"beacon\":{{\"slot\":\"{slot}\",\"proposer_index\":\"{proposer}\",\"parent_root\":\"{parent}\",\"state_root\":\"{state}\",\"body_root\":\"{body}\"}}}},\"signature_slot\":\"{}\",\"sync_aggregate\":{{}}}}}}",
                    b.slot + 1
                );
                ("light_client_optimistic_update", data)
            }
            Finalized(..) | FinalizedUnknown(_) => {
                let (root, epoch) = match t {
                    Finalized(b, e) => (hex(&self.tree.blocks[b].root), e),
                    FinalizedUnknown(e) => (hex(&hash(3)), e),
                    _ => unreachable!(),
                };
                let data = format!(
                    "{{\"block\":\"{root}\",\"state\":\"{}\",\"epoch\":\"{epoch}\",\"execution_optimistic\":false}}",
                    hex(&hash(STATE_ROOT))
                );
                ("finalized_checkpoint", data)
            }
            Reorg => {
                let data = format!(
                    "{{\"slot\":\"1\",\"depth\":\"1\",\"old_head_block\":\"{zero}\",\"new_head_block\":\"{zero}\",\"old_head_state\":\"{zero}\",\"new_head_state\":\"{zero}\",\"epoch\":\"1\",\"execution_optimistic\":false}}"
                );
                ("chain_reorg", data)
            }
            Nonsense => ("head", "{}".into()),
            Broken => {
                let _ = self.source.unbounded_send(Err(eventsource_client::Error("broken".into())));
                return;
            }
        };
        let e = Sse { event_type: kind.into(), data, id: None, retry: None };
        let _ = self.source.unbounded_send(Ok(SSE::Event(e)));
    }

    /// Offers made since the given number of them, in order.
    fn since(&self, n: usize) -> Vec<(NodeId, Vec<Item>)> {
        self.net.borrow().offers[n..].iter().map(|o| (o.to, o.items.clone())).collect()
    }
}

/// What the bridge should know and do.
#[derive(Clone, Default, Hash)]
struct Model {
    known: BTreeSet<usize>,
    /// Blocks downloaded last.
    asked: BTreeSet<usize>,
}

/// Offers expected, each of one or several items, without their receivers.
type Offers = Vec<Vec<Item>>;

impl Model {
    fn step(&mut self, tree: &Tree, t: Told, fault: (usize, Fault)) -> Offers {
        let mut out = vec![];
        self.asked.clear();
        match t {
            Head(b, tip) => {
                for k in tree.line(b).into_iter().take(SERIES) {
                    if self.known.contains(&k) {
                        continue;
                    }
                    self.asked.insert(k);
                    let b = &tree.blocks[k];
                    let theirs = |t: &usize| tree.blocks[*t].number == b.number && tree.blocks[*t].receipts == b.receipts;
                    let same = tree.line(tip).iter().any(theirs);
                    let wrong = fault.0 == k
                        && match fault.1 {
                            Fault::None | Fault::FirstFails => false,
                            Fault::NoReceipts(n) => n >= 5,
                            _ => true,
                        };
                    if !same || wrong {
                        break;
                    }
                    self.known.insert(k);
                }
            }
            Attested(b) => {
                let line: Vec<usize> = tree.line(b).into_iter().take(SERIES).collect();
                if line.len() == SERIES && line.iter().all(|k| self.known.contains(k)) {
                    let (headers, rest) = tree.bundle(&line);
                    out.push(headers);
                    out.extend(rest.into_iter().map(|i| vec![i]));
                }
            }
            Finalized(b, epoch) if epoch % 256 == 0 && self.known.contains(&b) => {
                for k in tree.line(b).into_iter().skip(1) {
                    if !self.known.remove(&k) {
                        break;
                    }
                    out.extend(tree.proven(k).map(|i| vec![i]));
                }
                self.known.retain(|k| tree.blocks[*k].slot >= epoch * 32);
            }
            _ => {}
        }
        out
    }
}

fn show(l: &Offers) -> Vec<String> {
    l.iter().map(|o| o.iter().map(|(k, v)| format!("{} = {}", short(k), short(v))).collect::<Vec<_>>().join("; ")).collect()
}

fn same(got: Vec<(NodeId, Vec<Item>)>, want: &Offers, peers: &[u16], when: &str) -> Res {
    for p in peers.iter().chain(&[9]) {
        let mut mine: Offers = got.iter().filter(|o| o.0 == id(*p)).map(|o| o.1.clone()).collect();
        let mut want = want.clone();
        if *p == 9 {
            want.retain(|o| o[0].0[0] == 5);
        }
        mine.sort();
        want.sort();
        if mine != want {
            let less = |a: &Offers, b: &Offers| show(&a.iter().filter(|o| !b.contains(o)).cloned().collect());
            fail!(
                "{when}: {} offers to peer {p} instead of {}, unexpected {:#?}, missing {:#?}",
                mine.len(),
                want.len(),
                less(&mine, &want),
                less(&want, &mine)
            );
        }
    }
    check!(got.iter().all(|o| o.0 == id(9) || peers.iter().any(|p| o.0 == id(*p))), "{when}: an offer to somebody else");
    Ok(())
}

/// Plays a history, either waiting for the end of all that follows from each event, or not.
fn play(ch: &mut Ch, tree: &Arc<Tree>, history: Vec<Told>, at_once: bool, fault: (usize, Fault)) -> Res {
    ch.steps(history.len() as u64);
    let tree = tree.clone();
    let (known, made) = world::run(7, START, move || async move {
        let rig = Rig::new(&tree, &[2, 3], (300, 300)).await?;
        let mut model = Model::default();
        let mut all = vec![];
        let mut sizes = vec![];
        for (k, t) in history.iter().enumerate() {
            let n = rig.net.borrow().offers.len();
            // What goes wrong does so the first time only.
            let f = if k == 0 { fault } else { (0, Fault::None) };
            let want = model.step(&tree, *t, f);
            sizes.push(want.len());
            rig.providers.borrow_mut().fault = f;
            rig.tell(*t);
            if at_once {
                all.extend(want);
                continue;
            }
            until(now() + 200_000).await;
            same(rig.since(n), &want, &[2, 3], &format!("event {k}, {t:?}"))?;
            let asked = std::mem::take(&mut rig.providers.borrow_mut().blocks);
            check_eq!(asked, model.asked, "event {k}, {t:?}: blocks downloaded");
        }
        if at_once {
            until(now() + 300_000).await;
            same(rig.since(0), &all, &[2, 3], "all events")?;
        }
        Ok((model.known, sizes))
    })?;
    ch.state(&known);
    ch.outcome(&made);
    Ok(())
}

/// A provider that gives another block than it was asked for leads to no wrong offer.
async fn liars(head: usize, liar: (usize, usize), later: usize) -> Result<Vec<usize>, String> {
    let tree = branches();
    let rig = Rig::new(tree, &[2, 3], (300, 300)).await?;
    rig.providers.borrow_mut().liar = Some(liar);
    let mut sizes = vec![];
    for (k, t) in [Head(head, C), Attested(head), Head(later, C), Attested(head), Attested(later)].into_iter().enumerate() {
        let n = rig.net.borrow().offers.len();
        rig.tell(t);
        until(now() + 200_000).await;
        rig.providers.borrow_mut().liar = None;
        let got = rig.since(n);
        sizes.push(got.len());
        if !got.is_empty() {
            let all = Model { known: (0..tree.blocks.len()).collect(), ..Model::default() };
            same(got, &all.clone().step(tree, t, (0, Fault::None)), &[2, 3], &format!("event {k}, {t:?}"))?;
        }
    }
    Ok(sizes)
}

pub fn b08(ctx: &Ctx) {
    ctx.explore("heads", |ch| {
        let tree = branches();
        let n = 1 + ch.pick(ctx.b(3, 4));
        let history: Vec<Told> = (0..n)
            .map(|_| {
                let b = *ch.choose(&[TRUNK - 1, A, B, C, D]);
                match ch.pick(3) {
                    0 => Attested(b),
                    k => Head(b, [C, D][k - 1]),
                }
            })
            .collect();
        ch.note(|| format!("{history:?}"));
        play(ch, tree, history, false, (0, Fault::None))
    });
    ctx.explore("at once", |ch| {
        let tree = branches();
        let n = 2 + ch.pick(ctx.b(2, 3));
        let history: Vec<Told> = (0..n)
            .map(|_| match ch.pick(9) {
                k @ 0..=2 => Attested([TRUNK - 1, A, C][k]),
                k @ 3..=5 => Head([TRUNK - 1, A, C][k - 3], C),
                6 => Reorg,
                7 => Nonsense,
                _ => Broken,
            })
            .collect();
        ch.note(|| format!("{history:?}"));
        play(ch, tree, history, true, (0, Fault::None))
    });
    ctx.explore("failures", |ch| {
        let tree = branches();
        let head = *ch.choose(&[TRUNK - 1, A, C]);
        let line = tree.line(head);
        let at = line[ch.pick(line.len())];
        let fault = *ch.choose(&[
            Fault::FirstFails,
            Fault::NoBlock,
            Fault::BadBlock,
            Fault::NoReceipts(1),
            Fault::NoReceipts(4),
            Fault::NoReceipts(5),
            Fault::BadReceipts,
            Fault::RefusedReceipts,
            Fault::OtherReceipts,
        ]);
        let later = *ch.choose(&[TRUNK - 1, A, C]);
        ch.note(|| format!("head {head}, {fault:?} of {at}, then head {later}"));
        let history = vec![Head(head, C), Attested(head), Head(later, C), Attested(head), Attested(later)];
        play(ch, tree, history, false, (at, fault))
    });
    ctx.explore("liars", |ch| {
        let head = *ch.choose(&[TRUNK - 1, A, C]);
        let line = branches().line(head);
        let at = line[ch.pick(line.len())];
        let other = *ch.choose(&[0, TRUNK - 1, A, B, C, D]);
        let later = *ch.choose(&[TRUNK - 1, A, C]);
        ch.steps(5);
        ch.note(|| format!("head {head}, {other} in place of {at}, then head {later}"));
        let made = world::run(7, START, move || liars(head, (at, other), later))?;
        ch.outcome(&made);
        Ok(())
    });
    ctx.explore("finalization", |ch| {
        let tree = boundary();
        let epoch = PERIOD / 32;
        let n = ctx.b(2, 3);
        let events = [
            Head(TRUNK - 1, FIRST),
            Head(TRUNK - 2, FIRST),
            Head(ASIDE, ASIDE),
            Head(FIRST, FIRST),
            Head(FIRST + 1, FIRST + 1),
            Attested(FIRST),
            Attested(FIRST + 1),
            Finalized(FIRST, epoch),
            Finalized(FIRST, epoch + 1),
            FinalizedUnknown(epoch),
        ];
        // Something known to begin with.
        let k = ch.pick(5);
        let mut history = vec![events[k]];
        let next = ch.pick(5);
        if next != k {
            history.push(events[next]);
        }
        history.extend((0..n).map(|_| *ch.choose(&events)));
        ch.note(|| format!("{history:?}"));
        play(ch, tree, history, false, (0, Fault::None))
    });
    ctx.explore("gaps", |ch| {
        let mut head = 13;
        let mut history = vec![Head(head, head), Attested(head)];
        for _ in 0..ctx.b(3, 5) {
            head += *ch.choose(&[1, 2, 12, 13, 14, 20]);
            history.extend([Head(head, head), Attested(head), Attested(head - 1), Attested(head - 2)]);
        }
        ch.note(|| format!("{history:?}"));
        play(ch, line(), history, false, (0, Fault::None))
    });
    let speeds = [10, 3000, 119_000, 999_999];
    ctx.explore("times", |ch| {
        let limit = *ch.choose(&[1usize, 2, 5, 300]);
        let peers: Vec<u16> = (2..3 + ch.pick(3) as u16).collect();
        // Of the first peer: for headers, bodies and receipts. The others are fast.
        let slow: [u64; 3] = std::array::from_fn(|_| *ch.choose(&speeds));
        let twice = ch.flag();
        ch.steps(27 * peers.len() as u64);
        ch.note(|| format!("limit {limit}, {} peers, {slow:?}, twice {twice}", peers.len()));
        ch.state(&(limit, peers.len(), slow, twice));
        world::run(7, START, move || times(limit, peers, slow, twice))
    });
    ctx.explore("limits", |ch| {
        let limits = (*ch.choose(&[1usize, 3, 300]), *ch.choose(&[1usize, 3, 300]));
        let slow: [u64; 2] = std::array::from_fn(|_| *ch.choose(&speeds));
        let state_ms = *ch.choose(&[100, 50_000]);
        ch.steps(60);
        ch.note(|| format!("limits {limits:?}, {slow:?}"));
        ch.state(&(limits, slow, state_ms));
        world::run(7, START, move || separate(limits, slow, state_ms))
    });
    ctx.explore("results", |ch| {
        let kind = ch.pick(11);
        let of = *ch.choose(&[1u8, 2]);
        let bundles = ctx.b(6, 12);
        ch.steps(bundles as u64);
        let left_out = world::run(7, START, move || results(kind, of, bundles))?;
        ch.outcome(&(kind, left_out));
        Ok(())
    });
}

/// Beginning and end of each offer, as the bridge sees them, by receiver and first key.
type Log = BTreeMap<(NodeKey, Vec<u8>, usize), (u64, u64)>;
type NodeKey = [u8; 32];

fn log(rig: &Rig) -> Log {
    let mut log = Log::new();
    for o in &rig.net.borrow().offers {
        let end = o.done.unwrap_or(u64::MAX).min(o.at + PATIENCE);
        let key = (o.to.raw(), o.items[0].0.clone());
        let k = (0..).find(|k| !log.contains_key(&(key.0, key.1.clone(), *k))).unwrap();
        log.insert((key.0, key.1, k), (o.at, end));
    }
    log
}

fn under_way(log: &Log, limit: usize, of: impl Fn(u8) -> bool) -> Res {
    let l: Vec<_> = log.iter().filter(|e| of(e.0 .1[0])).map(|e| *e.1).collect();
    for (s, _) in &l {
        let n = l.iter().filter(|(a, b)| a <= s && s < b).count();
        check!(n <= limit, "{n} offers under way at {s}, limit {limit}");
    }
    Ok(())
}

fn speeds_of(rig: &Rig, f: impl Fn(NodeId, u8) -> u64 + 'static) {
    rig.net.borrow_mut().offer = Some(Rc::new(move |o| Offered {
        after: f(o.to, o.items[0].0[0]),
        result: Ok(OfferTrace::Success(CODES[0])),
    }));
}

const LONG: u64 = 20_000_000;

async fn times(limit: usize, peers: Vec<u16>, slow: [u64; 3], twice: bool) -> Res {
    let tree = branches();
    let rig = Rig::new(tree, &peers, (limit, 1)).await?;
    rig.tell(Head(C, C));
    until(now() + 20_000).await;
    let speed = move |to: NodeId, kind: u8| match kind {
        _ if to != id(2) => 10,
        5 => slow[0],
        1 => slow[1],
        _ => slow[2],
    };
    speeds_of(&rig, speed);
    let began = now();
    rig.tell(Attested(C));
    if twice {
        rig.tell(Attested(C));
    }
    until(began + LONG).await;
    let line: Vec<usize> = tree.line(C).into_iter().take(SERIES).collect();
    let (headers, rest) = tree.bundle(&line);
    let mut want = vec![headers.clone()];
    want.extend(rest.iter().map(|i| vec![i.clone()]));
    if twice {
        want = [want.clone(), want].concat();
    }
    same(rig.since(0), &want, &peers, "offers")?;
    let log = log(&rig);
    under_way(&log, limit, |_| true)?;
    let of = |kind: &'static [u8]| log.iter().filter(move |e| kind.contains(&e.0 .1[0])).map(|e| *e.1);
    let end = log.values().map(|t| t.1).max().unwrap();
    let work: u64 = log.values().map(|t| t.1 - t.0).sum::<u64>() + 2 * SPREAD;
    check!(end <= began + work + 1000, "took {} ms for {work} ms of work", end - began);
    if !twice {
        let told = of(&[5]).map(|t| t.1).max().unwrap();
        let first = of(&[1, 2]).map(|t| t.0).min().unwrap();
        check!(first >= told + SPREAD && first < told + SPREAD + 100, "headers known at {told}, the rest offered from {first} on");
    }
    if limit == 300 {
        // Nothing waits for anything but the headers.
        let told = began + peers.iter().map(|p| speed(id(*p), 5).min(PATIENCE)).max().unwrap();
        for (s, _) in of(&[5]) {
            check!(s < began + 100, "headers offered at {s}, not {began}");
        }
        for (s, _) in of(&[1, 2]) {
            check!(s >= told + SPREAD && s < told + SPREAD + 100, "content offered at {s}, headers known at {told}");
        }
    }
    Ok(())
}

/// Proven headers and the head of the chain are offered at the same time, each within its limit.
async fn separate(limits: (usize, usize), slow: [u64; 2], state_ms: u64) -> Res {
    let tree = boundary();
    let rig = Rig::new(tree, &[2, 3], limits).await?;
    rig.providers.borrow_mut().state_ms = state_ms;
    rig.tell(Head(FIRST + 2, FIRST + 2));
    until(now() + 20_000).await;
    // The head has to be offered first, since its blocks are forgotten with the finalization.
    let (a, b) = (Attested(FIRST + 2), Finalized(FIRST, PERIOD / 32));
    speeds_of(&rig, move |to, kind| match kind {
        _ if to != id(2) => 10,
        1 | 2 | 5 => slow[0],
        _ => slow[1],
    });
    let began = now();
    let mut model = Model::default();
    model.step(tree, Head(FIRST + 2, FIRST + 2), (0, Fault::None));
    let mut want = model.step(tree, a, (0, Fault::None));
    check!(!want.is_empty(), "nothing to offer");
    want.extend(model.step(tree, b, (0, Fault::None)));
    rig.tell(a);
    rig.tell(b);
    until(began + LONG).await;
    same(rig.since(0), &want, &[2, 3], "offers")?;
    let log = log(&rig);
    let head = |k: u8| matches!(k, 1 | 2 | 5);
    under_way(&log, limits.0, head)?;
    under_way(&log, limits.1, |k| !head(k))?;
    // Each kind takes no longer than it would alone.
    for (of_head, extra, limit) in [(true, SPREAD, limits.0), (false, state_ms, limits.1)] {
        let l: Vec<_> = log.iter().filter(|e| head(e.0 .1[0]) == of_head).map(|e| *e.1).collect();
        let work: u64 = l.iter().map(|t| t.1 - t.0).sum();
        let longest = l.iter().map(|t| t.1 - t.0).max().unwrap();
        let end = l.iter().map(|t| t.1).max().unwrap();
        let bound = if limit == 300 { 2 * longest } else { work };
        check!(end <= began + bound + extra + 1000, "head {of_head}: took {} ms, not {}", end - began, bound + extra);
    }
    Ok(())
}

/// The same blocks again and again, to a peer whose answers may lead to its being left out, and to
/// one that accepts everything. Results count for offers of one content.
async fn results(kind: usize, of: u8, bundles: usize) -> Result<usize, String> {
    const YES: OfferTrace = OfferTrace::Success(CODES[0]);
    let (after, result, event) = match kind {
        0..=6 => (50, Ok(OfferTrace::Success(CODES[kind])), Event::Code(kind as u8)),
        7 => (50, Ok(OfferTrace::Failed), Event::Failed),
        8 => (50, Err("no connection".to_string()), Event::Failed),
        9 => (119_000, Ok(YES), Event::Code(0)),
        _ => (500_000, Ok(YES), Event::Failed),
    };
    let tree = branches();
    let rig = Rig::new(tree, &[2, 3], (300, 300)).await?;
    rig.tell(Head(C, C));
    until(now() + 20_000).await;
    rig.net.borrow_mut().offer = Some(Rc::new(move |o| {
        if o.to == id(2) && o.items[0].0[0] == of {
            Offered { after, result: result.clone() }
        } else {
            Offered { after: 10, result: Ok(YES) }
        }
    }));
    let mut account = Account::default();
    let mut left_out = 0;
    for k in 0..bundles {
        let began = now();
        let n = rig.net.borrow().offers.len();
        rig.tell(Attested(C));
        until(began + 200_000).await;
        let made = rig.since(n);
        let count = |to: u16, kind: u8| made.iter().filter(|o| o.0 == id(to) && o.1[0].0[0] == kind).count();
        let wanted = |t: u64| {
            let checks: Vec<u64> = rig.net.borrow().checks(id(2)).into_iter().filter(|c| *c <= t).collect();
            let so_far = Account { offers: account.offers.iter().filter(|o| o.0 <= t).copied().collect() };
            so_far.weight_at(t, &checks, false) > 0
        };
        let (series, rest) = (wanted(began), wanted(began + 10 + SPREAD));
        check_eq!(count(2, 5), usize::from(series), "series {k} to the peer");
        for content in [1, 2] {
            check_eq!(count(2, content), SERIES * usize::from(rest), "content {content} of bundle {k} to the peer");
            check_eq!(count(3, content), SERIES, "content {content} of bundle {k} to the other peer");
        }
        check_eq!(count(3, 5), 1, "series {k} to the other peer");
        if rest {
            for content in [1, 2] {
                let (t, e) = if content == of { (after.min(PATIENCE), event) } else { (10, Event::Code(0)) };
                account.offers.extend([(began + 10 + SPREAD + t, e); SERIES]);
            }
            account.offers.sort_by_key(|o| o.0);
        } else {
            left_out += 1;
        }
    }
    if left_out == bundles {
        fail!("nothing was offered");
    }
    Ok(left_out)
}
