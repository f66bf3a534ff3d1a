//! A thread with a clock of its own, on which the bridge runs against scripted peers.

use std::{cell::{Cell, RefCell}, collections::{BTreeMap, HashMap}, future::Future, rc::Rc, time::Duration};

use bridge_fakes::{Answer, Ask, Error, SubnetworkOverlays};
use clap::Parser;
use discv5::{enr::NodeId, Enr};
use ethportal_api::types::{
    distance::Distance,
    enr::SszEnr,
    network::Subnetwork,
    ping_extensions::{
        extension_types::PingExtensionType,
        extensions::type_0::{ClientInfo, ClientInfoRadiusCapabilities},
    },
    portal_wire::{CustomPayload, Nodes, OfferTrace, OfferTraceMultipleItems, Pong},
};
use ethportal_api::{types::accept_code::{AcceptCode, AcceptCodeList}, RawContentKey, RawContentValue};
use reqwest::{fake::Reply, header::{HeaderMap, HeaderValue}};
use tokio::time::Instant;

use crate::{census::Census, cli::BridgeConfig};

pub const START: u64 = 1_800_000_000;

thread_local! {
    static ZERO: Cell<Option<Instant>> = const { Cell::new(None) };
}

fn passed() -> u64 {
    ZERO.get().expect("running").elapsed().as_nanos() as u64
}

/// Milliseconds since the start of the execution.
pub fn now() -> u64 {
    passed() / 1_000_000
}

/// Unix time in milliseconds.
pub fn unix_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("a time").as_millis() as u64
}

/// Lets time pass up to the given moment.
pub async fn until(ms: u64) {
    let passed = now();
    assert!(passed <= ms, "the moment {ms} is over");
    tokio::time::sleep(Duration::from_millis(ms - passed)).await;
}

pub async fn settle() {
    for _ in 0..30 {
        tokio::task::yield_now().await;
    }
}

pub fn run<T: Send, F: Future<Output = Result<T, String>>>(
    seed: u64,
    unix: u64,
    f: impl FnOnce() -> F + Send,
) -> Result<T, String> {
    vc::on_thread(|| {
        vc::entropy::fix(seed);
        vc::clock::start(unix);
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .expect("runtime");
        let r = rt.block_on(async {
            // The clock of the standard library follows the time of the runtime.
            ZERO.set(Some(Instant::now()));
            vc::clock::follow(Some(passed));
            let r = f().await;
            vc::clock::follow(None);
            r
        });
        drop(rt);
        bridge_fakes::clear();
        reqwest::fake::clear();
        r
    })?
}

/// What a peer answers when asked to show it is alive.
#[derive(Clone, Debug)]
pub struct Alive {
    pub pong: Option<Pong>,
    /// Answer to the request for its record.
    pub record: Option<Vec<Enr>>,
}

pub fn capabilities(name: Option<&str>, radius: Distance) -> CustomPayload {
    let info = name.map(|n| ClientInfo {
        client_name: n.into(),
        client_version: "1".into(),
        short_commit: "00000000".into(),
        operating_system: "linux".into(),
        cpu_architecture: "x".into(),
        programming_language_version: "1".into(),
    });
    ClientInfoRadiusCapabilities::new_with_client_info(
        info,
        radius,
        vec![PingExtensionType::Capabilities],
    )
    .into()
}

pub fn pong(seq: u64, payload_type: PingExtensionType, payload: CustomPayload) -> Pong {
    Pong { enr_seq: seq, payload_type, payload }
}

pub fn fine(seq: u64, radius: Distance) -> Alive {
    let p = pong(seq, PingExtensionType::Capabilities, capabilities(Some("trin"), radius));
    Alive { pong: Some(p), record: None }
}

pub const DEAD: Alive = Alive { pong: None, record: None };

/// The script of the network, shared with the check.
#[derive(Default)]
pub struct Net {
    /// What lookups find, and how long they take.
    pub found: HashMap<Subnetwork, Vec<Enr>>,
    pub lookup_ms: u64,
    pub ping_ms: u64,
    /// The answers of a peer to its checks, the last one repeated, and the number of checks made.
    pub alive: BTreeMap<[u8; 32], (Vec<Alive>, usize)>,
    /// Checks made: when, in which network, and with which record.
    pub pings: Vec<(u64, Subnetwork, Enr)>,
    pub asked_records: Vec<(NodeId, Vec<u16>)>,
    pub lookups: usize,
    /// Offers made, and how peers react to them; they accept at once if nothing else is said.
    pub offers: Vec<Offer>,
    pub offer: Option<Rc<dyn Fn(&Offer) -> Offered>>,
}

#[derive(Clone, Debug)]
pub struct Offer {
    pub at: u64,
    /// When the result was known; none while it is not, or when nobody waits for it any more.
    pub done: Option<u64>,
    pub network: Subnetwork,
    pub to: NodeId,
    pub items: Vec<(Vec<u8>, Vec<u8>)>,
}

pub struct Offered {
    pub after: u64,
    pub result: Result<OfferTrace, String>,
}

impl Net {
    fn next(&mut self, id: &NodeId) -> Alive {
        if let Some((_, n)) = self.alive.get_mut(&id.raw()) {
            *n += 1;
        }
        self.current(id)
    }
    fn current(&self, id: &NodeId) -> Alive {
        let Some((l, n)) = self.alive.get(&id.raw()) else { return DEAD };
        l.get(n.saturating_sub(1)).or(l.last()).cloned().unwrap_or(DEAD)
    }
    pub fn plan(&mut self, id: NodeId, answers: Vec<Alive>) {
        self.alive.insert(id.raw(), (answers, 0));
    }
    /// Times of the checks of a peer.
    pub fn checks(&self, id: NodeId) -> Vec<u64> {
        self.pings.iter().filter(|p| p.2.node_id() == id).map(|p| p.0).collect()
    }
}

pub type Shared = Rc<RefCell<Net>>;

pub fn subnetworks() -> [Subnetwork; 3] {
    [Subnetwork::LegacyHistory, Subnetwork::Beacon, Subnetwork::State]
}

/// Notes an offer and waits for the reaction to it.
async fn offer(net: &Shared, network: Subnetwork, to: NodeId, items: Vec<(RawContentKey, RawContentValue)>) -> Result<OfferTrace, Error> {
    let items = items.into_iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
    let made = Offer { at: now(), done: None, network, to, items };
    let script = net.borrow().offer.clone();
    let offered = script.map_or(Offered { after: 0, result: Ok(OfferTrace::Success(AcceptCode::Accepted)) }, |f| f(&made));
    let k = net.borrow().offers.len();
    net.borrow_mut().offers.push(made);
    if offered.after > 0 {
        tokio::time::sleep(Duration::from_millis(offered.after)).await;
    }
    net.borrow_mut().offers[k].done = Some(now());
    offered.result.map_err(Error)
}

fn codes(c: AcceptCode, n: usize) -> AcceptCodeList {
    let mut l = AcceptCodeList::new(n).expect("at most 64 items");
    (0..n).for_each(|k| l.set(k, c));
    l
}

/// Answers of the network.
pub async fn answer(net: Shared, subnetwork: Subnetwork, ask: Ask) -> Answer {
    let time = now();
    match ask {
        Ask::Ping(enr) => {
            let wait = net.borrow().ping_ms;
            net.borrow_mut().pings.push((time, subnetwork, enr.clone()));
            if wait > 0 {
                tokio::time::sleep(Duration::from_millis(wait)).await;
            }
            let alive = net.borrow_mut().next(&enr.node_id());
            Answer::Pong(alive.pong.clone().ok_or(Error("no answer".into())))
        }
        Ask::FindNodes(enr, distances) => {
            let mut net = net.borrow_mut();
            net.asked_records.push((enr.node_id(), distances));
            let alive = net.current(&enr.node_id());
            Answer::Nodes(match alive.record {
                Some(l) => Ok(Nodes { total: 1, enrs: l.into_iter().map(SszEnr::new).collect() }),
                None => Err(Error("no answer".into())),
            })
        }
        Ask::Lookup(_) => {
            net.borrow_mut().lookups += 1;
            let wait = net.borrow().lookup_ms;
            if wait > 0 {
                tokio::time::sleep(Duration::from_millis(wait)).await;
            }
            Answer::Found(net.borrow().found.get(&subnetwork).cloned().unwrap_or_default())
        }
        Ask::Offer(enr, key, value) => {
            Answer::Trace(offer(&net, subnetwork, enr.node_id(), vec![(key, value)]).await)
        }
        Ask::Offers(enr, items) => {
            let n = items.len();
            Answer::Traces(offer(&net, subnetwork, enr.node_id(), items).await.map(|t| match t {
                OfferTrace::Success(c) => OfferTraceMultipleItems::Success(codes(c, n)),
                OfferTrace::Failed => OfferTraceMultipleItems::Failed,
            }))
        }
    }
}

pub fn config(limit: usize) -> BridgeConfig {
    BridgeConfig::parse_from(["bridge", "--enr-offer-limit", &limit.to_string()])
}

pub fn census(limit: usize) -> (Census, SubnetworkOverlays) {
    let overlays = SubnetworkOverlays::all();
    (Census::new(overlays.clone(), &config(limit)), overlays)
}

pub fn network() -> Shared {
    let net: Shared = Default::default();
    net.borrow_mut().lookup_ms = 1000;
    let shared = net.clone();
    bridge_fakes::script(move |s, ask| Box::pin(answer(shared.clone(), s, ask)));
    net
}

/// Requests to providers are answered by the function, which gets the address.
pub fn provider(f: impl Fn(&str) -> Option<Reply> + 'static) {
    reqwest::fake::set_full(move |c| f(c.url));
}

fn reply(kind: &'static str, body: Vec<u8>, after: u64) -> Option<Reply> {
    let headers = HeaderMap::from_iter([("content-type", HeaderValue::from_static(kind))]);
    Some(Reply { status: 200, headers, body, after: Duration::from_millis(after) })
}

pub fn json(body: String, after: u64) -> Option<Reply> {
    reply("application/json", body.into_bytes(), after)
}

pub fn ssz(body: Vec<u8>, after: u64) -> Option<Reply> {
    reply("application/octet-stream", body, after)
}

pub fn html(body: String) -> Option<Reply> {
    reply("text/html", body.into_bytes(), 0)
}

pub fn raw(body: Vec<u8>, after: u64) -> Option<Reply> {
    reply("application/octet-stream", body, after)
}
