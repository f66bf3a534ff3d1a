//! One node running the real overlay service, with its storage, validator, transport and
//! transfers played by the check. Every execution has a thread, a clock and a fixed source of
//! randomness of its own.

use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    future::Future,
    io,
    rc::Rc,
    sync::Arc,
    time::Duration,
};

use alloy::primitives::Bytes;
use discv5::{enr::NodeId, Enr, RequestError};
use ethportal_api::{
    types::{
        distance::{Distance, Metric, XorMetric},
        network::Subnetwork,
        ping_extensions::extension_types::PingExtensionType,
        portal_wire::{Message, Request, Response},
    },
    RawContentValue,
};
use parking_lot::Mutex;
use portalnet::{
    config::PortalnetConfig,
    discovery::{Discovery, NodeAddress, UtpPeer},
    overlay::{
        config::OverlayConfig, errors::OverlayRequestError, ping_extensions::PingExtensions,
        protocol::OverlayProtocol,
    },
};
use ssz::Encode;
use tokio::sync::{mpsc, oneshot, watch};
use trin_storage::{error::ContentStoreError, ContentStore, ShouldWeStoreContent};
use trin_validation::validator::{ValidationResult, Validator};
use utp_rs::fake::{Opening, Side, StreamPlan};

use crate::{
    peers::{self, TestKey},
    transfers,
};

pub const START: u64 = 1_800_000_000;

/// Storage kept in a map, recording what is put into it.
pub struct TestStore {
    pub me: [u8; 32],
    pub radius: Distance,
    pub held: BTreeMap<TestKey, Vec<u8>>,
    pub puts: Vec<(TestKey, Vec<u8>)>,
    /// Storing one more item than this pushes out the first one that is not the new one.
    pub room: usize,
    pub broken: bool,
}

impl TestStore {
    fn refuse<T>(&self) -> Result<T, ContentStoreError> {
        Err(ContentStoreError::Database("broken by the check".into()))
    }
}

impl ContentStore for TestStore {
    type Key = TestKey;

    fn get(&self, key: &TestKey) -> Result<Option<RawContentValue>, ContentStoreError> {
        if self.broken {
            return self.refuse();
        }
        Ok(self.held.get(key).map(|v| Bytes::from(v.clone())))
    }

    fn put<V: AsRef<[u8]>>(
        &mut self,
        key: TestKey,
        value: V,
    ) -> Result<Vec<(TestKey, RawContentValue)>, ContentStoreError> {
        if self.broken {
            return self.refuse();
        }
        self.puts.push((key.clone(), value.as_ref().to_vec()));
        self.held.insert(key.clone(), value.as_ref().to_vec());
        let mut dropped = vec![];
        while self.held.len() > self.room {
            let Some(k) = self.held.keys().find(|k| **k != key).cloned() else { break };
            let v = self.held.remove(&k).expect("held");
            dropped.push((k, Bytes::from(v)));
        }
        Ok(dropped)
    }

    fn should_we_store(&self, key: &TestKey) -> Result<ShouldWeStoreContent, ContentStoreError> {
        if self.broken {
            return self.refuse();
        }
        if self.held.contains_key(key) {
            return Ok(ShouldWeStoreContent::AlreadyStored);
        }
        if key.radius && XorMetric::distance(&self.me, &key.id) > self.radius {
            return Ok(ShouldWeStoreContent::NotWithinRadius);
        }
        Ok(ShouldWeStoreContent::Store)
    }

    fn radius(&self) -> Distance {
        self.radius
    }
}

/// Content is valid for a key if it starts with the id of the key; the next byte tells whether it
/// is also canonical.
pub struct TestValidator;

impl Validator<TestKey> for TestValidator {
    async fn validate_content(&self, key: &TestKey, value: &[u8]) -> ValidationResult {
        if value.len() < 33 || value[..32] != key.id {
            return ValidationResult::Invalid("not the content of this key".into());
        }
        match value[32] {
            1 => ValidationResult::CanonicallyValid,
            2 => ValidationResult::Valid,
            _ => ValidationResult::Invalid("bad content".into()),
        }
    }
}

/// Content of a key: canonical (1), only valid (2) or invalid (0).
pub fn content(key: &TestKey, kind: u8, len: usize) -> Vec<u8> {
    let mut v = key.id.to_vec();
    v.push(kind);
    v.resize(len.max(33), 0xc3);
    v
}

pub struct TestPing(pub Vec<PingExtensionType>);

impl PingExtensions for TestPing {
    fn latest_mutually_supported_base_extension(
        &self,
        extensions: &[PingExtensionType],
    ) -> Option<PingExtensionType> {
        [PingExtensionType::HistoryRadius, PingExtensionType::BasicRadius]
            .into_iter()
            .find(|e| self.0.contains(e) && extensions.contains(e))
    }
    fn supported_extensions(&self) -> &[PingExtensionType] {
        &self.0
    }
}

pub type Overlay = OverlayProtocol<TestKey, XorMetric, TestValidator, TestStore, TestPing>;

/// A request that left the node and waits for an answer.
pub struct Talk {
    pub to: NodeId,
    pub enr: Enr,
    pub request: Request,
    respond: oneshot::Sender<Result<Vec<u8>, RequestError>>,
}

impl Talk {
    pub fn answer(self, response: Response) {
        self.raw(Message::from(response).as_ssz_bytes());
    }
    pub fn raw(self, bytes: Vec<u8>) {
        let _ = self.respond.send(Ok(bytes));
    }
    pub fn fail(self) {
        let _ = self.respond.send(Err(RequestError::Timeout));
    }
}

/// A transfer the node tries to open.
pub struct Open {
    pub side: Side,
    pub send: u16,
    pub recv: u16,
    pub peer: NodeId,
    respond: oneshot::Sender<io::Result<StreamPlan>>,
}

/// How a transfer that is being opened goes on.
pub struct Flow {
    pub read: Option<oneshot::Sender<io::Result<Vec<u8>>>>,
    pub written: oneshot::Receiver<Vec<u8>>,
    pub gate: watch::Sender<bool>,
}

impl Open {
    pub fn refuse(self) {
        let _ = self.respond.send(Err(io::Error::from(io::ErrorKind::ConnectionRefused)));
    }
    /// The peer connects; `write` and `close` are the results the node's own writing will see.
    pub fn connect(self, write: Option<io::Result<usize>>, close: io::Result<()>) -> Flow {
        let (read, rx) = oneshot::channel();
        let (written_tx, written) = oneshot::channel();
        let (gate, gated) = watch::channel(false);
        let _ = self.respond.send(Ok(StreamPlan {
            read: rx,
            write,
            close,
            written: Some(written_tx),
            write_gate: Some(gated),
        }));
        Flow { read: Some(read), written, gate }
    }
    /// The peer sends these bytes and finishes.
    pub fn deliver(self, bytes: Vec<u8>) {
        let mut flow = self.connect(None, Ok(()));
        let _ = flow.read.take().expect("reading").send(Ok(bytes));
    }
    /// The peer connects, then the transfer breaks.
    pub fn break_off(self) {
        let mut flow = self.connect(None, Ok(()));
        let _ = flow
            .read
            .take()
            .expect("reading")
            .send(Err(io::Error::from(io::ErrorKind::ConnectionReset)));
    }
    /// The peer takes what the node sends.
    pub async fn take(self) -> Vec<u8> {
        let mut flow = self.connect(None, Ok(()));
        let _ = flow.gate.send(true);
        settle().await;
        flow.written.try_recv().unwrap_or_default()
    }
}

impl Flow {
    pub fn deliver(&mut self, bytes: Vec<u8>) {
        if let Some(tx) = self.read.take() {
            let _ = tx.send(Ok(bytes));
        }
    }
}

pub struct Setup {
    pub config: OverlayConfig,
    pub ping: Vec<PingExtensionType>,
    /// Log distance from us up to which we want content.
    pub reach: u16,
}

impl Default for Setup {
    fn default() -> Self {
        Setup {
            config: OverlayConfig { disable_poke: true, ..Default::default() },
            ping: vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius],
            reach: 256,
        }
    }
}

pub struct World {
    pub overlay: Arc<Overlay>,
    pub me: NodeId,
    pub talks: Rc<RefCell<VecDeque<Talk>>>,
    pub opens: Rc<RefCell<VecDeque<Open>>>,
    _requests: mpsc::Receiver<discv5::TalkRequest>,
}

/// All values up to this log distance are within reach.
pub fn reach(d: u16) -> Distance {
    if d >= 256 {
        return Distance::MAX;
    }
    let mut b = [0u8; 32];
    for i in 0..d as usize {
        b[31 - i / 8] |= 1 << (i % 8);
    }
    Distance::from(alloy::primitives::U256::from_be_bytes(b))
}

/// Runs everything that can run without time passing.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

pub async fn pass(ms: u64) {
    settle().await;
    vc::clock::advance_ms(ms);
    settle().await;
}

impl World {
    pub async fn new(setup: Setup) -> World {
        let mut discovery = Discovery::new(PortalnetConfig {
            external_addr: None,
            private_key: peers::secret(1).into(),
            listen_port: 9000,
            bootnodes: vec![],
            no_stun: true,
            no_upnp: true,
            discv5_session_cache_capacity: 100,
            disable_poke: true,
            trusted_block_root: None,
            utp_transfer_limit: setup.config.utp_transfer_limit,
        })
        .expect("discovery");
        let requests = discovery.start().await.expect("discovery starts");
        let me = discovery.local_enr().node_id();
        let talks: Rc<RefCell<VecDeque<Talk>>> = Default::default();
        let opens: Rc<RefCell<VecDeque<Open>>> = Default::default();
        let sink = talks.clone();
        discv5::fake::set_transport(move |t| {
            let message = Message::try_from(t.body.clone()).expect("we send well formed messages");
            let request = Request::try_from(message).expect("we send requests");
            sink.borrow_mut().push_back(Talk {
                to: t.to.node_id(),
                enr: t.to,
                request,
                respond: t.respond,
            });
        });
        let sink = opens.clone();
        utp_rs::fake::set_hook(move |o: Opening| {
            let peer = *o.peer_id.downcast_ref::<NodeId>().expect("node id");
            sink.borrow_mut().push_back(Open {
                side: o.side,
                send: o.send,
                recv: o.recv,
                peer,
                respond: o.respond,
            });
        });
        let store = TestStore {
            me: me.raw(),
            radius: reach(setup.reach),
            held: BTreeMap::new(),
            puts: vec![],
            room: usize::MAX,
            broken: false,
        };
        let overlay = Overlay::new(
            setup.config,
            Arc::new(discovery),
            transfers::socket(),
            Arc::new(Mutex::new(store)),
            Subnetwork::LegacyHistory,
            Arc::new(TestValidator),
            Arc::new(TestPing(setup.ping)),
        )
        .await;
        settle().await;
        World { overlay: Arc::new(overlay), me, talks, opens, _requests: requests }
    }

    /// Makes the record of a node known, as an established session does.
    pub fn session(&self, enr: &Enr) {
        self.overlay.discovery.put_cached_node_addr(NodeAddress {
            enr: enr.clone(),
            socket_addr: "10.0.0.1:9000".parse().expect("address"),
        });
    }

    /// Puts a node into the routing table, connected and interested in everything.
    pub fn connect(&self, enr: &Enr) {
        self.overlay.add_enr(enr.clone()).expect("room in the table");
    }

    pub async fn ask(&self, from: NodeId, request: Request) -> Result<Response, OverlayRequestError> {
        self.ask_raw(from, Message::from(request).as_ssz_bytes()).await
    }

    pub async fn ask_raw(&self, from: NodeId, body: Vec<u8>) -> Result<Response, OverlayRequestError> {
        let (talk, _answer) = discv5::fake::talk_request(from, vec![], body);
        let mut answer = Box::pin(self.overlay.process_one_request(&talk));
        for _ in 0..200 {
            if let Some(r) = futures::FutureExt::now_or_never(&mut answer) {
                return r;
            }
            tokio::task::yield_now().await;
        }
        panic!("a request is not answered");
    }

    pub fn take_talk(&self) -> Option<Talk> {
        self.talks.borrow_mut().pop_front()
    }

    pub fn take_open(&self) -> Option<Open> {
        self.opens.borrow_mut().pop_front()
    }

    pub fn store<T>(&self, f: impl FnOnce(&mut TestStore) -> T) -> T {
        f(&mut self.overlay.store.lock())
    }
}

/// Runs one execution from a fresh world.
pub fn run<T: Send, F: Future<Output = Result<T, String>>>(
    f: impl FnOnce() -> F + Send,
) -> Result<T, String> {
    vc::on_thread(|| {
        vc::entropy::fix(7);
        vc::clock::start(START);
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
        let local = f();
        let r = rt.block_on(local);
        discv5::fake::clear();
        utp_rs::fake::clear();
        drop(rt);
        r
    })?
}

pub fn timeout() -> Duration {
    Duration::from_secs(60)
}
