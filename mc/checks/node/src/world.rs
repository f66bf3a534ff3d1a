//! One whole node, reached only through its JSON-RPC methods, the requests of its peers and the
//! transfers it opens. Every execution has a thread, a clock and a data directory of its own.

use std::{cell::RefCell, collections::VecDeque, future::Future, io, rc::Rc, sync::Arc};

use discv5::{
    enr::NodeId,
    fake::{Basic, OutgoingTalk},
    Enr, Event,
};
use ethportal_api::types::{
    distance::Distance,
    network::Subnetwork,
    network_spec::network_spec,
    portal_wire::{Message, Request, Response},
};
use jsonrpsee::{types::ErrorObjectOwned, Methods};
use portalnet::config::PortalnetConfig;
use rpc::config::RpcConfig;
use serde_json::Value;
use ssz::Encode;
use tokio::{
    sync::{oneshot, watch},
    task::JoinHandle,
};
use trin::{run_trin_with_rpc, NodeRuntimeConfig, TrinHandle};
use trin_storage::config::StorageCapacityConfig;
use trin_utils::cli::Web3TransportType;
use utp_rs::fake::{Opening, Side, StreamPlan};

use crate::peers;

pub const START: u64 = 1_800_000_000;
pub const NETS: [Subnetwork; 3] = [Subnetwork::LegacyHistory, Subnetwork::State, Subnetwork::Beacon];

/// The part of the method names that stands for the network.
pub fn word(net: Subnetwork) -> &'static str {
    match net {
        Subnetwork::LegacyHistory => "legacyHistory",
        Subnetwork::State => "state",
        Subnetwork::Beacon => "beacon",
        _ => unreachable!(),
    }
}

/// The protocol id of the network on mainnet.
pub fn protocol(net: Subnetwork) -> Vec<u8> {
    match net {
        Subnetwork::State => vec![0x50, 0x0a],
        Subnetwork::LegacyHistory => vec![0x50, 0x0b],
        Subnetwork::Beacon => vec![0x50, 0x0c],
        Subnetwork::CanonicalIndices => vec![0x50, 0x0d],
        Subnetwork::VerkleState => vec![0x50, 0x0e],
        Subnetwork::TransactionGossip => vec![0x50, 0x0f],
        Subnetwork::History => vec![0x50, 0x00],
        Subnetwork::Utp => b"utp".to_vec(),
    }
}

/// A request that left the node and waits for an answer.
pub struct Talk {
    pub to: NodeId,
    pub protocol: Vec<u8>,
    pub body: Vec<u8>,
    respond: oneshot::Sender<Result<Vec<u8>, discv5::RequestError>>,
}

impl Talk {
    pub fn request(&self) -> Result<Request, String> {
        let message = Message::try_from(self.body.clone()).map_err(|e| format!("malformed message sent: {e:?}"))?;
        Request::try_from(message).map_err(|e| format!("not a request: {e:?}"))
    }
    pub fn answer(self, response: Response) {
        self.raw(Message::from(response).as_ssz_bytes());
    }
    pub fn raw(self, bytes: Vec<u8>) {
        let _ = self.respond.send(Ok(bytes));
    }
    pub fn fail(self) {
        let _ = self.respond.send(Err(discv5::RequestError::Timeout));
    }
}

/// A transfer the node tries to open.
pub struct Open {
    pub side: Side,
    pub send: u16,
    pub recv: u16,
    pub peer: NodeId,
    respond: oneshot::Sender<io::Result<StreamPlan>>,
}

impl Open {
    pub fn refuse(self) {
        let _ = self.respond.send(Err(io::Error::from(io::ErrorKind::ConnectionRefused)));
    }
    /// The peer sends these bytes and finishes.
    pub fn deliver(self, bytes: Vec<u8>) {
        let (tx, read) = oneshot::channel();
        let _ = self.respond.send(Ok(StreamPlan { read, write: None, close: Ok(()), written: None, write_gate: None }));
        let _ = tx.send(Ok(bytes));
    }
    /// The peer takes what the node sends.
    pub async fn take(self) -> Vec<u8> {
        let (_keep, read) = oneshot::channel();
        let (tx, mut written) = oneshot::channel();
        let (_gate, gated) = watch::channel(true);
        let plan = StreamPlan { read, write: None, close: Ok(()), written: Some(tx), write_gate: Some(gated) };
        let _ = self.respond.send(Ok(plan));
        settle().await;
        written.try_recv().unwrap_or_default()
    }
}

pub struct Node {
    pub methods: Methods,
    pub me: NodeId,
    pub enr: Enr,
    pub servers: Vec<jsonrpsee::server::fake::Started>,
    pub talks: Rc<RefCell<VecDeque<Talk>>>,
    pub opens: Rc<RefCell<VecDeque<Open>>>,
    pub basics: Rc<RefCell<VecDeque<Basic>>>,
    pub handle: TrinHandle,
    _dir: tempfile::TempDir,
}

pub type Answer = Result<Value, ErrorObjectOwned>;

/// A call that may still wait for something.
pub struct Call(JoinHandle<Answer>);

impl Call {
    pub async fn now(self) -> Result<Answer, String> {
        settle().await;
        if !self.0.is_finished() {
            return Err("the call does not return".into());
        }
        self.0.await.map_err(|e| format!("the call panics: {e}"))
    }
    /// For calls that use threads of their own.
    pub async fn finally(self) -> Result<Answer, String> {
        self.0.await.map_err(|e| format!("the call panics: {e}"))
    }
    pub async fn waits(&self) -> bool {
        settle().await;
        !self.0.is_finished()
    }
}

/// Runs everything that can run without time passing.
pub async fn settle() {
    for _ in 0..150 {
        tokio::task::yield_now().await;
    }
}

pub async fn pass(ms: u64) {
    settle().await;
    vc::clock::advance_ms(ms);
    settle().await;
}

pub struct Setup {
    pub nets: Vec<Subnetwork>,
    pub rpc: RpcConfig,
    pub bootnodes: Vec<Enr>,
}

impl Setup {
    pub fn of(nets: &[Subnetwork]) -> Setup {
        Setup { nets: nets.to_vec(), rpc: rpc_config(Web3TransportType::IPC), bootnodes: vec![] }
    }
}

pub fn rpc_config(web3_transport: Web3TransportType) -> RpcConfig {
    RpcConfig {
        web3_transport,
        web3_ipc_path: "/nowhere/trin.ipc".into(),
        web3_http_address: "http://127.0.0.1:8545/".parse().expect("url"),
        ws: false,
        ws_port: 8546,
    }
}

impl Node {
    pub async fn start(setup: Setup) -> Result<Node, String> {
        let talks: Rc<RefCell<VecDeque<Talk>>> = Default::default();
        let opens: Rc<RefCell<VecDeque<Open>>> = Default::default();
        let basics: Rc<RefCell<VecDeque<Basic>>> = Default::default();
        let sink = talks.clone();
        discv5::fake::set_transport(move |t: OutgoingTalk| {
            sink.borrow_mut().push_back(Talk {
                to: t.to.node_id(),
                protocol: t.protocol,
                body: t.body,
                respond: t.respond,
            });
        });
        let sink = basics.clone();
        discv5::fake::set_basic(move |b| sink.borrow_mut().push_back(b));
        let sink = opens.clone();
        utp_rs::fake::set_hook(move |o: Opening| {
            let peer = *o.peer_id.downcast_ref::<NodeId>().expect("node id");
            sink.borrow_mut().push_back(Open { side: o.side, send: o.send, recv: o.recv, peer, respond: o.respond });
        });
        jsonrpsee::server::fake::take();
        let dir = tempfile::tempdir().map_err(|e| format!("scratch directory: {e}"))?;
        let portalnet = PortalnetConfig {
            external_addr: None,
            private_key: peers::secret(1).into(),
            listen_port: 9000,
            bootnodes: setup.bootnodes,
            no_stun: true,
            no_upnp: true,
            discv5_session_cache_capacity: 100,
            disable_poke: true,
            trusted_block_root: None,
            utp_transfer_limit: 50,
        };
        let runtime = NodeRuntimeConfig {
            portal_subnetworks: Arc::new(setup.nets.clone()),
            max_radius: Distance::MAX,
            enable_metrics_with_url: None,
            storage_capacity_config: StorageCapacityConfig::Combined { total_mb: 100, subnetworks: setup.nets },
            node_data_dir: dir.path().to_path_buf(),
        };
        let handle = run_trin_with_rpc(portalnet, runtime, setup.rpc).await.map_err(|e| e.to_string())?;
        let servers = jsonrpsee::server::fake::take();
        settle().await;
        let methods = servers.first().ok_or("no server started")?.methods.clone();
        let info = methods.dispatch("discv5_nodeInfo", None).await.map_err(|e| format!("nodeInfo: {e:?}"))?;
        let enr: Enr = serde_json::from_value(info["enr"].clone()).map_err(|e| e.to_string())?;
        Ok(Node { methods, me: enr.node_id(), enr, servers, talks, opens, basics, handle, _dir: dir })
    }

    pub fn begin(&self, method: &str, params: Value) -> Call {
        let (methods, method) = (self.methods.clone(), method.to_string());
        Call(tokio::spawn(async move { methods.dispatch(&method, Some(params)).await }))
    }

    pub async fn call(&self, method: &str, params: Value) -> Result<Answer, String> {
        self.begin(method, params).now().await
    }

    /// A call on one of the networks.
    pub fn on(&self, net: Subnetwork, method: &str, params: Value) -> Call {
        self.begin(&format!("portal_{}{method}", word(net)), params)
    }

    /// A session with a peer is established.
    pub async fn session(&self, enr: &Enr) {
        let socket = "10.0.0.1:9000".parse().expect("address");
        discv5::fake::inject(&self.me, Event::SessionEstablished(enr.clone(), socket));
        settle().await;
    }

    /// A peer sends a request; the answer, or nothing if there is none yet.
    pub async fn asked(&self, from: NodeId, protocol: Vec<u8>, body: Vec<u8>) -> Option<Vec<u8>> {
        let (talk, mut rx) = discv5::fake::talk_request(from, protocol, body);
        assert!(discv5::fake::inject(&self.me, Event::TalkRequest(talk)), "the node listens");
        settle().await;
        rx.try_recv().ok()
    }

    pub fn take_talk(&self) -> Option<Talk> {
        self.talks.borrow_mut().pop_front()
    }

    pub fn take_open(&self) -> Option<Open> {
        self.opens.borrow_mut().pop_front()
    }

    pub fn take_basic(&self) -> Option<Basic> {
        self.basics.borrow_mut().pop_front()
    }
}

/// Runs one execution.
pub fn run<T: Send, F: Future<Output = Result<T, String>>>(
    f: impl FnOnce() -> F + Send,
) -> Result<T, String> {
    vc::on_thread(|| {
        let _ = network_spec();
        vc::entropy::fix(7);
        vc::clock::start(START);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let r = rt.block_on(f());
        discv5::fake::clear();
        utp_rs::fake::clear();
        jsonrpsee::server::fake::take();
        rt.shutdown_background();
        r
    })?
}
