use std::{
    fmt,
    net::{Ipv4Addr, SocketAddr},
    sync::Mutex,
    time::Duration,
};

use tokio::sync::{mpsc, oneshot};

use crate::{
    enr::{CombinedKey, NodeId},
    kbucket::{ConnectionDirection, ConnectionState, InsertResult, KBucketsTable, Key, NodeStatus},
    rpc::RequestId,
    service::Pong,
    Enr,
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RequestError {
    Timeout,
    SelfRequest,
    InvalidEnr(String),
    EntropyFailure(&'static str),
    InvalidRemotePacket,
    ChannelFailed(String),
    EncryptionFailed(String),
    ServiceNotStarted,
}
impl fmt::Display for RequestError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for RequestError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ResponseError {
    ChannelClosed,
}
impl fmt::Display for ResponseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ResponseError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum QueryError {
    ServiceNotStarted,
    ChannelFailed(String),
    InvalidMultiaddr(String),
}
impl fmt::Display for QueryError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for QueryError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    ServiceAlreadyStarted,
    ServiceNotStarted,
}
pub type Discv5Error = Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct TalkRequest {
    id: RequestId,
    node_id: NodeId,
    protocol: Vec<u8>,
    body: Vec<u8>,
    sender: Option<oneshot::Sender<Vec<u8>>>,
}
impl TalkRequest {
    pub(crate) fn new(
        id: RequestId,
        node_id: NodeId,
        protocol: Vec<u8>,
        body: Vec<u8>,
        sender: oneshot::Sender<Vec<u8>>,
    ) -> Self {
        Self { id, node_id, protocol, body, sender: Some(sender) }
    }
    pub fn id(&self) -> &RequestId {
        &self.id
    }
    pub fn node_id(&self) -> &NodeId {
        &self.node_id
    }
    pub fn protocol(&self) -> &[u8] {
        &self.protocol
    }
    pub fn body(&self) -> &[u8] {
        &self.body
    }
    pub fn respond(mut self, response: Vec<u8>) -> Result<(), ResponseError> {
        match self.sender.take() {
            Some(tx) => tx.send(response).map_err(|_| ResponseError::ChannelClosed),
            None => Err(ResponseError::ChannelClosed),
        }
    }
}
impl Drop for TalkRequest {
    fn drop(&mut self) {
        if let Some(tx) = self.sender.take() {
            let _ = tx.send(vec![]);
        }
    }
}

#[derive(Debug)]
pub enum Event {
    Discovered(Enr),
    NodeInserted { node_id: NodeId, replaced: Option<NodeId> },
    SessionEstablished(Enr, SocketAddr),
    SocketUpdated(SocketAddr),
    TalkRequest(TalkRequest),
}

#[derive(Clone, Debug)]
pub enum ListenConfig {
    Ipv4 { ip: Ipv4Addr, port: u16 },
}
#[derive(Clone, Debug)]
pub struct Config {
    pub listen_config: ListenConfig,
    pub request_timeout: Duration,
    pub session_cache_capacity: usize,
}
pub struct ConfigBuilder(Config);
impl ConfigBuilder {
    pub fn new(listen_config: ListenConfig) -> Self {
        Self(Config {
            listen_config,
            request_timeout: Duration::from_secs(1),
            session_cache_capacity: 1000,
        })
    }
    pub fn request_timeout(&mut self, t: Duration) -> &mut Self {
        self.0.request_timeout = t;
        self
    }
    pub fn session_cache_capacity(&mut self, n: usize) -> &mut Self {
        self.0.session_cache_capacity = n;
        self
    }
    pub fn build(&mut self) -> Config {
        self.0.clone()
    }
}

pub struct Discv5 {
    enr: Mutex<Enr>,
    key: CombinedKey,
    kbuckets: Mutex<KBucketsTable<NodeId, Enr>>,
    started: bool,
}

impl Discv5 {
    pub fn new(enr: Enr, key: CombinedKey, _config: Config) -> Result<Self, &'static str> {
        let kbuckets = KBucketsTable::new(
            Key::from(enr.node_id()),
            Duration::from_secs(60),
            16,
            None,
            None,
        );
        Ok(Self { enr: Mutex::new(enr), key, kbuckets: Mutex::new(kbuckets), started: false })
    }
    pub async fn start(&mut self) -> Result<(), Error> {
        if self.started {
            return Err(Error::ServiceAlreadyStarted);
        }
        self.started = true;
        Ok(())
    }
    pub async fn event_stream(&self) -> Result<mpsc::Receiver<Event>, Error> {
        let (tx, rx) = mpsc::channel(1000);
        crate::fake::register(self.local_enr().node_id(), tx);
        Ok(rx)
    }
    pub fn local_enr(&self) -> Enr {
        self.enr.lock().unwrap().clone()
    }
    pub fn add_enr(&self, enr: Enr) -> Result<(), &'static str> {
        let key = Key::from(enr.node_id());
        match self.kbuckets.lock().unwrap().insert_or_update(
            &key,
            enr,
            NodeStatus {
                state: ConnectionState::Disconnected,
                direction: ConnectionDirection::Incoming,
            },
        ) {
            InsertResult::Failed(_) => Err("failed to add ENR"),
            _ => Ok(()),
        }
    }
    pub fn remove_node(&self, node_id: &NodeId) -> bool {
        self.kbuckets.lock().unwrap().remove(&Key::from(*node_id))
    }
    pub fn find_enr(&self, node_id: &NodeId) -> Option<Enr> {
        self.kbuckets
            .lock()
            .unwrap()
            .iter_ref()
            .find(|e| e.node.key.preimage() == node_id)
            .map(|e| e.node.value.clone())
    }
    pub fn connected_peers(&self) -> usize {
        self.kbuckets
            .lock()
            .unwrap()
            .iter_ref()
            .filter(|e| e.status.is_connected())
            .count()
    }
    pub fn table_entries_enr(&self) -> Vec<Enr> {
        self.kbuckets.lock().unwrap().iter().map(|e| e.node.value.clone()).collect()
    }
    pub fn table_entries_id(&self) -> Vec<NodeId> {
        self.kbuckets.lock().unwrap().iter().map(|e| *e.node.key.preimage()).collect()
    }
    pub fn kbuckets(&self) -> KBucketsTable<NodeId, Enr> {
        self.kbuckets.lock().unwrap().clone()
    }
    pub fn update_local_enr_socket(&self, socket_addr: SocketAddr, is_tcp: bool) -> bool {
        let mut enr = self.enr.lock().unwrap();
        let SocketAddr::V4(addr) = socket_addr else { return false };
        if is_tcp {
            enr.set_tcp4(addr.port(), &self.key).is_ok()
        } else if enr.udp4_socket() == Some(addr) {
            false
        } else {
            enr.set_ip((*addr.ip()).into(), &self.key).is_ok()
                && enr.set_udp4(addr.port(), &self.key).is_ok()
        }
    }
    pub async fn find_node(&self, target: NodeId) -> Result<Vec<Enr>, QueryError> {
        let mut table = self.kbuckets.lock().unwrap();
        let key = Key::from(target);
        let out = table.closest_values(&key).map(|(_, v)| v.clone()).take(16).collect();
        Ok(out)
    }
    pub async fn find_node_designated_peer(
        &self,
        enr: Enr,
        distances: Vec<u64>,
    ) -> Result<Vec<Enr>, RequestError> {
        crate::fake::find_nodes(enr, distances).await
    }
    pub async fn talk_req(
        &self,
        enr: Enr,
        protocol: Vec<u8>,
        request: Vec<u8>,
    ) -> Result<Vec<u8>, RequestError> {
        if !self.started {
            return Err(RequestError::ServiceNotStarted);
        }
        crate::fake::send(self.local_enr().node_id(), enr, protocol, request).await
    }
    pub async fn send_ping(&self, enr: Enr) -> Result<Pong, RequestError> {
        crate::fake::ping(enr).await
    }
}
