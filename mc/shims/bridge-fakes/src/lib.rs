//! The node as the bridge sees it: overlays whose requests are answered by a thread-local script.
use anyhow::bail;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        network::Subnetwork,
        portal_wire::{Nodes, OfferTrace, OfferTraceMultipleItems, Pong},
    },
    Enr, RawContentKey, RawContentValue,
};
use futures::future::LocalBoxFuture;
use std::{cell::RefCell, fmt, rc::Rc, sync::Arc};

#[derive(Clone, Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

/// A request of the bridge.
#[derive(Clone, Debug)]
pub enum Ask {
    Ping(Enr),
    FindNodes(Enr, Vec<u16>),
    Lookup(NodeId),
    Offer(Enr, RawContentKey, RawContentValue),
    Offers(Enr, Vec<(RawContentKey, RawContentValue)>),
}
/// The answer; has to be of the kind asked for.
pub enum Answer {
    Pong(Result<Pong, Error>),
    Nodes(Result<Nodes, Error>),
    Found(Vec<Enr>),
    Trace(Result<OfferTrace, Error>),
    Traces(Result<OfferTraceMultipleItems, Error>),
}
type Script = Rc<dyn Fn(Subnetwork, Ask) -> LocalBoxFuture<'static, Answer>>;
thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
}
pub fn script(f: impl Fn(Subnetwork, Ask) -> LocalBoxFuture<'static, Answer> + 'static) {
    SCRIPT.with(|s| *s.borrow_mut() = Some(Rc::new(f)));
}
pub fn clear() {
    SCRIPT.with(|s| *s.borrow_mut() = None);
}

/// The runtime has one thread, so futures never leave it.
struct Here<T>(T);
unsafe impl<T> Send for Here<T> {}
impl<F: std::future::Future> std::future::Future for Here<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|h| &mut h.0) }.poll(cx)
    }
}

pub struct Overlay(pub Subnetwork);
impl Overlay {
    fn ask(&self, a: Ask) -> impl std::future::Future<Output = Answer> + Send {
        let script = SCRIPT.with(|s| s.borrow().clone()).expect("a script is set");
        Here(script(self.0, a))
    }
    pub async fn send_ping(&self, enr: Enr, _: Option<()>, _: Option<()>) -> Result<Pong, Error> {
        match self.ask(Ask::Ping(enr)).await {
            Answer::Pong(p) => p,
            _ => unreachable!(),
        }
    }
    pub async fn send_find_nodes(&self, enr: Enr, distances: Vec<u16>) -> Result<Nodes, Error> {
        match self.ask(Ask::FindNodes(enr, distances)).await {
            Answer::Nodes(p) => p,
            _ => unreachable!(),
        }
    }
    pub async fn lookup_node(&self, target: NodeId) -> Vec<Enr> {
        match self.ask(Ask::Lookup(target)).await {
            Answer::Found(p) => p,
            _ => unreachable!(),
        }
    }
    pub async fn send_offer_trace(&self, enr: Enr, key: RawContentKey, value: RawContentValue) -> Result<OfferTrace, Error> {
        match self.ask(Ask::Offer(enr, key, value)).await {
            Answer::Trace(p) => p,
            _ => unreachable!(),
        }
    }
    pub async fn send_offer_trace_with_multiple_items(&self, enr: Enr, items: Vec<(RawContentKey, RawContentValue)>) -> Result<OfferTraceMultipleItems, Error> {
        match self.ask(Ask::Offers(enr, items)).await {
            Answer::Traces(p) => p,
            _ => unreachable!(),
        }
    }
}

pub mod network {
    use super::{Arc, Overlay};
    pub struct BeaconNetwork {
        pub overlay: Arc<Overlay>,
    }
    pub struct LegacyHistoryNetwork {
        pub overlay: Arc<Overlay>,
    }
    pub struct StateNetwork {
        pub overlay: Arc<Overlay>,
    }
}

#[derive(Clone, Default)]
pub struct SubnetworkOverlays {
    pub legacy_history: Option<Arc<network::LegacyHistoryNetwork>>,
    pub state: Option<Arc<network::StateNetwork>>,
    pub beacon: Option<Arc<network::BeaconNetwork>>,
}
impl SubnetworkOverlays {
    /// All three networks.
    pub fn all() -> Self {
        let o = |n| Arc::new(Overlay(n));
        Self {
            legacy_history: Some(Arc::new(network::LegacyHistoryNetwork { overlay: o(Subnetwork::LegacyHistory) })),
            state: Some(Arc::new(network::StateNetwork { overlay: o(Subnetwork::State) })),
            beacon: Some(Arc::new(network::BeaconNetwork { overlay: o(Subnetwork::Beacon) })),
        }
    }
    pub fn history(&self) -> anyhow::Result<Arc<network::LegacyHistoryNetwork>> {
        match &self.legacy_history {
            Some(n) => Ok(n.clone()),
            None => bail!("no history network"),
        }
    }
    pub fn state(&self) -> anyhow::Result<Arc<network::StateNetwork>> {
        match &self.state {
            Some(n) => Ok(n.clone()),
            None => bail!("no state network"),
        }
    }
    pub fn beacon(&self) -> anyhow::Result<Arc<network::BeaconNetwork>> {
        match &self.beacon {
            Some(n) => Ok(n.clone()),
            None => bail!("no beacon network"),
        }
    }
}

pub struct NodeRuntimeConfig {
    pub portal_subnetworks: Arc<Vec<Subnetwork>>,
    pub max_radius: ethportal_api::types::distance::Distance,
    pub enable_metrics_with_url: Option<std::net::SocketAddr>,
    pub storage_capacity_config: trin_storage::config::StorageCapacityConfig,
    pub node_data_dir: std::path::PathBuf,
}
pub async fn run_trin(
    _: portalnet::config::PortalnetConfig,
    _: NodeRuntimeConfig,
) -> Result<SubnetworkOverlays, Box<dyn std::error::Error>> {
    Ok(SubnetworkOverlays::all())
}
