//! Harness side of the in-process transport. Everything is per thread: one explored execution runs
//! on one thread with a current-thread runtime.
use std::{cell::RefCell, collections::HashMap, rc::Rc};

use tokio::sync::{mpsc, oneshot};

use crate::{enr::NodeId, rpc::RequestId, service::Pong, Enr, Event, RequestError, TalkRequest};

/// A TALKREQ leaving a local node.
pub struct OutgoingTalk {
    pub from: NodeId,
    pub to: Enr,
    pub protocol: Vec<u8>,
    pub body: Vec<u8>,
    pub respond: oneshot::Sender<Result<Vec<u8>, RequestError>>,
}

/// A PING or FINDNODE of the base protocol leaving a local node.
pub enum Basic {
    Ping { to: Enr, respond: oneshot::Sender<Result<Pong, RequestError>> },
    FindNodes { to: Enr, distances: Vec<u64>, respond: oneshot::Sender<Result<Vec<Enr>, RequestError>> },
}

type Handler = Rc<dyn Fn(OutgoingTalk)>;
type BasicHandler = Rc<dyn Fn(Basic)>;

thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    static BASIC: RefCell<Option<BasicHandler>> = const { RefCell::new(None) };
    static SINKS: RefCell<HashMap<NodeId, mpsc::Sender<Event>>> = RefCell::new(HashMap::new());
}

pub fn set_transport(handler: impl Fn(OutgoingTalk) + 'static) {
    HANDLER.with(|h| *h.borrow_mut() = Some(Rc::new(handler)));
}

pub fn set_basic(handler: impl Fn(Basic) + 'static) {
    BASIC.with(|h| *h.borrow_mut() = Some(Rc::new(handler)));
}

fn basic(b: Basic) {
    if let Some(handler) = BASIC.with(|h| h.borrow().clone()) {
        handler(b);
    }
}

pub(crate) async fn ping(to: Enr) -> Result<Pong, RequestError> {
    let (respond, rx) = oneshot::channel();
    basic(Basic::Ping { to, respond });
    rx.await.unwrap_or(Err(RequestError::Timeout))
}

pub(crate) async fn find_nodes(to: Enr, distances: Vec<u64>) -> Result<Vec<Enr>, RequestError> {
    let (respond, rx) = oneshot::channel();
    basic(Basic::FindNodes { to, distances, respond });
    rx.await.unwrap_or(Err(RequestError::Timeout))
}

pub fn clear() {
    BASIC.with(|h| *h.borrow_mut() = None);
    HANDLER.with(|h| *h.borrow_mut() = None);
    SINKS.with(|s| s.borrow_mut().clear());
}

/// Delivers an event to a started local node.
pub fn inject(node: &NodeId, event: Event) -> bool {
    SINKS.with(|s| match s.borrow().get(node) {
        Some(tx) => tx.try_send(event).is_ok(),
        None => false,
    })
}

/// Builds an incoming TALKREQ, the response arrives on the returned channel.
pub fn talk_request(
    from: NodeId,
    protocol: Vec<u8>,
    body: Vec<u8>,
) -> (TalkRequest, oneshot::Receiver<Vec<u8>>) {
    let (tx, rx) = oneshot::channel();
    (
        TalkRequest::new(RequestId(vec![1]), from, protocol, body, tx),
        rx,
    )
}

pub(crate) fn register(node: NodeId, tx: mpsc::Sender<Event>) {
    SINKS.with(|s| s.borrow_mut().insert(node, tx));
}

pub(crate) async fn send(
    from: NodeId,
    to: Enr,
    protocol: Vec<u8>,
    body: Vec<u8>,
) -> Result<Vec<u8>, RequestError> {
    let (respond, rx) = oneshot::channel();
    let sent = HANDLER.with(|h| match h.borrow().clone() {
        Some(handler) => {
            handler(OutgoingTalk { from, to, protocol, body, respond });
            true
        }
        None => false,
    });
    if !sent {
        return Err(RequestError::Timeout);
    }
    rx.await.unwrap_or(Err(RequestError::Timeout))
}
