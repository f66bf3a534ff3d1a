//! uTP stand-in. Connection ids and the socket interface follow utp-rs; the wire itself is an
//! ideal byte pipe whose behaviour (connect result, payload, write/close outcome) is decided by
//! the harness through `fake`.
pub mod cid {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct ConnectionId<PeerId> {
        pub send: u16,
        pub recv: u16,
        pub peer_id: PeerId,
    }
}
pub mod conn {
    use std::time::Duration;
    #[derive(Clone, Copy, Debug)]
    pub struct ConnectionConfig {
        pub max_packet_size: u16,
        pub max_conn_attempts: usize,
        pub max_idle_timeout: Duration,
        pub max_timeout: Duration,
        pub initial_timeout: Duration,
        pub min_timeout: Duration,
        pub target_delay: Duration,
    }
    impl Default for ConnectionConfig {
        fn default() -> Self {
            Self {
                max_packet_size: 1024,
                max_conn_attempts: 6,
                max_idle_timeout: Duration::from_secs(64),
                max_timeout: Duration::from_secs(60),
                initial_timeout: Duration::from_millis(1500),
                min_timeout: Duration::from_millis(500),
                target_delay: Duration::from_millis(100),
            }
        }
    }
}
pub mod peer {
    use std::{fmt::Debug, hash::Hash};
    pub trait ConnectionPeer: Debug + Clone + Send + Sync {
        type Id: Debug + Clone + PartialEq + Eq + Hash + Send + Sync;
        fn id(&self) -> Self::Id;
        fn consolidate(a: Self, b: Self) -> Self;
    }
    impl ConnectionPeer for std::net::SocketAddr {
        type Id = Self;
        fn id(&self) -> Self {
            *self
        }
        fn consolidate(a: Self, b: Self) -> Self {
            assert!(a == b);
            a
        }
    }
    #[derive(Debug, Clone)]
    pub struct Peer<P: ConnectionPeer> {
        id: P::Id,
        peer: Option<P>,
    }
    impl<P: ConnectionPeer> Peer<P> {
        pub fn new(peer: P) -> Self {
            Self { id: peer.id(), peer: Some(peer) }
        }
        pub fn new_id(id: P::Id) -> Self {
            Self { id, peer: None }
        }
        pub fn id(&self) -> &P::Id {
            &self.id
        }
        pub fn peer(&self) -> Option<&P> {
            self.peer.as_ref()
        }
    }
}
pub mod udp {
    use crate::peer::{ConnectionPeer, Peer};
    use async_trait::async_trait;
    use std::io;
    #[async_trait]
    pub trait AsyncUdpSocket<P: ConnectionPeer>: Send + Sync {
        async fn send_to(&mut self, buf: &[u8], peer: &Peer<P>) -> io::Result<usize>;
        async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, Peer<P>)>;
    }
}
pub mod fake {
    //! Harness side.
    use std::{any::Any, cell::RefCell, io, rc::Rc};
    use tokio::sync::{oneshot, watch};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Side {
        Connect,
        Accept,
    }
    /// What the ideal pipe does once the connection attempt is answered.
    pub struct StreamPlan {
        /// Bytes (or failure) seen by `read_to_eof`; resolved when the sender fires.
        pub read: oneshot::Receiver<io::Result<Vec<u8>>>,
        /// Outcome of `write`: None = everything is accepted.
        pub write: Option<io::Result<usize>>,
        pub close: io::Result<()>,
        /// Receives the bytes handed to `write`.
        pub written: Option<oneshot::Sender<Vec<u8>>>,
        /// Optional gate: `write` completes only when it turns true.
        pub write_gate: Option<watch::Receiver<bool>>,
    }
    impl StreamPlan {
        pub fn reading(data: io::Result<Vec<u8>>) -> Self {
            let (tx, rx) = oneshot::channel();
            let _ = tx.send(data);
            Self { read: rx, write: None, close: Ok(()), written: None, write_gate: None }
        }
        pub fn writing(written: Option<oneshot::Sender<Vec<u8>>>) -> Self {
            let (_tx, rx) = oneshot::channel();
            Self { read: rx, write: None, close: Ok(()), written, write_gate: None }
        }
    }
    pub struct Opening {
        pub side: Side,
        pub send: u16,
        pub recv: u16,
        /// The peer's `ConnectionPeer::Id`.
        pub peer_id: Box<dyn Any>,
        pub max_idle_timeout: std::time::Duration,
        pub respond: oneshot::Sender<io::Result<StreamPlan>>,
    }
    type Hook = Rc<dyn Fn(Opening)>;
    thread_local! {
        static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
        static NEXT_CID: RefCell<u16> = const { RefCell::new(100) };
    }
    pub fn set_hook(f: impl Fn(Opening) + 'static) {
        HOOK.with(|h| *h.borrow_mut() = Some(Rc::new(f)));
    }
    pub fn clear() {
        HOOK.with(|h| *h.borrow_mut() = None);
        NEXT_CID.with(|n| *n.borrow_mut() = 100);
    }
    pub(crate) fn hook() -> Option<Hook> {
        HOOK.with(|h| h.borrow().clone())
    }
    pub(crate) fn next_cid() -> u16 {
        NEXT_CID.with(|n| {
            let v = *n.borrow();
            *n.borrow_mut() = v.wrapping_add(2);
            v
        })
    }
}
pub mod stream {
    use crate::{cid::ConnectionId, fake::StreamPlan, peer::ConnectionPeer};
    use std::io;
    pub struct UtpStream<P: ConnectionPeer> {
        pub(crate) cid: ConnectionId<P::Id>,
        pub(crate) plan: StreamPlan,
    }
    impl<P: ConnectionPeer> UtpStream<P> {
        pub fn cid(&self) -> &ConnectionId<P::Id> {
            &self.cid
        }
        pub async fn read_to_eof(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
            match (&mut self.plan.read).await {
                Ok(Ok(d)) => {
                    buf.extend_from_slice(&d);
                    Ok(d.len())
                }
                Ok(Err(e)) => Err(e),
                Err(_) => Err(io::Error::from(io::ErrorKind::TimedOut)),
            }
        }
        pub async fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            if let Some(g) = self.plan.write_gate.as_mut() {
                let _ = g.wait_for(|v| *v).await;
            }
            if let Some(tx) = self.plan.written.take() {
                let _ = tx.send(buf.to_vec());
            }
            match self.plan.write.take() {
                None => Ok(buf.len()),
                Some(r) => r,
            }
        }
        pub async fn close(&mut self) -> io::Result<()> {
            std::mem::replace(&mut self.plan.close, Ok(()))
        }
        pub fn shutdown(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
pub mod socket {
    use crate::{cid::ConnectionId, conn::ConnectionConfig, fake, peer::{ConnectionPeer, Peer}, stream::UtpStream, udp::AsyncUdpSocket};
    use std::{any::Any, io, marker::PhantomData};
    pub struct UtpSocket<P: ConnectionPeer> {
        _keep: parking_lot::Mutex<Box<dyn Any + Send>>,
        _p: PhantomData<fn() -> P>,
    }
    impl<P: ConnectionPeer + 'static> UtpSocket<P> {
        pub fn with_socket<S>(socket: S) -> Self
        where
            S: AsyncUdpSocket<P> + 'static,
        {
            Self { _keep: parking_lot::Mutex::new(Box::new(socket)), _p: PhantomData }
        }
        pub fn cid(&self, peer_id: P::Id, is_initiator: bool) -> ConnectionId<P::Id> {
            let recv = fake::next_cid();
            let send = if is_initiator { recv.wrapping_add(1) } else { recv.wrapping_sub(1) };
            ConnectionId { send, recv, peer_id }
        }
        pub fn num_connections(&self) -> usize {
            0
        }
        async fn open(&self, side: fake::Side, cid: ConnectionId<P::Id>, config: ConnectionConfig) -> io::Result<UtpStream<P>> {
            let rx = {
                match fake::hook() {
                    Some(h) => {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        h(fake::Opening {
                            side,
                            send: cid.send,
                            recv: cid.recv,
                            peer_id: Box::new(cid.peer_id.clone()) as Box<dyn Any>,
                            max_idle_timeout: config.max_idle_timeout,
                            respond: tx,
                        });
                        Some(rx)
                    }
                    None => None,
                }
            };
            match rx {
                None => {
                    tokio::time::sleep(config.max_idle_timeout).await;
                    Err(io::Error::from(io::ErrorKind::TimedOut))
                }
                Some(rx) => match rx.await {
                    Ok(Ok(plan)) => Ok(UtpStream { cid, plan }),
                    Ok(Err(e)) => Err(e),
                    Err(_) => {
                        tokio::time::sleep(config.max_idle_timeout).await;
                        Err(io::Error::from(io::ErrorKind::TimedOut))
                    }
                },
            }
        }
        pub async fn connect_with_cid(&self, cid: ConnectionId<P::Id>, _peer: Peer<P>, config: ConnectionConfig) -> io::Result<UtpStream<P>> {
            self.open(fake::Side::Connect, cid, config).await
        }
        pub async fn accept_with_cid(&self, cid: ConnectionId<P::Id>, _peer: Peer<P>, config: ConnectionConfig) -> io::Result<UtpStream<P>> {
            self.open(fake::Side::Accept, cid, config).await
        }
        pub async fn connect(&self, peer: Peer<P>, config: ConnectionConfig) -> io::Result<UtpStream<P>> {
            let cid = self.cid(peer.id().clone(), true);
            self.connect_with_cid(cid, peer, config).await
        }
    }
}
