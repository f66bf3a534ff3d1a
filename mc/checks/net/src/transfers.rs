//! A transfer controller over a socket that is never used.

use std::{io, sync::Arc};

use portalnet::{discovery::UtpPeer, utp::controller::UtpController};
use trin_metrics::{overlay::OverlayMetricsReporter, portalnet::PORTALNET_METRICS};
use utp_rs::{peer::Peer, socket::UtpSocket, udp::AsyncUdpSocket};

pub struct Nowhere;

#[async_trait::async_trait]
impl AsyncUdpSocket<UtpPeer> for Nowhere {
    async fn send_to(&mut self, _: &[u8], _: &Peer<UtpPeer>) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::NotConnected))
    }
    async fn recv_from(&mut self, _: &mut [u8]) -> io::Result<(usize, Peer<UtpPeer>)> {
        std::future::pending().await
    }
}

pub fn socket() -> Arc<UtpSocket<UtpPeer>> {
    Arc::new(UtpSocket::with_socket(Nowhere))
}

pub fn controller(limit: usize) -> UtpController {
    UtpController::new(
        limit,
        socket(),
        OverlayMetricsReporter {
            protocol: "check".to_string(),
            overlay_metrics: PORTALNET_METRICS.overlay(),
        },
    )
}
