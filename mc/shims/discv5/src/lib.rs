//! Offline stand-in for the `discv5` crate: the routing table and the node records are faithful
//! re-implementations, the UDP service is replaced by an in-process transport owned by the caller.
pub mod enr;
pub mod fake;
pub mod kbucket;
pub mod rpc;
mod secp;
mod service_impl;

pub type Enr = enr::Enr<enr::CombinedKey>;

pub use kbucket::{ConnectionDirection, ConnectionState, Key};
pub use service_impl::{
    Config, ConfigBuilder, Discv5, Discv5Error, Error, Event, ListenConfig, QueryError,
    RequestError, ResponseError, TalkRequest,
};

pub mod service {
    use std::net::IpAddr;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Pong {
        pub enr_seq: u64,
        pub ip: IpAddr,
        pub port: u16,
    }
}
