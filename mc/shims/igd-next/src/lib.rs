//! No gateway is ever found: the harness has no network.
use std::{fmt, net::{IpAddr, Ipv4Addr, SocketAddr}};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PortMappingProtocol { TCP, UDP }
#[derive(Default, Clone, Debug)]
pub struct SearchOptions;
#[derive(Debug)]
pub struct SearchError;
impl fmt::Display for SearchError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "no gateway") } }
impl std::error::Error for SearchError {}
pub type AddPortError = SearchError;
pub type GetExternalIpError = SearchError;
#[derive(Clone, Debug)]
pub struct Gateway { pub addr: SocketAddr }
impl Gateway {
    pub fn get_external_ip(&self) -> Result<IpAddr, SearchError> { Ok(IpAddr::V4(Ipv4Addr::LOCALHOST)) }
    pub fn add_port(&self, _p: PortMappingProtocol, _e: u16, _l: SocketAddr, _d: u32, _n: &str) -> Result<(), SearchError> { Err(SearchError) }
    pub fn remove_port(&self, _p: PortMappingProtocol, _e: u16) -> Result<(), SearchError> { Err(SearchError) }
}
pub fn search_gateway(_o: SearchOptions) -> Result<Gateway, SearchError> { Err(SearchError) }
