use std::net::{IpAddr, Ipv4Addr};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no interface") } }
impl std::error::Error for Error {}
pub fn list_afinet_netifas() -> Result<Vec<(String, IpAddr)>, Error> { Ok(vec![("lo".into(), IpAddr::V4(Ipv4Addr::LOCALHOST))]) }
pub fn local_ip() -> Result<IpAddr, Error> { Ok(IpAddr::V4(Ipv4Addr::LOCALHOST)) }
