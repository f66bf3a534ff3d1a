//! Server-sent events fed by the thread-local `fake` source.
use futures::{channel::mpsc, stream::BoxStream, StreamExt};
use std::{cell::RefCell, fmt};
#[derive(Clone, Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event { pub event_type: String, pub data: String, pub id: Option<String>, pub retry: Option<u64> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ConnectionDetails;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SSE { Connected(ConnectionDetails), Event(Event), Comment(String) }
pub mod fake {
    use super::*;
    pub type Item = Result<SSE, Error>;
    thread_local! {
        pub(super) static NEXT: RefCell<Option<mpsc::UnboundedReceiver<Item>>> = const { RefCell::new(None) };
        pub(super) static ASKED: RefCell<Vec<(String, Vec<(String, String)>)>> = const { RefCell::new(vec![]) };
    }
    /// What the next stream opened on this thread delivers.
    pub fn source() -> mpsc::UnboundedSender<Item> {
        let (tx, rx) = mpsc::unbounded();
        NEXT.with(|n| *n.borrow_mut() = Some(rx));
        tx
    }
    /// Addresses and headers streams were opened with.
    pub fn asked() -> Vec<(String, Vec<(String, String)>)> { ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) }
}
pub struct ClientBuilder { url: String, headers: Vec<(String, String)> }
impl ClientBuilder {
    pub fn for_url(url: &str) -> Result<Self, Error> { Ok(Self { url: url.into(), headers: vec![] }) }
    pub fn header(mut self, k: &str, v: &str) -> Result<Self, Error> { self.headers.push((k.into(), v.into())); Ok(self) }
    pub fn build(self) -> impl Client { self }
}
pub trait Client { fn stream(&self) -> BoxStream<'static, Result<SSE, Error>>; }
impl Client for ClientBuilder {
    fn stream(&self) -> BoxStream<'static, Result<SSE, Error>> {
        fake::ASKED.with(|a| a.borrow_mut().push((self.url.clone(), self.headers.clone())));
        match fake::NEXT.with(|n| n.borrow_mut().take()) {
            Some(rx) => rx.boxed(),
            None => futures::stream::pending().boxed(),
        }
    }
}
