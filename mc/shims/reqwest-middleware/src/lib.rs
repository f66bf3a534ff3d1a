//! The client with middleware; what middleware would do is up to the scripted responder.
use reqwest::{header::HeaderMap, Client, IntoUrl, Request, Response};
use std::fmt;
#[derive(Debug)]
pub enum Error { Middleware(anyhow::Error), Reqwest(reqwest::Error) }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Middleware(e) => e.fmt(f), Self::Reqwest(e) => e.fmt(f) } } }
impl std::error::Error for Error {}
impl From<anyhow::Error> for Error { fn from(e: anyhow::Error) -> Self { Self::Middleware(e) } }
impl From<reqwest::Error> for Error { fn from(e: reqwest::Error) -> Self { Self::Reqwest(e) } }
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn new(c: Client) -> Self { Self(c) }
    pub fn with<M>(self, _m: M) -> Self { self }
    pub fn build(self) -> ClientWithMiddleware { ClientWithMiddleware(self.0) }
}
#[derive(Clone, Debug)]
pub struct ClientWithMiddleware(Client);
impl ClientWithMiddleware {
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { RequestBuilder(self.0.get(u)) }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { RequestBuilder(self.0.post(u)) }
    pub async fn execute(&self, r: Request) -> Result<Response, Error> { Ok(self.0.execute(r).await?) }
}
pub struct RequestBuilder(reqwest::RequestBuilder);
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(self, t: &T) -> Self { Self(self.0.json(t)) }
    pub fn headers(self, h: HeaderMap) -> Self { Self(self.0.headers(h)) }
    pub fn timeout(self, d: std::time::Duration) -> Self { Self(self.0.timeout(d)) }
    pub fn build(self) -> Result<Request, reqwest::Error> { self.0.build() }
    pub async fn send(self) -> Result<Response, Error> { Ok(self.0.send().await?) }
}
