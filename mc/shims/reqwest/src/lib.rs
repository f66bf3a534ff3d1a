//! HTTP stand-in: every request is answered by the thread-local `fake` responder, or fails.
use serde::{de::DeserializeOwned, Serialize};
use std::fmt;
pub use url::Url;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool { false }
    pub fn is_connect(&self) -> bool { true }
    pub fn status(&self) -> Option<StatusCode> { None }
}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(pub u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
    pub fn as_u16(&self) -> u16 { self.0 }
}
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
pub mod header {
    use std::fmt;
    /// Names are kept in lower case.
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct HeaderName(std::borrow::Cow<'static, str>);
    impl HeaderName {
        pub fn from_static(s: &'static str) -> Self { Self(s.to_ascii_lowercase().into()) }
        pub fn as_str(&self) -> &str { &self.0 }
    }
    impl AsRef<str> for HeaderName { fn as_ref(&self) -> &str { &self.0 } }
    impl From<&str> for HeaderName { fn from(s: &str) -> Self { Self(s.to_ascii_lowercase().into()) } }
    impl From<&HeaderName> for HeaderName { fn from(s: &HeaderName) -> Self { s.clone() } }
    pub const ACCEPT: HeaderName = HeaderName(std::borrow::Cow::Borrowed("accept"));
    pub const CONTENT_TYPE: HeaderName = HeaderName(std::borrow::Cow::Borrowed("content-type"));
    #[derive(Clone, PartialEq, Eq)]
    pub struct HeaderValue(Vec<u8>);
    #[derive(Debug)]
    pub struct Bad;
    impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("bad header value") } }
    impl std::error::Error for Bad {}
    impl fmt::Debug for HeaderValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&String::from_utf8_lossy(&self.0), f) } }
    impl HeaderValue {
        pub fn from_static(s: &'static str) -> Self { Self(s.into()) }
        pub fn from_str(s: &str) -> Result<Self, Bad> { Ok(Self(s.into())) }
        pub fn from_bytes(b: &[u8]) -> Result<Self, Bad> { Ok(Self(b.into())) }
        pub fn as_bytes(&self) -> &[u8] { &self.0 }
        pub fn to_str(&self) -> Result<&str, Bad> {
            if self.0.iter().all(|b| (32..127).contains(b) || *b == 9) { Ok(std::str::from_utf8(&self.0).unwrap()) } else { Err(Bad) }
        }
    }
    pub trait Key { fn name(&self) -> HeaderName; }
    impl Key for &str { fn name(&self) -> HeaderName { HeaderName::from(*self) } }
    impl Key for HeaderName { fn name(&self) -> HeaderName { self.clone() } }
    impl<T: Key> Key for &T { fn name(&self) -> HeaderName { (**self).name() } }
    #[derive(Clone, Debug, Default)]
    pub struct HeaderMap(std::collections::BTreeMap<HeaderName, HeaderValue>);
    impl HeaderMap {
        pub fn new() -> Self { Self::default() }
        pub fn insert(&mut self, k: impl Key, v: HeaderValue) -> Option<HeaderValue> { self.0.insert(k.name(), v) }
        pub fn get(&self, k: impl Key) -> Option<&HeaderValue> { self.0.get(&k.name()) }
        pub fn extend(&mut self, o: HeaderMap) { self.0.extend(o.0) }
    }
    impl<K: Key> FromIterator<(K, HeaderValue)> for HeaderMap {
        fn from_iter<I: IntoIterator<Item = (K, HeaderValue)>>(i: I) -> Self { Self(i.into_iter().map(|(k, v)| (k.name(), v)).collect()) }
    }
}
use header::{HeaderMap, HeaderValue};
pub mod fake {
    use super::header::HeaderMap;
    use std::{cell::RefCell, rc::Rc};
    pub struct Call<'a> { pub method: &'static str, pub url: &'a str, pub headers: &'a HeaderMap, pub body: &'a [u8] }
    pub struct Reply { pub status: u16, pub headers: HeaderMap, pub body: Vec<u8>, pub after: std::time::Duration }
    type Hook = Rc<dyn Fn(Call) -> Option<Reply>>;
    thread_local! { static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) }; }
    pub fn set_full(f: impl Fn(Call) -> Option<Reply> + 'static) { HOOK.with(|h| *h.borrow_mut() = Some(Rc::new(f))) }
    pub fn set(f: impl Fn(&str, &[u8]) -> Option<(u16, Vec<u8>)> + 'static) {
        set_full(move |c| f(c.url, c.body).map(|(status, body)| Reply { status, headers: HeaderMap::new(), body, after: Default::default() }))
    }
    pub fn clear() { HOOK.with(|h| *h.borrow_mut() = None) }
    pub(crate) fn call(c: Call) -> Option<Reply> { let h = HOOK.with(|h| h.borrow().clone()); h.and_then(|h| h(c)) }
}
pub trait IntoUrl { fn s(self) -> String; fn as_str(&self) -> &str; }
impl IntoUrl for &str { fn s(self) -> String { self.to_string() } fn as_str(&self) -> &str { self } }
impl IntoUrl for String { fn s(self) -> String { self } fn as_str(&self) -> &str { self } }
impl IntoUrl for &String { fn s(self) -> String { self.clone() } fn as_str(&self) -> &str { self } }
impl IntoUrl for Url { fn s(self) -> String { self.to_string() } fn as_str(&self) -> &str { Url::as_str(self) } }
#[derive(Clone, Debug, Default)]
pub struct Client { headers: HeaderMap, timeout: Option<std::time::Duration> }
#[derive(Default)]
pub struct ClientBuilder { headers: HeaderMap, timeout: Option<std::time::Duration> }
impl ClientBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn timeout(mut self, d: std::time::Duration) -> Self { self.timeout = Some(d); self }
    pub fn default_headers(mut self, h: HeaderMap) -> Self { self.headers = h; self }
    pub fn build(self) -> Result<Client> { Ok(Client { headers: self.headers, timeout: self.timeout }) }
}
#[derive(Clone, Debug)]
pub struct Request { method: &'static str, url: String, headers: HeaderMap, body: Vec<u8>, timeout: Option<std::time::Duration> }
pub struct RequestBuilder { client: Client, request: Request }
impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::default() }
    fn request(&self, method: &'static str, url: String) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: Request { method, url, headers: HeaderMap::new(), body: vec![], timeout: None } }
    }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request("GET", u.s()) }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request("POST", u.s()) }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let mut headers = self.headers.clone();
        headers.extend(r.headers);
        match fake::call(fake::Call { method: r.method, url: &r.url, headers: &headers, body: &r.body }) {
            Some(reply) => {
                let limit = r.timeout.or(self.timeout).unwrap_or(std::time::Duration::MAX);
                if !reply.after.is_zero() { tokio::time::sleep(reply.after.min(limit)).await }
                if reply.after >= limit { return Err(Error(format!("error sending request for url ({}): operation timed out", r.url))) }
                Ok(Response { status: reply.status, headers: reply.headers, body: reply.body })
            }
            None => Err(Error(format!("error sending request for url ({})", r.url))),
        }
    }
}
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, t: &T) -> Self { self.request.body = serde_json::to_vec(t).unwrap(); self }
    pub fn header(mut self, k: impl Into<String>, v: impl Into<String>) -> Self {
        self.request.headers.insert(k.into().as_str(), HeaderValue::from_str(&v.into()).unwrap());
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self { self.request.headers.extend(h); self }
    pub fn timeout(mut self, d: std::time::Duration) -> Self { self.request.timeout = Some(d); self }
    pub fn build(self) -> Result<Request> { Ok(self.request) }
    pub async fn send(self) -> Result<Response> { self.client.execute(self.request).await }
}
pub async fn get<U: IntoUrl>(u: U) -> Result<Response> { Client::new().get(u).send().await }
#[derive(Debug)]
pub struct Response { status: u16, headers: HeaderMap, body: Vec<u8> }
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(self.status) }
    pub fn headers(&self) -> &HeaderMap { &self.headers }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.body).map_err(|e| Error(e.to_string())) }
    pub async fn text(self) -> Result<String> { String::from_utf8(self.body).map_err(|e| Error(e.to_string())) }
    pub async fn bytes(self) -> Result<bytes::Bytes> { Ok(self.body.into()) }
    pub fn content_length(&self) -> Option<u64> { Some(self.body.len() as u64) }
    /// The body in pieces of at most 64 bytes, so that more than one arrives.
    pub fn bytes_stream(self) -> impl futures_util::Stream<Item = Result<bytes::Bytes>> {
        futures_util::stream::iter(self.body.chunks(64).map(|c| Ok(c.to_vec().into())).collect::<Vec<_>>())
    }
    pub fn error_for_status(self) -> Result<Self> { if self.status().is_success() { Ok(self) } else { Err(Error(format!("HTTP status {}", self.status))) } }
}
