//! JSON-RPC module, in-process dispatch and clients. No sockets are served: a client built through
//! `HttpClient::in_process` talks directly to a set of `Methods`.
use std::{collections::BTreeMap, fmt, future::Future, pin::Pin, sync::Arc};

use serde_json::Value;

pub mod proc_macros {
    pub use jsonrpsee_macros::rpc;
}

type BoxFut = Pin<Box<dyn Future<Output = Result<Value, types::ErrorObjectOwned>> + Send>>;
type Callback = Arc<dyn Fn(Option<Value>) -> BoxFut + Send + Sync>;

#[derive(Clone, Default)]
pub struct Methods {
    map: BTreeMap<&'static str, Callback>,
}
impl fmt::Debug for Methods {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.map.keys()).finish()
    }
}
impl Methods {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn merge(&mut self, other: impl Into<Methods>) -> Result<(), core::RegisterMethodError> {
        let other = other.into();
        for n in other.map.keys() {
            if self.map.contains_key(n) {
                return Err(core::RegisterMethodError::AlreadyRegistered(n.to_string()));
            }
        }
        self.map.extend(other.map);
        Ok(())
    }
    pub fn method_names(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.map.keys().copied()
    }
    pub async fn dispatch(&self, method: &str, params: Option<Value>) -> Result<Value, types::ErrorObjectOwned> {
        match self.map.get(method) {
            Some(c) => c(params).await,
            None => Err(types::ErrorObject::owned(-32601, "Method not found", None::<()>)),
        }
    }
}

pub struct RpcModule<C> {
    ctx: Arc<C>,
    methods: Methods,
}
impl<C> Clone for RpcModule<C> {
    fn clone(&self) -> Self {
        Self { ctx: self.ctx.clone(), methods: self.methods.clone() }
    }
}
impl<C> fmt::Debug for RpcModule<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.methods.fmt(f)
    }
}
impl<C> From<RpcModule<C>> for Methods {
    fn from(m: RpcModule<C>) -> Self {
        m.methods
    }
}
impl<C> std::ops::Deref for RpcModule<C> {
    type Target = Methods;
    fn deref(&self) -> &Methods {
        &self.methods
    }
}
impl<C> std::ops::DerefMut for RpcModule<C> {
    fn deref_mut(&mut self) -> &mut Methods {
        &mut self.methods
    }
}
impl<C: Send + Sync + 'static> RpcModule<C> {
    pub fn new(ctx: C) -> Self {
        Self { ctx: Arc::new(ctx), methods: Methods::new() }
    }
    pub fn from_arc(ctx: Arc<C>) -> Self {
        Self { ctx, methods: Methods::new() }
    }
    pub fn register<F>(&mut self, name: &'static str, f: F)
    where
        F: Fn(Arc<C>, Option<Value>) -> BoxFut + Send + Sync + 'static,
    {
        let ctx = self.ctx.clone();
        self.methods.map.insert(name, Arc::new(move |p| f(ctx.clone(), p)));
    }
    pub fn remove_context(self) -> RpcModule<()> {
        RpcModule { ctx: Arc::new(()), methods: self.methods }
    }
}

pub mod types {
    use super::*;
    use serde::{de::DeserializeOwned, Deserialize, Serialize};
    use std::borrow::Cow;

    pub mod error {
        pub use super::{ErrorObject, ErrorObjectOwned};
        pub const PARSE_ERROR_CODE: i32 = -32700;
        pub const INVALID_REQUEST_CODE: i32 = -32600;
        pub const METHOD_NOT_FOUND_CODE: i32 = -32601;
        pub const INVALID_PARAMS_CODE: i32 = -32602;
        pub const INTERNAL_ERROR_CODE: i32 = -32603;
        pub const CALL_EXECUTION_FAILED_CODE: i32 = -32000;
        pub const UNKNOWN_ERROR_CODE: i32 = -32001;
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct ErrorObject<'a> {
        code: i32,
        message: Cow<'a, str>,
        #[serde(skip_serializing_if = "Option::is_none")]
        data: Option<Value>,
    }
    pub type ErrorObjectOwned = ErrorObject<'static>;
    impl Eq for ErrorObject<'_> {}
    impl fmt::Display for ErrorObject<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ErrorObject<'_> {}
    impl<'a> ErrorObject<'a> {
        pub fn owned<S: Serialize>(code: i32, message: impl Into<String>, data: Option<S>) -> ErrorObject<'static> {
            ErrorObject {
                code,
                message: Cow::Owned(message.into()),
                data: data.and_then(|d| serde_json::to_value(d).ok()),
            }
        }
        pub fn borrowed(code: i32, message: &'a str, data: Option<&'a serde_json::value::RawValue>) -> ErrorObject<'a> {
            ErrorObject {
                code,
                message: Cow::Borrowed(message),
                data: data.and_then(|d| serde_json::from_str(d.get()).ok()),
            }
        }
        pub fn code(&self) -> i32 {
            self.code
        }
        pub fn message(&self) -> &str {
            &self.message
        }
        pub fn data_value(&self) -> Option<&Value> {
            self.data.as_ref()
        }
        pub fn data(&self) -> Option<Box<serde_json::value::RawValue>> {
            self.data.as_ref().and_then(|d| serde_json::value::to_raw_value(d).ok())
        }
    }

    pub fn to_json<T: Serialize>(t: &T) -> Result<Value, ErrorObjectOwned> {
        serde_json::to_value(t).map_err(|e| ErrorObject::owned(-32603, e.to_string(), None::<()>))
    }
    pub fn to_value_for_params<T: Serialize>(t: &T) -> Result<Value, serde_json::Error> {
        serde_json::to_value(t)
    }

    pub enum ParamsSeq {
        Positional(std::vec::IntoIter<Value>),
        Named(serde_json::Map<String, Value>),
        Bad,
    }
    impl ParamsSeq {
        pub fn new(v: Option<Value>) -> Self {
            match v {
                None | Some(Value::Null) => Self::Positional(vec![].into_iter()),
                Some(Value::Array(a)) => Self::Positional(a.into_iter()),
                Some(Value::Object(o)) => Self::Named(o),
                _ => Self::Bad,
            }
        }
        fn take(&mut self, name: &str) -> Result<Option<Value>, ErrorObjectOwned> {
            match self {
                Self::Positional(i) => Ok(i.next()),
                Self::Named(m) => Ok(m.remove(name)),
                Self::Bad => Err(ErrorObject::owned(-32602, "Invalid params", None::<()>)),
            }
        }
        fn parse<T: DeserializeOwned>(v: Value) -> Result<T, ErrorObjectOwned> {
            serde_json::from_value(v)
                .map_err(|e| ErrorObject::owned(-32602, "Invalid params", Some(e.to_string())))
        }
        pub fn next<T: DeserializeOwned>(&mut self, name: &str) -> Result<T, ErrorObjectOwned> {
            match self.take(name)? {
                Some(v) => Self::parse(v),
                None => Err(ErrorObject::owned(-32602, "Invalid params", Some("No more params"))),
            }
        }
        pub fn optional_next<T: DeserializeOwned + Default>(&mut self, name: &str) -> Result<T, ErrorObjectOwned> {
            match self.take(name)? {
                Some(v) => Self::parse(v),
                None => Ok(T::default()),
            }
        }
    }
    pub type Params<'a> = Cow<'a, str>;
    #[derive(Debug, PartialEq, Eq, Hash, Clone, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum SubscriptionId<'a> {
        Num(u64),
        Str(Cow<'a, str>),
    }
}

pub mod core {
    pub use async_trait::async_trait;
    pub use serde::{de::DeserializeOwned, Deserialize, Serialize};
    pub use serde_json::Value as JsonValue;
    pub type RpcResult<T> = Result<T, super::types::ErrorObjectOwned>;
    pub use client::Error as ClientError;

    #[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
    pub enum RegisterMethodError {
        #[error("Method: {0} was already registered")]
        AlreadyRegistered(String),
    }

    pub mod params {
        use serde_json::Value;
        pub fn array(v: Vec<Result<Value, serde_json::Error>>) -> Result<Value, super::client::Error> {
            Ok(Value::Array(
                v.into_iter()
                    .collect::<Result<Vec<_>, _>>()
                    .map_err(super::client::Error::ParseError)?,
            ))
        }
    }

    pub mod client {
        use serde::{de::DeserializeOwned, Serialize};
        use std::future::Future;
        #[derive(Debug, thiserror::Error)]
        pub enum Error {
            #[error("{0}")]
            Call(super::super::types::ErrorObjectOwned),
            #[error("transport: {0}")]
            Transport(Box<dyn std::error::Error + Send + Sync>),
            #[error("Parse error: {0}")]
            ParseError(serde_json::Error),
            #[error("Request timeout")]
            RequestTimeout,
            #[error("Custom error: {0}")]
            Custom(String),
        }
        impl From<super::super::types::ErrorObjectOwned> for Error {
            fn from(e: super::super::types::ErrorObjectOwned) -> Self {
                Self::Call(e)
            }
        }
        impl From<serde_json::Error> for Error {
            fn from(e: serde_json::Error) -> Self {
                Self::ParseError(e)
            }
        }
        pub trait ClientT: Send + Sync {
            fn request<R: DeserializeOwned + Send, P: Serialize + Send>(
                &self,
                method: &str,
                params: P,
            ) -> impl Future<Output = Result<R, Error>> + Send;
        }
    }
}

/// A client bound to a set of methods.
#[derive(Clone, Debug, Default)]
pub struct InProcessClient {
    methods: Option<Arc<Methods>>,
}
impl InProcessClient {
    pub fn in_process(methods: impl Into<Methods>) -> Self {
        Self { methods: Some(Arc::new(methods.into())) }
    }
    pub fn is_connected(&self) -> bool {
        self.methods.is_some()
    }
}
impl core::client::ClientT for InProcessClient {
    async fn request<R: serde::de::DeserializeOwned + Send, P: serde::Serialize + Send>(
        &self,
        method: &str,
        params: P,
    ) -> Result<R, core::client::Error> {
        let Some(m) = self.methods.clone() else {
            return Err(core::client::Error::Custom("not connected".into()));
        };
        let params = serde_json::to_value(params)?;
        Ok(serde_json::from_value(m.dispatch(method, Some(params)).await?)?)
    }
}

macro_rules! client_mod {
    ($m:ident, $c:ident, $b:ident) => {
        pub mod $m {
            pub use super::InProcessClient as $c;
            #[derive(Clone, Debug, Default)]
            pub struct $b;
            impl $b {
                pub fn new() -> Self {
                    Self
                }
                pub fn max_request_size(self, _: u32) -> Self {
                    self
                }
                pub fn max_response_size(self, _: u32) -> Self {
                    self
                }
                pub fn request_timeout(self, _: std::time::Duration) -> Self {
                    self
                }
                pub fn build(self, _url: impl AsRef<str>) -> Result<$c, super::core::client::Error> {
                    Ok($c::default())
                }
            }
        }
    };
}
client_mod!(http_client, HttpClient, HttpClientBuilder);
client_mod!(async_client, Client, ClientBuilder);
pub mod ws_client {
    pub use super::InProcessClient as WsClient;
    #[derive(Clone, Debug, Default)]
    pub struct WsClientBuilder;
    impl WsClientBuilder {
        pub async fn build(self, _url: impl AsRef<str>) -> Result<WsClient, super::core::client::Error> {
            Ok(WsClient::default())
        }
    }
}

pub mod server {
    use super::*;
    use std::net::SocketAddr;

    pub trait IdProvider: Send + Sync + fmt::Debug {
        fn next_id(&self) -> types::SubscriptionId<'static>;
    }
    #[derive(Debug, Clone, Copy, thiserror::Error)]
    #[error("The server is already stopped")]
    pub struct AlreadyStoppedError;

    /// Identity layers are `()` here.
    #[derive(Debug, Clone)]
    pub struct ServerBuilder<H = (), R = ()> {
        kind: &'static str,
        _m: std::marker::PhantomData<(H, R)>,
    }
    impl<H, R> Default for ServerBuilder<H, R> {
        fn default() -> Self {
            Self { kind: "http+ws", _m: Default::default() }
        }
    }
    impl<H, R> ServerBuilder<H, R> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn set_id_provider<I: IdProvider + 'static>(self, _: I) -> Self {
            self
        }
        pub fn set_http_middleware<T>(self, _: tower::ServiceBuilder<T>) -> ServerBuilder<T, R> {
            ServerBuilder { kind: self.kind, _m: Default::default() }
        }
        pub fn ws_only(mut self) -> Self {
            self.kind = "ws";
            self
        }
        pub fn http_only(mut self) -> Self {
            self.kind = "http";
            self
        }
        pub fn max_request_body_size(self, _: u32) -> Self {
            self
        }
        pub fn max_response_body_size(self, _: u32) -> Self {
            self
        }
        pub fn max_connections(self, _: u32) -> Self {
            self
        }
        pub async fn build(self, addr: impl std::net::ToSocketAddrs) -> std::io::Result<Server<H, R>> {
            let addr = addr.to_socket_addrs()?.next().ok_or(std::io::ErrorKind::InvalidInput)?;
            Ok(Server { addr, kind: self.kind, _m: Default::default() })
        }
    }
    #[derive(Debug, Clone)]
    pub struct Server<H = (), R = ()> {
        addr: SocketAddr,
        kind: &'static str,
        _m: std::marker::PhantomData<(H, R)>,
    }
    impl Server<(), ()> {
        pub fn builder() -> ServerBuilder<(), ()> {
            ServerBuilder::default()
        }
    }
    impl<H, R> Server<H, R> {
        pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
            Ok(self.addr)
        }
        pub fn start(self, methods: impl Into<Methods>) -> ServerHandle {
            fake::listen(self.kind, self.addr.to_string(), methods.into())
        }
    }
    #[derive(Debug, Clone)]
    pub struct ServerHandle(pub(crate) Arc<tokio::sync::watch::Sender<bool>>);
    impl ServerHandle {
        pub fn stop(&self) -> Result<(), AlreadyStoppedError> {
            if self.is_stopped() {
                return Err(AlreadyStoppedError);
            }
            self.0.send_replace(true);
            Ok(())
        }
        pub fn is_stopped(&self) -> bool {
            *self.0.borrow()
        }
    }

    /// The servers started on this thread.
    pub mod fake {
        use super::*;
        use std::cell::RefCell;

        #[derive(Clone, Debug)]
        pub struct Started {
            pub kind: &'static str,
            pub address: String,
            pub methods: Methods,
            pub handle: ServerHandle,
        }
        thread_local! {
            static STARTED: RefCell<Vec<Started>> = const { RefCell::new(vec![]) };
        }
        pub fn listen(kind: &'static str, address: String, methods: Methods) -> ServerHandle {
            let handle = ServerHandle(Arc::new(tokio::sync::watch::channel(false).0));
            STARTED.with(|s| {
                s.borrow_mut().push(Started { kind, address, methods, handle: handle.clone() })
            });
            handle
        }
        pub fn take() -> Vec<Started> {
            STARTED.with(|s| std::mem::take(&mut *s.borrow_mut()))
        }
    }
}
