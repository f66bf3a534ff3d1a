pub mod server {
    use jsonrpsee::{
        server::{fake, IdProvider, ServerHandle},
        Methods,
    };

    #[derive(Debug, thiserror::Error)]
    #[error("failed to listen on ipc endpoint {endpoint}")]
    pub struct IpcServerStartError {
        endpoint: String,
    }
    #[derive(Debug, Clone)]
    pub struct Builder<H = (), R = ()>(std::marker::PhantomData<(H, R)>);
    impl<H, R> Default for Builder<H, R> {
        fn default() -> Self {
            Self(Default::default())
        }
    }
    impl<H, R> Builder<H, R> {
        pub fn set_id_provider<I: IdProvider + 'static>(self, _: I) -> Self {
            self
        }
        pub fn build(self, endpoint: impl AsRef<str>) -> IpcServer<H, R> {
            IpcServer { endpoint: endpoint.as_ref().into(), _m: Default::default() }
        }
    }
    #[derive(Debug)]
    pub struct IpcServer<H = (), R = ()> {
        endpoint: String,
        _m: std::marker::PhantomData<(H, R)>,
    }
    impl<H, R> IpcServer<H, R> {
        pub fn endpoint(&self) -> String {
            self.endpoint.clone()
        }
        pub async fn start(self, methods: impl Into<Methods>) -> Result<ServerHandle, IpcServerStartError> {
            Ok(fake::listen("ipc", self.endpoint, methods.into()))
        }
    }
}
