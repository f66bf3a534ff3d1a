pub mod cors {
    use http::{HeaderValue, Method};

    #[derive(Clone, Copy, Debug)]
    pub struct Any;
    #[derive(Clone, Debug, Default, PartialEq)]
    pub enum AllowOrigin {
        #[default]
        None,
        Any,
        List(Vec<HeaderValue>),
    }
    impl AllowOrigin {
        pub fn list(l: impl IntoIterator<Item = HeaderValue>) -> Self {
            Self::List(l.into_iter().collect())
        }
    }
    impl From<Any> for AllowOrigin {
        fn from(_: Any) -> Self {
            Self::Any
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer {
        pub methods: Vec<Method>,
        pub origin: AllowOrigin,
    }
    impl CorsLayer {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn allow_methods(mut self, m: impl IntoIterator<Item = Method>) -> Self {
            self.methods = m.into_iter().collect();
            self
        }
        pub fn allow_origin(mut self, o: impl Into<AllowOrigin>) -> Self {
            self.origin = o.into();
            self
        }
        pub fn allow_headers(self, _: Any) -> Self {
            self
        }
    }
}
