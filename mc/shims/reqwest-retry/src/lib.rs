//! The scripted responder answers as if retries were over.
pub mod policies {
    pub struct ExponentialBackoff;
    pub struct Builder;
    impl ExponentialBackoff { pub fn builder() -> Builder { Builder } }
    impl Builder { pub fn build_with_max_retries(self, _n: u32) -> ExponentialBackoff { ExponentialBackoff } }
}
pub struct RetryTransientMiddleware;
impl RetryTransientMiddleware { pub fn new_with_policy<P>(_p: P) -> Self { Self } }
