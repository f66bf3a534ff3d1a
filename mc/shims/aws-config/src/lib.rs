//! A configuration that knows nothing: the bucket is a stand-in.
#[derive(Clone, Debug, Default)]
pub struct SdkConfig;
#[derive(Clone, Debug, Default)]
pub struct ConfigLoader;
impl ConfigLoader {
    pub fn retry_config(self, _: retry::RetryConfig) -> Self { self }
    pub async fn load(self) -> SdkConfig { SdkConfig }
}
pub fn from_env() -> ConfigLoader { ConfigLoader }
pub async fn load_from_env() -> SdkConfig { SdkConfig }
pub mod retry {
    #[derive(Clone, Debug, Default)]
    pub struct RetryConfig;
    impl RetryConfig {
        pub fn standard() -> Self { Self }
        pub fn with_max_attempts(self, _: u32) -> Self { self }
    }
}
