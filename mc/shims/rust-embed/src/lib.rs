pub use rust_embed_impl::RustEmbed;
pub struct EmbeddedFile {
    pub data: std::borrow::Cow<'static, [u8]>,
}
pub trait RustEmbed {
    fn get(path: &str) -> Option<EmbeddedFile>;
}
