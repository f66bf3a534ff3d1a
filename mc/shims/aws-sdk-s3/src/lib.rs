//! A bucket answered by the thread-local `fake` responder.
use std::fmt;

pub mod fake {
    use std::{cell::RefCell, rc::Rc};
    #[derive(Clone, Debug, PartialEq)]
    pub enum Call {
        List { bucket: Option<String>, token: Option<String> },
        Create { bucket: Option<String>, key: Option<String> },
        Part { bucket: Option<String>, key: Option<String>, upload: Option<String>, number: Option<i32>, body: Vec<u8> },
        Complete { bucket: Option<String>, key: Option<String>, upload: Option<String>, parts: Vec<(Option<i32>, Option<String>)> },
    }
    #[derive(Clone, Debug, Default)]
    pub struct Reply {
        pub keys: Vec<Option<String>>,
        pub truncated: Option<bool>,
        pub next: Option<String>,
        /// Upload id or tag of a part.
        pub text: Option<String>,
    }
    type Hook = Rc<dyn Fn(Call) -> Option<Reply>>;
    thread_local! { static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) }; }
    pub fn set(f: impl Fn(Call) -> Option<Reply> + 'static) { HOOK.with(|h| *h.borrow_mut() = Some(Rc::new(f))) }
    pub fn clear() { HOOK.with(|h| *h.borrow_mut() = None) }
    pub(crate) fn call(c: Call) -> Result<Reply, super::Error> {
        let h = HOOK.with(|h| h.borrow().clone());
        h.and_then(|h| h(c)).ok_or(super::Error)
    }
}

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("service error") } }
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct Client;
impl Client {
    pub fn new(_: &aws_config::SdkConfig) -> Self { Self }
    pub fn list_objects_v2(&self) -> List { List::default() }
    pub fn create_multipart_upload(&self) -> Create { Create::default() }
    pub fn upload_part(&self) -> Part { Part::default() }
    pub fn complete_multipart_upload(&self) -> Complete { Complete::default() }
}

macro_rules! setters { ($($f:ident $set:ident: $t:ty),*) => { $(
    pub fn $f(mut self, v: impl Into<$t>) -> Self { self.$f = Some(v.into()); self }
    pub fn $set(mut self, v: Option<$t>) -> Self { self.$f = v; self }
)* } }

#[derive(Default)]
pub struct List { bucket: Option<String>, continuation_token: Option<String> }
impl List {
    setters!(bucket set_bucket: String, continuation_token set_continuation_token: String);
    pub async fn send(self) -> Result<Listed, Error> {
        let r = fake::call(fake::Call::List { bucket: self.bucket, token: self.continuation_token })?;
        Ok(Listed { contents: r.keys.iter().map(|k| types::Object(k.clone())).collect(), reply: r })
    }
}
pub struct Listed { contents: Vec<types::Object>, reply: fake::Reply }
impl Listed {
    pub fn contents(&self) -> &[types::Object] { &self.contents }
    pub fn is_truncated(&self) -> Option<bool> { self.reply.truncated }
    pub fn next_continuation_token(&self) -> Option<&str> { self.reply.next.as_deref() }
    pub fn key_count(&self) -> Option<i32> { Some(self.contents.len() as i32) }
}

#[derive(Default)]
pub struct Create { bucket: Option<String>, key: Option<String> }
impl Create {
    setters!(bucket set_bucket: String, key set_key: String);
    pub async fn send(self) -> Result<Created, Error> { Ok(Created(fake::call(fake::Call::Create { bucket: self.bucket, key: self.key })?.text)) }
}
pub struct Created(Option<String>);
impl Created { pub fn upload_id(&self) -> Option<&str> { self.0.as_deref() } }

#[derive(Default)]
pub struct Part { bucket: Option<String>, key: Option<String>, upload_id: Option<String>, part_number: Option<i32>, body: Option<primitives::ByteStream> }
impl Part {
    setters!(bucket set_bucket: String, key set_key: String, upload_id set_upload_id: String, part_number set_part_number: i32, body set_body: primitives::ByteStream);
    pub async fn send(self) -> Result<Sent, Error> {
        let body = self.body.map(|b| b.0).unwrap_or_default();
        Ok(Sent(fake::call(fake::Call::Part { bucket: self.bucket, key: self.key, upload: self.upload_id, number: self.part_number, body })?.text))
    }
}
pub struct Sent(Option<String>);
impl Sent { pub fn e_tag(&self) -> Option<&str> { self.0.as_deref() } }

#[derive(Default)]
pub struct Complete { bucket: Option<String>, key: Option<String>, upload_id: Option<String>, multipart_upload: Option<types::CompletedMultipartUpload> }
impl Complete {
    setters!(bucket set_bucket: String, key set_key: String, upload_id set_upload_id: String, multipart_upload set_multipart_upload: types::CompletedMultipartUpload);
    pub async fn send(self) -> Result<(), Error> {
        let parts = self.multipart_upload.and_then(|m| m.parts).unwrap_or_default().into_iter().map(|p| (p.part_number, p.e_tag)).collect();
        fake::call(fake::Call::Complete { bucket: self.bucket, key: self.key, upload: self.upload_id, parts }).map(|_| ())
    }
}

pub mod primitives {
    #[derive(Debug, Default)]
    pub struct ByteStream(pub(crate) Vec<u8>);
    impl From<Vec<u8>> for ByteStream { fn from(v: Vec<u8>) -> Self { Self(v) } }
    impl ByteStream { pub fn from_static(v: &'static [u8]) -> Self { Self(v.to_vec()) } }
}

pub mod types {
    #[derive(Clone, Debug)]
    pub struct Object(pub(crate) Option<String>);
    impl Object { pub fn key(&self) -> Option<&str> { self.0.as_deref() } }
    #[derive(Clone, Debug, Default)]
    pub struct CompletedPart { pub part_number: Option<i32>, pub e_tag: Option<String> }
    impl CompletedPart { pub fn builder() -> CompletedPartBuilder { Default::default() } }
    #[derive(Default)]
    pub struct CompletedPartBuilder { part_number: Option<i32>, e_tag: Option<String> }
    impl CompletedPartBuilder {
        setters!(part_number set_part_number: i32, e_tag set_e_tag: String);
        pub fn build(self) -> CompletedPart { CompletedPart { part_number: self.part_number, e_tag: self.e_tag } }
    }
    #[derive(Clone, Debug, Default)]
    pub struct CompletedMultipartUpload { pub parts: Option<Vec<CompletedPart>> }
    impl CompletedMultipartUpload { pub fn builder() -> CompletedMultipartUploadBuilder { Default::default() } }
    #[derive(Default)]
    pub struct CompletedMultipartUploadBuilder(Option<Vec<CompletedPart>>);
    impl CompletedMultipartUploadBuilder {
        pub fn parts(mut self, p: CompletedPart) -> Self { self.0.get_or_insert_with(Vec::new).push(p); self }
        pub fn set_parts(mut self, p: Option<Vec<CompletedPart>>) -> Self { self.0 = p; self }
        pub fn build(self) -> CompletedMultipartUpload { CompletedMultipartUpload { parts: self.0 } }
    }
}
