//! Layered configuration: profiles, merge order and extraction as in figment (JSON value model).
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Map, Value as J};
use std::collections::BTreeMap;
pub mod value {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    #[serde(transparent)]
    pub struct Value(pub serde_json::Value);
    impl<T: Into<serde_json::Value>> From<T> for Value { fn from(t: T) -> Self { Value(t.into()) } }
}
pub mod error {
    use std::borrow::Cow;
    #[derive(Debug, Clone)]
    #[non_exhaustive]
    pub enum Kind { Message(String), MissingField(Cow<'static, str>) }
}
#[derive(Debug, Clone)]
pub struct Error { pub kind: error::Kind }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.kind) } }
impl std::error::Error for Error {}
type Data = BTreeMap<String, Map<String, J>>;
pub trait Provider { fn data(&self) -> Result<Data, Error>; }
pub mod providers {
    use super::*;
    pub struct Serialized<T> { value: T, profile: String }
    impl<T> Serialized<T> {
        pub fn from(value: T, profile: impl Into<String>) -> Self { Self { value, profile: profile.into() } }
        pub fn defaults(value: T) -> Self { Self { value, profile: "default".into() } }
    }
    impl<T: Serialize> Provider for Serialized<T> {
        fn data(&self) -> Result<Data, Error> {
            match serde_json::to_value(&self.value) {
                Ok(J::Object(m)) => Ok([(self.profile.clone(), m)].into()),
                other => Err(Error { kind: error::Kind::Message(format!("{other:?}")) }),
            }
        }
    }
    pub struct Toml;
    pub struct TomlFile { path: Option<std::path::PathBuf>, text: String, nested: bool }
    pub trait Format {
        fn file<P: AsRef<std::path::Path>>(p: P) -> TomlFile;
        fn string(s: &str) -> TomlFile;
    }
    impl Format for Toml {
        fn file<P: AsRef<std::path::Path>>(p: P) -> TomlFile { TomlFile { path: Some(p.as_ref().to_path_buf()), text: String::new(), nested: false } }
        fn string(s: &str) -> TomlFile { TomlFile { path: None, text: s.into(), nested: false } }
    }
    impl TomlFile { pub fn nested(mut self) -> Self { self.nested = true; self } }
    impl Provider for TomlFile {
        fn data(&self) -> Result<Data, Error> {
            let text = match &self.path { Some(p) => std::fs::read_to_string(p).unwrap_or_default(), None => self.text.clone() };
            let v: J = toml::from_str(&text).map_err(|e| Error { kind: error::Kind::Message(e.to_string()) })?;
            let J::Object(m) = v else { return Ok(Data::new()) };
            if !self.nested { return Ok([("default".to_string(), m)].into()); }
            Ok(m.into_iter().filter_map(|(k, v)| match v { J::Object(o) => Some((k, o)), _ => None }).collect())
        }
    }
}
#[derive(Default)]
pub struct Figment { data: Data, profile: String, err: Option<Error> }
fn merge(a: &mut Map<String, J>, b: Map<String, J>) {
    for (k, v) in b {
        match (a.get_mut(&k), v) {
            (Some(J::Object(x)), J::Object(y)) => merge(x, y),
            (_, v) => { a.insert(k, v); }
        }
    }
}
impl Figment {
    pub fn new() -> Self { Self { profile: "default".into(), ..Default::default() } }
    pub fn merge<P: Provider>(mut self, p: P) -> Self {
        match p.data() {
            Ok(d) => for (k, m) in d { merge(self.data.entry(k).or_default(), m) },
            Err(e) => self.err = Some(e),
        }
        self
    }
    pub fn select(mut self, p: impl Into<String>) -> Self { self.profile = p.into(); self }
    pub fn extract<T: DeserializeOwned>(&self) -> Result<T, Error> {
        if let Some(e) = &self.err { return Err(e.clone()); }
        let mut m = self.data.get("default").cloned().unwrap_or_default();
        if let Some(p) = self.data.get(&self.profile) { merge(&mut m, p.clone()) }
        if let Some(p) = self.data.get("global") { merge(&mut m, p.clone()) }
        serde_json::from_value(J::Object(m)).map_err(|e| {
            let s = e.to_string();
            let kind = match s.strip_prefix("missing field `").and_then(|r| r.split('`').next()) {
                Some(f) => error::Kind::MissingField(f.to_string().into()),
                None => error::Kind::Message(s),
            };
            Error { kind }
        })
    }
}
