//! Accepts JSON and a block-style subset of YAML (nested mappings, sequences, scalars).
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{fmt, ops};

#[derive(Debug)]
pub struct Error(serde_json::Error);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(transparent)]
#[repr(transparent)]
pub struct Value(serde_json::Value);
fn wrap(v: &serde_json::Value) -> &Value {
    // SAFETY: transparent wrapper
    unsafe { &*(v as *const serde_json::Value as *const Value) }
}
fn wrap_all(v: &Vec<serde_json::Value>) -> &Vec<Value> {
    // SAFETY: transparent wrapper
    unsafe { &*(v as *const Vec<serde_json::Value> as *const Vec<Value>) }
}
impl Value {
    pub fn as_sequence(&self) -> Option<&Vec<Value>> {
        self.0.as_array().map(wrap_all)
    }
    pub fn as_mapping(&self) -> Option<&Value> {
        self.0.is_object().then_some(self)
    }
    pub fn as_str(&self) -> Option<&str> {
        self.0.as_str()
    }
    pub fn as_u64(&self) -> Option<u64> {
        self.0.as_u64()
    }
    pub fn get(&self, k: impl AsRef<str>) -> Option<&Value> {
        self.0.get(k.as_ref()).map(wrap)
    }
}
impl PartialEq<str> for Value {
    fn eq(&self, o: &str) -> bool {
        self.0 == *o
    }
}
impl<I: serde_json::value::Index> ops::Index<I> for Value {
    type Output = Value;
    fn index(&self, i: I) -> &Value {
        wrap(&self.0[i])
    }
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(r: R) -> Result<T> {
    let mut r = r;
    let mut buf = Vec::new();
    r.read_to_end(&mut buf).map_err(|e| <Error as serde::de::Error>::custom(e))?;
    from_slice(&buf)
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    match serde_json::from_str::<serde_json::Value>(s) {
        Ok(v) => serde_json::from_value(v).map_err(Error),
        Err(e) => {
            let v = block::parse(s).ok_or(Error(e))?;
            serde_json::from_value(v).map_err(Error)
        }
    }
}
pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(s).map_err(<Error as serde::de::Error>::custom)?)
}
pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T> {
    serde_json::from_value(v.0).map_err(Error)
}
pub fn to_value<T: Serialize>(v: T) -> Result<Value> {
    serde_json::to_value(v).map(Value).map_err(Error)
}
pub fn to_string<T: Serialize>(v: &T) -> Result<String> {
    serde_json::to_string(v).map_err(Error)
}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(<serde_json::Error as serde::de::Error>::custom(m))
    }
}
macro_rules! fwd {
    ($($m:ident),*) => {
        $(fn $m<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
            (&self.0).$m(v).map_err(Error)
        })*
    };
}
impl<'de> serde::Deserializer<'de> for &'de Value {
    type Error = Error;
    fwd!(
        deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32,
        deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
        deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string,
        deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit,
        deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any
    );
    fn deserialize_unit_struct<V: serde::de::Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value> {
        (&self.0).deserialize_unit_struct(n, v).map_err(Error)
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value> {
        (&self.0).deserialize_newtype_struct(n, v).map_err(Error)
    }
    fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value> {
        (&self.0).deserialize_tuple(n, v).map_err(Error)
    }
    fn deserialize_tuple_struct<V: serde::de::Visitor<'de>>(self, n: &'static str, l: usize, v: V) -> Result<V::Value> {
        (&self.0).deserialize_tuple_struct(n, l, v).map_err(Error)
    }
    fn deserialize_struct<V: serde::de::Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value> {
        (&self.0).deserialize_struct(n, f, v).map_err(Error)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value> {
        (&self.0).deserialize_enum(n, f, v).map_err(Error)
    }
}

mod block {
    use serde_json::{Map, Value};
    type Line<'a> = (usize, &'a str);
    pub fn parse(s: &str) -> Option<Value> {
        let lines: Vec<Line> = s
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with('#') && l.trim() != "---")
            .map(|l| (l.len() - l.trim_start().len(), l.trim()))
            .collect();
        let mut pos = 0;
        let v = node(&lines, &mut pos)?;
        (pos == lines.len()).then_some(v)
    }
    fn scalar(s: &str) -> Option<Value> {
        if s.starts_with('"') || s.starts_with('[') || s.starts_with('{') {
            return serde_json::from_str(s).ok();
        }
        if let Some(q) = s.strip_prefix('\'') {
            return Some(Value::String(q.strip_suffix('\'')?.replace("\'\'", "\'")));
        }
        Some(match s {
            "true" => Value::Bool(true),
            "false" => Value::Bool(false),
            "null" | "~" | "" => Value::Null,
            _ => match s.parse::<u64>() {
                Ok(n) if n.to_string() == s => n.into(),
                _ => match s.parse::<i64>() {
                    Ok(n) if n.to_string() == s => n.into(),
                    _ => Value::String(s.to_string()),
                },
            },
        })
    }
    fn key(s: &str) -> Option<(String, &str)> {
        if s.starts_with('"') || s.starts_with('\'') {
            let q = s.chars().next()?;
            let e = s[1..].find(q)? + 1;
            let rest = s[e + 1..].strip_prefix(':')?;
            return Some((s[1..e].to_string(), rest.trim()));
        }
        let i = if s.ends_with(':') && !s.contains(": ") { s.len() - 1 } else { s.find(": ")? };
        Some((s[..i].to_string(), s[i + 1..].trim()))
    }
    fn node(l: &[Line], pos: &mut usize) -> Option<Value> {
        let (ind, t) = *l.get(*pos)?;
        if t == "-" || t.starts_with("- ") {
            let mut out = vec![];
            while let Some(&(i, t)) = l.get(*pos) {
                if i != ind || !(t == "-" || t.starts_with("- ")) {
                    break;
                }
                let body = t[1..].trim_start();
                if body.is_empty() {
                    *pos += 1;
                    out.push(node(l, pos)?);
                } else if key(body).is_some() {
                    // inline mapping start: re-indent the rest of the item
                    let off = t.len() - body.len();
                    let mut sub: Vec<Line> = vec![(ind + off, body)];
                    *pos += 1;
                    while let Some(&(i, t)) = l.get(*pos) {
                        if i <= ind {
                            break;
                        }
                        sub.push((i, t));
                        *pos += 1;
                    }
                    let mut p = 0;
                    out.push(node(&sub, &mut p)?);
                    if p != sub.len() {
                        return None;
                    }
                } else {
                    out.push(scalar(body)?);
                    *pos += 1;
                }
            }
            return Some(Value::Array(out));
        }
        if key(t).is_none() {
            *pos += 1;
            return scalar(t);
        }
        let mut m = Map::new();
        while let Some(&(i, t)) = l.get(*pos) {
            if i != ind {
                break;
            }
            let (k, v) = key(t)?;
            *pos += 1;
            if v.is_empty() {
                match l.get(*pos) {
                    Some(&(j, n)) if j > ind || (j == ind && (n == "-" || n.starts_with("- "))) => {
                        m.insert(k, node(l, pos)?);
                    }
                    _ => {
                        m.insert(k, Value::Null);
                    }
                }
            } else {
                m.insert(k, scalar(v)?);
            }
        }
        Some(Value::Object(m))
    }
}
