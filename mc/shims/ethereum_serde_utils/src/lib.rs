//! Serde helpers with the API subset of `ethereum_serde_utils` used here.
pub mod hex {
    use std::fmt;

    use serde::de::{self, Visitor};

    pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
        let hex = ::hex::encode(data);
        let mut s = String::with_capacity(hex.len() + 2);
        s.push_str("0x");
        s.push_str(hex.as_str());
        s
    }

    pub fn decode(s: &str) -> Result<Vec<u8>, String> {
        if let Some(stripped) = s.strip_prefix("0x") {
            ::hex::decode(stripped).map_err(|e| format!("invalid hex: {e:?}"))
        } else {
            Err("hex must have 0x prefix".to_string())
        }
    }

    pub struct PrefixedHexVisitor;
    impl Visitor<'_> for PrefixedHexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
            formatter.write_str("a hex string with 0x prefix")
        }
        fn visit_str<E: de::Error>(self, value: &str) -> Result<Self::Value, E> {
            decode(value).map_err(de::Error::custom)
        }
    }
    pub struct HexVisitor;
    impl Visitor<'_> for HexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
            formatter.write_str("a hex string (irrelevant of prefix)")
        }
        fn visit_str<E: de::Error>(self, value: &str) -> Result<Self::Value, E> {
            ::hex::decode(value.trim_start_matches("0x"))
                .map_err(|e| de::Error::custom(format!("invalid hex ({e:?})")))
        }
    }
}

pub mod bytes_4_hex {
    use serde::{de::Error, Deserializer, Serializer};

    use crate::hex::PrefixedHexVisitor;

    const BYTES_LEN: usize = 4;
    pub fn serialize<S: Serializer>(bytes: &[u8; BYTES_LEN], serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&crate::hex::encode(bytes))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<[u8; BYTES_LEN], D::Error> {
        let decoded = deserializer.deserialize_str(PrefixedHexVisitor)?;
        decoded
            .try_into()
            .map_err(|v: Vec<u8>| D::Error::custom(format!("expected {} bytes for array, got {}", BYTES_LEN, v.len())))
    }
}

macro_rules! quoted {
    ($($m:ident $t:ident),*) => {$(
        pub mod $m {
            use serde::{de, Deserializer, Serializer};
            struct V;
            impl de::Visitor<'_> for V {
                type Value = $t;
                fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("a quoted or unquoted integer")
                }
                fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
                    s.parse().map_err(de::Error::custom)
                }
                fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
                    <$t>::try_from(v).map_err(de::Error::custom)
                }
            }
            pub fn serialize<S: Serializer>(value: &$t, serializer: S) -> Result<S::Ok, S::Error> {
                serializer.serialize_str(&value.to_string())
            }
            pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<$t, D::Error> {
                deserializer.deserialize_any(V)
            }
        }
    )*};
}
quoted!(quoted_u8 u8, quoted_u32 u32, quoted_u64 u64);
