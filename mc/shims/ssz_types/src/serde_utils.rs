struct Quoted(u64);
impl<'de> serde::Deserialize<'de> for Quoted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        ::serde_utils::quoted_u64::deserialize(d).map(Quoted)
    }
}

pub mod quoted_u64_var_list {
    use serde::{ser::SerializeSeq, Deserialize, Deserializer, Serializer};
    use typenum::Unsigned;

    use super::Quoted;
    use crate::VariableList;

    pub fn serialize<S: Serializer, N: Unsigned>(value: &VariableList<u64, N>, serializer: S) -> Result<S::Ok, S::Error> {
        let mut seq = serializer.serialize_seq(Some(value.len()))?;
        for v in value.iter() {
            seq.serialize_element(&v.to_string())?;
        }
        seq.end()
    }
    pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(deserializer: D) -> Result<VariableList<u64, N>, D::Error> {
        let v = Vec::<Quoted>::deserialize(deserializer)?;
        VariableList::new(v.into_iter().map(|q| q.0).collect())
            .map_err(|e| serde::de::Error::custom(format!("VariableList: {e:?}")))
    }
}
pub mod quoted_u64_fixed_vec {
    use serde::{ser::SerializeSeq, Deserialize, Deserializer, Serializer};
    use typenum::Unsigned;

    use super::Quoted;
    use crate::FixedVector;

    pub fn serialize<S: Serializer, N: Unsigned>(value: &FixedVector<u64, N>, serializer: S) -> Result<S::Ok, S::Error> {
        let mut seq = serializer.serialize_seq(Some(value.len()))?;
        for v in value.iter() {
            seq.serialize_element(&v.to_string())?;
        }
        seq.end()
    }
    pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(deserializer: D) -> Result<FixedVector<u64, N>, D::Error> {
        let v = Vec::<Quoted>::deserialize(deserializer)?;
        FixedVector::new(v.into_iter().map(|q| q.0).collect())
            .map_err(|e| serde::de::Error::custom(format!("invalid length: {e:?}")))
    }
}
pub mod hex_fixed_vec {
    use serde::{Deserializer, Serializer};
    use serde_utils::hex::{self, PrefixedHexVisitor};
    use typenum::Unsigned;

    use crate::FixedVector;

    pub fn serialize<S: Serializer, U: Unsigned>(bytes: &FixedVector<u8, U>, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&hex::encode(&bytes[..]))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, U: Unsigned>(deserializer: D) -> Result<FixedVector<u8, U>, D::Error> {
        let vec = deserializer.deserialize_string(PrefixedHexVisitor)?;
        FixedVector::new(vec).map_err(|e| serde::de::Error::custom(format!("invalid fixed vector: {e:?}")))
    }
}
pub mod hex_var_list {
    use serde::{Deserializer, Serializer};
    use serde_utils::hex::{self, PrefixedHexVisitor};
    use typenum::Unsigned;

    use crate::VariableList;

    pub fn serialize<S: Serializer, N: Unsigned>(bytes: &VariableList<u8, N>, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&hex::encode(&bytes[..]))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, N: Unsigned>(deserializer: D) -> Result<VariableList<u8, N>, D::Error> {
        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;
        VariableList::new(bytes).map_err(|e| serde::de::Error::custom(format!("invalid variable list: {e:?}")))
    }
}
