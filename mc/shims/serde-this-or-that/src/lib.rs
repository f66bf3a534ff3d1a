use serde::{de, Deserializer};
struct V;
impl de::Visitor<'_> for V {
    type Value = u64;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("an unsigned integer or a string")
    }
    fn visit_u64<E>(self, v: u64) -> Result<u64, E> {
        Ok(v)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<u64, E> {
        u64::try_from(v).map_err(|_| E::custom("negative"))
    }
    fn visit_bool<E>(self, v: bool) -> Result<u64, E> {
        Ok(v as u64)
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<u64, E> {
        Ok(v.round() as u64)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<u64, E> {
        if v.is_empty() {
            return Ok(0);
        }
        v.parse::<u64>().map_err(E::custom)
    }
    fn visit_unit<E>(self) -> Result<u64, E> {
        Ok(0)
    }
}
pub fn as_u64<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
    d.deserialize_any(V)
}
