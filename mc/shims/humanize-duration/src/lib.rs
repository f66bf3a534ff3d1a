pub enum Truncate { Second, Minute, Hour, Day, Month, Year, Millis, Nano }
pub mod prelude {
    pub trait DurationExt { fn human(&self, t: super::Truncate) -> String; }
    impl DurationExt for std::time::Duration { fn human(&self, _t: super::Truncate) -> String { format!("{self:?}") } }
}
