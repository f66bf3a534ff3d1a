#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Chain(u64);
impl Chain {
    pub const fn mainnet() -> Self {
        Self(1)
    }
    pub const fn sepolia() -> Self {
        Self(11155111)
    }
    pub const fn from_id(id: u64) -> Self {
        Self(id)
    }
    pub const fn id(self) -> u64 {
        self.0
    }
}
impl std::fmt::Display for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            1 => write!(f, "mainnet"),
            11155111 => write!(f, "sepolia"),
            n => write!(f, "{n}"),
        }
    }
}
