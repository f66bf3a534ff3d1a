//! Fork schedules of mainnet and sepolia.
use alloy_primitives::U256;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ForkCondition {
    Block(u64),
    TTD {
        activation_block_number: u64,
        fork_block: Option<u64>,
        total_difficulty: U256,
    },
    Timestamp(u64),
    #[default]
    Never,
}
impl ForkCondition {
    pub const fn is_timestamp(&self) -> bool {
        matches!(self, Self::Timestamp(_))
    }
    pub const fn active_at_block(&self, n: u64) -> bool {
        match self {
            Self::Block(b) => n >= *b,
            Self::TTD { activation_block_number, .. } => n >= *activation_block_number,
            _ => false,
        }
    }
    pub const fn active_at_timestamp(&self, t: u64) -> bool {
        match self {
            Self::Timestamp(a) => t >= *a,
            _ => false,
        }
    }
}

macro_rules! forks {
    ($($name:ident),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum EthereumHardfork { $($name),* }
        impl EthereumHardfork {
            pub const VARIANTS: &'static [EthereumHardfork] = &[$(EthereumHardfork::$name),*];
        }
    };
}
forks!(
    Frontier, Homestead, Dao, Tangerine, SpuriousDragon, Byzantium, Constantinople, Petersburg,
    Istanbul, MuirGlacier, Berlin, London, ArrowGlacier, GrayGlacier, Paris, Shanghai, Cancun,
    Prague, Osaka
);

impl EthereumHardfork {
    pub const fn mainnet_activation_block(&self) -> Option<u64> {
        Some(match self {
            Self::Frontier => 0,
            Self::Homestead => 1150000,
            Self::Dao => 1920000,
            Self::Tangerine => 2463000,
            Self::SpuriousDragon => 2675000,
            Self::Byzantium => 4370000,
            Self::Constantinople => 7280000,
            Self::Petersburg => 7280000,
            Self::Istanbul => 9069000,
            Self::MuirGlacier => 9200000,
            Self::Berlin => 12244000,
            Self::London => 12965000,
            Self::ArrowGlacier => 13773000,
            Self::GrayGlacier => 15050000,
            Self::Paris => 15537394,
            Self::Shanghai => 17034870,
            Self::Cancun => 19426587,
            Self::Prague => 22431084,
            Self::Osaka => return None,
        })
    }
    pub const fn mainnet_activation_timestamp(&self) -> Option<u64> {
        Some(match self {
            Self::Paris => 1663224162,
            Self::Shanghai => 1681338455,
            Self::Cancun => 1710338135,
            Self::Prague => 1746612311,
            _ => return None,
        })
    }
    fn mainnet(&self) -> ForkCondition {
        match self {
            Self::Paris => ForkCondition::TTD {
                activation_block_number: 15537394,
                fork_block: None,
                total_difficulty: U256::from(58_750_000_000_000_000_000_000_u128),
            },
            Self::Shanghai | Self::Cancun | Self::Prague => {
                ForkCondition::Timestamp(self.mainnet_activation_timestamp().unwrap())
            }
            Self::Osaka => ForkCondition::Never,
            _ => ForkCondition::Block(self.mainnet_activation_block().unwrap()),
        }
    }
    fn sepolia(&self) -> ForkCondition {
        match self {
            Self::Paris => ForkCondition::TTD {
                activation_block_number: 1450409,
                fork_block: Some(1735371),
                total_difficulty: U256::from(17_000_000_000_000_000u128),
            },
            Self::Shanghai => ForkCondition::Timestamp(1677557088),
            Self::Cancun => ForkCondition::Timestamp(1706655072),
            Self::Prague => ForkCondition::Timestamp(1741159776),
            Self::Osaka | Self::ArrowGlacier | Self::GrayGlacier => ForkCondition::Never,
            _ => ForkCondition::Block(0),
        }
    }
}

pub trait EthereumHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition;
    fn is_ethereum_fork_active_at_block(&self, fork: EthereumHardfork, n: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_block(n)
    }
    fn is_ethereum_fork_active_at_timestamp(&self, fork: EthereumHardfork, t: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_timestamp(t)
    }
    fn is_byzantium_active_at_block(&self, n: u64) -> bool {
        self.is_ethereum_fork_active_at_block(EthereumHardfork::Byzantium, n)
    }
    fn is_london_active_at_block(&self, n: u64) -> bool {
        self.is_ethereum_fork_active_at_block(EthereumHardfork::London, n)
    }
    fn is_paris_active_at_block(&self, n: u64) -> bool {
        self.is_ethereum_fork_active_at_block(EthereumHardfork::Paris, n)
    }
    fn is_shanghai_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Shanghai, t)
    }
    fn is_cancun_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Cancun, t)
    }
    fn is_prague_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Prague, t)
    }
    fn is_osaka_active_at_timestamp(&self, t: u64) -> bool {
        self.is_ethereum_fork_active_at_timestamp(EthereumHardfork::Osaka, t)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EthereumChainHardforks(Vec<(EthereumHardfork, ForkCondition)>);
impl EthereumChainHardforks {
    pub fn new(forks: impl IntoIterator<Item = (EthereumHardfork, ForkCondition)>) -> Self {
        Self(forks.into_iter().collect())
    }
    pub fn mainnet() -> Self {
        Self::new(EthereumHardfork::VARIANTS.iter().map(|f| (*f, f.mainnet())))
    }
    pub fn sepolia() -> Self {
        Self::new(EthereumHardfork::VARIANTS.iter().map(|f| (*f, f.sepolia())))
    }
}
impl EthereumHardforks for EthereumChainHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition {
        self.0
            .iter()
            .find(|(f, _)| *f == fork)
            .map_or(ForkCondition::Never, |(_, c)| *c)
    }
}
