pub use alloy_primitives::{
    self, address, b256, bytes, keccak256, ruint, uint, Address, Bytes, FixedBytes, Log, LogData, TxKind,
    B256, I256, U256,
};

pub const KECCAK_EMPTY: B256 = B256::new([
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00,
    0xb6, 0x53, 0xca, 0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
]);

pub mod hardfork {
    #[repr(u8)]
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    #[allow(non_camel_case_types)]
    pub enum SpecId {
        FRONTIER = 0,
        FRONTIER_THAWING,
        HOMESTEAD,
        DAO_FORK,
        TANGERINE,
        SPURIOUS_DRAGON,
        BYZANTIUM,
        CONSTANTINOPLE,
        PETERSBURG,
        ISTANBUL,
        MUIR_GLACIER,
        BERLIN,
        LONDON,
        ARROW_GLACIER,
        GRAY_GLACIER,
        MERGE,
        SHANGHAI,
        CANCUN,
        #[default]
        PRAGUE,
        OSAKA,
    }
    impl SpecId {
        pub const fn is_enabled_in(self, other: Self) -> bool {
            self as u8 >= other as u8
        }
    }
}
