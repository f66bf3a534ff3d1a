//! Offline stand-in for the parts of `alloy` that trin uses.
pub use alloy_primitives as primitives;
pub use alloy_primitives::hex;
pub use alloy_rlp as rlp;

pub mod consensus;
pub mod eips;
pub mod rpc;
pub mod trie;

pub mod transports {
    pub mod http {
        pub mod reqwest {
            pub use url::Url;
        }
    }
}
