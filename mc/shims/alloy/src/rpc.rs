pub mod types {
    use alloy_primitives::{Address, Bytes, TxKind, B256, U256};
    use serde::{Deserialize, Serialize};

    use crate::{consensus::TxEnvelope, eips::quantity};

    pub use crate::eips::eip4895::{Withdrawal, Withdrawals};

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Header<H = crate::consensus::Header> {
        pub hash: B256,
        #[serde(flatten)]
        pub inner: H,
        pub total_difficulty: Option<U256>,
        pub size: Option<U256>,
    }

    impl<H> std::ops::Deref for Header<H> {
        type Target = H;
        fn deref(&self) -> &H {
            &self.inner
        }
    }
    impl Header {
        pub fn new(inner: crate::consensus::Header) -> Self {
            Self { hash: inner.hash_slow(), inner, total_difficulty: None, size: None }
        }
    }
    impl<H> Header<H> {
        pub fn with_size(mut self, size: Option<U256>) -> Self {
            self.size = size;
            self
        }
        pub fn into_consensus(self) -> H {
            self.inner
        }
    }
    impl<T> BlockTransactions<T> {
        /// The full transactions, if these are what the block came with.
        pub fn into_transactions(self) -> std::vec::IntoIter<T> {
            match self {
                Self::Full(l) => l.into_iter(),
                _ => vec![].into_iter(),
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum BlockTransactions<T = TxEnvelope> {
        Full(Vec<T>),
        Hashes(Vec<B256>),
        Uncle,
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Block<T = TxEnvelope, H = Header> {
        #[serde(flatten)]
        pub header: H,
        #[serde(default)]
        pub uncles: Vec<B256>,
        pub transactions: BlockTransactions<T>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        pub withdrawals: Option<Withdrawals>,
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
    pub enum BlockNumberOrTag {
        #[default]
        Latest,
        Finalized,
        Safe,
        Earliest,
        Pending,
        Number(u64),
    }
    impl BlockNumberOrTag {
        pub fn as_number(&self) -> Option<u64> {
            match self {
                Self::Number(n) => Some(*n),
                _ => None,
            }
        }
    }
    impl Serialize for BlockNumberOrTag {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match self {
                Self::Number(n) => s.serialize_str(&format!("0x{n:x}")),
                Self::Latest => s.serialize_str("latest"),
                Self::Finalized => s.serialize_str("finalized"),
                Self::Safe => s.serialize_str("safe"),
                Self::Earliest => s.serialize_str("earliest"),
                Self::Pending => s.serialize_str("pending"),
            }
        }
    }
    impl<'de> Deserialize<'de> for BlockNumberOrTag {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let s = String::deserialize(d)?;
            Ok(match s.as_str() {
                "latest" => Self::Latest,
                "finalized" => Self::Finalized,
                "safe" => Self::Safe,
                "earliest" => Self::Earliest,
                "pending" => Self::Pending,
                s => Self::Number(
                    u64::from_str_radix(s.strip_prefix("0x").unwrap_or(s), 16)
                        .map_err(serde::de::Error::custom)?,
                ),
            })
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcBlockHash {
        pub block_hash: B256,
        pub require_canonical: Option<bool>,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum BlockId {
        Hash(RpcBlockHash),
        Number(BlockNumberOrTag),
    }
    impl From<u64> for BlockId {
        fn from(n: u64) -> Self {
            Self::Number(BlockNumberOrTag::Number(n))
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(default)]
    pub struct TransactionInput {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub input: Option<Bytes>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub data: Option<Bytes>,
    }
    impl TransactionInput {
        /// What is to be run; `input` wins over the older name `data`.
        pub fn input(&self) -> Option<&Bytes> {
            self.input.as_ref().or(self.data.as_ref())
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct TransactionRequest {
        pub from: Option<Address>,
        pub to: Option<TxKind>,
        #[serde(with = "quantity::opt")]
        pub gas_price: Option<u128>,
        #[serde(with = "quantity::opt")]
        pub max_fee_per_gas: Option<u128>,
        #[serde(with = "quantity::opt")]
        pub max_priority_fee_per_gas: Option<u128>,
        #[serde(with = "quantity::opt")]
        pub max_fee_per_blob_gas: Option<u128>,
        #[serde(with = "quantity::opt")]
        pub gas: Option<u64>,
        pub value: Option<U256>,
        #[serde(flatten)]
        pub input: TransactionInput,
        #[serde(with = "quantity::opt")]
        pub nonce: Option<u64>,
        #[serde(with = "quantity::opt")]
        pub chain_id: Option<u64>,
        pub access_list: Option<crate::eips::eip2930::AccessList>,
        pub blob_versioned_hashes: Option<Vec<B256>>,
    }

    /// Only named in interfaces: any JSON.
    macro_rules! json {
        ($($t:ident)*) => {$(
            #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
            #[serde(transparent)]
            pub struct $t(pub serde_json::Value);
        )*};
    }
    json!(Filter Log SyncStatus);
    pub mod engine {
        use serde::{Deserialize, Serialize};
        json!(ExecutionPayloadBodiesV1 ExecutionPayloadInputV2 ExecutionPayloadV1 ExecutionPayloadV2
            ExecutionPayloadV3 ForkchoiceState ForkchoiceUpdated PayloadAttributes PayloadId PayloadStatus
            TransitionConfiguration);
    }

    pub mod beacon {
        pub mod events {
            use alloy_primitives::B256;
            use serde::{Deserialize, Serialize};

            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub enum BeaconNodeEventTopic {
                Head,
                Block,
                ChainReorg,
                FinalizedCheckpoint,
                LightClientFinalityUpdate,
                LightClientOptimisticUpdate,
            }
            impl BeaconNodeEventTopic {
                pub fn query_value(&self) -> &'static str {
                    match self {
                        Self::Head => "head",
                        Self::Block => "block",
                        Self::ChainReorg => "chain_reorg",
                        Self::FinalizedCheckpoint => "finalized_checkpoint",
                        Self::LightClientFinalityUpdate => "light_client_finality_update",
                        Self::LightClientOptimisticUpdate => "light_client_optimistic_update",
                    }
                }
            }
            mod num {
                pub use crate::eips::quantity::deserialize;
                pub fn serialize<S: serde::Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(&v.to_string())
                }
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct HeadEvent {
                #[serde(with = "num")]
                pub slot: u64,
                pub block: B256,
                pub state: B256,
                pub epoch_transition: bool,
                pub previous_duty_dependent_root: B256,
                pub current_duty_dependent_root: B256,
                pub execution_optimistic: bool,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct ChainReorgEvent {
                #[serde(with = "num")]
                pub slot: u64,
                #[serde(with = "num")]
                pub depth: u64,
                pub old_head_block: B256,
                pub new_head_block: B256,
                pub old_head_state: B256,
                pub new_head_state: B256,
                #[serde(with = "num")]
                pub epoch: u64,
                pub execution_optimistic: bool,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct FinalizedCheckpointEvent {
                pub block: B256,
                pub state: B256,
                #[serde(with = "num")]
                pub epoch: u64,
                pub execution_optimistic: bool,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct LightClientOptimisticUpdateEvent {
                pub version: String,
                pub data: LightClientOptimisticUpdateData,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct LightClientOptimisticUpdateData {
                pub attested_header: AttestedHeader,
                #[serde(with = "num")]
                pub signature_slot: u64,
                pub sync_aggregate: serde_json::Value,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct AttestedHeader {
                pub beacon: BeaconBlockHeader,
            }
            #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
            pub struct BeaconBlockHeader {
                #[serde(with = "num")]
                pub slot: u64,
                #[serde(with = "num")]
                pub proposer_index: u64,
                pub parent_root: B256,
                pub state_root: B256,
                pub body_root: B256,
            }
        }
    }
}
