pub use alloy::consensus::{ReceiptEnvelope, Transaction as TransactionTrait};
pub use alloy::rpc::types::*;
