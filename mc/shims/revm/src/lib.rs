//! No interpreter: a transaction run here reports what it was given and what it read, and writes
//! what its input names.
//!
//! The input of the transaction is a list of steps, each one tag byte and its operands:
//! `01` address = account, `02` address slot = storage, `03` address = code, `04` u64 = block hash,
//! `11` address u64 = credit, `12` address slot value = set storage, `13` address = self-destruct,
//! `14` address u16 code = new contract, `15` address = touch, `16` address u64 = debit,
//! `17` address slot u64 = set storage to the hash of that block,
//! `fd` ends with a revert, `fe` with a halt. The output is a JSON object, see [`Evm::replay`].
//! The gas used is one plus the number of writes. The nonce of the caller grows by one. A call of
//! the beacon roots contract stores the root that is its input instead.
use std::fmt;

pub use revm_primitives as primitives;
use primitives::{hardfork::SpecId, Address, B256, U256};

pub mod state {
    use super::primitives::{keccak256, Bytes, B256, KECCAK_EMPTY, U256};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Bytecode(Bytes);
    impl Default for Bytecode {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Bytecode {
        /// The bytecode of an account without code: a single STOP.
        pub fn new() -> Self {
            Self(Bytes::new())
        }
        pub fn new_raw(b: Bytes) -> Self {
            Self(b)
        }
        /// What runs: the code, or a single STOP.
        pub fn bytes(&self) -> Bytes {
            if self.0.is_empty() {
                Bytes::from_static(&[0])
            } else {
                self.0.clone()
            }
        }
        pub fn bytes_slice(&self) -> &[u8] {
            if self.0.is_empty() {
                &[0]
            } else {
                &self.0
            }
        }
        pub fn original_byte_slice(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn original_bytes(&self) -> Bytes {
            self.0.clone()
        }
        pub fn hash_slow(&self) -> B256 {
            if self.0.is_empty() {
                KECCAK_EMPTY
            } else {
                keccak256(&self.0)
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct AccountInfo {
        pub balance: U256,
        pub nonce: u64,
        pub code_hash: B256,
        pub code: Option<Bytecode>,
    }
    impl Default for AccountInfo {
        fn default() -> Self {
            Self { balance: U256::ZERO, nonce: 0, code_hash: KECCAK_EMPTY, code: Some(Bytecode::new()) }
        }
    }
    impl AccountInfo {
        pub fn code_hash(&self) -> B256 {
            self.code_hash
        }
        pub fn is_empty_code_hash(&self) -> bool {
            self.code_hash == KECCAK_EMPTY
        }
        pub fn is_empty(&self) -> bool {
            (self.is_empty_code_hash() || self.code_hash == B256::ZERO) && self.balance.is_zero() && self.nonce == 0
        }
        pub fn without_code(mut self) -> Self {
            self.code = None;
            self
        }
        /// Equal without regard to the code.
        pub fn same(&self, o: &Self) -> bool {
            self.balance == o.balance && self.nonce == o.nonce && self.code_hash == o.code_hash
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct EvmStorageSlot {
        pub original_value: U256,
        pub present_value: U256,
    }
    pub type EvmStorage = std::collections::HashMap<U256, EvmStorageSlot>;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Account {
        pub info: AccountInfo,
        pub storage: EvmStorage,
        pub touched: bool,
        pub created: bool,
        pub destroyed: bool,
    }
    impl Account {
        pub fn is_touched(&self) -> bool {
            self.touched
        }
        pub fn is_created(&self) -> bool {
            self.created
        }
        pub fn is_selfdestructed(&self) -> bool {
            self.destroyed
        }
        pub fn is_empty(&self) -> bool {
            self.info.is_empty()
        }
    }
    pub type EvmState = std::collections::HashMap<super::primitives::Address, Account>;
}
use state::{Account, AccountInfo, Bytecode, EvmState, EvmStorageSlot};
pub mod database;

pub mod context_interface {
    pub mod block {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct BlobExcessGasAndPrice {
            pub excess_blob_gas: u64,
            pub is_prague: bool,
        }
        impl BlobExcessGasAndPrice {
            pub fn new(excess_blob_gas: u64, is_prague: bool) -> Self {
                Self { excess_blob_gas, is_prague }
            }
        }
    }
}

pub mod context {
    use super::{
        context_interface::block::BlobExcessGasAndPrice,
        primitives::{Address, Bytes, TxKind, B256, U256},
    };
    use alloy::eips::{eip2930::AccessList, eip7702::SignedAuthorization};

    pub trait ContextTr {
        type Db;
        fn db(&mut self) -> &mut Self::Db;
        fn db_ref(&self) -> &Self::Db;
        fn block(&self) -> &BlockEnv;
        fn tx(&self) -> &TxEnv;
    }
    pub trait DBErrorMarker {}
    impl DBErrorMarker for () {}
    impl DBErrorMarker for std::convert::Infallible {}
    impl DBErrorMarker for String {}

    pub type TransactTo = TxKind;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BlockEnv {
        pub number: u64,
        pub beneficiary: Address,
        pub timestamp: u64,
        pub gas_limit: u64,
        pub basefee: u64,
        pub difficulty: U256,
        pub prevrandao: Option<B256>,
        pub blob_excess_gas_and_price: Option<BlobExcessGasAndPrice>,
    }
    impl Default for BlockEnv {
        fn default() -> Self {
            Self {
                number: 0,
                beneficiary: Address::ZERO,
                timestamp: 1,
                gas_limit: u64::MAX,
                basefee: 0,
                difficulty: U256::ZERO,
                prevrandao: Some(B256::ZERO),
                blob_excess_gas_and_price: Some(BlobExcessGasAndPrice::new(0, false)),
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TxEnv {
        pub tx_type: u8,
        pub caller: Address,
        pub gas_limit: u64,
        pub gas_price: u128,
        pub kind: TxKind,
        pub value: U256,
        pub data: Bytes,
        pub nonce: u64,
        pub chain_id: Option<u64>,
        pub access_list: AccessList,
        pub gas_priority_fee: Option<u128>,
        pub blob_hashes: Vec<B256>,
        pub max_fee_per_blob_gas: u128,
        pub authorization_list: Vec<SignedAuthorization>,
    }
    impl Default for TxEnv {
        fn default() -> Self {
            Self {
                tx_type: 0,
                caller: Address::ZERO,
                gas_limit: 30_000_000,
                gas_price: 0,
                kind: TxKind::Call(Address::ZERO),
                value: U256::ZERO,
                data: Bytes::new(),
                nonce: 0,
                chain_id: Some(1),
                access_list: AccessList::default(),
                gas_priority_fee: None,
                blob_hashes: vec![],
                max_fee_per_blob_gas: 0,
                authorization_list: vec![],
            }
        }
    }

    pub mod result {
        use super::super::{primitives::Bytes, *};

        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum EVMError<DB> {
            Transaction(String),
            Header(String),
            Database(DB),
            Custom(String),
        }
        impl<DB: fmt::Debug + fmt::Display> std::error::Error for EVMError<DB> {}
        impl<DB: fmt::Display> fmt::Display for EVMError<DB> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    Self::Transaction(e) => write!(f, "transaction validation error: {e}"),
                    Self::Header(e) => write!(f, "header validation error: {e}"),
                    Self::Database(e) => write!(f, "database error: {e}"),
                    Self::Custom(e) => f.write_str(e),
                }
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum HaltReason {
            OpcodeNotFound,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum Output {
            Call(Bytes),
        }
        impl Output {
            pub fn into_data(self) -> Bytes {
                let Self::Call(b) = self;
                b
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum ExecutionResult {
            Success { gas_used: u64, output: Output },
            Revert { gas_used: u64, output: Bytes },
            Halt { reason: HaltReason, gas_used: u64 },
        }
        impl ExecutionResult {
            pub fn gas_used(&self) -> u64 {
                let (Self::Success { gas_used, .. } | Self::Revert { gas_used, .. } | Self::Halt { gas_used, .. }) = self;
                *gas_used
            }
            pub fn is_success(&self) -> bool {
                matches!(self, Self::Success { .. })
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct ResultAndState {
            pub result: ExecutionResult,
            pub state: EvmState,
        }
    }
}
use context::{result::*, BlockEnv, DBErrorMarker, TxEnv};

pub mod inspector {
    pub mod inspectors {
        /// Writes one line per transaction: the steps are not worth a line each.
        pub struct TracerEip3155(pub Box<dyn std::io::Write>);
        impl TracerEip3155 {
            pub fn new(to: Box<dyn std::io::Write>) -> Self {
                Self(to)
            }
        }
    }
}

pub trait Database {
    type Error: DBErrorMarker + std::error::Error;
    /// Whether what runs over it is written down, so that the caller counts too.
    const WRITABLE: bool = false;
    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, Self::Error>;
    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, Self::Error>;
    fn storage(&mut self, address: Address, index: U256) -> Result<U256, Self::Error>;
    fn block_hash(&mut self, number: u64) -> Result<B256, Self::Error>;
}
impl<D: Database> Database for &mut D {
    type Error = D::Error;
    const WRITABLE: bool = D::WRITABLE;
    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, Self::Error> {
        (**self).basic(address)
    }
    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, Self::Error> {
        (**self).code_by_hash(code_hash)
    }
    fn storage(&mut self, address: Address, index: U256) -> Result<U256, Self::Error> {
        (**self).storage(address, index)
    }
    fn block_hash(&mut self, number: u64) -> Result<B256, Self::Error> {
        (**self).block_hash(number)
    }
}

impl<D: Database> DatabaseCommit for &mut D
where
    D: DatabaseCommit,
{
    fn commit(&mut self, changes: EvmState) {
        (**self).commit(changes)
    }
}
pub trait DatabaseRef {
    type Error: DBErrorMarker + std::error::Error;
    fn basic_ref(&self, address: Address) -> Result<Option<AccountInfo>, Self::Error>;
    fn code_by_hash_ref(&self, code_hash: B256) -> Result<Bytecode, Self::Error>;
    fn storage_ref(&self, address: Address, index: U256) -> Result<U256, Self::Error>;
    fn block_hash_ref(&self, number: u64) -> Result<B256, Self::Error>;
}
macro_rules! by_reference {
    ($($t:ty),*) => {$(
        impl<D: DatabaseRef> DatabaseRef for $t {
            type Error = D::Error;
            fn basic_ref(&self, address: Address) -> Result<Option<AccountInfo>, Self::Error> {
                (**self).basic_ref(address)
            }
            fn code_by_hash_ref(&self, code_hash: B256) -> Result<Bytecode, Self::Error> {
                (**self).code_by_hash_ref(code_hash)
            }
            fn storage_ref(&self, address: Address, index: U256) -> Result<U256, Self::Error> {
                (**self).storage_ref(address, index)
            }
            fn block_hash_ref(&self, number: u64) -> Result<B256, Self::Error> {
                (**self).block_hash_ref(number)
            }
        }
    )*};
}
by_reference!(&D, &mut D);
pub trait DatabaseCommit {
    fn commit(&mut self, changes: EvmState);
}

pub mod handler {
    use super::*;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CfgEnv {
        pub chain_id: u64,
        pub spec: SpecId,
    }
    pub struct MainnetContext<DB> {
        pub database: DB,
        pub cfg: CfgEnv,
        pub block: BlockEnv,
        pub tx: TxEnv,
    }
    impl<DB: Database> MainnetContext<DB> {
        pub fn new(database: DB, spec: SpecId) -> Self {
            Self { database, cfg: CfgEnv { chain_id: 1, spec }, block: BlockEnv::default(), tx: TxEnv::default() }
        }
        pub fn with_block(self, block: BlockEnv) -> Self {
            Self { block, ..self }
        }
        pub fn with_tx(self, tx: TxEnv) -> Self {
            Self { tx, ..self }
        }
    }
    impl<DB: Database> super::context::ContextTr for MainnetContext<DB> {
        type Db = DB;
        fn db(&mut self) -> &mut DB {
            &mut self.database
        }
        fn db_ref(&self) -> &DB {
            &self.database
        }
        fn block(&self) -> &BlockEnv {
            &self.block
        }
        fn tx(&self) -> &TxEnv {
            &self.tx
        }
    }
}
use handler::MainnetContext;
pub use handler::MainnetContext as Context;

pub struct MainnetEvm<C, I = ()> {
    pub ctx: C,
    pub inspector: I,
}
impl<C, I> std::ops::Deref for MainnetEvm<C, I> {
    type Target = C;
    fn deref(&self) -> &C {
        &self.ctx
    }
}
impl<C, I> std::ops::DerefMut for MainnetEvm<C, I> {
    fn deref_mut(&mut self) -> &mut C {
        &mut self.ctx
    }
}
impl<C, I> MainnetEvm<C, I> {
    pub fn with_inspector<J>(self, inspector: J) -> MainnetEvm<C, J> {
        MainnetEvm { ctx: self.ctx, inspector }
    }
}
pub trait MainBuilder: Sized {
    type Context;
    fn build_mainnet(self) -> MainnetEvm<Self::Context, ()>;
}
impl<DB> MainBuilder for MainnetContext<DB> {
    type Context = Self;
    fn build_mainnet(self) -> MainnetEvm<Self, ()> {
        MainnetEvm { ctx: self, inspector: () }
    }
}

pub trait ExecuteEvm {
    type Output;
    /// Runs the transaction that is set.
    fn replay(&mut self) -> Self::Output;
}
pub trait InspectEvm: ExecuteEvm {
    fn inspect_replay(&mut self) -> Self::Output;
}

struct Input<'a>(&'a [u8]);
impl<'a> Input<'a> {
    fn take<const N: usize>(&mut self) -> Option<[u8; N]> {
        let (head, rest) = self.0.split_at_checked(N)?;
        self.0 = rest;
        head.try_into().ok()
    }
    fn bytes(&mut self, n: usize) -> Option<&'a [u8]> {
        let (head, rest) = self.0.split_at_checked(n)?;
        self.0 = rest;
        Some(head)
    }
}

/// What the transaction changed so far, over the database.
struct Journal<'a, DB: Database> {
    db: &'a mut DB,
    changes: EvmState,
    /// Accounts the database does not have.
    absent: std::collections::HashSet<Address>,
    writes: u64,
}
impl<DB: Database> Journal<'_, DB> {
    fn account(&mut self, a: Address) -> Result<&mut Account, EVMError<DB::Error>> {
        if !self.changes.contains_key(&a) {
            let info = self.db.basic(a).map_err(EVMError::Database)?;
            if info.is_none() {
                self.absent.insert(a);
            }
            self.changes.insert(a, Account { info: info.unwrap_or_default(), ..Default::default() });
        }
        Ok(self.changes.get_mut(&a).expect("loaded"))
    }
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, EVMError<DB::Error>> {
        let found = self.account(a)?;
        let (info, touched) = (found.info.clone(), found.touched);
        Ok((touched || !self.absent.contains(&a)).then_some(info))
    }
    fn storage(&mut self, a: Address, slot: U256) -> Result<U256, EVMError<DB::Error>> {
        let found = self.account(a)?;
        if let Some(s) = found.storage.get(&slot) {
            return Ok(s.present_value);
        }
        if found.created {
            return Ok(U256::ZERO);
        }
        self.db.storage(a, slot).map_err(EVMError::Database)
    }
    fn write(&mut self, a: Address) -> Result<&mut Account, EVMError<DB::Error>> {
        self.writes += 1;
        let found = self.account(a)?;
        found.touched = true;
        Ok(found)
    }
    fn set(&mut self, a: Address, slot: U256, value: U256) -> Result<(), EVMError<DB::Error>> {
        let original_value = self.storage(a, slot)?;
        let found = self.write(a)?;
        found.storage.entry(slot).or_insert(EvmStorageSlot { original_value, present_value: value }).present_value = value;
        Ok(())
    }
}

impl<DB: Database> MainnetContext<DB> {
    fn run(&mut self) -> Result<ResultAndState, EVMError<DB::Error>> {
        let MainnetContext { database, cfg, block, tx } = self;
        let bad = || EVMError::Transaction("input is not a list of steps".into());
        let mut j = Journal { db: database, changes: EvmState::default(), absent: Default::default(), writes: 0 };
        let data = tx.data.clone();
        let mut reads = vec![];
        let roots = alloy::eips::eip4788::BEACON_ROOTS_ADDRESS;
        let result = 'run: {
            if tx.kind == primitives::TxKind::Call(roots) {
                let has_code = j.basic(roots)?.is_some_and(|i| !i.is_empty_code_hash());
                let root: [u8; 32] = data[..].try_into().map_err(|_| bad())?;
                if has_code {
                    let at = U256::from(block.timestamp % 8191);
                    j.set(roots, at, U256::from(block.timestamp))?;
                    j.set(roots, at + U256::from(8191), U256::from_be_bytes(root))?;
                }
                break 'run ExecutionResult::Success { gas_used: 1, output: Output::Call(Default::default()) };
            }
            let mut input = Input(&data);
            while let Some([tag]) = input.take::<1>() {
                match tag {
                    1 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        reads.push(match j.db.basic(a).map_err(EVMError::Database)? {
                            None => "no account".to_string(),
                            Some(i) => format!("{} {} {}", i.balance, i.nonce, i.code_hash),
                        });
                    }
                    2 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let slot = U256::from_be_bytes(input.take::<32>().ok_or_else(bad)?);
                        reads.push(j.db.storage(a, slot).map_err(EVMError::Database)?.to_string());
                    }
                    3 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        reads.push(match j.db.basic(a).map_err(EVMError::Database)? {
                            None => "no account".to_string(),
                            Some(i) => match i.code {
                                Some(c) => c,
                                None => j.db.code_by_hash(i.code_hash).map_err(EVMError::Database)?,
                            }
                            .original_bytes()
                            .to_string(),
                        });
                    }
                    4 => {
                        let n = u64::from_be_bytes(input.take::<8>().ok_or_else(bad)?);
                        reads.push(j.db.block_hash(n).map_err(EVMError::Database)?.to_string());
                    }
                    0x11 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let v = U256::from(u64::from_be_bytes(input.take::<8>().ok_or_else(bad)?));
                        j.write(a)?.info.balance += v;
                    }
                    0x12 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let slot = U256::from_be_bytes(input.take::<32>().ok_or_else(bad)?);
                        let value = U256::from_be_bytes(input.take::<32>().ok_or_else(bad)?);
                        j.set(a, slot, value)?;
                    }
                    0x13 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        j.write(a)?.destroyed = true;
                    }
                    0x14 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let n = u16::from_be_bytes(input.take::<2>().ok_or_else(bad)?);
                        let code = Bytecode::new_raw(input.bytes(n as usize).ok_or_else(bad)?.to_vec().into());
                        let found = j.write(a)?;
                        found.created = true;
                        found.storage.clear();
                        found.info.nonce = 1;
                        found.info.code_hash = code.hash_slow();
                        found.info.code = Some(code);
                    }
                    0x15 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        j.write(a)?;
                    }
                    0x16 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let v = U256::from(u64::from_be_bytes(input.take::<8>().ok_or_else(bad)?));
                        let found = j.write(a)?;
                        found.info.balance = found.info.balance.checked_sub(v).ok_or_else(|| EVMError::Transaction("lack of funds".into()))?;
                    }
                    0x17 => {
                        let a = Address::from(input.take::<20>().ok_or_else(bad)?);
                        let slot = U256::from_be_bytes(input.take::<32>().ok_or_else(bad)?);
                        let n = u64::from_be_bytes(input.take::<8>().ok_or_else(bad)?);
                        let hash = j.db.block_hash(n).map_err(EVMError::Database)?;
                        j.set(a, slot, hash.into())?;
                    }
                    0xfd => {
                        j.changes.clear();
                        break 'run ExecutionResult::Revert { gas_used: 1, output: Default::default() };
                    }
                    0xfe => {
                        j.changes.clear();
                        break 'run ExecutionResult::Halt { reason: HaltReason::OpcodeNotFound, gas_used: 1 };
                    }
                    _ => return Err(bad()),
                }
            }
            let output = serde_json::json!({
                "spec": format!("{:?}", cfg.spec),
                "block": format!("{block:?}"),
                "tx": format!("{tx:?}"),
                "reads": reads,
            });
            let output = Output::Call(serde_json::to_vec(&output).expect("json").into());
            ExecutionResult::Success { gas_used: 1 + j.writes, output }
        };
        // Only what may be written to is asked for one more account: the caller.
        if DB::WRITABLE {
            let caller = j.account(tx.caller)?;
            caller.touched = true;
            caller.info.nonce += 1;
        }
        Ok(ResultAndState { result, state: j.changes })
    }
}

impl<DB: Database, I> ExecuteEvm for MainnetEvm<MainnetContext<DB>, I> {
    type Output = Result<ResultAndState, EVMError<DB::Error>>;

    fn replay(&mut self) -> Self::Output {
        self.ctx.run()
    }
}
impl<DB: Database> InspectEvm for MainnetEvm<MainnetContext<DB>, inspector::inspectors::TracerEip3155> {
    fn inspect_replay(&mut self) -> Self::Output {
        use std::io::Write;
        let result = self.ctx.run();
        let gas = result.as_ref().map(|r| r.result.gas_used()).unwrap_or(0);
        let _ = writeln!(self.inspector.0, "{{\"gasUsed\":{gas},\"input\":\"{}\"}}", self.ctx.tx.data);
        let _ = self.inspector.0.flush();
        result
    }
}
