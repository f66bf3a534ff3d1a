//! The state that blocks are run over: a cache above a database, and the sum of the changes.
use super::{
    primitives::{Address, B256, KECCAK_EMPTY, U256},
    state::{AccountInfo, Bytecode, EvmState},
    Database, DatabaseCommit,
};
use std::{cell::Cell, collections::BTreeMap};

pub mod states {
    pub use super::{BundleAccount, BundleState, PlainStorageChangeset, StateChangeset};
    pub mod bundle_state {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum BundleRetention {
            PlainState,
            Reverts,
        }
    }
}
use states::bundle_state::BundleRetention;

thread_local! { static BACKWARDS: Cell<bool> = const { Cell::new(false) }; }
/// In which order the changes of a bundle are listed; there is no promise either way.
pub fn backwards(yes: bool) {
    BACKWARDS.with(|b| b.set(yes));
}
fn ordered<T>(mut l: Vec<T>) -> Vec<T> {
    if BACKWARDS.with(|b| b.get()) {
        l.reverse();
    }
    l
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OriginalValuesKnown {
    Yes,
    No,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PlainStorageChangeset {
    pub address: Address,
    pub wipe_storage: bool,
    pub storage: Vec<(U256, U256)>,
}
#[derive(Clone, Debug, Default)]
pub struct StateChangeset {
    pub accounts: Vec<(Address, Option<AccountInfo>)>,
    pub storage: Vec<PlainStorageChangeset>,
    pub contracts: Vec<(B256, Bytecode)>,
}
#[derive(Clone, Debug, Default)]
pub struct PlainStateReverts;

#[derive(Clone, Debug, Default)]
pub struct BundleAccount {
    pub original_info: Option<AccountInfo>,
    pub info: Option<AccountInfo>,
    /// Value before and after.
    pub storage: BTreeMap<U256, (U256, U256)>,
    pub destroyed: bool,
}
impl BundleAccount {
    pub fn was_destroyed(&self) -> bool {
        self.destroyed
    }
    pub fn is_info_changed(&self) -> bool {
        match (&self.original_info, &self.info) {
            (None, None) => false,
            (Some(a), Some(b)) => !a.same(b),
            _ => true,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct BundleState {
    pub state: BTreeMap<Address, BundleAccount>,
    pub contracts: BTreeMap<B256, Bytecode>,
}
impl BundleState {
    pub fn to_plain_state(&self, known: OriginalValuesKnown) -> StateChangeset {
        let mut out = StateChangeset::default();
        let all = known == OriginalValuesKnown::No;
        for (address, account) in &self.state {
            let wiped = account.was_destroyed();
            if all || account.is_info_changed() {
                out.accounts.push((*address, account.info.clone().map(AccountInfo::without_code)));
            }
            let mut storage = vec![];
            for (slot, (before, after)) in &account.storage {
                if all || (wiped && !after.is_zero()) || (!wiped && before != after) {
                    storage.push((*slot, *after));
                }
            }
            if !storage.is_empty() || wiped {
                out.storage.push(PlainStorageChangeset { address: *address, wipe_storage: wiped, storage: ordered(storage) });
            }
        }
        out.accounts = ordered(out.accounts);
        out.storage = ordered(out.storage);
        let code = self.contracts.iter().filter(|(h, _)| **h != KECCAK_EMPTY);
        out.contracts = ordered(code.map(|(h, c)| (*h, c.clone())).collect());
        out
    }
    pub fn to_plain_state_and_reverts(&self, known: OriginalValuesKnown) -> (StateChangeset, PlainStateReverts) {
        (self.to_plain_state(known), PlainStateReverts)
    }
    pub fn into_plain_state_and_reverts(self, known: OriginalValuesKnown) -> (StateChangeset, PlainStateReverts) {
        self.to_plain_state_and_reverts(known)
    }
    pub fn size_hint(&self) -> usize {
        self.state.values().map(|a| 1 + a.storage.len()).sum()
    }
}

/// An account as the cache has it.
#[derive(Clone, Debug, Default)]
struct Cached {
    info: Option<AccountInfo>,
    storage: BTreeMap<U256, U256>,
    /// The storage is all here: the database has none, or none that counts.
    whole: bool,
}

#[derive(Debug)]
pub struct State<DB> {
    pub database: DB,
    pub bundle_state: BundleState,
    cache: BTreeMap<Address, Cached>,
    /// Changes that were not added to the bundle yet.
    pending: BundleState,
    clear: bool,
    bundle: bool,
}
impl State<()> {
    pub fn builder() -> StateBuilder<()> {
        StateBuilder { database: (), bundle: false }
    }
}
pub struct StateBuilder<DB> {
    database: DB,
    bundle: bool,
}
impl<DB> StateBuilder<DB> {
    pub fn with_database<D: Database>(self, database: D) -> StateBuilder<D> {
        StateBuilder { database, bundle: self.bundle }
    }
    pub fn with_bundle_update(self) -> Self {
        Self { bundle: true, ..self }
    }
    pub fn build(self) -> State<DB> {
        State {
            database: self.database,
            bundle_state: Default::default(),
            cache: Default::default(),
            pending: Default::default(),
            clear: true,
            bundle: self.bundle,
        }
    }
}
impl<DB: Database> State<DB> {
    pub fn set_state_clear_flag(&mut self, clear: bool) {
        self.clear = clear;
    }
    pub fn bundle_size_hint(&self) -> usize {
        self.bundle_state.size_hint()
    }
    fn load(&mut self, a: Address) -> Result<&mut Cached, DB::Error> {
        if !self.cache.contains_key(&a) {
            let info = self.database.basic(a)?;
            let whole = info.is_none();
            self.cache.insert(a, Cached { info, whole, ..Default::default() });
        }
        Ok(self.cache.get_mut(&a).expect("loaded"))
    }
    fn change(&mut self, a: Address, f: impl FnOnce(&mut Cached, &mut BundleAccount)) -> Result<(), DB::Error> {
        self.load(a)?;
        let cached = self.cache.get_mut(&a).expect("loaded");
        let before = cached.info.clone();
        let entry = self.pending.state.entry(a).or_insert_with(|| BundleAccount { original_info: before.clone(), info: before, ..Default::default() });
        f(cached, entry);
        entry.info = cached.info.clone();
        if let Some(AccountInfo { code_hash, code: Some(code), .. }) = &entry.info {
            if !code.is_empty() && entry.original_info.as_ref().map(|i| i.code_hash) != Some(*code_hash) {
                self.pending.contracts.insert(*code_hash, code.clone());
            }
        }
        Ok(())
    }
    pub fn increment_balances(&mut self, balances: impl IntoIterator<Item = (Address, u128)>) -> Result<(), DB::Error> {
        for (a, v) in balances {
            if v != 0 {
                self.change(a, |c, _| c.info.get_or_insert_default().balance += U256::from(v))?;
            }
        }
        Ok(())
    }
    pub fn drain_balances(&mut self, from: impl IntoIterator<Item = Address>) -> Result<Vec<u128>, DB::Error> {
        let mut out = vec![];
        for a in from {
            let mut v = U256::ZERO;
            self.change(a, |c, _| {
                if let Some(i) = &mut c.info {
                    v = std::mem::take(&mut i.balance);
                }
            })?;
            out.push(v.try_into().expect("fits"));
        }
        Ok(out)
    }
    pub fn merge_transitions(&mut self, _: BundleRetention) {
        let pending = std::mem::take(&mut self.pending);
        if !self.bundle {
            return;
        }
        for (a, p) in pending.state {
            let Some(b) = self.bundle_state.state.get_mut(&a) else {
                self.bundle_state.state.insert(a, p);
                continue;
            };
            b.info = p.info;
            if p.destroyed {
                b.destroyed = true;
                b.storage.clear();
            }
            for (slot, (before, after)) in p.storage {
                b.storage.entry(slot).or_insert((before, after)).1 = after;
            }
        }
        self.bundle_state.contracts.extend(pending.contracts);
    }
    pub fn take_bundle(&mut self) -> BundleState {
        std::mem::take(&mut self.bundle_state)
    }
}
impl<DB: Database> Database for State<DB> {
    type Error = DB::Error;
    const WRITABLE: bool = true;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DB::Error> {
        Ok(self.load(a)?.info.clone())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DB::Error> {
        let made = self.pending.contracts.get(&h).or(self.bundle_state.contracts.get(&h));
        match made {
            Some(c) => Ok(c.clone()),
            None => self.database.code_by_hash(h),
        }
    }
    fn storage(&mut self, a: Address, slot: U256) -> Result<U256, DB::Error> {
        let cached = self.load(a)?;
        if let Some(v) = cached.storage.get(&slot) {
            return Ok(*v);
        }
        if cached.whole {
            return Ok(U256::ZERO);
        }
        let v = self.database.storage(a, slot)?;
        self.cache.get_mut(&a).expect("loaded").storage.insert(slot, v);
        Ok(v)
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DB::Error> {
        self.database.block_hash(n)
    }
}
impl<DB: Database> DatabaseCommit for State<DB> {
    fn commit(&mut self, changes: EvmState) {
        for (a, account) in changes {
            if !account.is_touched() {
                continue;
            }
            let clear = self.clear;
            let done = self.change(a, |c, b| {
                if account.is_selfdestructed() || (account.is_empty() && clear && !account.is_created()) {
                    if c.info.is_some() {
                        b.destroyed = true;
                    }
                    b.storage.clear();
                    *c = Cached { whole: true, ..Default::default() };
                    return;
                }
                if account.is_created() {
                    c.whole = true;
                    c.storage.clear();
                }
                c.info = Some(account.info);
                for (slot, s) in account.storage {
                    if s.original_value != s.present_value {
                        b.storage.entry(slot).or_insert((s.original_value, s.present_value)).1 = s.present_value;
                    }
                    c.storage.insert(slot, s.present_value);
                }
            });
            if done.is_err() {
                panic!("an account that was changed cannot be loaded");
            }
        }
    }
}
