//! X03: the state database over histories of changes.
use std::{
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, OnceLock,
    },
};

use alloy::{
    consensus::Header,
    primitives::{Address, B256, U256},
};
use eth_trie::{Trie, DB as _};
use revm::{
    database::{BundleAccount, BundleState},
    state::{AccountInfo, Bytecode},
    Database, DatabaseRef,
};
use spec::{ramp, trie::keccak};
use trin_execution::{
    config::StateConfig,
    storage::{account_db::AccountDB, evm_db::EvmDB, execution_position::ExecutionPosition},
};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::model::{address, diff_fits, nodes, Account, State};

/// A directory of its own for each history, removed at its end.
pub struct Dir(PathBuf);
impl Dir {
    pub fn new() -> Self {
        static ROOT: OnceLock<tempfile::TempDir> = OnceLock::new();
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let root = ROOT.get_or_init(|| tempfile::tempdir().unwrap());
        let dir = root.path().join(NEXT.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir(&dir).unwrap();
        Self(dir)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        rocksdb::fake::forget_at(&self.0.join("rocksdb"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn info(a: &Account) -> AccountInfo {
    AccountInfo { balance: U256::from(a.balance), nonce: a.nonce, code_hash: a.code_hash(), code: None }
}

/// The change from one state to another. `wiped`: those that were destroyed on the way.
pub fn bundle(before: &State, after: &State, wiped: &[Address]) -> BundleState {
    let mut out = BundleState::default();
    let all: std::collections::BTreeSet<_> = before.0.keys().chain(after.0.keys()).chain(wiped).collect();
    for a in all {
        let (old, new) = (before.0.get(a), after.0.get(a));
        let none = Account::default();
        let (was, is) = (old.unwrap_or(&none), new.unwrap_or(&none));
        let mut change = BundleAccount { original_info: old.map(info), info: new.map(info), destroyed: wiped.contains(a), ..Default::default() };
        for slot in was.storage.keys().chain(is.storage.keys()) {
            let at = |x: &Account| x.storage.get(slot).copied().unwrap_or_default();
            if new.is_some() {
                change.storage.insert(U256::from(*slot), (at(was), at(is)));
            }
        }
        if !is.code.is_empty() && is.code != was.code {
            out.contracts.insert(is.code_hash(), Bytecode::new_raw(is.code.clone().into()));
        }
        out.state.insert(*a, change);
    }
    out
}

/// What can happen to one account.
fn change(a: Option<&Account>, kind: usize) -> Option<(Option<Account>, bool)> {
    let here = a.cloned();
    Some(match kind {
        // Made or paid.
        0 => {
            let mut n = here.unwrap_or_default();
            n.balance += 1 << 70;
            (Some(n), false)
        }
        // Used.
        1 => {
            let mut n = here?;
            n.nonce += 1;
            n.balance /= 2;
            (Some(n), false)
        }
        // Made a contract, with storage.
        2 => {
            if a.is_some_and(|a| !a.code.is_empty()) {
                return None;
            }
            let mut n = here.unwrap_or_default();
            n.nonce = 1;
            n.code = ramp(9, 70);
            n.set(0, U256::from(1));
            n.set(7, U256::MAX);
            (Some(n), false)
        }
        // One slot more, one with another value.
        3 => {
            let mut n = here?;
            n.set(0, U256::from(300));
            n.set(1, U256::from(5));
            (Some(n), false)
        }
        // One slot less.
        4 => {
            let mut n = here?;
            n.set(0, U256::ZERO);
            (Some(n), false)
        }
        // All slots emptied.
        5 => {
            let mut n = here?;
            n.storage.clear();
            (Some(n), false)
        }
        // Destroyed.
        6 => {
            here?;
            (None, true)
        }
        // Destroyed, and made again with other storage.
        7 => {
            here?;
            let mut n = Account { nonce: 1, code: ramp(11, 40), ..Default::default() };
            n.set(1, U256::from(9));
            (Some(n), true)
        }
        // Destroyed, and made again as it was, but for the storage.
        8 => {
            let mut n = here?;
            n.storage.clear();
            (Some(n), true)
        }
        // Made and destroyed.
        9 => {
            if a.is_some() {
                return None;
            }
            (None, true)
        }
        // Nothing.
        _ => (here, false),
    })
}

pub struct Db {
    pub dir: Dir,
    pub db: EvmDB,
}

/// What is read is what the model has.
pub fn same(db: &mut EvmDB, is: &State, who: &[Address], slots: &[u64]) -> Res {
    for a in who {
        let m = is.0.get(a);
        let got = db.basic(*a).map_err(|e| e.to_string())?;
        check_eq!(got.clone().map(|i| i.without_code()), m.map(info), "account {a}");
        check_eq!(db.basic_ref(*a).map_err(|e| e.to_string())?, got, "account {a}");
        let Some(m) = m else { continue };
        for s in slots {
            let v = m.storage.get(s).copied().unwrap_or_default();
            check_eq!(db.storage(*a, U256::from(*s)).map_err(|e| e.to_string())?, v, "slot {s} of {a}");
        }
        let code = db.code_by_hash(m.code_hash()).map_err(|e| e.to_string())?;
        if !m.code.is_empty() {
            check_eq!(code.original_bytes().to_vec(), m.code, "code of {a}");
        }
    }
    Ok(())
}

const SLOTS: [u64; 4] = [0, 1, 7, 8];

fn histories(steps: usize, kinds: usize, ch: &mut Ch) -> Res {
    let dir = Dir::new();
    let open = || Arc::new(rocksdb::DB::open_default(dir.path().join("rocksdb")).unwrap());
    let cached = ch.flag();
    let config = StateConfig { cache_contract_changes: cached, ..Default::default() };
    let raw = open();
    let mut position = ExecutionPosition::initialize_from_db(raw.clone()).map_err(|e| e.to_string())?;
    let mut db = EvmDB::new(config.clone(), raw, &position).map_err(|e| e.to_string())?;
    let who = [address(1), address(2), address(3)];
    // A neighbour that is left alone.
    let mut is = State::default();
    is.0.insert(who[2], Account { balance: 77, nonce: 3, ..Default::default() });
    let first = bundle(&State::default(), &is, &[]);
    db.commit_bundle(first).map_err(|e| e.to_string())?;
    check_eq!(db.trie.lock().root_hash().map_err(|e| e.to_string())?, is.root(), "root of the first state");
    let backwards = ch.flag();
    for step in 0..steps {
        let mut next = is.clone();
        let mut wiped = vec![];
        for a in &who[..2] {
            let Some((new, gone)) = change(is.0.get(a), ch.pick(kinds)) else { return Ok(()) };
            match new {
                Some(n) => next.0.insert(*a, n),
                None => next.0.remove(a),
            };
            if gone {
                wiped.push(*a);
            }
        }
        ch.state(&next);
        ch.note(|| format!("{:?} wiped {wiped:?}", next.0.iter().map(|(a, n)| (a, n.balance, n.nonce, n.code.len(), &n.storage)).collect::<Vec<_>>()));
        revm::database::backwards(backwards);
        let done = db.commit_bundle(bundle(&is, &next, &wiped));
        revm::database::backwards(false);
        done.map_err(|e| e.to_string())?;
        let changed = db.trie.lock().root_hash_with_changed_nodes().map_err(|e| e.to_string())?;
        check_eq!(changed.root, next.root(), "root");
        diff_fits(&nodes(&is.trie()), &nodes(&next.trie()), changed.trie_diff.iter(), false)?;
        same(&mut db, &next, &who, &SLOTS)?;
        for a in &who {
            let hash = B256::from(keccak(a.as_slice()));
            let diff = db.get_storage_trie_diff(hash);
            let none = Account::default();
            let (was, now) = (is.0.get(a).unwrap_or(&none), next.0.get(a).unwrap_or(&none));
            if cached {
                let old = if wiped.contains(a) { Default::default() } else { nodes(&was.storage_trie()) };
                diff_fits(&old, &nodes(&now.storage_trie()), diff.iter(), true).map_err(|e| format!("storage of {a}: {e}"))?;
            } else {
                check!(diff.is_empty(), "changes of storage are kept unasked");
            }
            if wiped.contains(a) {
                let now = nodes(&now.storage_trie());
                let kept = AccountDB::new(hash, db.db.clone());
                for node in nodes(&was.storage_trie()).keys().filter(|h| !now.contains_key(*h)) {
                    check!(kept.get(node.as_slice()).ok().flatten().is_none(), "a node of the storage of {a} from before it was destroyed");
                }
            }
            if now.code != was.code && !now.code.is_empty() {
                let kept = db.get_newly_created_contract(now.code_hash());
                check_eq!(kept.map(|c| c.original_bytes().to_vec()), cached.then(|| now.code.clone()), "the new code of {a}");
            }
        }
        db.clear_contract_cache();
        for a in &who {
            check!(db.get_storage_trie_diff(keccak(a.as_slice()).into()).is_empty(), "changes of storage after the end of the block");
            if let Some(n) = next.0.get(a).filter(|n| !n.code.is_empty()) {
                check!(db.get_newly_created_contract(n.code_hash()).is_none(), "code is new after the end of the block");
            }
        }
        ch.steps(1);
        ch.eval();
        is = next;
        let header = Header { number: step as u64, state_root: is.root(), ..Default::default() };
        position.update_position(db.db.clone(), &header).map_err(|e| e.to_string())?;
        if step + 1 == steps && ch.flag() {
            drop(db);
            let raw = open();
            position = ExecutionPosition::initialize_from_db(raw.clone()).map_err(|e| e.to_string())?;
            check_eq!((position.next_block_number(), position.state_root()), (step as u64 + 1, is.root()), "the position");
            db = EvmDB::new(config.clone(), raw, &position).map_err(|e| e.to_string())?;
            check_eq!(db.trie.lock().root_hash().map_err(|e| e.to_string())?, is.root(), "root after reopening");
            same(&mut db, &is, &who, &SLOTS)?;
            let absent = db.storage(address(9), U256::ZERO);
            check!(absent.is_err() && db.code_by_hash(B256::repeat_byte(9)).is_err() && db.block_hash(99).is_err(), "what is not there is read");
        }
    }
    ch.outcome(&is.root());
    Ok(())
}

pub fn x03(ctx: &Ctx) {
    let steps = ctx.b(2, 3) as usize;
    ctx.explore("histories", |ch| histories(steps, 11, ch));
}
