//! X05: runs over blocks that are stopped, fail, and go on.
use std::{collections::BTreeMap, sync::Arc};

use alloy::primitives::{B256, U256};
use spec::trie::keccak;
use trin_execution::{
    config::StateConfig,
    execution::TrinExecution,
    storage::{evm_db::EvmDB, execution_position::ExecutionPosition},
    types::block_to_trace::BlockToTrace,
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    blocks::{archive, chain, header, serve, Block, Hashes, Plan, Step::*, Tx, CANCUN, EPOCH, ROOTS},
    commits::{bundle, same, Dir},
    executor::{before, hash_key},
    model::{address, diff_fits, nodes, State},
};

pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}

/// A few blocks at the start of an epoch, that use what was before them.
pub fn plans(epoch: u64, n: u64) -> Vec<Plan> {
    let first = epoch * EPOCH;
    let (a, c, new) = (address(1), address(2), address(4));
    (0..n)
        .map(|i| {
            let number = first + i;
            // The oldest hash a block may ask for, that of its parent, and one in the middle.
            let mut txs = vec![Tx { kind: 0, who: 3, steps: vec![Hash(c, 100 + i, number - 256), Hash(c, 200 + i, number - 1), Hash(c, 300 + i, number - 250)] }];
            txs.push(match i % 4 {
                0 => Tx { kind: 0, who: 50, steps: vec![Create(new, vec![1, 2, 3]), Set(new, 0, U256::from(5)), Set(new, 1, U256::from(6))] },
                1 => Tx { kind: 0, who: 50, steps: vec![Set(new, 0, U256::ZERO), Credit(new, 9)] },
                2 => Tx { kind: 0, who: 60, steps: vec![Destroy(new), Credit(a, 9)] },
                _ => Tx { kind: 0, who: 60, steps: vec![Credit(new, 1)] },
            });
            let withdrawals = if number >= 17_034_870 { vec![(a, 7), (address(9), 3)] } else { vec![] };
            let root = (number >= CANCUN).then(|| B256::repeat_byte(i as u8));
            Plan { number, beneficiary: address(8), txs, withdrawals, beacon_root: root, ..Default::default() }
        })
        .collect()
}

/// A database that has come to the given epoch.
pub fn prepared(dir: &Dir, epoch: u64, is: &State) -> Result<Hashes, String> {
    let raw = Arc::new(rocksdb::DB::open_default(dir.path().join("rocksdb")).unwrap());
    let mut position = ExecutionPosition::initialize_from_db(raw.clone()).map_err(|e| e.to_string())?;
    let mut db = EvmDB::new(StateConfig::default(), raw.clone(), &position).map_err(|e| e.to_string())?;
    db.commit_bundle(bundle(&State::default(), is, &[])).map_err(|e| e.to_string())?;
    eth_trie::Trie::root_hash(&mut *db.trie.lock()).map_err(|e| e.to_string())?;
    let first = epoch * EPOCH;
    let mut hashes = Hashes::new();
    for n in first - 256..first {
        let h = B256::from(keccak(&n.to_le_bytes()));
        hashes.insert(n, h);
        raw.put(hash_key(n), h).unwrap();
    }
    let last = header(&Plan { number: first - 1, ..Default::default() }, is.root(), 0);
    position.update_position(raw, &last).map_err(|e| e.to_string())?;
    Ok(hashes)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Wrong {
    Nothing,
    /// The block cannot be had.
    Missing,
    Gas,
    Root,
}

struct Served {
    blocks: Vec<Block>,
    states: Vec<State>,
    epoch: u64,
}
impl Served {
    /// Serves the blocks, with the one at `at` wrong.
    fn offer(&self, wrong: Wrong, at: usize, late: u64) {
        let mut blocks = self.blocks.clone();
        match wrong {
            Wrong::Nothing => {}
            Wrong::Missing => blocks.truncate(at),
            Wrong::Gas => blocks[at].header.gas_used += 1,
            Wrong::Root => blocks[at].header.state_root = B256::repeat_byte(0x66),
        }
        let mut files = BTreeMap::new();
        if !blocks.is_empty() {
            files.insert(self.epoch, archive(&blocks));
        }
        serve(self.epoch + 1, files, late);
    }
}

const SLOTS: [u64; 11] = [0, 1, 2, 7, 100, 101, 102, 200, 201, 300, 301];

/// The database is where it should be after `done` blocks.
fn settled(x: &mut TrinExecution, s: &Served, first: &State, hashes: &Hashes, done: usize) -> Res {
    let is = done.checked_sub(1).map_or(first, |i| &s.states[i]);
    let next = s.epoch * EPOCH + done as u64;
    check_eq!(x.next_block_number(), next, "the next block");
    check_eq!(x.get_root().map_err(|e| e.to_string())?, is.root(), "the root before block {next}");
    let mut who: Vec<_> = [1, 2, 4, 8, 9].map(address).to_vec();
    who.push(ROOTS.into());
    same(&mut x.database, is, &who, &SLOTS)?;
    for n in next - 256..next {
        check_eq!(revm::Database::block_hash(&mut x.database, n).ok(), hashes.get(&n).copied(), "hash of block {n} before block {next}");
    }
    Ok(())
}

async fn history(count: usize, epochs: &[u64], ch: &mut Ch) -> Res {
    let epoch = *ch.choose(epochs);
    let dir = Dir::new();
    let first = before(epoch * EPOCH);
    let mut hashes = prepared(&dir, epoch, &first)?;
    let (blocks, states) = chain(&plans(epoch, count as u64), &first, &mut hashes);
    let s = Served { blocks, states, epoch };
    let base = epoch * EPOCH;
    let config = || StateConfig { cache_contract_changes: false, block_to_trace: BlockToTrace::None };
    let open = || async { TrinExecution::new(dir.path(), config()).await.map_err(|e| format!("not opened: {e}")) };
    let mut done = 0;
    // One session after another; the last one is to come to the end.
    for session in 0..3 {
        let last = session == 2;
        let (wrong, at) = if last {
            (Wrong::Nothing, 0)
        } else {
            match ch.pick(3 * (count - done) + 1) {
                0 => (Wrong::Nothing, 0),
                k => ([Wrong::Missing, Wrong::Gas, Wrong::Root][(k - 1) % 3], done + (k - 1) / 3),
            }
        };
        // A slow start makes a run commit at once.
        let late = if session < 1 && ch.flag() { 31 * 60_000 } else { 0 };
        s.offer(wrong, at, late);
        let mut x = open().await?;
        settled(&mut x, &s, &first, &hashes, done)?;
        let mut lost = false;
        while done < count {
            let how = ch.pick(if last { 1 } else { 4 });
            let from = done;
            let (to, stop) = match how {
                0 => (count - 1, false),
                1 => (done, false),
                2 => (count - 1, true),
                _ => (done + (count - 1 - done) / 2, false),
            };
            ch.note(|| format!("session {session}: {wrong:?} at {at}, late {late}; from {from} to {to}, stop {stop}"));
            ch.steps(1);
            let got = if how == 1 {
                x.process_next_block().await
            } else {
                let (tx, rx) = tokio::sync::oneshot::channel();
                if stop {
                    tx.send(()).unwrap();
                    x.process_range_of_blocks(base + to as u64, Some(rx)).await
                } else {
                    let kept = tx;
                    let r = x.process_range_of_blocks(base + to as u64, Some(rx)).await;
                    drop(kept);
                    r
                }
            };
            let end = if stop { from } else { to };
            // Only a root that is compared can be found wrong.
            let early = x.next_block_number() as usize - base as usize;
            let fails = wrong != Wrong::Nothing && at >= from && at <= end && (wrong != Wrong::Root || at == end || got.is_err());
            match got {
                Ok(diff) => {
                    check!(!fails, "a run over block {} ended well: {wrong:?}", base + at as u64);
                    done = end + 1;
                    check_eq!(diff.root, s.states[end].root(), "the root a run ends with");
                    if early == done {
                        let old = if late > 0 { None } else { Some(if from == 0 { &first } else { &s.states[from - 1] }) };
                        match old {
                            Some(old) => diff_fits(&nodes(&old.trie()), &nodes(&s.states[end].trie()), diff.trie_diff.iter(), false)?,
                            // What was committed on the way is not known.
                            None => {
                                let new = nodes(&s.states[end].trie());
                                check!(diff.trie_diff.iter().all(|(h, n)| new.get(h) == Some(n)), "what is listed as changed is no node of the trie");
                            }
                        }
                    }
                    settled(&mut x, &s, &first, &hashes, done)?;
                }
                Err(e) => {
                    check!(fails, "a run from block {} to {}: {e}", base + from as u64, base + end as u64);
                    check!(early >= from && early <= at, "after the failure of block {} the next is {}", base + at as u64, base + early as u64);
                    done = early;
                    lost = wrong == Wrong::Root;
                    break;
                }
            }
            ch.eval();
            if done < count && !last && ch.flag() {
                break;
            }
        }
        ch.state(&(epoch, session, done, lost));
        if lost {
            // Nothing is promised after a root that does not match.
            ch.outcome(&"lost");
            return Ok(());
        }
        if done == count {
            let again = x.process_range_of_blocks(base + count as u64 - 1, None).await;
            check!(again.is_err(), "a run over blocks that are done");
            settled(&mut x, &s, &first, &hashes, done)?;
        }
        drop(x);
    }
    if done != count {
        fail!("{done} blocks were run");
    }
    ch.outcome(&(epoch, done));
    Ok(())
}

pub fn x05(ctx: &Ctx) {
    let epochs: &[u64] = &[400, 300, 2400];
    let n = ctx.b(2, 3) as usize;
    ctx.explore("runs", |ch| {
        vc::clock::start(1_700_000_000);
        let r = block_on(history(n, &epochs[..1 + ctx.b(1, 2) as usize], ch));
        vc::clock::stop();
        r
    });
}
