//! X04: what one block does to the state, in all forks.
use std::sync::Arc;

use alloy::primitives::{Address, B256, U256};
use spec::{ramp, trie::keccak};
use trin_execution::{
    config::StateConfig,
    e2hs::utils::process_e2hs_file,
    evm::{block_executor::BlockExecutor, dao_fork},
    storage::{evm_db::EvmDB, execution_position::ExecutionPosition},
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    blocks::{account, archive, chain, header, run, Block, Hashes, Plan, Step::*, Tx, CANCUN, ROOTS},
    commits::{bundle, same, Dir},
    model::{address, diff_fits, nodes, Account, State},
};

const DAO: u64 = 1_920_000;
/// Around all changes of rules.
const NUMBERS: [u64; 18] = [
    2, 300, 200_000, 1_150_000, DAO - 1, DAO, DAO + 1, 2_674_999, 2_675_000, 4_369_999, 4_370_000, 7_279_999, 7_280_000, 15_537_393,
    15_537_394, 17_034_870, CANCUN - 1, CANCUN,
];

const A: u8 = 1;
const CONTRACT: u8 = 2;
const EMPTY: u8 = 3;
const NEW: u8 = 4;

pub fn before(number: u64) -> State {
    let mut s = State::default();
    s.0.insert(address(A), account(1_000_000, 3, 0, &[]));
    s.0.insert(address(CONTRACT), account(7, 1, 60, &[(0, 5), (1, 6), (7, 700)]));
    if number < 2_675_000 {
        s.0.insert(address(EMPTY), Account::default());
    }
    if number >= CANCUN - 10_000 {
        s.0.insert(ROOTS.into(), account(0, 1, 97, &[(3, 4)]));
    }
    s
}

/// What transactions do.
pub fn programs(number: u64) -> Vec<Vec<crate::blocks::Step>> {
    let (a, c, e, n) = (address(A), address(CONTRACT), address(EMPTY), address(NEW));
    vec![
        vec![Credit(n, 500), Debit(a, 500)],
        vec![Set(c, 0, U256::from(9)), Set(c, 1, U256::ZERO), Set(c, 2, U256::MAX)],
        vec![Destroy(c)],
        vec![Create(n, ramp(7, 44)), Set(n, 0, U256::from(1)), Set(n, 3, U256::from(2))],
        vec![Touch(e), Touch(n)],
        vec![Debit(c, 7), Set(c, 0, U256::ZERO)],
        vec![Credit(a, 1), Revert],
        vec![Set(c, 0, U256::from(77)), Halt],
        vec![Hash(c, 5, number - 1)],
        vec![Hash(c, 6, number.saturating_sub(256).max(1)), Set(c, 5, U256::ZERO)],
        vec![Destroy(n)],
        vec![Create(c, ramp(8, 60))],
    ]
}

struct World {
    _dir: Dir,
    raw: Arc<rocksdb::DB>,
    db: EvmDB,
}
fn world(first: &State, cached: bool) -> Result<World, String> {
    let dir = Dir::new();
    let raw = Arc::new(rocksdb::DB::open_default(dir.path().join("rocksdb")).unwrap());
    let position = ExecutionPosition::initialize_from_db(raw.clone()).map_err(|e| e.to_string())?;
    let config = StateConfig { cache_contract_changes: cached, ..Default::default() };
    let mut db = EvmDB::new(config, raw.clone(), &position).map_err(|e| e.to_string())?;
    db.commit_bundle(bundle(&State::default(), first, &[])).map_err(|e| e.to_string())?;
    check_eq!(root(&db)?, first.root(), "root of the first state");
    db.clear_contract_cache();
    Ok(World { _dir: dir, raw, db })
}
fn root(db: &EvmDB) -> Result<B256, String> {
    use eth_trie::Trie;
    db.trie.lock().root_hash().map_err(|e| e.to_string())
}
pub fn hash_key(number: u64) -> [u8; 32] {
    keccak(&U256::from(number).to_be_bytes::<32>())
}

/// Runs blocks with one executor; the state after them is that of the last.
fn execute(w: &mut World, first: &State, blocks: &[Block], states: &[State], who: &[Address]) -> Res {
    let file = process_e2hs_file(&archive(blocks)).map_err(|e| format!("the archive is not read: {e}"))?;
    let mut x = BlockExecutor::new(w.db.clone());
    for b in &file.blocks {
        let done = vc::no_panic(|| x.execute_block(b))?;
        done.map_err(|e| format!("block {}: {e}", b.header.number))?;
    }
    let result = x.commit_bundle().map_err(|e| e.to_string())?;
    let last = states.last().unwrap();
    check_eq!(result.root, last.root(), "root after the blocks");
    diff_fits(&nodes(&first.trie()), &nodes(&last.trie()), result.trie_diff.iter(), false)?;
    same(&mut w.db, last, who, &[0, 1, 2, 3, 5, 6, 7])
}

fn known(number: u64, hashes: &mut Hashes, raw: &rocksdb::DB) {
    for n in number.saturating_sub(256).max(1)..number {
        let h = B256::from(keccak(&n.to_le_bytes()));
        hashes.insert(n, h);
        raw.put(hash_key(n), h).unwrap();
    }
}

fn forks(two: bool, ch: &mut Ch) -> Res {
    let number = *ch.choose(&NUMBERS);
    let first = before(number);
    let mut w = world(&first, true)?;
    let mut hashes = Hashes::new();
    known(number, &mut hashes, &w.raw);
    let mut plans = vec![];
    for i in 0..1 + two as u64 {
        let all = programs(number + i);
        let kinds = match number {
            CANCUN.. => 4,
            12_965_000.. => 3,
            12_244_000.. => 2,
            _ => 1,
        };
        let n = 1 + (!two && ch.flag()) as usize;
        let txs: Vec<Tx> = (0..n).map(|k| Tx { kind: (k as u8 + 3 + i as u8) % kinds, who: 1 + k as u8 * 40, steps: ch.choose(&all).clone() }).collect();
        let root = (number + i >= CANCUN).then(|| B256::repeat_byte(0x40 + i as u8));
        plans.push(Plan { number: number + i, beneficiary: address(A), txs, beacon_root: root, ..Default::default() });
    }
    ch.note(|| format!("{plans:?}"));
    // What cannot be: funds that are lacking, codes over codes.
    let mut is = first.clone();
    for p in &plans {
        let mut all = p.clone();
        all.txs.clear();
        for t in &p.txs {
            all.txs.push(t.clone());
            let mid = run(&Plan { txs: all.txs[..all.txs.len() - 1].to_vec(), ..all.clone() }, &is, &hashes_with(&hashes, p.number)).0;
            for s in &t.steps {
                let fine = match s {
                    Debit(a, v) => mid.0.get(a).is_some_and(|n| n.balance >= *v as u128),
                    Create(a, _) => mid.0.get(a).is_none_or(|n| n.code.is_empty() && n.nonce == 0),
                    Set(a, ..) | Hash(a, ..) => mid.0.get(a).is_some_and(|n| !n.code.is_empty()) || t.steps.iter().any(|s| matches!(s, Create(b, _) if a == b)),
                    _ => true,
                };
                if !fine {
                    return Ok(());
                }
            }
        }
        is = run(p, &is, &hashes_with(&hashes, p.number)).0;
    }
    let (blocks, states) = chain(&plans, &first, &mut hashes);
    ch.state(&(number, states.last().unwrap().root()));
    ch.outcome(&states.last().unwrap().root());
    let mut who = vec![address(A), address(CONTRACT), address(EMPTY), address(NEW), ROOTS.into()];
    who.extend(blocks[0].plan.txs.iter().map(|t| t.sender()));
    execute(&mut w, &first, &blocks, &states, &who)?;
    ch.eval();
    // The hashes of the last 256 blocks can be had.
    let next = plans.last().unwrap().number + 1;
    for n in next.saturating_sub(256).max(1)..next {
        check_eq!(revm::Database::block_hash(&mut w.db, n).map_err(|e| e.to_string())?, hashes[&n], "hash of block {n} before block {next}");
    }
    Ok(())
}
fn hashes_with(known: &Hashes, number: u64) -> Hashes {
    let mut all = known.clone();
    for n in number.saturating_sub(300)..number {
        all.entry(n).or_insert(B256::repeat_byte(1));
    }
    all
}

/// Who is paid for a block.
fn rewards(ch: &mut Ch) -> Res {
    let number = *ch.choose(&NUMBERS);
    let first = before(number);
    let mut w = world(&first, false)?;
    let who = [address(A), address(NEW), address(5)];
    let beneficiary = who[ch.pick(2)];
    let mut uncles = vec![];
    if number < 15_537_394 && number > 8 {
        for _ in 0..ch.pick(3) {
            uncles.push((who[ch.pick(3)], [1, 2, 6, 7][ch.pick(4)]));
        }
    }
    let mut withdrawals = vec![];
    if number >= 17_034_870 {
        for _ in 0..ch.pick(4) {
            withdrawals.push((who[ch.pick(3)], [0, 1, 32_000_000_000][ch.pick(3)]));
        }
    }
    let root = (number >= CANCUN).then(|| B256::repeat_byte(0x40));
    let plan = Plan { number, beneficiary, uncles, withdrawals, beacon_root: root, ..Default::default() };
    ch.note(|| format!("{plan:?}"));
    let mut hashes = Hashes::new();
    let (blocks, states) = chain(&[plan], &first, &mut hashes);
    ch.state(&states[0]);
    ch.outcome(&states[0].root());
    execute(&mut w, &first, &blocks, &states, &who)?;
    ch.eval();
    Ok(())
}

/// Who lost what the attacker of the DAO and others had: one hash of all their addresses.
const DRAINED: &str = "0xd7a540f481f822f34a344df94618ce9140351a49c140cada4ab7066b0bcdb4c6";
const REFUND: [u8; 20] = [0xbf, 0x4e, 0xd7, 0xb2, 0x7f, 0x1d, 0x66, 0x65, 0x46, 0xe3, 0x0d, 0x74, 0xd5, 0x0d, 0x17, 0x3d, 0x20, 0xbc, 0xa7, 0x54];

fn dao(ch: &mut Ch) -> Res {
    let mut all: Vec<Address> = dao_fork::DAO_HARDKFORK_ACCOUNTS.to_vec();
    all.sort();
    all.dedup();
    let sum = B256::from(keccak(&all.concat()));
    check_eq!((all.len(), sum.to_string()), (116, DRAINED.to_string()), "the accounts to be drained");
    check_eq!(dao_fork::DAO_HARDFORK_BENEFICIARY, Address::from(REFUND), "the account of refunds");
    for number in [DAO - 1, DAO, DAO + 1] {
        let mut first = before(number);
        for (i, a) in all.iter().enumerate() {
            first.0.insert(*a, account(1 + i as u128 * 1_000_000_007, i as u64 % 2, 0, &[]));
        }
        let mut w = world(&first, false)?;
        let plan = Plan { number, beneficiary: REFUND.into(), txs: vec![Tx { kind: 0, who: 9, steps: vec![Credit(all[0], 5), Credit(all[115], 7)] }], ..Default::default() };
        let (mut is, gas) = run(&plan, &first, &Hashes::new());
        if number == DAO {
            let mut total = 0;
            for a in &all {
                total += std::mem::take(&mut is.0.get_mut(a).unwrap().balance);
            }
            is.credit(REFUND.into(), total);
        }
        ch.state(&is);
        ch.outcome(&is.root());
        let block = Block { header: header(&plan, is.root(), gas), plan };
        execute(&mut w, &first, &[block], &[is], &all)?;
        ch.eval();
    }
    Ok(())
}

/// Blocks that cannot be run.
fn refused(ch: &mut Ch) -> Res {
    let number = *ch.choose(&NUMBERS);
    let first = before(number);
    let w = world(&first, false)?;
    let root = (number >= CANCUN).then(|| B256::repeat_byte(0x40));
    let mut plan = Plan { number, beneficiary: address(A), txs: vec![Tx { kind: 0, who: 9, steps: vec![Credit(address(A), 5)] }], beacon_root: root, ..Default::default() };
    let what = ch.pick(5);
    let mut gas = 2;
    match what {
        0 => gas = 1,
        1 => gas = 3,
        2 => gas = 0,
        3 => plan.txs[0].steps = vec![Debit(address(A), 1_000_001)],
        _ if number >= CANCUN => plan.beacon_root = None,
        _ => return Ok(()),
    }
    ch.state(&(number, what));
    let block = Block { header: header(&plan, first.root(), gas), plan };
    let file = process_e2hs_file(&archive(&[block])).map_err(|e| e.to_string())?;
    let mut x = BlockExecutor::new(w.db.clone());
    if vc::no_panic(|| x.execute_block(&file.blocks[0]))?.is_ok() {
        fail!("block {number} was run although {}", ["more gas was used", "less gas was used", "gas was used", "funds were lacking", "it has no beacon root"][what]);
    }
    drop(x);
    check!(root_is(&w, &first)?, "a block that was refused changed the state");
    Ok(())
}
fn root_is(w: &World, is: &State) -> Result<bool, String> {
    Ok(root(&w.db)? == is.root())
}

/// Real: the first state.
fn genesis(ch: &mut Ch) -> Res {
    let mut w = world(&State::default(), false)?;
    let expected: B256 = "0xd7f8974fb5ac78d9ac099b9ad5018bedc2ce0a72dad1827a1709da30580f0544".parse().unwrap();
    let plan = Plan::default();
    let block = Block { header: header(&plan, expected, 0), plan };
    let file = process_e2hs_file(&archive(&[block])).map_err(|e| e.to_string())?;
    let mut x = BlockExecutor::new(w.db.clone());
    x.execute_block(&file.blocks[0]).map_err(|e| e.to_string())?;
    check_eq!(x.commit_bundle().map_err(|e| e.to_string())?.root, expected, "root of the first state");
    let one: Address = "0x000d836201318ec6899a67540690382780743280".parse().unwrap();
    let got = revm::Database::basic(&mut w.db, one).map_err(|e| e.to_string())?;
    check_eq!(got.map(|i| i.balance), Some(U256::from(200_000_000_000_000_000_000u128)), "balance of {one}");
    ch.eval();
    Ok(())
}

pub fn x04(ctx: &Ctx) {
    ctx.explore("blocks of one or two transactions", |ch| forks(false, ch));
    ctx.explore("two blocks", |ch| forks(true, ch));
    ctx.explore("rewards", rewards);
    ctx.explore("blocks that cannot be run", refused);
    ctx.once("the DAO", dao);
    ctx.once("the first state", genesis);
}
