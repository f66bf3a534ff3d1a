//! X01: walking over tries.
use std::{
    collections::BTreeSet,
    path::Path,
    sync::{Arc, OnceLock},
};

use alloy::primitives::{B256, U256};
use eth_trie::DB as _;
use hashbrown::HashMap;
use spec::{ramp, trie::{self, keccak, nibbles, Node}};
use trin_execution::{
    storage::{account_db::AccountDB, trie_db::TrieRocksDB},
    trie_walker::{db::TrieWalkerDb, filter::Filter, TrieWalker},
    types::trie_proof::TrieProof,
};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::model;

/// Keys that part at the first nibbles, in the middle, and only at the last ones.
fn keys() -> Vec<[u8; 32]> {
    let with = |edits: &[(usize, u8)]| {
        let mut k = [0x77; 32];
        for (at, v) in edits {
            k[*at] = *v;
        }
        k
    };
    vec![
        [0; 32],
        with(&[(0, 0x00)]),
        with(&[(0, 0x70)]),
        with(&[]),
        with(&[(31, 0x78)]),
        with(&[(31, 0x87)]),
        with(&[(0, 0x57)]),
        with(&[(9, 0x17)]),
        with(&[(0, 0x80)]),
        with(&[(0, 0xf7)]),
        [0xff; 32],
    ]
}

pub fn family(mask: u32, long: bool) -> Option<Node> {
    let all = keys();
    let map = all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1);
    trie::build(&map.map(|(i, k)| (nibbles(k), if long { ramp(i as u8, 40) } else { vec![i as u8 + 1] })).collect())
}

fn store(t: &Node) -> HashMap<B256, Vec<u8>> {
    model::nodes(&Some(t.clone())).into_iter().collect()
}

/// A node the way a walk gives it.
fn shape(p: TrieProof) -> (Vec<u8>, Vec<Vec<u8>>) {
    (p.path, p.proof.into_iter().map(|b| b.to_vec()).collect())
}

/// No node twice; the nodes.
fn walk<D: TrieWalkerDb>(w: TrieWalker<D>) -> Result<BTreeSet<(Vec<u8>, Vec<Vec<u8>>)>, String> {
    let mut out = BTreeSet::new();
    for p in vc::no_panic(|| w.collect::<Vec<_>>())? {
        let p = shape(p);
        check!(out.insert(p.clone()), "the node at {:?} is given twice", p.0);
    }
    Ok(out)
}

/// First and last key of a slice.
fn slice(i: u16, n: u16) -> (U256, U256) {
    if n < 2 {
        return (U256::ZERO, U256::MAX);
    }
    let size = U256::MAX / U256::from(n) + U256::from(1);
    let last = if i == n - 1 { U256::MAX } else { U256::from(i + 1) * size - U256::from(1) };
    (U256::from(i) * size, last)
}
fn overlaps(path: &[u8], (first, last): (U256, U256)) -> bool {
    let fill = |with: u8| {
        let mut all = path.to_vec();
        all.resize(64, with);
        let b: Vec<u8> = all.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
        U256::from_be_slice(&b)
    };
    fill(0) <= last && fill(15) >= first
}

fn dir() -> &'static Path {
    static DIR: OnceLock<tempfile::TempDir> = OnceLock::new();
    DIR.get_or_init(|| tempfile::tempdir().unwrap()).path()
}
fn opened(name: &str) -> Arc<rocksdb::DB> {
    Arc::new(rocksdb::DB::open_default(dir().join(name)).unwrap())
}

fn all_nodes(t: &Node) -> BTreeSet<(Vec<u8>, Vec<Vec<u8>>)> {
    t.all().into_iter().map(|(path, proof, _)| (path, proof)).collect()
}

fn slices(i: u64, counts: &[u16], ch: &mut Ch) -> Res {
    let (mask, long) = ((i / 2) as u32, i % 2 == 1);
    let Some(t) = family(mask, long) else {
        let db: Arc<HashMap<B256, Vec<u8>>> = Default::default();
        check!(TrieWalker::new(keccak(&[0x80]).into(), db, None).is_err(), "a walk over a trie that is not there");
        return Ok(());
    };
    ch.state(&(mask, long));
    let all = all_nodes(&t);
    let db = Arc::new(store(&t));
    let root = B256::from(t.hash());
    check_eq!(walk(TrieWalker::new(root, db.clone(), None).map_err(|e| e.to_string())?)?, all, "a whole walk");
    ch.eval();
    for n in counts {
        let mut met = BTreeSet::new();
        for i in 0..(*n).max(1) {
            let w = TrieWalker::new(root, db.clone(), Some(Filter::new(i, *n))).map_err(|e| e.to_string())?;
            let got = walk(w)?;
            let part: BTreeSet<_> = all.iter().filter(|(path, _)| path.is_empty() || overlaps(path, slice(i, *n))).cloned().collect();
            ch.outcome(&part.len());
            check_eq!(got, part, "slice {i} of {n}");
            met.extend(got);
            ch.eval();
        }
        check_eq!(met, all, "all {n} slices");
    }
    Ok(())
}

/// Parts of a trie, as left by a change.
fn parts(masks: usize, ch: &mut Ch) -> Res {
    let (mask, long) = (ch.pick(masks) as u32, ch.flag());
    let Some(t) = family(mask, long) else { return Ok(()) };
    let whole = store(&t);
    let mut hashes: Vec<B256> = whole.keys().cloned().collect();
    hashes.sort();
    let kept = ch.subset(hashes.len());
    ch.state(&(mask, long, kept));
    let db: HashMap<B256, Vec<u8>> = whole.iter().filter(|(h, _)| kept >> hashes.iter().position(|x| x == *h).unwrap() & 1 == 1).map(|(h, v)| (*h, v.clone())).collect();
    let there = |raw: &Vec<u8>| db.contains_key(&B256::from(keccak(raw)));
    let expected: BTreeSet<_> = all_nodes(&t).into_iter().filter(|(_, proof)| proof.iter().all(there)).collect();
    let w = TrieWalker::new_partial_trie(t.hash().into(), db.clone()).map_err(|e| e.to_string())?;
    ch.outcome(&expected.len());
    check_eq!(walk(w)?, expected, "a walk over a part");
    ch.eval();
    check_eq!(TrieWalker::new(t.hash().into(), Arc::new(db.clone()), None).is_ok(), there(&t.encode()), "a walk from a root");
    Ok(())
}

/// Tries kept in one database: that of the accounts, and those of two accounts.
fn databases(i: u64, ch: &mut Ch) -> Res {
    let (a, b) = ((i % 64) as u32 * 9 % 1024 | 8, (i / 64) as u32 * 21 % 1024 | 16);
    let (Some(a), Some(b)) = (family(a, true), family(b, true)) else { return Ok(()) };
    let db = opened(&format!("walk-{i}"));
    let (one, two) = (B256::from(keccak(&[1])), B256::from(keccak(&[2])));
    let main = Arc::new(TrieRocksDB::new(false, db.clone()));
    let (first, second) = (Arc::new(AccountDB::new(one, db.clone())), Arc::new(AccountDB::new(two, db.clone())));
    for (h, raw) in store(&a) {
        first.insert(h.as_slice(), raw).map_err(|e| e.to_string())?;
    }
    for (h, raw) in store(&b) {
        second.insert(h.as_slice(), raw.clone()).map_err(|e| e.to_string())?;
        main.insert(h.as_slice(), raw).map_err(|e| e.to_string())?;
    }
    ch.state(&i);
    let (ra, rb) = (B256::from(a.hash()), B256::from(b.hash()));
    let whole = |w: anyhow::Result<TrieWalker<AccountDB>>| walk(w.map_err(|e| e.to_string())?);
    check_eq!(whole(TrieWalker::new(ra, first.clone(), None))?, all_nodes(&a), "the first account");
    check_eq!(whole(TrieWalker::new(rb, second.clone(), None))?, all_nodes(&b), "the second account");
    check_eq!(walk(TrieWalker::new(rb, main.clone(), None).map_err(|e| e.to_string())?)?, all_nodes(&b), "the trie of accounts");
    let same = ra == rb;
    ch.outcome(&same);
    check_eq!(TrieWalker::new(ra, second, None).is_ok(), same, "the first root in the second account");
    check_eq!(TrieWalker::new(ra, main, None).is_ok(), same, "the first root in the trie of accounts");
    ch.evals(5);
    // What is taken out of one trie stays in the others.
    for h in store(&b).keys() {
        first.remove(h.as_slice()).map_err(|e| e.to_string())?;
    }
    for h in store(&a).keys() {
        let left = eth_trie::DB::get(&*first, h.as_slice()).map_err(|e| e.to_string())?.is_some();
        check_eq!(left, !store(&b).contains_key(h), "a node after removals");
    }
    drop(first);
    let path = db.path().to_path_buf();
    drop(db);
    rocksdb::fake::forget_at(&path);
    Ok(())
}

pub fn x01(ctx: &Ctx) {
    let n = 1 << ctx.b(9, 11);
    let counts: &[u16] = if ctx.b(0, 1) == 0 { &[0, 1, 2, 3, 5, 16] } else { &[0, 1, 2, 3, 4, 5, 7, 15, 16, 17, 64, 256] };
    ctx.range("walks over whole tries and slices of them", n * 2, |i, ch| slices(i, counts, ch));
    let masks = 1 << ctx.b(7, 8);
    ctx.explore("walks over parts of tries", |ch| parts(masks, ch));
    ctx.range("tries in one database", ctx.b(128, 1024), databases);
}
