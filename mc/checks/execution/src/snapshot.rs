//! X06: snapshots of the state.
use std::{
    collections::BTreeMap,
    fs,
    io::{Read as _, Write as _},
    path::{Path, PathBuf},
    sync::Arc,
};

use alloy::{
    consensus::Header,
    primitives::{B256, U256},
};
use spec::{
    bytes,
    execution::raw_list,
    num, rlp,
    trie::keccak,
    Rlp,
};
use trin_execution::{
    cli::{ExportStateConfig, ImportStateConfig},
    config::StateConfig,
    execution::TrinExecution,
    storage::{evm_db::EvmDB, execution_position::ExecutionPosition},
    subcommands::e2ss::{export::StateExporter, import::StateImporter},
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{
    blocks::{account, archive, chain, header, serve, Block, Hashes, Plan, Step::*, Tx},
    commits::{bundle, same, Dir},
    model::{address, Account, State},
    runs::block_on,
};

const FAMILY: usize = 6;
pub fn family(mask: u32) -> State {
    let all = [
        account(1 << 90, 5, 0, &[]),
        account(3, 1, 60, &[(0, 1), (1, 300), (5, u64::MAX)]),
        // The code of another one, with other storage.
        account(9, 1, 60, &[(0, 7)]),
        account(0, 1, 90, &[]),
        account(0, 0, 0, &[]),
        account(0, 1, 24577, &[(9, 9), (10, 10)]),
    ];
    State(all.into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(i, a)| (address(i as u8 + 1), a)).collect())
}

/// The chain up to the block of the snapshot, and one more block.
pub struct World {
    is: State,
    number: u64,
    pub blocks: Vec<Block>,
    hashes: Hashes,
    after: State,
}
pub fn world(is: State, number: u64) -> World {
    let mut blocks = vec![];
    let mut hashes = Hashes::new();
    for n in 0..=number {
        let plan = Plan { number: n, ..Default::default() };
        let root = if n == number { is.root() } else { B256::from(keccak(&n.to_le_bytes())) };
        let header = header(&plan, root, 0);
        hashes.insert(n, header.hash_slow());
        blocks.push(Block { plan, header });
    }
    let old = (number + 1).saturating_sub(256);
    let mut txs = vec![Tx { kind: 0, who: 3, steps: vec![Create(address(77), vec![1]), Hash(address(77), 0, number), Hash(address(77), 1, old), Credit(address(1), 5)] }];
    if is.0.contains_key(&address(2)) {
        txs.push(Tx { kind: 0, who: 5, steps: vec![Set(address(2), 1, U256::ZERO), Set(address(2), 2, U256::from(4))] });
    }
    let plan = Plan { number: number + 1, txs, beneficiary: address(1), ..Default::default() };
    let (more, states) = chain(&[plan], &is, &mut hashes);
    blocks.extend(more);
    World { is, number, blocks, hashes, after: states[0].clone() }
}
impl World {
    fn serve(&self) {
        serve(1, BTreeMap::from([(0, archive(&self.blocks))]), 0);
    }
    fn head(&self) -> &Header {
        &self.blocks[self.number as usize].header
    }
    /// A database that has come to the block.
    fn prepare(&self, dir: &Dir, root: B256) -> Res {
        let raw = Arc::new(rocksdb::DB::open_default(dir.path().join("rocksdb")).unwrap());
        let mut position = ExecutionPosition::initialize_from_db(raw.clone()).map_err(|e| e.to_string())?;
        let mut db = EvmDB::new(StateConfig::default(), raw.clone(), &position).map_err(|e| e.to_string())?;
        db.commit_bundle(bundle(&State::default(), &self.is, &[])).map_err(|e| e.to_string())?;
        eth_trie::Trie::root_hash(&mut *db.trie.lock()).map_err(|e| e.to_string())?;
        position.update_position(raw, &Header { state_root: root, ..self.head().clone() }).map_err(|e| e.to_string())
    }
}

fn pack(b: &[u8]) -> Vec<u8> {
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).unwrap();
    e.into_inner().map_err(|_| "frame").unwrap()
}
fn unpack(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    snap::read::FrameDecoder::new(b).read_to_end(&mut out).unwrap();
    out
}

pub type Item = (u16, Vec<u8>);

/// The entries of a file.
fn items(mut file: &[u8]) -> Result<Vec<Item>, String> {
    let mut out = vec![];
    while !file.is_empty() {
        check!(file.len() >= 8, "half an entry");
        let kind = u16::from_be_bytes([file[0], file[1]]);
        let len = u32::from_le_bytes(file[2..6].try_into().unwrap()) as usize;
        check!(file.len() >= 8 + len, "half an entry");
        let value = &file[8..8 + len];
        out.push((kind, if value.is_empty() { vec![] } else { unpack(value) }));
        file = &file[8 + len..];
    }
    Ok(out)
}
pub fn file(items: &[Item]) -> Vec<u8> {
    let mut out = vec![];
    for (kind, value) in items {
        let value = if *kind == 0x6532 { vec![] } else { pack(value) };
        out.extend(kind.to_be_bytes());
        out.extend((value.len() as u32).to_le_bytes());
        out.extend([0, 0]);
        out.extend(value);
    }
    out
}

fn big(v: U256) -> Rlp {
    let b: [u8; 32] = v.to_be_bytes();
    bytes(&b[b.iter().take_while(|x| **x == 0).count()..])
}
fn entry(key: [u8; 32], state: Vec<u8>, code: &[u8], storages: u128) -> Item {
    // In these files a code is a list of numbers.
    let code = Rlp::List(code.iter().map(|b| num(*b as u128)).collect());
    (0x0800, raw_list(&[rlp(&bytes(&key)), state, rlp(&code), rlp(&num(storages))]))
}
/// The entries that stand for an account.
pub fn of(key: [u8; 32], a: &Account) -> Vec<Item> {
    let mut out = vec![entry(key, a.encode(), &a.code, !a.storage.is_empty() as u128)];
    if !a.storage.is_empty() {
        let mut slots: Vec<_> = a.storage.iter().map(|(k, v)| (keccak(&U256::from(*k).to_be_bytes::<32>()), *v)).collect();
        slots.sort();
        out.push((0x0900, rlp(&Rlp::List(slots.into_iter().map(|(k, v)| Rlp::List(vec![bytes(&k), big(v)])).collect()))));
    }
    out
}
/// The snapshot: accounts by the hashes of their addresses.
pub fn snapshot(is: &State, head: &Header) -> Vec<Item> {
    let mut all: Vec<_> = is.0.iter().map(|(a, n)| (keccak(a.as_slice()), n)).collect();
    all.sort_by_key(|(k, _)| *k);
    let mut out = vec![(0x6532, vec![]), (0x0300, alloy_rlp::encode(head))];
    out.extend(all.into_iter().flat_map(|(k, a)| of(k, a)));
    out
}

/// Takes in a snapshot; a panic is as good as an error.
fn import(path: &Path, dir: &Dir) -> Result<Header, String> {
    let config = ImportStateConfig { path_to_e2ss: path.to_path_buf() };
    vc::no_panic(|| {
        block_on(async {
            let importer = StateImporter::new(config, dir.path()).await.map_err(|e| e.to_string())?;
            importer.import().await.map_err(|e| e.to_string())
        })
    })?
}
fn position(dir: &Dir) -> Result<u64, String> {
    let raw = Arc::new(rocksdb::DB::open_default(dir.path().join("rocksdb")).unwrap());
    Ok(ExecutionPosition::initialize_from_db(raw).map_err(|e| e.to_string())?.next_block_number())
}

/// All that the snapshot has is there, and the next block can be run.
fn imported(w: &World, dir: &Dir) -> Res {
    let mut who: Vec<_> = w.is.0.keys().copied().collect();
    let slots = [0, 1, 2, 5, 9, 10];
    block_on(async {
        let mut x = TrinExecution::new(dir.path(), StateConfig::default()).await.map_err(|e| e.to_string())?;
        check_eq!(x.next_block_number(), w.number + 1, "the next block");
        check_eq!(x.get_root().map_err(|e| e.to_string())?, w.is.root(), "the root");
        same(&mut x.database, &w.is, &who, &slots)?;
        for n in w.number.saturating_sub(255)..=w.number {
            check_eq!(revm::Database::block_hash(&mut x.database, n).ok(), Some(w.hashes[&n]), "hash of block {n}");
        }
        x.process_next_block().await.map_err(|e| format!("the block after the snapshot: {e}"))?;
        check_eq!(x.get_root().map_err(|e| e.to_string())?, w.after.root(), "the root after one more block");
        who.push(address(77));
        same(&mut x.database, &w.after, &who, &slots)
    })
}

fn written(dir: &Dir, items: &[Item]) -> PathBuf {
    let path = dir.path().join("snapshot.e2ss");
    fs::write(&path, file(items)).unwrap();
    path
}

/// There and back.
fn round(i: u64, ch: &mut Ch) -> Res {
    let w = world(family(i as u32 + 1), 5);
    w.serve();
    ch.state(&w.is);
    let (from, to, out) = (Dir::new(), Dir::new(), Dir::new());
    w.prepare(&from, w.is.root())?;
    let config = || ExportStateConfig { path_to_e2ss: out.path().to_path_buf() };
    let export = || {
        block_on(async {
            let e = StateExporter::new(config(), from.path()).await.map_err(|e| e.to_string())?;
            check_eq!(e.header(), w.head(), "the block of the snapshot");
            e.export().map_err(|e| e.to_string())
        })
    };
    let path = export()?;
    let root = w.is.root();
    check_eq!(path, out.path().join(format!("mainnet-0000000005-{}.e2ss", &root.to_string()[2..10])), "the name of the snapshot");
    let raw = fs::read(&path).map_err(|e| e.to_string())?;
    check_eq!(items(&raw)?, snapshot(&w.is, w.head()), "the snapshot");
    ch.eval();
    check!(export().is_err(), "a snapshot is written over another");
    check!(fs::read(&path).unwrap() == raw, "a snapshot changed");
    let head = import(&path, &to)?;
    check_eq!(&head, w.head(), "the block of the import");
    check!(import(&path, &to).is_err(), "an import into a database that is not empty");
    imported(&w, &to)?;
    check!(import(&path, &to).is_err(), "an import into a database that went on");
    ch.evals(2);
    ch.outcome(&root);
    // Ours is as good as theirs.
    let (to, out) = (Dir::new(), Dir::new());
    import(&written(&out, &snapshot(&w.is, w.head())), &to)?;
    imported(&w, &to)
}

/// Exports that cannot be.
fn unfit(i: u64, ch: &mut Ch) -> Res {
    let w = world(family(3), 5);
    w.serve();
    let (from, out) = (Dir::new(), Dir::new());
    match i {
        // Nothing was run yet.
        0 => {}
        // The header has another root.
        1 => {
            let mut other = world(family(3), 5);
            other.blocks[5].header.state_root = B256::repeat_byte(1);
            other.serve();
            w.prepare(&from, w.is.root())?;
        }
        // The header cannot be had.
        _ => {
            serve(1, Default::default(), 0);
            w.prepare(&from, w.is.root())?;
        }
    }
    ch.state(&i);
    let config = ExportStateConfig { path_to_e2ss: out.path().to_path_buf() };
    let got = block_on(async { StateExporter::new(config, from.path()).await.and_then(|e| e.export()) });
    check!(got.is_err(), "an export of a state that is not there");
    Ok(())
}

/// One change to a snapshot of a state.
fn altered(ch: &mut Ch) -> Res {
    let is = family(0b101111);
    let w = world(is.clone(), 5);
    w.serve();
    let good = snapshot(&is, w.head());
    let mut all: Vec<_> = is.0.iter().map(|(a, n)| (keccak(a.as_slice()), n.clone())).collect();
    all.sort_by_key(|(k, _)| *k);
    let mut head = w.head().clone();
    let which = ch.pick(all.len() + 1);
    let mut parts: Vec<Vec<Item>> = all.iter().map(|(k, a)| of(*k, a)).collect();
    let what;
    if which == all.len() {
        what = ch.pick(3);
        match what {
            0 => head.state_root = B256::repeat_byte(2),
            1 => parts.push(of(keccak(b"one more"), &account(1, 0, 0, &[]))),
            _ => parts.clear(),
        }
    } else {
        what = ch.pick(14);
        let (key, a) = &all[which];
        let mut b = a.clone();
        match what {
            0 => b.nonce += 1,
            1 => b.balance += 1,
            2 => b.code = [&b.code[..], &[0]].concat(),
            3 => b.set(0, b.storage.get(&0).copied().unwrap_or_default() + U256::from(1)),
            4 => b.set(20, U256::from(1)),
            5 => b.storage.clear(),
            _ => {}
        }
        let state = a.encode();
        let slots = a.storage.len() > 0;
        parts[which] = match what {
            // The account as a whole is another one.
            0..=5 => of(*key, &b),
            // What is below does not fit.
            6 => [vec![entry(*key, state, &[&a.code[..], &[1]].concat(), slots as u128)], of(*key, a)[1..].to_vec()].concat(),
            7 => [vec![entry(*key, state, &a.code[..a.code.len() / 2], slots as u128)], of(*key, a)[1..].to_vec()].concat(),
            8 => {
                b.set(0, U256::from(123));
                vec![entry(*key, state, &a.code, 1), of(*key, &b)[1].clone()]
            }
            9 => vec![entry(*key, state, &a.code, 0)],
            10 => vec![],
            11 => of(keccak(key), a),
            12 => [vec![entry(*key, state, &[], slots as u128)], of(*key, a)[1..].to_vec()].concat(),
            _ => [vec![entry(*key, state, &a.code, 1 + slots as u128)], of(*key, a)[1..].to_vec()].concat(),
        };
    }
    let mut bad = vec![(0x6532, vec![]), (0x0300, alloy_rlp::encode(&head))];
    bad.extend(parts.concat());
    if bad == good {
        return Ok(());
    }
    ch.state(&(which, what));
    ch.note(|| format!("account {which}, change {what}"));
    let (to, out) = (Dir::new(), Dir::new());
    if import(&written(&out, &bad), &to).is_ok() {
        fail!("account {which}, change {what}: the snapshot is taken");
    }
    check_eq!(position(&to)?, 0, "the position after a snapshot that was refused");
    ch.eval();
    // The right one can still be had.
    import(&written(&out, &good), &to)?;
    imported(&w, &to)?;
    ch.eval();
    Ok(())
}

/// Files cut short.
fn cut(i: u64, ch: &mut Ch) -> Res {
    let is = family(0b000110);
    let w = world(is.clone(), 5);
    w.serve();
    let good = file(&snapshot(&is, w.head()));
    let at = i as usize;
    if at >= good.len() {
        return Ok(());
    }
    ch.state(&at);
    let (to, out) = (Dir::new(), Dir::new());
    let path = out.path().join("snapshot.e2ss");
    fs::write(&path, &good[..at]).unwrap();
    check!(import(&path, &to).is_err(), "{at} of {} bytes are taken", good.len());
    check_eq!(position(&to)?, 0, "the position after {at} bytes");
    Ok(())
}

/// Writes that fail, one after another, and blocks that cannot be had.
fn faults(i: u64, number: u64, ch: &mut Ch) -> Res {
    let w = world(family(0b001111), number);
    w.serve();
    let (to, out) = (Dir::new(), Dir::new());
    let path = written(&out, &snapshot(&w.is, w.head()));
    if i == 0 {
        serve(1, Default::default(), 0);
    } else if i <= number {
        serve(1, BTreeMap::from([(0, archive(&w.blocks[..i as usize]))]), 0);
    } else {
        rocksdb::fake::fail_after(Some(i - number - 1));
    }
    let got = import(&path, &to);
    rocksdb::fake::fail_after(None);
    w.serve();
    ch.state(&(i, got.is_ok()));
    ch.outcome(&got.is_ok());
    check!(i > number || got.is_err(), "an import without the hashes of blocks");
    if got.is_err() {
        let at = position(&to)?;
        if at == 0 {
            import(&path, &to).map_err(|e| format!("a second import: {e}"))?;
        }
        ch.eval();
    }
    imported(&w, &to)
}

pub fn x06(ctx: &Ctx) {
    ctx.range("there and back", (1 << ctx.b(5, FAMILY as u64)) - 1, round);
    ctx.range("exports that cannot be", 3, unfit);
    ctx.explore("altered snapshots", altered);
    ctx.range("files cut short", ctx.b(700, 700), cut);
    ctx.range("failures", ctx.b(80, 80), |i, ch| faults(i, 5, ch));
    ctx.range("old hashes", ctx.b(2, 40), |i, ch| faults([600, 700, 0, 1, 299][i as usize % 5] + i / 5, 300, ch));
}
