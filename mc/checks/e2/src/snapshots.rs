//! E03: state snapshot archives.
use std::{
    fs,
    path::Path,
    sync::atomic::{AtomicU64, Ordering},
};

use alloy::{
    consensus::Header,
    primitives::{B256, U256},
};
use e2store::{
    e2ss::{AccountEntry, AccountOrStorageEntry as Item, E2SSReader, E2SSWriter, StorageEntry, StorageItem},
    e2store::types::Entry,
    types::HeaderEntry,
};
use ethportal_api::types::state_trie::account_state::AccountState;
use spec::{hash, ramp};
use vc::{check, check_eq, Ch, Ctx};

use crate::entries;

static NEXT: AtomicU64 = AtomicU64::new(0);

fn header(number: u64) -> Header {
    Header { number, state_root: hash(number as u8).into(), extra_data: ramp(1, 5).into(), ..Default::default() }
}

fn account(n: u8, storage_count: u32) -> Item {
    Item::Account(AccountEntry {
        address_hash: hash(n).into(),
        account_state: AccountState {
            nonce: n as u64,
            balance: U256::from(n) << (n as usize * 8),
            storage_root: hash(n ^ 0x50).into(),
            code_hash: hash(n ^ 0x60).into(),
        },
        bytecode: ramp(n, [0, 1, 60][n as usize % 3]),
        storage_count,
    })
}

fn storage(n: u8, len: usize) -> Item {
    let item = |i: usize| StorageItem { storage_index_hash: B256::from(hash(n ^ i as u8)), value: U256::from(i) << (8 * i) };
    Item::Storage(StorageEntry((0..len).map(item).collect()))
}

fn item(kind: usize, n: u8) -> Item {
    match kind {
        0..=2 => account(n, kind as u32),
        k => storage(n, [0, 1, 3][k - 3]),
    }
}

/// What reading a file gives: refused at once, or items and whether the end was a quiet one.
#[derive(Debug, PartialEq, Hash)]
enum Read {
    NotOpened,
    Ended(usize),
    Refused(usize),
}

fn read(path: &Path, head: &Header, items: &[Item], ch: &mut Ch) -> Result<Read, String> {
    ch.eval();
    let Ok(opened) = vc::no_panic(|| E2SSReader::open(path)) else { vc::fail!("opening panics") };
    let Ok(mut r) = opened else { return Ok(Read::NotOpened) };
    check!(r.header == HeaderEntry { header: head.clone() }, "the header read back: {:?}", r.header);
    for n in 0.. {
        match vc::no_panic(|| r.next()) {
            Err(_) => return Ok(Read::Refused(n)),
            Ok(None) => return Ok(Read::Ended(n)),
            Ok(Some(got)) => {
                check!(n < items.len(), "an item too many: {got:?}");
                check!(got == items[n], "item {n}: {got:?} want {:?}", items[n]);
            }
        }
    }
    unreachable!()
}

/// Ends of the whole entries of a file.
fn ends(file: &[u8]) -> Vec<usize> {
    let mut at = 0;
    let mut out = vec![];
    while at < file.len() {
        at += 8 + u32::from_le_bytes(file[at + 2..at + 6].try_into().unwrap()) as usize;
        out.push(at);
    }
    out
}

/// Storage entries still owed after each prefix of the items.
fn owed(items: &[Item]) -> Vec<u32> {
    let mut out = vec![0];
    for i in items {
        out.push(match i {
            Item::Account(a) => a.storage_count,
            Item::Storage(_) => out[out.len() - 1] - 1,
        });
    }
    out
}

pub fn e03(ctx: &Ctx) {
    let root = tempfile::tempdir().expect("scratch directory");
    let fresh = |_: &Ch| root.path().join(format!("{}", NEXT.fetch_add(1, Ordering::Relaxed)));

    ctx.explore("appends", |ch| {
        let dir = fresh(ch);
        let number = *ch.choose(&[0u64, 5, 22_000_000]);
        let head = header(number);
        let n = ch.pick(ctx.b(5, 6));
        let mut w = E2SSWriter::create(&dir, head.clone()).map_err(|e| e.to_string())?;
        let path = w.path().to_path_buf();
        let mut kept: Vec<Item> = vec![];
        let mut pending = 0u32;
        for k in 0..n {
            let kind = ch.pick(6);
            let i = item(kind, k as u8 + 1);
            let want = match kind {
                0..=2 => pending == 0,
                // Only the last batch of an account may be less than full.
                _ => pending == 1,
            };
            let got = w.append_entry(&i);
            ch.eval();
            check_eq!(got.is_ok(), want, "append of {i:?} with {pending} batches owed");
            if want {
                pending = if kind <= 2 { kind as u32 } else { pending - 1 };
                kept.push(i);
            }
        }
        let second = E2SSWriter::create(&dir, head.clone());
        check!(second.is_err(), "a second archive over the first");
        check!(w.flush().is_ok(), "flush");
        drop(w);
        let name = format!("mainnet-{number:010}-{}.e2ss", alloy::primitives::hex::encode(&head.state_root[..4]));
        check!(path == dir.join(&name), "name {path:?}");
        let got = read(&path, &head, &kept, ch)?;
        let want = if pending == 0 { Read::Ended(kept.len()) } else { Read::Refused(kept.len()) };
        check_eq!(got, want, "reading {kept:?}");
        fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
        ch.state(&(number, format!("{kept:?}")));
        ch.outcome(&got);
        Ok(())
    });

    ctx.explore("cuts", |ch| {
        let dir = fresh(ch);
        let head = header(5);
        let mut items: Vec<Item> = vec![];
        for k in 0..ch.pick(ctx.b(3, 4)) {
            if ch.flag() {
                items.push(account(2 * k as u8 + 1, 0));
            } else {
                items.push(account(2 * k as u8 + 1, 1));
                items.push(storage(2 * k as u8 + 2, 1 + k));
            }
        }
        let mut w = E2SSWriter::create(&dir, head.clone()).map_err(|e| e.to_string())?;
        for i in &items {
            w.append_entry(i).map_err(|e| e.to_string())?;
        }
        let path = w.path().to_path_buf();
        drop(w);
        let file = fs::read(&path).map_err(|e| e.to_string())?;
        let ends = ends(&file);
        check_eq!(ends.len(), items.len() + 2, "number of entries");
        let owed = owed(&items);
        for cut in 0..=file.len() {
            fs::write(&path, &file[..cut]).map_err(|e| e.to_string())?;
            let whole = ends.iter().filter(|e| **e <= cut).count();
            let clean = cut == 0 || ends.contains(&cut);
            let got = read(&path, &head, &items, ch)?;
            let want = match whole {
                0 | 1 => Read::NotOpened,
                _ if clean && owed[whole - 2] == 0 => Read::Ended(whole - 2),
                _ => Read::Refused(whole - 2),
            };
            check_eq!(got, want, "reading a file of {} bytes cut to {cut}", file.len());
            ch.outcome(&got);
        }
        fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
        ch.state(&file);
        Ok(())
    });

    // Files put together from any entries at all.
    ctx.explore("entry sequences", |ch| {
        let dir = fresh(ch);
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let head = header(7);
        let e = |x: Item| -> Entry {
            match x {
                Item::Account(a) => a.try_into().unwrap(),
                Item::Storage(s) => s.try_into().unwrap(),
            }
        };
        let n = ch.pick(ctx.b(6, 7));
        let kinds: Vec<usize> = (0..n).map(|k| if k < 2 && n > 3 { k } else { ch.pick(6) }).collect();
        let mut file = vec![];
        let mut items = vec![];
        let (mut opened, mut wrong, mut pending) = (0, false, 0u32);
        for (k, kind) in kinds.iter().enumerate() {
            let it = match kind {
                2 => Some(account(k as u8 + 1, 0)),
                3 => Some(account(k as u8 + 1, 2)),
                4 => Some(storage(k as u8 + 1, 2)),
                _ => None,
            };
            let entry = match kind {
                0 => entries::entry(&(0x6532, vec![])),
                1 => Entry::try_from(&HeaderEntry { header: head.clone() }).unwrap(),
                5 => Entry::new(0x0400, vec![1]),
                _ => e(it.clone().unwrap()),
            };
            file.extend(entry.serialize().unwrap());
            if wrong {
                continue;
            }
            if opened < 2 {
                if *kind == opened {
                    opened += 1;
                } else {
                    wrong = true;
                }
                continue;
            }
            match it {
                Some(Item::Account(ref a)) if pending == 0 => pending = a.storage_count,
                Some(Item::Storage(_)) if pending > 0 => pending -= 1,
                _ => {
                    wrong = true;
                    continue;
                }
            }
            items.push(it.unwrap());
        }
        let path = dir.join("x.e2ss");
        fs::write(&path, &file).map_err(|e| e.to_string())?;
        let got = read(&path, &head, &items, ch)?;
        let want = if opened < 2 {
            Read::NotOpened
        } else if wrong || pending > 0 {
            Read::Refused(items.len())
        } else {
            Read::Ended(items.len())
        };
        check_eq!(got, want, "reading entries of kinds {kinds:?}");
        fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
        ch.state(&kinds);
        ch.outcome(&got);
        Ok(())
    });
}
