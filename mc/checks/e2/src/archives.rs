//! E02: archives of blocks.
use std::{
    fs,
    io::{Read as _, Write as _},
    sync::OnceLock,
};

use alloy_rlp::Decodable;
use e2store::{
    e2hs::{self, E2HSMemory, E2HSWriter, HeaderWithProofEntry},
    e2store::types::{Entry, Header},
    era::{get_beacon_fork, CompressedSignedBeaconBlock, Era},
    era1::{self, BodyEntry, Era1, ReceiptsEntry, TotalDifficultyEntry},
    types::HeaderEntry,
};
use ethportal_api::{
    consensus::{beacon_block::SignedBeaconBlock, fork::ForkName},
    types::execution::{block_body::BlockBody, header_with_proof::HeaderWithProof, receipts::Receipts},
};
use spec::{beacon::hashes, bytes, chain, container, execution, hash, num, ramp, rlp, Rlp, Var};
use ssz::{Decode, Encode};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::entries::{encode, entry, Item};

const VERSION: u16 = 0x6532;
const INDEX: u16 = 0x6632;
const SLOTS: u16 = 0x6932;
/// Types of the entries of a block in the two history archives.
const ERA1: [u16; 4] = [0x0300, 0x0400, 0x0500, 0x0600];
const E2HS: [u16; 3] = [0x0301, 0x0400, 0x0500];
const ALL: [u16; 13] = [0x0100, 0x0200, 0x0300, 0x0301, 0x0400, 0x0500, 0x0600, 0x0700, 0x0800, 0x0900, VERSION, INDEX, SLOTS];

fn pack(b: &[u8]) -> Vec<u8> {
    let mut e = snap::write::FrameEncoder::new(vec![]);
    e.write_all(b).unwrap();
    e.into_inner().map_err(|_| "frame").unwrap()
}

fn unpack(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    snap::read::FrameDecoder::new(b).read_to_end(&mut out).unwrap();
    out
}

/// The encodings of a block.
struct Block {
    header: Vec<u8>,
    with_proof: Vec<u8>,
    body: Vec<u8>,
    receipts: Vec<u8>,
    difficulty: [u8; 32],
}

const FAMILY: usize = 5;

/// Number, time, optional header fields and kind of proof of a block of each fork.
const FORKS: [(u64, u64, usize, usize); 4] =
    [(11, 1_500_000_000, 0, 0), (15_537_394, 1_663_224_179, 1, 1), (17_034_870, 1_681_338_455, 2, 2), (19_426_587, 1_710_338_135, 5, 3)];

fn block(kind: usize, tag: u64) -> Block {
    let (number, time, optional, proof) = FORKS[[0, 0, 0, 1, 3][kind]];
    let header = execution::header(number + tag, time + tag, kind * 7, optional);
    let slot = tag.to_le_bytes().to_vec();
    let proof = match proof {
        0 => hashes(70, 15),
        1 => [hashes(71, 14), hash(72).into(), hashes(73, 11), slot].concat(),
        2 => [hashes(74, 13), hash(75).into(), hashes(76, 11), slot].concat(),
        _ => [hashes(77, 13), hash(78).into(), hashes(79, 12), slot].concat(),
    };
    let txs: Vec<Vec<u8>> = match kind {
        0 => vec![],
        1 => vec![execution::transaction(0, 0), execution::transaction(0, 1)],
        // More than fits in one compressed frame.
        2 => {
            let sig = [num(27), bytes(&ramp(25, 32)), bytes(&ramp(26, 32))];
            let mut l = vec![num(tag as u128), num(9), num(21_000), bytes(&ramp(20, 20)), num(5), bytes(&ramp(9, 150_000))];
            l.extend(sig);
            vec![rlp(&Rlp::List(l))]
        }
        3 => (0..3).map(|k| execution::transaction(k, 2)).collect(),
        _ => (0..5).map(|k| execution::transaction(k, 1)).collect(),
    };
    let uncles = if kind == 1 { vec![execution::header(10, 1_499_999_000, 1, 0)] } else { vec![] };
    let wrapped: Vec<Vec<u8>> = txs.iter().map(|t| execution::wrapped(t)).collect();
    let mut parts = vec![execution::raw_list(&wrapped), execution::raw_list(&uncles)];
    if kind == 4 {
        parts.push(rlp(&Rlp::List(vec![execution::withdrawal(1), execution::withdrawal(2)])));
    }
    let receipts: Vec<Vec<u8>> = (0..txs.len()).map(|i| execution::wrapped(&execution::receipt(if kind < 3 { 0 } else { i as u8 }, 1, i % 3))).collect();
    let mut difficulty = hash(tag as u8 ^ kind as u8);
    difficulty[0] = kind as u8;
    Block {
        with_proof: container(&[Var(header.clone()), Var(proof)]),
        header,
        body: execution::raw_list(&parts),
        receipts: execution::raw_list(&receipts),
        difficulty,
    }
}

impl Block {
    fn era1(&self) -> Vec<Item> {
        vec![(ERA1[0], pack(&self.header)), (ERA1[1], pack(&self.body)), (ERA1[2], pack(&self.receipts)), (ERA1[3], self.difficulty.to_vec())]
    }
    fn e2hs(&self) -> Vec<Item> {
        vec![(E2HS[0], pack(&self.with_proof)), (E2HS[1], pack(&self.body)), (E2HS[2], pack(&self.receipts))]
    }
    fn is_era1(&self, t: &era1::BlockTuple) -> bool {
        t.header.header == Decodable::decode(&mut &self.header[..]).unwrap()
            && alloy_rlp::encode(&t.header.header) == self.header
            && alloy_rlp::encode(&t.body.body) == self.body
            && alloy_rlp::encode(&t.receipts.receipts) == self.receipts
            && Entry::from(&t.total_difficulty).value == self.difficulty
    }
    fn is_e2hs(&self, t: &e2hs::BlockTuple) -> bool {
        t.header_with_proof.header_with_proof.as_ssz_bytes() == self.with_proof
            && alloy_rlp::encode(&t.body.body) == self.body
            && alloy_rlp::encode(&t.receipts.receipts) == self.receipts
    }
    fn make_era1(&self) -> era1::BlockTuple {
        era1::BlockTuple {
            header: HeaderEntry { header: Decodable::decode(&mut &self.header[..]).unwrap() },
            body: BodyEntry { body: BlockBody::decode(&mut &self.body[..]).unwrap() },
            receipts: ReceiptsEntry { receipts: Receipts::decode(&mut &self.receipts[..]).unwrap() },
            total_difficulty: TotalDifficultyEntry::try_from(&Entry::new(ERA1[3], self.difficulty.to_vec())).unwrap(),
        }
    }
    fn make_e2hs(&self) -> e2hs::BlockTuple {
        e2hs::BlockTuple {
            header_with_proof: HeaderWithProofEntry { header_with_proof: HeaderWithProof::from_ssz_bytes(&self.with_proof).unwrap() },
            body: BodyEntry { body: BlockBody::decode(&mut &self.body[..]).unwrap() },
            receipts: ReceiptsEntry { receipts: Receipts::decode(&mut &self.receipts[..]).unwrap() },
        }
    }
}

fn same(e: &Entry, i: &Item) -> bool {
    e.header == Header { type_: i.0, length: e.value.len() as u32, reserved: 0 }
        && if i.0 == ERA1[3] { e.value == i.1 } else { unpack(&e.value) == unpack(&i.1) }
}

fn tuples(ctx: &Ctx) {
    ctx.explore("blocks", |ch| {
        let b = block(ch.pick(FAMILY), ch.pick(3) as u64);
        let (one, two) = (b.era1(), b.e2hs());
        let made = <[Entry; 4]>::try_from(&b.make_era1()).map_err(|e| e.to_string())?;
        check!(made.iter().zip(&one).all(|(e, i)| same(e, i)), "entries of a block");
        let made = <[Entry; 3]>::try_from(&b.make_e2hs()).map_err(|e| e.to_string())?;
        check!(made.iter().zip(&two).all(|(e, i)| same(e, i)), "entries of a block with proof");
        let got = era1::BlockTuple::try_from(&one.iter().map(entry).collect::<Vec<_>>()[..]);
        check!(matches!(&got, Ok(t) if b.is_era1(t)), "block read back: {:?}", got.err());
        let got = e2hs::BlockTuple::try_from(&two.iter().map(entry).collect::<Vec<_>>()[..]);
        check!(matches!(&got, Ok(t) if b.is_e2hs(t)), "block with proof read back: {:?}", got.err());
        ch.evals(4);
        ch.state(&one);
        Ok(())
    });
    // Any arrangement of entries is a block only if it is the right one.
    ctx.explore("arrangements", |ch| {
        let b = block(1, 0);
        let mut pool = b.era1();
        pool.push(b.e2hs().remove(0));
        pool.push((0x0700, vec![1; 32]));
        let n = ch.pick(6);
        let picks: Vec<usize> = (0..n).map(|_| ch.pick(pool.len())).collect();
        let entries: Vec<Entry> = picks.iter().map(|i| entry(&pool[*i])).collect();
        check_eq!(era1::BlockTuple::try_from(&entries[..]).is_ok(), picks == [0, 1, 2, 3], "acceptance of {picks:?} as a block");
        check_eq!(e2hs::BlockTuple::try_from(&entries[..]).is_ok(), picks == [4, 1, 2], "acceptance of {picks:?} as a block with proof");
        ch.evals(2);
        ch.state(&picks);
        Ok(())
    });
    ctx.explore("changed entries", |ch| {
        let b = block(*ch.choose(&[1, 4]), 0);
        let proof = ch.flag();
        let items = if proof { b.e2hs() } else { b.era1() };
        let at = ch.pick(items.len());
        let mut entries: Vec<Entry> = items.iter().map(entry).collect();
        let e = &mut entries[at];
        match ch.pick(5) {
            0 => e.header.type_ ^= 1 << ch.pick(16),
            1 => e.header.reserved = 1 << ch.pick(16),
            2 => {
                e.value.truncate(ch.pick(e.value.len()));
                e.header.length = e.value.len() as u32;
            }
            3 => {
                // A well-formed frame around something else.
                let other: [&[u8]; 6] = [&[], &[0], &[0x80], &[0xc0], &[0xf8], &[0xff; 40]];
                let k = ch.pick(6);
                if other[k] == [0xc0] && items[at].0 == 0x0500 {
                    return Ok(()); // no receipts
                }
                e.value = pack(other[k]);
                e.header.length = e.value.len() as u32;
            }
            _ => {
                // The payload without its last byte, or with its first one changed.
                let mut inner = if items[at].0 == ERA1[3] { items[at].1.clone() } else { unpack(&items[at].1) };
                if ch.flag() {
                    inner.pop();
                } else if items[at].0 == ERA1[3] {
                    inner.push(0);
                } else {
                    inner[0] ^= 0x40;
                }
                e.value = if items[at].0 == ERA1[3] { inner } else { pack(&inner) };
                e.header.length = e.value.len() as u32;
            }
        }
        let refused = if proof { e2hs::BlockTuple::try_from(&entries[..]).is_err() } else { era1::BlockTuple::try_from(&entries[..]).is_err() };
        check!(refused, "a block with entry {at} changed to {:?} is accepted", entries[at]);
        ch.eval();
        ch.state(&(proof, at, entries[at].header.type_, &entries[at].value));
        Ok(())
    });
}

// ---- whole archives -------------------------------------------------------------------------

/// The places of the blocks that differ from the rest.
fn special(count: usize) -> [(usize, usize); 4] {
    [(0, 1), (1, 4), (count / 2, 2), (count - 1, 3)]
}

fn block_at(i: usize, count: usize) -> Block {
    let kind = special(count).iter().find(|s| s.0 == i).map_or(0, |s| s.1);
    block(kind, i as u64)
}

fn index(start: u64, offsets: &[u64], count: u64) -> Item {
    let mut v = start.to_le_bytes().to_vec();
    v.extend(offsets.iter().flat_map(|o| o.to_le_bytes()));
    v.extend(count.to_le_bytes());
    (INDEX, v)
}

struct Archive {
    items: Vec<Item>,
    blocks: Vec<Block>,
    offsets: Vec<u64>,
}

fn archive(proof: bool, count: usize) -> Archive {
    let blocks: Vec<Block> = (0..count).map(|i| block_at(i, count)).collect();
    let mut items = vec![(VERSION, vec![])];
    let mut offsets = vec![];
    let mut at = 8u64;
    for b in &blocks {
        offsets.push(at);
        for i in if proof { b.e2hs() } else { b.era1() } {
            at += 8 + i.1.len() as u64;
            items.push(i);
        }
    }
    if !proof {
        items.push((0x0700, hash(99).to_vec()));
    }
    items.push(index(8192 * 7, &offsets, count as u64));
    Archive { items, blocks, offsets }
}

fn base(which: usize) -> &'static Archive {
    static BASES: [OnceLock<Archive>; 3] = [const { OnceLock::new() }; 3];
    BASES[which].get_or_init(|| match which {
        0 => archive(false, 8192),
        1 => archive(false, 5362),
        _ => archive(true, 8192),
    })
}

/// Reads an archive whole; the blocks must be the written ones.
fn whole(which: usize, file: &[u8], a: &Archive) -> Result<bool, String> {
    if which == 2 {
        let Ok(got) = E2HSMemory::deserialize(file) else { return Ok(false) };
        check_eq!(got.block_tuples.len(), a.blocks.len(), "number of blocks");
        for (i, (t, b)) in got.block_tuples.iter().zip(&a.blocks).enumerate() {
            check!(b.is_e2hs(t), "block {i}: {t:?}");
        }
        check_eq!(got.block_index.block_index.indices, a.offsets, "positions");
        check_eq!((got.block_index.block_index.starting_number, got.block_index.block_index.count), (8192 * 7, 8192), "index");
        check_eq!(got.index(), 7, "number of the archive");
        check!(got.write().is_ok_and(|w| w == file), "archive written again");
    } else {
        let Ok(got) = Era1::deserialize(file) else { return Ok(false) };
        check_eq!(got.block_tuples.len(), a.blocks.len(), "number of blocks");
        for (i, (t, b)) in got.block_tuples.iter().zip(&a.blocks).enumerate() {
            check!(b.is_era1(t), "block {i}: {t:?}");
        }
        check_eq!(Entry::from(&got.accumulator).value, hash(99).to_vec(), "accumulator");
        check_eq!(got.block_index.block_index.indices, a.offsets, "positions");
        check_eq!((got.block_index.block_index.starting_number, got.block_index.block_index.count), (8192 * 7, a.blocks.len() as u64), "index");
        check_eq!(got.epoch_number(), 7, "number of the epoch");
        check!(got.write().is_ok_and(|w| w == file), "archive written again");
    }
    Ok(true)
}

/// Reads an archive block by block. The blocks given are the written ones from the first on;
/// returns whether it was not refused at once, the number given, and whether the end was a quiet one.
fn lazily(which: usize, file: &[u8], a: &Archive) -> Result<(bool, usize, bool), String> {
    let mut given = 0;
    macro_rules! walk {
        ($it:expr, $is:ident) => {{
            let Ok(mut it) = $it else { return Ok((false, 0, true)) };
            loop {
                match vc::no_panic(|| it.next()) {
                    Err(_) => return Ok((true, given, false)),
                    Ok(None) => return Ok((true, given, true)),
                    Ok(Some(t)) => {
                        check!(given < a.blocks.len() && a.blocks[given].$is(&t), "block {given} given: {t:?}");
                        given += 1;
                    }
                }
            }
        }};
    }
    match which {
        2 => walk!(E2HSMemory::iter_tuples(file), is_e2hs),
        _ => walk!(Era1::iter_tuples(file), is_era1),
    }
}

fn histories(ctx: &Ctx) {
    ctx.explore("archives", |ch| {
        let which = ch.pick(3);
        let a = base(which);
        let file = encode(&a.items);
        check!(whole(which, &file, a)?, "archive {which} refused");
        check_eq!(lazily(which, &file, a)?, (true, a.blocks.len(), true), "archive {which} block by block");
        ch.evals(2 * a.blocks.len() as u64);
        ch.state(&which);
        Ok(())
    });
    ctx.explore("changed archives", |ch| {
        let which = ch.pick(3);
        let a = base(which);
        let n = a.items.len();
        let per = if which == 2 { 3 } else { 4 };
        let mut places: Vec<usize> = vec![0, 1, 2, per, per + 1, n - 1, n - 2];
        places.extend(ctx.b(vec![], vec![per - 1, per * 100 + 1, per * 100 + 2, n - 3, n - 4, n - 5, n - 6]));
        let at = *ch.choose(&places);
        let mut items = a.items.clone();
        let mut file = None;
        let change = ch.pick(11);
        match change {
            0 => drop(items.remove(at)),
            1 => items.insert(at, items[at].clone()),
            2 if at + 1 < n => items.swap(at, at + 1),
            3 => {
                let kind = *ch.choose(&ALL[2..ctx.b(5, 13)]);
                if kind == items[at].0 {
                    return Ok(());
                }
                items[at].0 = kind;
            }
            4 => {
                if items[at].1.pop().is_none() {
                    return Ok(());
                }
            }
            5 => items[at].1 = pack(&[1]),
            6 if at > 0 => items[at].1.clear(),
            // The number of entries stays, their order does not.
            7 if at + 1 < n => {
                let gone = items.remove(at);
                items.insert(if at < 8 { n - 2 } else { 1 }, gone);
            }
            8 => {
                let start = encode(&items[..at]).len();
                let cut = start + 1 + ch.pick(ctx.b(1, if items[at].1.is_empty() { 7 } else { 9 })) * ctx.b(4, 1);
                let mut f = encode(&items);
                f.truncate(cut);
                file = Some(f);
            }
            9 => {
                let start = encode(&items[..at]).len();
                let mut f = encode(&items);
                f[start + 6 + ch.pick(2)] = 1;
                file = Some(f);
            }
            10 => {
                // Everything from this entry on is missing.
                items.truncate(at);
            }
            _ => return Ok(()),
        }
        let file = file.unwrap_or_else(|| encode(&items));
        check!(!whole(which, &file, a)?, "archive {which} accepted with change {change} at {at}");
        let (_, given, _) = lazily(which, &file, a)?;
        ch.evals(2);
        ch.state(&vc::hash_of(&file));
        ch.outcome(&(which, given.min(2)));
        Ok(())
    });
    ctx.explore("changed indexes", |ch| {
        let which = ch.pick(3);
        let a = base(which);
        let count = a.blocks.len() as u64;
        let said = *ch.choose(&[count - 1, count + 1, 0, 1, count / 2, 8192, 5362, 1 << 32, 1 << 62, u64::MAX / 4, u64::MAX]);
        let room = *ch.choose(&[count as usize, 0, 1, 8191, 8192, 8193, 5362]);
        if (said == count && room == count as usize) || (said != count && room != count as usize && ctx.b(true, false)) {
            return Ok(());
        }
        let mut offsets = a.offsets.clone();
        offsets.resize(room, 0);
        let mut items = a.items.clone();
        *items.last_mut().unwrap() = index(8192 * 7, &offsets, said);
        let file = encode(&items);
        check!(!whole(which, &file, a)?, "archive {which} accepted with {said} blocks in an index of {room}");
        // Block by block the right blocks are given and nothing crashes on opening.
        lazily(which, &file, a)?;
        ch.evals(2);
        ch.state(&(which, said, room));
        Ok(())
    });
    ctx.explore("small files", |ch| {
        let which = ch.pick(3);
        let n = ch.pick(4);
        let a = base(which);
        let pool = [a.items[0].clone(), a.items[1].clone(), a.items[a.items.len() - 1].clone(), (INDEX, vec![]), (INDEX, vec![0; 16])];
        let items: Vec<Item> = (0..n).map(|_| ch.choose(&pool).clone()).collect();
        let file = encode(&items);
        check!(!whole(which, &file, a)?, "a file of {n} entries accepted");
        let (opened, given, quiet) = lazily(which, &file, a)?;
        check!(given == 0 && (!opened || !quiet || items.last().is_some_and(|l| l.0 == INDEX)), "blocks from a file of {n} entries");
        ch.evals(2);
        ch.state(&(which, items));
        Ok(())
    });
}

/// The streaming writer of header archives.
fn writer(ctx: &Ctx) {
    let root = tempfile::tempdir().expect("scratch directory");
    ctx.explore("writer", |ch| {
        let epoch = *ch.choose(&[7u64, 0, 1, 99_999]);
        let count = *ch.choose(&[8192usize, 0, 1, 8191, 8193]);
        let dir = root.path().join(format!("{epoch}-{count}"));
        let a = base(2);
        let mut w = E2HSWriter::create(&dir, epoch).map_err(|e| e.to_string())?;
        check!(E2HSWriter::create(&dir, epoch).is_err(), "a second writer over the first");
        let made: Vec<e2hs::BlockTuple> = (0..5).map(|k| block(k, 3).make_e2hs()).collect();
        for i in 0..count {
            let t = if count < 8192 { made[i % 5].clone() } else { a.blocks[i % 8192].make_e2hs() };
            w.append_block_tuple(&t).map_err(|e| e.to_string())?;
        }
        let temp = w.temp_path().to_path_buf();
        let done = w.finish();
        ch.evals(count as u64 + 1);
        check_eq!(done.is_ok(), count == 8192, "finishing after {count} blocks");
        if let Ok(path) = done {
            let last = spec::trie::keccak(&a.blocks[8191].header);
            let name = format!("mainnet-{epoch:05}-{}.e2hs", alloy::primitives::hex::encode(&last[..4]));
            check!(path == dir.join(name), "name {path:?}");
            check!(!temp.exists(), "the temporary file stays");
            let mut items = a.items.clone();
            *items.last_mut().unwrap() = index(epoch * 8192, &a.offsets, 8192);
            check!(fs::read(&path).map_err(|e| e.to_string())? == encode(&items), "the file written");
            let back = E2HSMemory::read_from_file(&path).map_err(|e| e.to_string())?;
            check_eq!(back.index(), epoch, "number of the archive");
        }
        fs::remove_dir_all(&dir).map_err(|e| e.to_string())?;
        ch.state(&(epoch, count));
        Ok(())
    });
}

/// The archives kept with the repository, which are compressed by another implementation.
fn shipped(ctx: &Ctx) {
    for (k, name) in ["mainnet-00000-5ec1ffb8.era1", "mainnet-00001-a5364e9a.era1"].into_iter().enumerate() {
        ctx.once(&format!("shipped archive {k}"), |ch| {
            let Ok(raw) = fs::read(format!("/repo/test_assets/era1/{name}")) else { return Ok(()) };
            let got = Era1::deserialize(&raw).map_err(|e| format!("{name}: {e}"))?;
            check_eq!(got.block_tuples.len(), 8192, "number of blocks");
            let mut parent = None;
            for (i, t) in got.block_tuples.iter().enumerate() {
                let h = &t.header.header;
                check_eq!(h.number, (k * 8192 + i) as u64, "number of a block");
                check!(parent.is_none_or(|p| p == h.parent_hash.0), "block {i} does not follow the one before");
                parent = Some(spec::trie::keccak(&alloy_rlp::encode(h)));
            }
            check_eq!(got.epoch_number(), k as u64, "number of the epoch");
            let lazy: Vec<era1::BlockTuple> = Era1::iter_tuples(&raw).map_err(|e| e.to_string())?.collect();
            check!(lazy == got.block_tuples, "blocks given one by one");
            let again = got.write().map_err(|e| e.to_string())?;
            let back = Era1::deserialize(&again).map_err(|e| e.to_string())?;
            check!(back.block_tuples == lazy && back.block_index == got.block_index && back.accumulator == got.accumulator, "archive written again");
            ch.evals(8192);
            ch.state(&k);
            Ok(())
        });
    }
}

// ---- beacon archives ------------------------------------------------------------------------

const STARTS: [u64; 4] = [4_636_672, 6_209_536, 8_626_176, 11_649_024];
const NAMES: [ForkName; 4] = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra];

fn fork_at(slot: u64) -> usize {
    STARTS.iter().rposition(|s| *s <= slot).unwrap()
}

fn state(fork: usize) -> &'static [u8] {
    static STATES: [OnceLock<Vec<u8>>; 4] = [const { OnceLock::new() }; 4];
    STATES[fork].get_or_init(|| pack(&chain::State::new(fork, 77).object().encode()))
}

/// An archive with blocks at the given places of the era.
fn era(first: u64, places: &[u64]) -> (Vec<Item>, Vec<Vec<u8>>) {
    let blocks: Vec<Vec<u8>> = places
        .iter()
        .map(|p| {
            let mut b = chain::Block::new(fork_at(first + p), first + p, 100 + p % 8191 * 3, *p as u8);
            b.payload.txs = vec![execution::transaction(2, 1)];
            b.seal();
            b.signed()
        })
        .collect();
    let mut items = vec![(VERSION, vec![])];
    items.extend(blocks.iter().map(|b| (0x0100, pack(b))));
    items.push((0x0200, state(fork_at(first + 8192)).to_vec()));
    let record = encode(&items).len() as i64;
    let mut v = first.to_le_bytes().to_vec();
    for p in 0..8192u64 {
        let at = places.iter().position(|q| *q == p);
        let start = at.map_or(0, |k| encode(&items[..k + 1]).len() as i64);
        v.extend((start - record).to_le_bytes());
    }
    v.extend(8192u64.to_le_bytes());
    items.push((SLOTS, v));
    let mut v = (first + 8192).to_le_bytes().to_vec();
    v.extend((-1i64).to_le_bytes());
    v.extend(1u64.to_le_bytes());
    items.push((SLOTS, v));
    (items, blocks)
}

fn beacon(ctx: &Ctx) {
    let spots = [0u64, 1, 4095, 8190, 8191];
    let firsts = |ch: &mut Ch| -> u64 {
        let f = ch.pick(4);
        match ch.pick(3) {
            0 => STARTS[f],
            1 => STARTS[f] + 8192 * 3,
            // The last era of a fork: its state is one of the next fork.
            _ => STARTS.get(f + 1).map_or(STARTS[f] + 8192, |n| n - 8192),
        }
    };
    ctx.explore("beacon archives", |ch| {
        let first = firsts(ch);
        let which = ch.subset(ctx.b(4, 5));
        let places: Vec<u64> = (0..5).filter(|i| which >> i & 1 == 1).map(|i| spots[i]).collect();
        let (items, blocks) = era(first, &places);
        let file = encode(&items);
        let got = Era::deserialize(&file).map_err(|e| format!("era {first} {places:?}: {e}"))?;
        check_eq!(got.blocks.len(), blocks.len(), "number of blocks");
        for (k, (g, b)) in got.blocks.iter().zip(&blocks).enumerate() {
            check!(g.block.as_ssz_bytes() == *b, "block {k}");
            let want = SignedBeaconBlock::from_ssz_bytes(b, NAMES[fork_at(first + places[k])]).unwrap();
            check!(g.block == want, "block {k} in its fork");
        }
        check!(got.era_state.state.as_ssz_bytes() == unpack(state(fork_at(first + 8192))), "the state");
        check!(Era::deserialize_to_beacon_state(&file).is_ok_and(|s| s == got.era_state.state), "the state on its own");
        check_eq!(got.epoch_index(), first / 8192 + 1, "number of the era");
        check!(got.write().is_ok_and(|w| w == file), "archive written again");
        let numbers: Vec<u64> = places.iter().map(|p| 100 + p % 8191 * 3).collect();
        for n in 95..115 {
            let want = !numbers.is_empty() && numbers[0] <= n && n <= *numbers.last().unwrap();
            check_eq!(got.contains(n), want, "whether block {n} is within {numbers:?}");
        }
        ch.evals(blocks.len() as u64 + 23);
        ch.state(&(first, which));
        Ok(())
    });
    ctx.explore("changed beacon archives", |ch| {
        let first = STARTS[ch.pick(ctx.b(1, 4))];
        let places = &spots[..ch.pick(3)];
        let (mut items, _) = era(first, places);
        let n = items.len();
        let at = ch.pick(n);
        let mut file = None;
        match ch.pick(8) {
            0 => drop(items.remove(at)),
            1 => items.insert(at, items[at].clone()),
            2 if at + 1 < n && items[at].0 != items[at + 1].0 || at + 2 == n => items.swap(at, at + 1),
            3 => {
                let kind = *ch.choose(&ALL);
                if kind == items[at].0 {
                    return Ok(());
                }
                items[at].0 = kind;
            }
            4 => {
                if items[at].1.pop().is_none() {
                    return Ok(());
                }
            }
            5 => items[at].1 = pack(&[1]),
            6 => {
                let start = encode(&items[..at]).len();
                let mut f = encode(&items);
                f.truncate(start + 1 + ch.pick(7));
                file = Some(f);
            }
            7 => items.truncate(at),
            _ => return Ok(()),
        }
        let file = file.unwrap_or_else(|| encode(&items));
        check!(Era::deserialize(&file).is_err(), "era {first} with {places:?} accepted with a change at {at}");
        let _ = Era::deserialize_to_beacon_state(&file);
        ch.evals(2);
        ch.state(&(first, places.len(), at, vc::hash_of(&file)));
        Ok(())
    });
    ctx.explore("forks", |ch| {
        let f = ch.pick(4);
        let slot = STARTS[f] + *ch.choose(&[0, 1, 8191, 8192]);
        check!(get_beacon_fork(slot) == NAMES[f], "fork at {slot}");
        if f > 0 {
            check!(get_beacon_fork(STARTS[f] - 1) == NAMES[f - 1], "fork before {}", STARTS[f]);
        }
        // A block is read only as one of its own fork.
        let mut b = chain::Block::new(f, slot, 9, 1);
        b.seal();
        let e = entry(&(0x0100, pack(&b.signed())));
        for (g, name) in NAMES.into_iter().enumerate() {
            let got = CompressedSignedBeaconBlock::try_from(&e, name);
            check_eq!(got.is_ok(), g == f, "a block of fork {f} as one of fork {g}");
        }
        if let Ok(got) = CompressedSignedBeaconBlock::try_from(&e, NAMES[f]) {
            let Ok(again) = Entry::try_from(&got) else { fail!("block not written") };
            check!(again == e, "block written again");
        }
        ch.evals(6);
        ch.state(&slot);
        Ok(())
    });
}

fn numbers(ctx: &Ctx) {
    ctx.explore("numbers", |ch| {
        let k = *ch.choose(&[0u64, 1, 7, 1896, 1897, 2600, u64::MAX / 8192]);
        let n = k * 8192 + *ch.choose(&[0, 1, 4096, 8190, 8191]);
        check_eq!(Era1::epoch_number_from_block_number(n), k, "epoch of block {n}");
        check_eq!(E2HSMemory::index_from_block_number(n), k, "archive of block {n}");
        ch.evals(2);
        ch.state(&n);
        Ok(())
    });
}

pub fn e02(ctx: &Ctx) {
    numbers(ctx);
    tuples(ctx);
    histories(ctx);
    writer(ctx);
    shipped(ctx);
    beacon(ctx);
}
