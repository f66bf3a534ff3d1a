use crate::reference::*;
use alloy::primitives::B256;
use ethportal_api::{
    types::{
        content_key::{beacon::*, history, legacy_history, overlay::OverlayContentKey, state::*},
        state_trie::nibbles::Nibbles,
    },
    BeaconContentKey, HistoryContentKey, IdentityContentKey, LegacyHistoryContentKey, RawContentKey, StateContentKey,
};
use serde_json::Value;
use sha2::{Digest, Sha256};
use std::{collections::hash_map::DefaultHasher, hash::{Hash, Hasher}, str::FromStr};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

const HASHES: [[u8; 32]; 3] = [[0; 32], [0xff; 32], {
    let mut h = [0; 32];
    let mut i = 0;
    while i < 32 {
        h[i] = (i * 8 + 1) as u8;
        i += 1;
    }
    h
}];

fn numbers() -> Vec<u64> {
    let mut v: Vec<u64> = (0..64).flat_map(|b| [1u64 << b, (1 << b) - 1, !(1u64 << b)]).collect();
    v.extend([u64::MAX, 0x0102030405060708, 15537393, 15537394]);
    v.sort();
    v.dedup();
    v
}

fn packed(path: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let rest = if path.len() % 2 == 1 {
        out.push(0x10 | path[0]);
        &path[1..]
    } else {
        out.push(0);
        path
    };
    for i in 0..rest.len() / 2 {
        out.push(rest[2 * i] << 4 | rest[2 * i + 1]);
    }
    out
}

/// The id of a history key: the low 16 bits of the block number lead, the other 48 follow in
/// reverse order, the kind is the last byte.
fn range_id(n: u64, kind: u8) -> [u8; 32] {
    let mut bits = vec![];
    for i in (0..16).rev() {
        bits.push(n >> i & 1);
    }
    for i in 16..64 {
        bits.push(n >> i & 1);
    }
    let mut id = [0; 32];
    for (i, b) in bits.iter().enumerate() {
        id[i / 8] |= (*b as u8) << (7 - i % 8);
    }
    id[31] = kind;
    id
}

fn legacy(ch: &mut Ch) -> (LegacyHistoryContentKey, Vec<u8>, bool) {
    use legacy_history::*;
    use LegacyHistoryContentKey as K;
    let h = *ch.choose(&HASHES);
    match ch.pick(6) {
        0 => (K::BlockHeaderByHash(BlockHeaderByHashKey { block_hash: h }), [vec![0], h.to_vec()].concat(), true),
        1 => (K::BlockBody(BlockBodyKey { block_hash: h }), [vec![1], h.to_vec()].concat(), true),
        2 => (K::BlockReceipts(BlockReceiptsKey { block_hash: h }), [vec![2], h.to_vec()].concat(), true),
        3 => {
            let n = *ch.choose(&numbers());
            (K::BlockHeaderByNumber(BlockHeaderByNumberKey { block_number: n }), [vec![3], n.to_le_bytes().to_vec()].concat(), true)
        }
        4 => {
            let c = ch.pick(256) as u8;
            (
                K::EphemeralHeadersFindContent(EphemeralHeadersFindContentKey { block_hash: h, ancestor_count: c }),
                [vec![4], h.to_vec(), vec![c]].concat(),
                false,
            )
        }
        _ => (K::EphemeralHeaderOffer(EphemeralHeaderOfferKey { block_hash: h }), [vec![5], h.to_vec()].concat(), false),
    }
}

fn beacon(ch: &mut Ch) -> (BeaconContentKey, Vec<u8>) {
    use BeaconContentKey as K;
    match ch.pick(5) {
        0 => {
            let h = *ch.choose(&HASHES);
            (K::LightClientBootstrap(LightClientBootstrapKey { block_hash: h }), [vec![0x10], h.to_vec()].concat())
        }
        1 => {
            let some = [0u64, 1, 2, 128, 256, 65536, u64::MAX];
            let (start_period, count) = (*ch.choose(&some), *ch.choose(&some));
            (
                K::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period, count }),
                [vec![0x11], start_period.to_le_bytes().to_vec(), count.to_le_bytes().to_vec()].concat(),
            )
        }
        2 => {
            let n = *ch.choose(&numbers());
            (K::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(n)), [vec![0x12], n.to_le_bytes().to_vec()].concat())
        }
        3 => {
            let n = *ch.choose(&numbers());
            (K::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(n)), [vec![0x13], n.to_le_bytes().to_vec()].concat())
        }
        _ => {
            let n = *ch.choose(&numbers());
            (K::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: n }), [vec![0x14], n.to_le_bytes().to_vec()].concat())
        }
    }
}

fn path(ch: &mut Ch, long: bool) -> Vec<u8> {
    let n = if long { ch.pick(65) } else { ch.pick(4) };
    if long {
        let salt = ch.pick(2) as u8;
        (0..n).map(|i| ((i * 5 + i / 16) as u8).wrapping_add(salt * 3) % 16).collect()
    } else {
        (0..n).map(|_| *ch.choose(&[0u8, 1, 15])).collect()
    }
}

fn state(ch: &mut Ch) -> (StateContentKey, Vec<u8>) {
    use StateContentKey as K;
    let h = *ch.choose(&HASHES);
    let kind = ch.pick(3);
    let g = *ch.choose(&HASHES[1..]);
    if kind == 2 {
        return (
            K::ContractBytecode(ContractBytecodeKey { address_hash: h.into(), code_hash: B256::from(g) }),
            [vec![0x22], h.to_vec(), g.to_vec()].concat(),
        );
    }
    let long = ch.flag();
    let p = path(ch, long);
    let nibbles = Nibbles::try_from_unpacked_nibbles(&p).expect("valid path");
    if kind == 0 {
        (
            K::AccountTrieNode(AccountTrieNodeKey { path: nibbles, node_hash: h.into() }),
            [vec![0x20], container(&[Var(packed(&p)), Fixed(h.to_vec())])].concat(),
        )
    } else {
        (
            K::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: h.into(), path: nibbles, node_hash: g.into() }),
            [vec![0x21], container(&[Fixed(h.to_vec()), Var(packed(&p)), Fixed(g.to_vec())])].concat(),
        )
    }
}

fn history_key(ch: &mut Ch) -> (HistoryContentKey, Vec<u8>, [u8; 32]) {
    let kind = ch.pick(2) as u8;
    let n = *ch.choose(&numbers());
    let raw = [vec![kind], n.to_le_bytes().to_vec()].concat();
    let key = if kind == 0 {
        HistoryContentKey::BlockBody(history::BlockBodyKey { block_number: n })
    } else {
        HistoryContentKey::BlockReceipts(history::BlockReceiptsKey { block_number: n })
    };
    (key, raw, range_id(n, kind))
}

fn hash_value<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

fn decode<K: OverlayContentKey>(raw: &[u8]) -> Option<(K, Vec<u8>)> {
    let k = K::try_from_bytes(raw).ok()?;
    let again = k.to_bytes().to_vec();
    Some((k, again))
}

fn case<K: OverlayContentKey>(key: &K, raw: &[u8], id: Option<[u8; 32]>, near_radius: bool, ch: &mut Ch) -> Res {
    ch.note(|| format!("key {key:?}"));
    check_eq!(hex::encode(key.to_bytes()), hex::encode(raw), "bytes of {key:?}");
    match canonical::<K>("key", raw, ch, decode)? {
        Some(k) => {
            check_eq!(k, *key, "key after a round trip");
            check_eq!(hash_value(&k), hash_value(key), "hash of the decoded key");
        }
        None => fail!("{key:?} is refused in its own encoding"),
    }
    let id = id.unwrap_or_else(|| Sha256::digest(raw).into());
    check_eq!(hex::encode(key.content_id()), hex::encode(id), "content id of {key:?}");
    check_eq!(key.affected_by_radius(), near_radius, "radius dependence of {key:?}");
    let text = format!("0x{}", hex::encode(raw));
    check_eq!(key.to_hex(), text, "text of {key:?}");
    let back = K::try_from_hex(&text).map_err(|e| format!("{text} is refused: {e}"))?;
    check_eq!(back, *key, "key from its text");
    check!(K::try_from_hex(&text[..text.len() - 1]).is_err(), "odd text of {key:?} is accepted");
    check!(K::try_from_hex(&format!("{text}zz")).is_err(), "text of {key:?} with letters z is accepted");
    ch.outcome(&raw);
    Ok(())
}

fn json<K: OverlayContentKey + serde_json_key::Json>(key: &K, raw: &[u8]) -> Res {
    let want = Value::String(format!("0x{}", hex::encode(raw)));
    let got = key.to_json().map_err(|e| format!("{key:?} does not serialise: {e}"))?;
    check_eq!(got, want, "JSON of {key:?}");
    let back = K::from_json(want).map_err(|e| format!("JSON of {key:?} is refused: {e}"))?;
    check_eq!(back, *key, "key from its JSON");
    for bad in [Value::Null, Value::from(1), Value::from(""), Value::from("0x"), Value::from("0xfe"), Value::Array(vec![])] {
        check!(K::from_json(bad.clone()).is_err(), "JSON {bad} is accepted as a key");
    }
    Ok(())
}

mod serde_json_key {
    use super::*;
    pub trait Json: Sized {
        fn to_json(&self) -> Result<Value, serde_json::Error>;
        fn from_json(v: Value) -> Result<Self, serde_json::Error>;
    }
    macro_rules! json {
        ($($t:ty),*) => {$(
            impl Json for $t {
                fn to_json(&self) -> Result<Value, serde_json::Error> {
                    serde_json::to_value(self)
                }
                fn from_json(v: Value) -> Result<Self, serde_json::Error> {
                    serde_json::from_value(v)
                }
            }
        )*};
    }
    json!(LegacyHistoryContentKey, BeaconContentKey, StateContentKey, HistoryContentKey);
}

/// Whether the bytes are a key of the network by the specification.
fn valid_key(network: usize, raw: &[u8]) -> bool {
    let Some((&sel, rest)) = raw.split_first() else { return false };
    let n = rest.len();
    let good_path = |p: &[u8]| match p.split_first() {
        None => false,
        Some((&0, more)) => more.len() <= 32,
        Some((f, more)) => f >> 4 == 1 && more.len() <= 31,
    };
    match (network, sel) {
        (0, 0 | 1 | 2 | 5) => n == 32,
        (0, 3) => n == 8,
        (0, 4) => n == 33,
        (1, 0x10) => n == 32,
        (1, 0x11) => n == 16,
        (1, 0x12..=0x14) => n == 8,
        (2, 0x20) => n >= 36 && rest[..4] == 36u32.to_le_bytes() && good_path(&rest[36..]),
        (2, 0x21) => n >= 68 && rest[32..36] == 68u32.to_le_bytes() && good_path(&rest[68..]),
        (2, 0x22) => n == 64,
        (3, 0 | 1) => n == 8,
        _ => false,
    }
}

fn any(network: usize, raw: &[u8], ch: &mut Ch) -> Res {
    let got = match network {
        0 => canonical::<LegacyHistoryContentKey>("key", raw, ch, decode)?.is_some(),
        1 => canonical::<BeaconContentKey>("key", raw, ch, decode)?.is_some(),
        2 => canonical::<StateContentKey>("key", raw, ch, decode)?.is_some(),
        _ => canonical::<HistoryContentKey>("key", raw, ch, decode)?.is_some(),
    };
    check_eq!(got, valid_key(network, raw), "acceptance of key bytes {} in network {network}", short(raw));
    ch.outcome(&(network, got, raw.first(), raw.len()));
    Ok(())
}

pub fn w03(ctx: &Ctx) {
    ctx.explore("legacy history keys", |ch| {
        let (k, raw, near) = legacy(ch);
        case(&k, &raw, None, near, ch)?;
        json(&k, &raw)
    });
    ctx.explore("beacon keys", |ch| {
        let (k, raw) = beacon(ch);
        case(&k, &raw, None, false, ch)?;
        json(&k, &raw)
    });
    ctx.explore("state keys", |ch| {
        let (k, raw) = state(ch);
        case(&k, &raw, None, true, ch)?;
        json(&k, &raw)
    });
    ctx.explore("history keys", |ch| {
        let (k, raw, id) = history_key(ch);
        case(&k, &raw, Some(id), true, ch)?;
        json(&k, &raw)
    });
    ctx.explore("history ids of consecutive blocks", |ch| {
        let start = *ch.choose(&[0u64, 65_530, 15_537_390, u32::MAX as u64 - 5, u64::MAX - 12]);
        let n = start + ch.pick(12) as u64;
        ch.eval();
        check_eq!(HistoryContentKey::new_block_body(n).content_id(), range_id(n, 0), "id of body {n}");
        check_eq!(HistoryContentKey::new_block_receipts(n).content_id(), range_id(n, 1), "id of receipts {n}");
        ch.outcome(&n);
        Ok(())
    });
    ctx.explore("identity keys", |ch| {
        let h = *ch.choose(&HASHES);
        case(&IdentityContentKey::new(h), &h, Some(h), true, ch)?;
        let n = ch.pick(70);
        let got = canonical::<IdentityContentKey>("key", &ramp(1, n), ch, decode)?;
        check_eq!(got.is_some(), n == 32, "acceptance of {n} bytes");
        Ok(())
    });
    ctx.explore("edited keys", |ch| {
        let network = ch.pick(4);
        let raw = match network {
            0 => legacy(ch).1,
            1 => beacon(ch).1,
            2 => state(ch).1,
            _ => history_key(ch).1,
        };
        ch.note(|| format!("edits of key bytes {}", short(&raw)));
        edits(&raw, 70, ctx.b(0, 1) == 1, |bad| any(network, bad, ch))
    });
    ctx.explore("all selectors and lengths", |ch| {
        let network = ch.pick(4);
        let sel = ch.pick(256) as u8;
        any(network, &[], ch)?;
        for n in 0..ctx.b(75, 140) {
            for fill in [0u8, 1, 36, 68, 0xff] {
                let mut raw = vec![fill; n + 1];
                raw[0] = sel;
                any(network, &raw, ch)?;
                if n >= 36 {
                    raw[1..5].copy_from_slice(&36u32.to_le_bytes());
                    any(network, &raw, ch)?;
                    raw[33..37].copy_from_slice(&68u32.to_le_bytes());
                    any(network, &raw, ch)?;
                }
            }
        }
        Ok(())
    });
    ctx.explore("texts", |ch| {
        let raw = ramp(7, ch.pick(40));
        let text = format!("0x{}", hex::encode(&raw));
        ch.eval();
        let k = RawContentKey::from_str(&text).map_err(|e| format!("{text} is refused: {e}"))?;
        check_eq!(k.to_vec(), raw, "bytes of {text}");
        ch.outcome(&text);
        Ok(())
    });
}
