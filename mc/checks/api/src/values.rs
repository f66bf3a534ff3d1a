use crate::reference::*;
use spec::execution::*;
use alloy::primitives::B256;
use ethportal_api::{
    light_client::{bootstrap::LightClientBootstrap, finality_update::LightClientFinalityUpdate, optimistic_update::LightClientOptimisticUpdate, update::LightClientUpdate},
    types::{
        content_key::{beacon::*, history, legacy_history, state::*},
        content_value::history::HistoryContentValue,
        execution::header_with_proof::BlockHeaderProof,
        state_trie::nibbles::Nibbles,
    },
    BeaconContentKey, BeaconContentValue, ContentValue, HistoryContentKey, LegacyHistoryContentKey, LegacyHistoryContentValue, StateContentKey,
    StateContentValue,
};
use ssz::Encode;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

const DIGESTS: [[u8; 4]; 4] = [[0x4a, 0x26, 0xc5, 0x8b], [0xbb, 0xa4, 0xda, 0x96], [0x6a, 0x95, 0xa1, 0xa9], [0xad, 0x53, 0x2c, 0xeb]];

fn le(n: u64) -> Part {
    Fixed(n.to_le_bytes().to_vec())
}

fn hashes(salt: u8, n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| hash(salt.wrapping_add(i as u8 * 3))).collect()
}

// ---- beacon ---------------------------------------------------------------------------------

fn beacon_header(slot: u64) -> Vec<u8> {
    container(&[le(slot), le(slot ^ 7), Fixed(hash(1).into()), Fixed(hash(2).into()), Fixed(hash(3).into())])
}

fn payload_header(fork: usize, extra: usize) -> Vec<u8> {
    let mut parts = vec![
        Fixed(hash(10).into()),
        Fixed(ramp(11, 20)),
        Fixed(hash(12).into()),
        Fixed(hash(13).into()),
        Fixed(ramp(14, 256)),
        Fixed(hash(15).into()),
        le(1),
        le(2),
        le(3),
        le(4),
        Var(ramp(16, extra)),
        Fixed(hash(17).into()),
        Fixed(hash(18).into()),
        Fixed(hash(19).into()),
        Fixed(hash(20).into()),
    ];
    if fork >= 2 {
        parts.extend([le(5), le(6)]);
    }
    container(&parts)
}

fn light_header(fork: usize, slot: u64, extra: usize) -> Part {
    if fork == 0 {
        Fixed(beacon_header(slot))
    } else {
        Var(container(&[Fixed(beacon_header(slot)), Var(payload_header(fork, extra)), Fixed(hashes(30, 4))]))
    }
}

fn committee() -> Part {
    Fixed([ramp(40, 512 * 48), ramp(41, 48)].concat())
}

fn aggregate() -> Part {
    Fixed([ramp(50, 64), ramp(51, 96)].concat())
}

const SLOT: u64 = 0x0102_0304;

fn beacon_value(kind: usize, fork: usize, extra: usize, many: usize) -> Vec<u8> {
    let long = (fork == 3) as usize;
    let body = match kind {
        0 => container(&[light_header(fork, SLOT, extra), committee(), Fixed(hashes(60, 5 + long))]),
        1 => {
            return list(
                &(0..many)
                    .map(|i| {
                        let update = container(&[
                            light_header(fork, SLOT + i as u64, extra),
                            committee(),
                            Fixed(hashes(61, 5 + long)),
                            light_header(fork, SLOT / 2, extra),
                            Fixed(hashes(62, 6 + long)),
                            aggregate(),
                            le(SLOT * 3),
                        ]);
                        [DIGESTS[fork].to_vec(), update].concat()
                    })
                    .collect::<Vec<_>>(),
            )
        }
        2 => container(&[
            light_header(fork, SLOT, extra),
            light_header(fork, SLOT / 2, extra),
            Fixed(hashes(63, 6 + long)),
            aggregate(),
            le(SLOT * 3),
        ]),
        3 => container(&[light_header(fork, SLOT, extra), aggregate(), le(SLOT * 3)]),
        _ => container(&[le(SLOT), Var(hashes(64, 2 * many)), Fixed(hashes(65, 6))]),
    };
    [DIGESTS[fork].to_vec(), body].concat()
}

fn beacon_key(kind: usize) -> BeaconContentKey {
    match kind {
        0 => BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: hash(1) }),
        1 => BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: 1, count: 2 }),
        2 => BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(3)),
        3 => BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(4)),
        _ => BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: 5 }),
    }
}

fn beacon_kind(v: &BeaconContentValue) -> usize {
    match v {
        BeaconContentValue::LightClientBootstrap(_) => 0,
        BeaconContentValue::LightClientUpdatesByRange(_) => 1,
        BeaconContentValue::LightClientFinalityUpdate(_) => 2,
        BeaconContentValue::LightClientOptimisticUpdate(_) => 3,
        BeaconContentValue::HistoricalSummariesWithProof(_) => 4,
    }
}

/// Reads the slots out of a decoded value and compares them with those put in.
fn beacon_fields(v: &BeaconContentValue, fork: usize, many: usize) -> Res {
    macro_rules! slots {
        ($v:expr, $e:ident, |$u:ident| $read:expr) => {
            match $v {
                $e::Bellatrix($u) => (0usize, $read),
                $e::Capella($u) => (1, $read),
                $e::Deneb($u) => (2, $read),
                $e::Electra($u) => (3, $read),
            }
        };
    }
    match v {
        BeaconContentValue::LightClientBootstrap(b) => {
            let got = slots!(&b.bootstrap, LightClientBootstrap, |u| (u.header.beacon.slot, u.header.beacon.parent_root, u.current_sync_committee.aggregate_pubkey.inner.to_vec(), u.current_sync_committee_branch[0]));
            check_eq!(got, (fork, (SLOT, B256::from(hash(1)), ramp(41, 48), B256::from(hash(60)))), "fields of a bootstrap");
            check_eq!(b.get_slot(), SLOT, "slot of a bootstrap");
        }
        BeaconContentValue::LightClientUpdatesByRange(l) => {
            check_eq!(l.len(), many, "number of updates");
            for (i, u) in l.iter().enumerate() {
                let got = slots!(&u.update, LightClientUpdate, |u| (u.attested_header.beacon.slot, u.finalized_header.beacon.slot, u.signature_slot, u.next_sync_committee_branch[0], u.finality_branch[0]));
                check_eq!(got, (fork, (SLOT + i as u64, SLOT / 2, SLOT * 3, B256::from(hash(61)), B256::from(hash(62)))), "fields of update {i}");
            }
        }
        BeaconContentValue::LightClientFinalityUpdate(f) => {
            let got = slots!(&f.update, LightClientFinalityUpdate, |u| (u.attested_header.beacon.slot, u.finalized_header.beacon.slot, u.signature_slot, u.finality_branch[0]));
            check_eq!(got, (fork, (SLOT, SLOT / 2, SLOT * 3, B256::from(hash(63)))), "fields of a finality update");
            check_eq!(f.get_finalized_slot(), SLOT / 2, "finalized slot");
        }
        BeaconContentValue::LightClientOptimisticUpdate(o) => {
            let got = slots!(&o.update, LightClientOptimisticUpdate, |u| (u.attested_header.beacon.slot, u.signature_slot, u.sync_aggregate.sync_committee_signature.signature.to_vec()));
            check_eq!(got, (fork, (SLOT, SLOT * 3, ramp(51, 96))), "fields of an optimistic update");
        }
        BeaconContentValue::HistoricalSummariesWithProof(h) => {
            let h = &h.historical_summaries_with_proof;
            check_eq!((h.epoch, h.historical_summaries.len(), h.proof[0]), (SLOT, many, B256::from(hash(65))), "fields of summaries");
            if many > 0 {
                check_eq!(
                    (h.historical_summaries[0].block_summary_root, h.historical_summaries[0].state_summary_root),
                    (B256::from(hash(64)), B256::from(hash(67))),
                    "first summary"
                );
            }
        }
    }
    Ok(())
}

fn beacon_decode(kind: usize, raw: &[u8]) -> Option<(BeaconContentValue, Vec<u8>)> {
    let v = BeaconContentValue::decode(&beacon_key(kind), raw).ok()?;
    let again = v.encode().to_vec();
    Some((v, again))
}

fn beacon(ctx: &Ctx) {
    ctx.explore("beacon values", |ch| {
        let kind = ch.pick(5);
        let fork = ch.pick(4);
        let extra = *ch.choose(&[0usize, 1, 31, 32]);
        let many = *ch.choose(&[0usize, 1, 2, 3]);
        ch.note(|| format!("kind {kind}, fork {fork}, extra data {extra}, items {many}"));
        let raw = beacon_value(kind, fork, extra, many);
        match canonical("value", &raw, ch, |r| beacon_decode(kind, r))? {
            None => fail!("value of kind {kind} and fork {fork} is refused"),
            Some(v) => {
                check_eq!(beacon_kind(&v), kind, "kind of the decoded value");
                beacon_fields(&v, fork, many)?;
                let text = v.to_hex();
                check_eq!(text, format!("0x{}", hex::encode(&raw)), "text of the value");
                check_eq!(BeaconContentValue::from_hex(&beacon_key(kind), &text).ok(), Some(v), "value from its text");
            }
        }
        for other in 0..5 {
            if let Some(v) = canonical("value", &raw, ch, |r| beacon_decode(other, r))? {
                check_eq!(beacon_kind(&v), other, "kind decoded under another key");
                check!(other == kind, "a value of kind {kind} is accepted under a key of kind {other}");
            }
        }
        ch.outcome(&(kind, fork, extra, many));
        Ok(())
    });
    ctx.explore("beacon fork digests", |ch| {
        let kind = ch.pick(5);
        let fork = ch.pick(4);
        let raw = beacon_value(kind, fork, 3, 1);
        let at = if kind == 1 { 4 } else { 0 };
        for i in 0..4 {
            for bit in 0..8 {
                let mut bad = raw.clone();
                bad[at + i] ^= 1 << bit;
                check!(canonical("value", &bad, ch, |r| beacon_decode(kind, r))?.is_none(), "an unknown fork digest is accepted");
            }
        }
        for other in 0..4 {
            let mut bad = raw.clone();
            bad[at..at + 4].copy_from_slice(&DIGESTS[other]);
            let got = canonical("value", &bad, ch, |r| beacon_decode(kind, r))?;
            let same_layout = other == fork || kind == 4 || (kind == 3 && other.min(fork) == 2 && other.max(fork) == 3);
            check_eq!(got.is_some(), same_layout, "kind {kind} of fork {fork} labelled {other}");
            ch.outcome(&(kind, fork, other));
        }
        Ok(())
    });
    ctx.explore("edited beacon values", |ch| {
        let kind = ch.pick(5);
        let fork = ch.pick(4);
        let raw = beacon_value(kind, fork, 2, 2);
        ch.note(|| format!("edits of kind {kind} and fork {fork}"));
        let n = raw.len();
        edits(&raw, ctx.b(16, 250), false, |bad| {
            let got = canonical("value", bad, ch, |r| beacon_decode(kind, r))?;
            check!(got.is_none() || bad.len() == n || (kind == 1 && bad.is_empty()) || kind == 4 || fork > 0, "a value of the wrong length is accepted");
            ch.outcome(&(kind, fork, got.is_some()));
            Ok(())
        })?;
        // Offsets inside the value.
        for at in (0..n.min(40)).chain(116..132).chain(n.saturating_sub(40)..n) {
            for b in [0u8, 1, 4, 12, 0xff] {
                let mut bad = raw.clone();
                bad[at] = b;
                canonical("value", &bad, ch, |r| beacon_decode(kind, r))?;
            }
        }
        Ok(())
    });
    ctx.range("short beacon values", 5, |kind, ch| {
        let kind = kind as usize;
        for d in DIGESTS {
            for n in 0..=12 {
                for fill in [0u8, 4, 0xff] {
                    let mut raw = d.to_vec();
                    raw.extend(vec![fill; 8]);
                    raw.truncate(n);
                    let got = canonical("value", &raw, ch, |r| beacon_decode(kind, r))?;
                    check!(got.is_none() || (kind == 1 && n == 0), "{} is accepted", short(&raw));
                    ch.outcome(&(kind, n));
                }
            }
        }
        Ok(())
    });
    ctx.explore("numbers of updates", |ch| {
        let many = *ch.choose(&[127usize, 128, 129]);
        let raw = beacon_value(1, 0, 0, many);
        let got = canonical("value", &raw, ch, |r| beacon_decode(1, r))?;
        check_eq!(got.is_some(), many <= 128, "acceptance of {many} updates");
        ch.outcome(&many);
        Ok(())
    });
}

// ---- execution ------------------------------------------------------------------------------

/// A header proof of the right size for a kind: pre-merge, roots, Capella, Deneb.
fn proof(kind: usize) -> Vec<u8> {
    let slot = 0x0a0b0cu64.to_le_bytes().to_vec();
    match kind {
        0 => hashes(70, 15),
        1 => [hashes(71, 14), hash(72).into(), hashes(73, 11), slot].concat(),
        2 => [hashes(74, 13), hash(75).into(), hashes(76, 11), slot].concat(),
        _ => [hashes(77, 13), hash(78).into(), hashes(79, 12), slot].concat(),
    }
}

const FORKS: [(u64, u64, usize); 8] = [
    (0, 0, 0),
    (15_537_393, 1_663_224_161, 0),
    (15_537_394, 1_663_224_179, 1),
    (17_034_869, 1_681_338_454, 1),
    (17_034_870, 1_681_338_455, 2),
    (19_426_586, 1_710_338_134, 2),
    (19_426_587, 1_710_338_135, 3),
    (22_431_084, 1_746_612_311, 3),
];

fn legacy_key(kind: usize) -> LegacyHistoryContentKey {
    use legacy_history::*;
    use LegacyHistoryContentKey as K;
    match kind {
        0 => K::BlockHeaderByHash(BlockHeaderByHashKey { block_hash: hash(1) }),
        1 => K::BlockBody(BlockBodyKey { block_hash: hash(1) }),
        2 => K::BlockReceipts(BlockReceiptsKey { block_hash: hash(1) }),
        3 => K::BlockHeaderByNumber(BlockHeaderByNumberKey { block_number: 1 }),
        4 => K::EphemeralHeadersFindContent(EphemeralHeadersFindContentKey { block_hash: hash(1), ancestor_count: 3 }),
        _ => K::EphemeralHeaderOffer(EphemeralHeaderOfferKey { block_hash: hash(1) }),
    }
}

fn legacy_kind(v: &LegacyHistoryContentValue) -> usize {
    match v {
        LegacyHistoryContentValue::BlockHeaderWithProof(_) => 0,
        LegacyHistoryContentValue::BlockBody(_) => 1,
        LegacyHistoryContentValue::Receipts(_) => 2,
        LegacyHistoryContentValue::EphemeralHeadersFindContent(_) => 4,
        LegacyHistoryContentValue::EphemeralHeaderOffer(_) => 5,
    }
}

fn legacy_decode(kind: usize, raw: &[u8]) -> Option<(LegacyHistoryContentValue, Vec<u8>)> {
    let v = LegacyHistoryContentValue::decode(&legacy_key(kind), raw).ok()?;
    let again = v.encode().to_vec();
    Some((v, again))
}

/// A value with the kind it has (3 is a header under its number).
fn legacy_value(ch: &mut Ch, small: bool) -> (usize, Vec<u8>) {
    let kind = ch.pick(6);
    let txs = |ch: &mut Ch| -> Vec<Vec<u8>> {
        let n = ch.pick(if small { 2 } else { 3 });
        (0..n).map(|_| transaction(ch.pick(5) as u8, ch.pick(if small { 1 } else { 3 }))).collect()
    };
    let raw = match kind {
        0 | 3 => {
            let (n, t, p) = *ch.choose(&FORKS);
            let extra = *ch.choose(if small { &[3usize][..] } else { &[0usize, 1, 32] });
            container(&[Var(header(n, t, extra, [0, 1, 2, 5, 6][p + (n > 20_000_000) as usize])), Var(proof(p))])
        }
        1 => {
            let txs = txs(ch);
            if ch.flag() {
                let n = ch.pick(3);
                let w: Vec<Vec<u8>> = (0..n).map(|i| rlp(&withdrawal(i as u64 * 200))).collect();
                container(&[Var(list(&txs)), Var(vec![0xc0]), Var(list(&w))])
            } else {
                let n = ch.pick(3);
                let ommers: Vec<Vec<u8>> = (0..n).map(|i| header(i as u64, 9, i, i)).collect();
                container(&[Var(list(&txs)), Var(raw_list(&ommers))])
            }
        }
        2 => {
            let n = ch.pick(if small { 2 } else { 3 });
            let r: Vec<Vec<u8>> = (0..n).map(|i| receipt(ch.pick(5) as u8, ch.pick(2) as u128, (i + ch.pick(2)) % 3)).collect();
            list(&r)
        }
        4 => {
            let n = ch.pick(4);
            list(&(0..n).map(|i| header(1 + i as u64, 1, i, 2 * i)).collect::<Vec<_>>())
        }
        _ => {
            let n = ch.pick(7);
            container(&[Var(header(5, 6, n, n))])
        }
    };
    (kind, raw)
}

fn legacy(ctx: &Ctx) {
    ctx.explore("legacy history values", |ch| {
        let (kind, raw) = legacy_value(ch, false);
        ch.note(|| format!("kind {kind}, {} bytes", raw.len()));
        match canonical("value", &raw, ch, |r| legacy_decode(kind, r))? {
            None => fail!("a value of kind {kind} is refused: {}", hex::encode(&raw)),
            Some(v) => {
                check_eq!(legacy_kind(&v), if kind == 3 { 0 } else { kind }, "kind of the decoded value");
                check_eq!(v.to_hex(), format!("0x{}", hex::encode(&raw)), "text of the value");
                if let LegacyHistoryContentValue::BlockHeaderWithProof(h) = &v {
                    let want = FORKS.iter().find(|f| f.0 == h.header.number).unwrap();
                    let got = match &h.proof {
                        BlockHeaderProof::HistoricalHashes(_) => 0,
                        BlockHeaderProof::HistoricalRoots(p) if p.slot == 0x0a0b0c => 1,
                        BlockHeaderProof::HistoricalSummariesCapella(p) if p.slot == 0x0a0b0c => 2,
                        BlockHeaderProof::HistoricalSummariesDeneb(p) if p.slot == 0x0a0b0c => 3,
                        _ => 9,
                    };
                    check_eq!(got, want.2, "proof kind of block {} at {}", want.0, want.1);
                }
            }
        }
        for other in 0..6 {
            if let Some(v) = canonical("value", &raw, ch, |r| legacy_decode(other, r))? {
                check_eq!(legacy_kind(&v), if other == 3 { 0 } else { other }, "kind decoded under another key");
            }
        }
        ch.outcome(&raw);
        Ok(())
    });
    ctx.explore("header proofs of the wrong kind", |ch| {
        let (n, t, want) = *ch.choose(&FORKS);
        let given = ch.pick(4);
        let raw = container(&[Var(header(n, t, 3, 0)), Var(proof(given))]);
        for key in [0, 3] {
            let got = canonical("value", &raw, ch, |r| legacy_decode(key, r))?;
            check_eq!(got.is_some(), proof(given).len() == proof(want).len(), "a proof of kind {given} with block {n} at {t}");
        }
        ch.outcome(&(n, given));
        Ok(())
    });
    ctx.explore("edited legacy history values", |ch| {
        let (kind, raw) = legacy_value(ch, true);
        ch.note(|| format!("edits of kind {kind}, {} bytes", raw.len()));
        edits(&raw, ctx.b(24, 120), false, |bad| {
            let got = canonical_but("value", bad, ch, parity_form, |r| legacy_decode(kind, r))?;
            ch.outcome(&(kind, got.is_some()));
            Ok(())
        })
    });
    ctx.explore("numbers of ephemeral headers", |ch| {
        let n = *ch.choose(&[255usize, 256, 257]);
        let raw = list(&(0..n).map(|i| header(i as u64, 1, 0, 0)).collect::<Vec<_>>());
        let got = canonical("value", &raw, ch, |r| legacy_decode(4, r))?;
        check_eq!(got.is_some(), n <= 256, "acceptance of {n} headers");
        ch.outcome(&n);
        Ok(())
    });
    ctx.explore("sizes of headers", |ch| {
        let extra = *ch.choose(&[1400usize, 1500, 1512, 1513, 1514, 1515, 1516, 1517, 1518, 1519, 1520, 1600]);
        let h = header(1, 1, extra, 0);
        let fits = h.len() <= 2048;
        for (kind, raw) in [(0, container(&[Var(h.clone()), Var(proof(0))])), (5, container(&[Var(h.clone())])), (4, list(&[h.clone()]))] {
            let got = canonical("value", &raw, ch, |r| legacy_decode(kind, r))?;
            check_eq!(got.is_some(), fits, "acceptance of a header of {} bytes as kind {kind}", h.len());
        }
        ch.outcome(&fits);
        Ok(())
    });
}

// ---- history --------------------------------------------------------------------------------

fn history_decode(kind: usize, raw: &[u8]) -> Option<(usize, Vec<u8>)> {
    let key = if kind == 0 {
        HistoryContentKey::BlockBody(history::BlockBodyKey { block_number: 1 })
    } else {
        HistoryContentKey::BlockReceipts(history::BlockReceiptsKey { block_number: 1 })
    };
    let v = HistoryContentValue::decode(&key, raw).ok()?;
    let kind = match &v {
        HistoryContentValue::BlockBody(_) => 0,
        HistoryContentValue::Receipts(_) => 1,
    };
    Some((kind, v.encode().to_vec()))
}

fn history_value(ch: &mut Ch, small: bool) -> (usize, Vec<u8>) {
    let kind = ch.pick(2);
    let raw = if kind == 0 {
        let n = ch.pick(if small { 2 } else { 3 });
        let txs: Vec<Vec<u8>> = (0..n).map(|_| wrapped(&transaction(ch.pick(5) as u8, ch.pick(if small { 1 } else { 3 })))).collect();
        let n = ch.pick(2);
        let ommers: Vec<Vec<u8>> = (0..n).map(|i| header(i as u64, 9, i, i)).collect();
        let mut parts = vec![raw_list(&txs), raw_list(&ommers)];
        match ch.pick(3) {
            0 => {}
            n => parts.push(raw_list(&(1..n).map(|i| rlp(&withdrawal(i as u64))).collect::<Vec<_>>())),
        }
        raw_list(&parts)
    } else {
        let n = ch.pick(3);
        let r: Vec<Vec<u8>> = (0..n)
            .map(|i| {
                let status = if ch.flag() { bytes(&hash(9)) } else { num(ch.pick(2) as u128) };
                let t = ch.pick(5) as u128;
                rlp(&Rlp::List(vec![num(t), status, num(21_000 + i as u128), logs(ch.pick(if small { 2 } else { 3 }))]))
            })
            .collect();
        raw_list(&r)
    };
    (kind, raw)
}

fn history(ctx: &Ctx) {
    ctx.explore("history values", |ch| {
        let (kind, raw) = history_value(ch, false);
        ch.note(|| format!("kind {kind}, {} bytes", raw.len()));
        match canonical("value", &raw, ch, |r| history_decode(kind, r))? {
            None => fail!("a value of kind {kind} is refused: {}", hex::encode(&raw)),
            Some(k) => check_eq!(k, kind, "kind of the decoded value"),
        }
        let other = canonical("value", &raw, ch, |r| history_decode(1 - kind, r))?;
        check!(other.is_none() || other == Some(1 - kind), "kind decoded under another key");
        ch.outcome(&raw);
        Ok(())
    });
    ctx.explore("edited history values", |ch| {
        let (kind, raw) = history_value(ch, true);
        ch.note(|| format!("edits of kind {kind}, {} bytes", raw.len()));
        edits(&raw, ctx.b(24, 120), false, |bad| {
            let got = canonical_but("value", bad, ch, parity_form, |r| history_decode(kind, r))?;
            ch.outcome(&(kind, got.is_some()));
            Ok(())
        })
    });
}

// ---- state ----------------------------------------------------------------------------------

fn state_key(kind: usize) -> StateContentKey {
    let path = Nibbles::try_from_unpacked_nibbles(&[1, 2]).unwrap();
    match kind {
        0 => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash: hash(1).into() }),
        1 => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: hash(2).into(), path, node_hash: hash(1).into() }),
        _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: hash(2).into(), code_hash: hash(3).into() }),
    }
}

fn state_kind(v: &StateContentValue) -> usize {
    match v {
        StateContentValue::TrieNode(_) => 0,
        StateContentValue::AccountTrieNodeWithProof(_) => 1,
        StateContentValue::ContractStorageTrieNodeWithProof(_) => 2,
        StateContentValue::ContractBytecode(_) => 3,
        StateContentValue::ContractBytecodeWithProof(_) => 4,
    }
}

/// The value kinds each key kind allows.
const ALLOWED: [[usize; 2]; 3] = [[0, 1], [0, 2], [3, 4]];

fn state_decode(key: usize, raw: &[u8]) -> Option<(StateContentValue, Vec<u8>)> {
    let v = StateContentValue::decode(&state_key(key), raw).ok()?;
    let again = v.encode().to_vec();
    Some((v, again))
}

/// The kind of a value, its encoding and the encodings of its fields before the block hash.
fn state_value(ch: &mut Ch) -> (usize, Vec<u8>, Vec<Vec<u8>>) {
    let kind = ch.pick(5);
    let some_proof = |ch: &mut Ch| {
        let n = ch.pick(3);
        list(&(0..n).map(|i| ramp(i as u8, *ch.choose(&[0usize, 1, 33]))).collect::<Vec<_>>())
    };
    let fields = match kind {
        0 => vec![ramp(1, *ch.choose(&[0usize, 1, 4, 32, 36, 1024]))],
        1 => vec![some_proof(ch)],
        2 => vec![some_proof(ch), some_proof(ch)],
        3 => vec![ramp(2, *ch.choose(&[0usize, 1, 24576, 32768]))],
        _ => vec![ramp(2, *ch.choose(&[0usize, 1, 40])), some_proof(ch)],
    };
    let mut parts: Vec<Part> = fields.iter().map(|f| Var(f.clone())).collect();
    if kind % 3 != 0 {
        parts.push(Fixed(hash(5).into()));
    }
    (kind, container(&parts), fields)
}

/// The fields a value was read into.
fn state_fields(v: &StateContentValue) -> (Vec<Vec<u8>>, Option<B256>) {
    match v {
        StateContentValue::TrieNode(v) => (vec![v.node.as_ssz_bytes()], None),
        StateContentValue::AccountTrieNodeWithProof(v) => (vec![v.proof.as_ssz_bytes()], Some(v.block_hash)),
        StateContentValue::ContractStorageTrieNodeWithProof(v) => (vec![v.storage_proof.as_ssz_bytes(), v.account_proof.as_ssz_bytes()], Some(v.block_hash)),
        StateContentValue::ContractBytecode(v) => (vec![v.code.as_ssz_bytes()], None),
        StateContentValue::ContractBytecodeWithProof(v) => (vec![v.code.as_ssz_bytes(), v.account_proof.as_ssz_bytes()], Some(v.block_hash)),
    }
}

fn state(ctx: &Ctx) {
    ctx.explore("state values", |ch| {
        let (kind, raw, fields) = state_value(ch);
        ch.note(|| format!("kind {kind}, {} bytes", raw.len()));
        for key in 0..3 {
            let got = canonical("value", &raw, ch, |r| state_decode(key, r))?;
            if let Some(v) = &got {
                check!(ALLOWED[key].contains(&state_kind(v)), "a key of kind {key} gives a value of kind {}", state_kind(v));
            }
            if ALLOWED[key].contains(&kind) {
                check_eq!(got.as_ref().map(state_kind), Some(kind), "kind decoded under key {key}");
                let hash = (kind % 3 != 0).then(|| B256::from(hash(5)));
                check_eq!(got.as_ref().map(state_fields), Some((fields.clone(), hash)), "fields");
            }
        }
        ch.outcome(&raw);
        Ok(())
    });
    ctx.explore("edited state values", |ch| {
        let (kind, raw, _) = state_value(ch);
        if raw.len() > 200 {
            return Ok(());
        }
        edits(&raw, ctx.b(60, 200), ctx.b(0, 1) == 1, |bad| {
            for key in 0..3 {
                let got = canonical("value", bad, ch, |r| state_decode(key, r))?;
                if let Some(v) = &got {
                    check!(ALLOWED[key].contains(&state_kind(v)), "a key of kind {key} gives a value of kind {}", state_kind(v));
                }
                ch.outcome(&(kind, key, got.map(|v| state_kind(&v))));
            }
            Ok(())
        })
    });
    ctx.explore("state limits", |ch| {
        let what = ch.pick(4);
        let over = ch.pick(3);
        let (key, raw) = match what {
            0 => (0, container(&[Var(ramp(1, 1023 + over))])),
            1 => (2, container(&[Var(ramp(1, 32767 + over))])),
            2 => (0, container(&[Var(list(&vec![ramp(1, 3); 64 + over])), Fixed(hash(5).into())])),
            _ => (1, container(&[Var(list(&vec![ramp(1, 3); 64 + over])), Var(list(&[ramp(1, 1023 + over)])), Fixed(hash(5).into())])),
        };
        let got = canonical("value", &raw, ch, |r| state_decode(key, r))?;
        check_eq!(got.is_some(), over < 2, "limit {what} with {over}");
        ch.outcome(&(what, over));
        Ok(())
    });
}

pub fn w07(ctx: &Ctx) {
    legacy(ctx);
    history(ctx);
    state(ctx);
    beacon(ctx);
}
