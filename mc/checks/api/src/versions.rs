use crate::reference::short;
use alloy::primitives::Bytes;
use alloy_hardforks::EthereumChainHardforks;
use bimap::BiHashMap;
use discv5::enr::CombinedKey;
use ethportal_api::types::{
    accept_code::{accept_code_hex, AcceptCode, AcceptCodeList},
    enr::Enr,
    network::Network,
    network_spec::{NetworkSpec, ANGELFOOD, MAINNET, SEPOLIA},
    protocol_versions::*,
};
use std::sync::Arc;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

const CODES: [(u8, AcceptCode); 7] = [
    (0, AcceptCode::Accepted),
    (1, AcceptCode::Declined),
    (2, AcceptCode::AlreadyStored),
    (3, AcceptCode::NotWithinRadius),
    (4, AcceptCode::RateLimited),
    (5, AcceptCode::InboundTransferInProgress),
    (255, AcceptCode::Unspecified),
];

fn code(b: u8) -> AcceptCode {
    CODES.iter().find(|(n, _)| *n == b).map(|(_, c)| *c).unwrap_or(AcceptCode::Unspecified)
}

/// The bit list of the accepted positions: a closing one bit follows the last position.
fn bits(accepted: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; accepted.len() / 8 + 1];
    for (i, a) in accepted.iter().enumerate() {
        out[i / 8] |= (*a as u8) << (i % 8);
    }
    out[accepted.len() / 8] |= 1 << (accepted.len() % 8);
    out
}

fn unbits(raw: &[u8]) -> Option<Vec<bool>> {
    let last = *raw.last()?;
    if last == 0 {
        return None;
    }
    let len = (raw.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
    if len > 64 {
        return None;
    }
    Some((0..len).map(|i| raw[i / 8] >> (i % 8) & 1 == 1).collect())
}

fn versions_with_codes() -> Vec<ProtocolVersion> {
    vec![ProtocolVersion::V1, ProtocolVersion::V2, ProtocolVersion::UnspecifiedVersion(3), ProtocolVersion::UnspecifiedVersion(255)]
}

fn case(codes: &[u8], ch: &mut Ch) -> Res {
    ch.note(|| format!("codes {codes:?}"));
    ch.eval();
    let n = codes.len();
    let want: Vec<AcceptCode> = codes.iter().map(|c| code(*c)).collect();
    let mut l = AcceptCodeList::new(n).map_err(|e| format!("a list of {n} is refused: {e:?}"))?;
    check_eq!(l.to_vec(), vec![AcceptCode::Declined; n], "fresh list");
    for (i, c) in want.iter().enumerate() {
        l.set(i, *c);
    }
    check_eq!(l.to_vec(), want, "list after setting");
    check_eq!(l.all_declined(), !codes.contains(&0), "whether {codes:?} declines everything");
    for v in versions_with_codes() {
        let raw = l.encode(v).map_err(|e| format!("{codes:?} does not encode: {e}"))?;
        let bytes: Vec<u8> = want.iter().map(|c| CODES.iter().find(|x| x.1 == *c).unwrap().0).collect();
        check_eq!(raw.to_vec(), bytes, "encoding of {codes:?} in version {v:?}");
        let back = AcceptCodeList::decode(v, Bytes::from(codes.to_vec())).map_err(|e| format!("{codes:?} is refused: {e}"))?;
        check_eq!(back.to_vec(), want, "decoded {codes:?} in version {v:?}");
    }
    let accepted: Vec<bool> = codes.iter().map(|c| *c == 0).collect();
    let raw = l.encode(ProtocolVersion::V0).map_err(|e| format!("{codes:?} does not encode: {e}"))?;
    check_eq!(raw.to_vec(), bits(&accepted), "bit list of {codes:?}");
    let back = AcceptCodeList::decode(ProtocolVersion::V0, raw).map_err(|e| format!("bit list of {codes:?} is refused: {e}"))?;
    let reduced: Vec<AcceptCode> = accepted.iter().map(|a| if *a { AcceptCode::Accepted } else { AcceptCode::Declined }).collect();
    check_eq!(back.to_vec(), reduced, "list from the bit list of {codes:?}");
    let json = accept_code_hex::serialize(&l, serde_json::value::Serializer).map_err(|e| format!("{codes:?} does not serialise: {e}"))?;
    let back = accept_code_hex::deserialize(json.clone()).map_err(|e| format!("{json} is refused: {e}"))?;
    check_eq!(back.to_vec(), want, "list from text {json}");
    let json = serde_json::to_value(&l).map_err(|e| format!("{codes:?} does not serialise: {e}"))?;
    check_eq!(serde_json::from_value::<AcceptCodeList>(json).map(|l| l.to_vec()).map_err(|e| e.to_string()), Ok(want), "list from numbers");
    ch.outcome(&codes);
    Ok(())
}

fn raw_case(raw: &[u8], ch: &mut Ch) -> Res {
    ch.eval();
    for v in versions_with_codes() {
        let got = vc::no_panic(|| AcceptCodeList::decode(v, Bytes::from(raw.to_vec())))?;
        match got {
            Ok(l) if raw.len() <= 64 => {
                check_eq!(l.to_vec(), raw.iter().map(|c| code(*c)).collect::<Vec<_>>(), "codes of {}", short(raw))
            }
            Ok(_) => fail!("{} codes are accepted", raw.len()),
            Err(e) if raw.len() <= 64 => fail!("codes {} are refused: {e}", short(raw)),
            Err(_) => {}
        }
    }
    let got = vc::no_panic(|| AcceptCodeList::decode(ProtocolVersion::V0, Bytes::from(raw.to_vec())))?;
    let want = unbits(raw).map(|v| v.into_iter().map(|a| if a { AcceptCode::Accepted } else { AcceptCode::Declined }).collect::<Vec<_>>());
    check_eq!(got.as_ref().ok().map(|l| l.to_vec()), want, "bit list {}", short(raw));
    ch.outcome(&want.map(|w| w.len()));
    Ok(())
}

pub fn w04(ctx: &Ctx) {
    ctx.explore("short lists", |ch| {
        let n = ch.pick(ctx.b(6, 7));
        let codes: Vec<u8> = (0..n).map(|_| CODES[ch.pick(7)].0).collect();
        case(&codes, ch)
    });
    ctx.explore("lists of all lengths", |ch| {
        let n = ch.pick(65);
        let rest = CODES[ch.pick(7)].0;
        let at = ch.pick(n + 1);
        let odd = CODES[ch.pick(7)].0;
        let mut codes = vec![rest; n];
        if at < n {
            codes[at] = odd;
        }
        case(&codes, ch)
    });
    ctx.range("every code byte", 256, |i, ch| {
        for n in [1usize, 2, 64] {
            let mut codes = vec![1u8; n];
            codes[n - 1] = i as u8;
            case(&codes, ch)?;
        }
        Ok(())
    });
    ctx.range("raw byte strings", 256, |i, ch| {
        raw_case(&[], ch)?;
        raw_case(&[i as u8], ch)?;
        for j in 0..=255u8 {
            raw_case(&[i as u8, j], ch)?;
            for fill in [0u8, 0xff] {
                for n in [7usize, 8, 9, 10] {
                    let mut raw = vec![fill; n];
                    raw[n - 2] = i as u8;
                    raw[n - 1] = j;
                    raw_case(&raw, ch)?;
                }
            }
        }
        Ok(())
    });
    ctx.range("lists around the limit", 200, |n, ch| {
        ch.eval();
        let n = n as usize;
        check_eq!(AcceptCodeList::new(n).is_ok(), n <= 64, "a new list of {n}");
        for fill in [0u8, 1, 5, 6, 255] {
            raw_case(&vec![fill; n], ch)?;
        }
        Ok(())
    });
}

fn record(list: Option<&[u8]>, raw: bool) -> Enr {
    let mut secret = [7u8; 32];
    let key = CombinedKey::secp256k1_from_bytes(&mut secret).expect("key");
    let mut b = Enr::builder();
    b.seq(1);
    if let Some(l) = list {
        if raw {
            b.add_value(ENR_PROTOCOL_VERSION_KEY, &Bytes::from(l.to_vec()));
        } else {
            let l = ProtocolVersionList::new(l.iter().map(|v| ProtocolVersion::from(*v)).collect());
            b.add_value(ENR_PROTOCOL_VERSION_KEY, &l);
        }
    }
    b.build(&key).expect("record")
}

fn spec(list: &[u8]) -> NetworkSpec {
    NetworkSpec::new(
        BiHashMap::new(),
        Network::Mainnet,
        ProtocolVersionList::new(list.iter().map(|v| ProtocolVersion::from(*v)).collect()),
        EthereumChainHardforks::mainnet(),
        0,
    )
    .expect("spec")
}

/// `Err(true)` is an undecodable list, `Err(false)` is no common version.
fn chosen(spec: &NetworkSpec, e: &Enr) -> Result<u8, bool> {
    match spec.latest_common_protocol_version(e) {
        Ok(v) => Ok(v.into()),
        Err(ProtocolVersionError::FailedToDecode) => Err(true),
        Err(ProtocolVersionError::NoMatchingVersion) => Err(false),
    }
}

fn highest(a: &[u8], b: &[u8]) -> Result<u8, bool> {
    a.iter().filter(|v| b.contains(v)).max().copied().ok_or(false)
}

pub fn w05(ctx: &Ctx) {
    let pool = [0u8, 1, 2, 3, 4, 9, 200, 255];
    ctx.explore("pairs of version lists", |ch| {
        let pick = |ch: &mut Ch, n: usize| -> Vec<u8> {
            let s = ch.subset(n);
            (0..n).filter(|i| s >> *i & 1 == 1).map(|i| pool[i]).collect()
        };
        let (ours, theirs) = (pick(ch, 3), pick(ch, 8));
        ch.note(|| format!("ours {ours:?}, theirs {theirs:?}"));
        ch.eval();
        let got = chosen(&spec(&ours), &record(Some(&theirs), false));
        check_eq!(got, highest(&ours, &theirs), "version of {ours:?} with {theirs:?}");
        if theirs.iter().all(|v| *v <= 2) {
            let other = chosen(&spec(&theirs), &record(Some(&ours), false));
            check_eq!(got, other, "versions chosen by the two sides");
        }
        ch.outcome(&got);
        Ok(())
    });
    ctx.explore("records in any order", |ch| {
        let ours = vec![0u8, 1, 2];
        let n = ch.pick(ctx.b(5, 6));
        let theirs: Vec<u8> = (0..n).map(|_| *ch.choose(&[0u8, 1, 2, 3, 255])).collect();
        ch.note(|| format!("theirs {theirs:?}"));
        ch.eval();
        let raw = ch.flag();
        check_eq!(chosen(&spec(&ours), &record(Some(&theirs), raw)), highest(&ours, &theirs), "version with {theirs:?}");
        ch.outcome(&theirs);
        Ok(())
    });
    ctx.explore("records without or with odd lists", |ch| {
        let n = 3;
        let s = ch.subset(n);
        let ours: Vec<u8> = (0..n).filter(|i| s >> *i & 1 == 1).map(|i| pool[i]).collect();
        ch.eval();
        let len = ch.pick(14);
        check_eq!(chosen(&spec(&ours), &record(None, false)), Ok(0), "version with a record without a list");
        let list: Vec<u8> = (0..len as u8).collect();
        let want = if len > 8 { Err(true) } else { highest(&ours, &list) };
        check_eq!(chosen(&spec(&ours), &record(Some(&list), true)), want, "version with {list:?}");
        ch.outcome(&(ours, len));
        Ok(())
    });
    ctx.explore("lists as bytes", |ch| {
        let n = ch.pick(9);
        let list: Vec<u8> = if n <= 3 { (0..n).map(|_| *ch.choose(&[0u8, 1, 2, 3, 127, 128, 255])).collect() } else { (0..n as u8).collect() };
        ch.eval();
        let l = ProtocolVersionList::new(list.iter().map(|v| ProtocolVersion::from(*v)).collect());
        let raw = alloy_rlp::encode(&l);
        let want = crate::reference::rlp(&crate::reference::bytes(&list));
        check_eq!(raw, want, "encoding of {list:?}");
        let back: ProtocolVersionList = alloy_rlp::Decodable::decode(&mut raw.as_slice()).map_err(|e| format!("{list:?} is refused: {e}"))?;
        check_eq!(back, l, "decoded {list:?}");
        let sorted = list.windows(2).all(|w| w[0] < w[1]) && list.iter().all(|v| *v <= 2);
        check_eq!(l.is_strictly_sorted_and_specified(), sorted, "whether {list:?} is sorted");
        let e = record(Some(&list), false);
        let back = e.get_decodable::<ProtocolVersionList>(ENR_PROTOCOL_VERSION_KEY);
        check!(matches!(&back, Some(Ok(b)) if *b == l), "{list:?} comes back from the record as {back:?}");
        ch.outcome(&list);
        Ok(())
    });
    ctx.range("every version number", 256, |i, ch| {
        ch.eval();
        let i = i as u8;
        let v = ProtocolVersion::from(i);
        check_eq!(u8::from(v), i, "number of version {i}");
        check_eq!(v.is_v1_enabled(), i >= 1, "codes in version {i}");
        for j in 0..=255u8 {
            check_eq!(v.cmp(&ProtocolVersion::from(j)), i.cmp(&j), "order of versions {i} and {j}");
            check_eq!(v == ProtocolVersion::from(j), i == j, "equality of versions {i} and {j}");
        }
        ch.outcome(&i);
        Ok(())
    });
    ctx.once("shipped networks", |ch| {
        for (name, spec, ours) in [
            ("mainnet", Arc::clone(&MAINNET), vec![0u8, 1]),
            ("angelfood", Arc::clone(&ANGELFOOD), vec![0]),
            ("sepolia", Arc::clone(&SEPOLIA), vec![1]),
        ] {
            let l: Vec<u8> = spec.supported_protocol_versions().iter().map(|v| u8::from(*v)).collect();
            check_eq!(l, ours, "versions of {name}");
            for mask in 0..8u8 {
                ch.eval();
                let theirs: Vec<u8> = (0..3).filter(|i| mask >> i & 1 == 1).collect();
                check_eq!(chosen(&spec, &record(Some(&theirs), false)), highest(&ours, &theirs), "{name} with {theirs:?}");
            }
            ch.outcome(&name);
        }
        Ok(())
    });
}
