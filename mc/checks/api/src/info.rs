//! W11: the protocol information in a node record.

use alloy_rlp::{Decodable, Encodable};
use ethportal_api::{ProtocolInfo, ProtocolVersion};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

/// The shortest big-endian form, as a string item.
fn item(n: u64) -> Vec<u8> {
    if n == 0 {
        return vec![0x80];
    }
    let be: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    match be[..] {
        [b] if b < 0x80 => be,
        _ => [vec![0x80 + be.len() as u8], be].concat(),
    }
}

fn list(payload: &[u8]) -> Vec<u8> {
    if payload.len() < 56 {
        [&[0xc0 + payload.len() as u8], payload].concat()
    } else {
        [&[0xf8, payload.len() as u8], payload].concat()
    }
}

/// A number of at most `size` bytes in its shortest form and what follows it.
fn number(bytes: &[u8], size: usize) -> Option<(u64, &[u8])> {
    let (&b, rest) = bytes.split_first()?;
    if b < 0x80 {
        return (b != 0).then_some((b as u64, rest));
    }
    let len = (b as usize).checked_sub(0x80).filter(|l| *l <= size)?;
    if rest.len() < len {
        return None;
    }
    let (be, rest) = rest.split_at(len);
    if be.first() == Some(&0) || (len == 1 && be[0] < 0x80) {
        return None;
    }
    Some((be.iter().fold(0, |n, b| n << 8 | *b as u64), rest))
}

/// Lowest and highest version, chain and number of bytes read.
fn read(bytes: &[u8]) -> Option<(u8, u8, u64, usize)> {
    let (&b, rest) = bytes.split_first()?;
    let (len, rest) = match b {
        0xc0..=0xf7 => ((b - 0xc0) as usize, rest),
        0xf8 => {
            let (&l, rest) = rest.split_first()?;
            (Some(l as usize).filter(|l| *l >= 56)?, rest)
        }
        _ => return None,
    };
    if rest.len() < len {
        return None;
    }
    let payload = &rest[..len];
    let (min, payload) = number(payload, 1)?;
    let (max, payload) = number(payload, 1)?;
    let (chain, _) = number(payload, 8)?;
    (min <= max).then_some((min as u8, max as u8, chain, bytes.len() - rest.len() + len))
}

/// Compares what is read from these bytes with the reference.
fn bytes(ch: &mut Ch, bytes: &[u8]) -> Res {
    let mut rest = bytes;
    let got = match vc::no_panic(|| ProtocolInfo::decode(&mut rest)) {
        Ok(got) => got.ok(),
        Err(e) => fail!("{bytes:02x?}: {e}"),
    };
    let want = read(bytes);
    ch.evals(1);
    ch.outcome(&(want.is_some(), bytes.first().copied()));
    check_eq!(
        got.map(|i| (*i.min_protocol_version(), *i.max_protocol_version(), i.chain_id())),
        want.map(|w| (w.0, w.1, w.2)),
        "what {bytes:02x?} means"
    );
    if let Some((.., used)) = want {
        check_eq!(bytes.len() - rest.len(), used, "bytes of {bytes:02x?} that are read");
    }
    Ok(())
}

const VERSIONS: [u8; 7] = [0, 1, 2, 3, 127, 128, 255];
const CHAINS: [u64; 9] = [0, 1, 127, 128, 255, 256, 11155111, 1 << 32, u64::MAX];

fn values(ch: &mut Ch) -> Res {
    let (min, max, chain) = (*ch.choose(&VERSIONS), *ch.choose(&VERSIONS), *ch.choose(&CHAINS));
    ch.note(|| format!("{min} to {max} on {chain}"));
    let made = ProtocolInfo::new(ProtocolVersion::from(min), ProtocolVersion::from(max), chain);
    check_eq!(made.is_ok(), min <= max, "versions {min} to {max} are possible");
    let payload = [item(min as u64), item(max as u64), item(chain)].concat();
    let want = list(&payload);
    if let Ok(info) = made {
        check_eq!((*info.min_protocol_version(), *info.max_protocol_version(), info.chain_id()), (min, max, chain), "what was put in");
        let got = alloy_rlp::encode(info);
        check_eq!(got, want, "encoding of {info:?}");
        check_eq!(info.length(), want.len(), "length stated for {info:?}");
        for v in 0..=255u8 {
            check_eq!(info.supports(v.into()), min <= v && v <= max, "{info:?} has version {v}");
        }
        ch.evals(256);
    }
    bytes(ch, &want)?;
    for cut in 0..want.len() {
        bytes(ch, &want[..cut])?;
        // the list is shorter than its items, with and without something behind it
        if cut > 0 {
            let mut short = want.clone();
            short[0] = 0xc0 + cut as u8 - 1;
            bytes(ch, &short)?;
        }
    }
    for more in [&[0x05u8][..], &[0x80], &[0xc0], &[0x83, 1, 2, 3], &[0xff], &[7; 60]] {
        // fields of later versions, and bytes behind the list
        bytes(ch, &list(&[&payload[..], more].concat()))?;
        bytes(ch, &[&want[..], more].concat())?;
    }
    // not a list
    let mut string = want.clone();
    string[0] -= 0x40;
    bytes(ch, &string)?;
    ch.state(&(min, max, chain));
    Ok(())
}

fn pairs(ch: &mut Ch) -> Res {
    let versions = [0u8, 1, 2, 3, 4, 254, 255];
    let mut side = || {
        let a = ch.pick(versions.len());
        let b = a + ch.pick(versions.len() - a);
        (versions[a], versions[b], *ch.choose(&[1u64, 11155111]))
    };
    let (ours, theirs) = (side(), side());
    ch.note(|| format!("{ours:?} and {theirs:?}"));
    let info = |s: (u8, u8, u64)| ProtocolInfo::new(s.0.into(), s.1.into(), s.2).map_err(|e| format!("{s:?}: {e}"));
    let (low, high) = (ours.0.max(theirs.0), ours.1.min(theirs.1));
    let want = (ours.2 == theirs.2 && low <= high).then_some(high);
    match (info(ours), info(theirs)) {
        (Ok(a), Ok(b)) => {
            let got = a.highest_common_protocol_version(&b).map(|v| *v);
            check_eq!(got, want, "version of {ours:?} with {theirs:?}");
            check_eq!(b.highest_common_protocol_version(&a).map(|v| *v), want, "version of {theirs:?} with {ours:?}");
        }
        (a, b) => fail!("{:?} {:?}", a.err(), b.err()),
    }
    ch.state(&(ours, theirs));
    ch.outcome(&want);
    Ok(())
}

pub fn w11(ctx: &Ctx) {
    ctx.explore("values", values);
    ctx.explore("two sides", pairs);
    let alphabet = [0x00u8, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0x88, 0xc0, 0xc1, 0xc3, 0xc4, 0xc5, 0xf8, 0xff];
    let base = alphabet.len() as u64;
    for len in 0..=ctx.b(5u32, 6) {
        ctx.range(&format!("strings of {len} bytes"), base.pow(len), |i, ch| {
            let s: Vec<u8> = (0..len).map(|k| alphabet[(i / base.pow(k) % base) as usize]).collect();
            bytes(ch, &s)
        });
    }
}
