use crate::reference::{canonical, short};
use alloy::primitives::U256;
use discv5::enr::NodeId;
use ethportal_api::types::{
    distance::{Distance, Metric, XorMetric},
    node_id::{generate_random_node_id, generate_random_node_ids},
    state_trie::nibbles::Nibbles,
};
use ssz::{Decode, Encode};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

fn id(parts: &[(usize, u8)]) -> [u8; 32] {
    let mut v = [0; 32];
    for (i, b) in parts {
        v[*i] = *b;
    }
    v
}

fn ids(ch: &mut Ch, fine: bool) -> [u8; 32] {
    match ch.pick(4) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => {
            let at = if fine { ch.pick(32) } else { *ch.choose(&[0usize, 1, 3, 4, 15, 31]) };
            id(&[(at, *ch.choose(&[1u8, 0x80, 0xff]))])
        }
        _ => {
            let at = *ch.choose(&[0usize, 4, 30]);
            id(&[(at, *ch.choose(&[1u8, 2])), (31, 0x80)])
        }
    }
}

fn xor(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}

fn log(d: &[u8; 32]) -> Option<usize> {
    (0..256).find(|i| d[i / 8] >> (7 - i % 8) & 1 == 1).map(|i| 256 - i)
}

fn pair(a: &[u8; 32], b: &[u8; 32]) -> Res {
    let d = XorMetric::distance(a, b);
    let want = xor(a, b);
    check_eq!(hex::encode(d.big_endian()), hex::encode(want), "distance of {} and {}", short(a), short(b));
    check_eq!(XorMetric::distance(b, a), d, "distance the other way");
    check_eq!(d == Distance::ZERO, a == b, "zero distance");
    check_eq!(d.log2(), log(&want), "log distance of {}", short(&want));
    check_eq!(d.big_endian_u32(), u32::from_be_bytes(want[..4].try_into().unwrap()), "leading bytes of {}", short(&want));
    check_eq!(*d, U256::from_be_bytes(want), "number of the distance");
    check_eq!(Distance::from(U256::from_be_bytes(want)), d, "distance of the number");
    let raw = d.as_ssz_bytes();
    let mut le = want;
    le.reverse();
    check_eq!(raw, le.to_vec(), "bytes of the distance");
    check_eq!(Distance::from_ssz_bytes(&raw).ok(), Some(d), "distance from bytes");
    let json = serde_json::to_value(d).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_value::<Distance>(json).ok(), Some(d), "distance from JSON");
    Ok(())
}

pub fn w08(ctx: &Ctx) {
    ctx.explore("pairs", |ch| {
        let (a, b) = (ids(ch, true), ids(ch, true));
        ch.note(|| format!("{} {}", short(&a), short(&b)));
        ch.eval();
        ch.outcome(&xor(&a, &b));
        pair(&a, &b)
    });
    ctx.range("every bit", 256, |i, ch| {
        let one = id(&[(i as usize / 8, 0x80 >> (i % 8))]);
        for j in 0..256 {
            let two = id(&[(j / 8, 0x80 >> (j % 8))]);
            ch.eval();
            pair(&one, &two)?;
            pair(&xor(&one, &[0xff; 32]), &two)?;
            ch.outcome(&xor(&one, &two));
        }
        Ok(())
    });
    ctx.explore("triples", |ch| {
        let (a, b, c) = (ids(ch, false), ids(ch, false), ids(ch, false));
        ch.note(|| format!("{} {} {}", short(&a), short(&b), short(&c)));
        ch.eval();
        let (ab, bc, ac) = (XorMetric::distance(&a, &b), XorMetric::distance(&b, &c), XorMetric::distance(&a, &c));
        check_eq!(ab.cmp(&ac), xor(&a, &b).cmp(&xor(&a, &c)), "order of the distances");
        check_eq!(ab == ac, b == c, "two nodes at one distance");
        check!(ab.checked_add(*bc).is_none_or(|s| s >= *ac), "triangle inequality");
        ch.outcome(&(ab.cmp(&ac), ab.cmp(&bc)));
        Ok(())
    });
    ctx.explore("random ids of a bucket", |ch| {
        let bucket = ch.pick(256) as u8;
        let local = ids(ch, false);
        let fill = *ch.choose(&[0u64, u64::MAX, 0x0123456789abcdef, 0x8000000000000001, 0x7fffffff7fffffff]);
        ch.note(|| format!("bucket {bucket}, local {}, generator word {fill:#x}", short(&local)));
        ch.eval();
        rand::script::set(move || fill);
        let got = generate_random_node_id(bucket, NodeId::from(local));
        rand::script::clear();
        let d = XorMetric::distance(&local, &got.raw());
        check_eq!(d.log2(), Some(bucket as usize + 1), "log distance of an id for bucket {bucket}");
        ch.outcome(&got.raw());
        Ok(())
    });
    ctx.explore("random ids with fixed high bits", |ch| {
        let bits = ch.pick(9) as u32;
        let fill = *ch.choose(&[0u64, u64::MAX, 0x0123456789abcdef]);
        ch.eval();
        rand::script::set(move || fill);
        let got = generate_random_node_ids(bits);
        rand::script::clear();
        check_eq!(got.len(), 1 << bits, "number of ids");
        let mut high: Vec<u16> = got.iter().map(|n| (n.raw()[0] as u16) >> (8 - bits)).collect();
        high.sort();
        check_eq!(high, (0..1u16 << bits).collect::<Vec<_>>(), "high bits of the ids");
        ch.outcome(&bits);
        Ok(())
    });
}

fn packed(path: &[u8]) -> Vec<u8> {
    let mut out = vec![if path.len() % 2 == 1 { 0x10 | path[0] } else { 0 }];
    for two in path[path.len() % 2..].chunks(2) {
        out.push(two[0] << 4 | two[1]);
    }
    out
}

fn unpacked(raw: &[u8]) -> Option<Vec<u8>> {
    let (first, rest) = raw.split_first()?;
    let mut out = match first >> 4 {
        0 if *first == 0 => vec![],
        1 => vec![first & 15],
        _ => return None,
    };
    out.extend(rest.iter().flat_map(|b| [b >> 4, b & 15]));
    (out.len() <= 64).then_some(out)
}

fn decode(raw: &[u8]) -> Option<(Nibbles, Vec<u8>)> {
    let n = Nibbles::from_ssz_bytes(raw).ok()?;
    let again = n.as_ssz_bytes();
    Some((n, again))
}

fn any(raw: &[u8], ch: &mut Ch) -> Res {
    let got = canonical("path", raw, ch, decode)?;
    check_eq!(got.as_ref().map(|n| n.nibbles().to_vec()), unpacked(raw), "path in {}", short(raw));
    ch.outcome(&got.map(|n| n.nibbles().len()));
    Ok(())
}

fn path(p: &[u8], ch: &mut Ch) -> Res {
    ch.note(|| format!("path {p:?}"));
    ch.eval();
    let good = p.len() <= 64 && p.iter().all(|n| *n < 16);
    let n = match Nibbles::try_from_unpacked_nibbles(p) {
        Ok(n) if good => n,
        Ok(_) => fail!("path {p:?} is accepted"),
        Err(e) if good => fail!("path {p:?} is refused: {e}"),
        Err(_) => return Ok(()),
    };
    check_eq!(n.nibbles(), p, "nibbles of the path");
    check_eq!(n.as_ssz_bytes(), packed(p), "bytes of {p:?}");
    check_eq!(n.ssz_bytes_len(), packed(p).len(), "announced size of {p:?}");
    match canonical("path", &packed(p), ch, decode)? {
        Some(again) => check_eq!(again, n, "path after a round trip"),
        None => fail!("path {p:?} is refused in its own encoding"),
    }
    ch.outcome(&p);
    Ok(())
}

pub fn w09(ctx: &Ctx) {
    ctx.explore("short paths", |ch| {
        let n = ch.pick(ctx.b(5, 6));
        let p: Vec<u8> = (0..n).map(|_| ch.pick(16) as u8).collect();
        path(&p, ch)
    });
    ctx.explore("paths of all lengths", |ch| {
        let n = ch.pick(70);
        let fill = *ch.choose(&[0u8, 1, 8, 15]);
        let mut p = vec![fill; n];
        let at = ch.pick(n + 1);
        if at < n {
            p[at] = *ch.choose(&[0u8, 7, 15, 16, 31, 128, 255]);
        }
        path(&p, ch)
    });
    ctx.range("byte strings", 256, |i, ch| {
        any(&[], ch)?;
        any(&[i as u8], ch)?;
        for j in 0..=255u8 {
            any(&[i as u8, j], ch)?;
            if ctx.b(0, 1) == 1 || i < 0x30 {
                for k in 0..=255u8 {
                    any(&[i as u8, j, k], ch)?;
                }
            }
        }
        for n in 4..70 {
            for fill in [0u8, 0x10, 0xff] {
                let mut raw = vec![fill; n];
                raw[0] = i as u8;
                any(&raw, ch)?;
            }
        }
        Ok(())
    });
    ctx.range("single bytes", 256, |i, ch| {
        ch.eval();
        let b = i as u8;
        check_eq!(Nibbles::unpack_nibble_pair(&b), [b >> 4, b & 15], "nibbles of {b}");
        for n in 0..4 {
            let raw = vec![b; n];
            let want: Vec<u8> = raw.iter().flat_map(|b| [b >> 4, b & 15]).collect();
            check_eq!(Nibbles::unpack_nibbles(&raw), want, "nibbles of {n} bytes {b}");
        }
        ch.outcome(&b);
        Ok(())
    });
}
