//! W02: batched content payloads.

use alloy::primitives::Bytes;
use portalnet::utils::portal_wire::{
    decode_content_payload, decode_single_content_payload, encode_content_payload,
};
use vc::{check, check_eq, Ctx, Res};

use crate::alloc;

/// LEB128 as the wire specification writes it.
fn leb128(mut n: u64, out: &mut Vec<u8>) {
    loop {
        let low = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(low);
            return;
        }
        out.push(low | 0x80);
    }
}

fn packed(items: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for i in items {
        leb128(i.len() as u64, &mut out);
        out.extend_from_slice(i);
    }
    out
}

/// Value of the LEB128 number at the start, with its length in bytes.
fn read_leb128(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        v |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            return u64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}

/// The items of a payload, or nothing if it is not one.
fn unpacked(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (n, used) = read_leb128(b)?;
        b = &b[used..];
        let n = u32::try_from(n).ok()? as usize;
        if n > b.len() {
            return None;
        }
        out.push(b[..n].to_vec());
        b = &b[n..];
    }
    Some(out)
}

fn value(len: usize, tag: u8) -> Vec<u8> {
    (0..len).map(|i| tag ^ (i as u8) ^ ((i >> 8) as u8)).collect()
}

/// Decodes `payload` in both forms and compares with what the bytes say.
fn decode_both(payload: &[u8]) -> Res {
    let want = unpacked(payload);
    let shown = &payload[..payload.len().min(12)];
    let bytes = Bytes::from(payload.to_vec());
    let ((got, single), largest) = alloc::largest(|| {
        (
            decode_content_payload(bytes.clone()),
            decode_single_content_payload(bytes.clone()),
        )
    });
    let limit = 4 * payload.len() + 4096;
    check!(
        largest <= limit,
        "decoding {} bytes beginning {shown:02x?} asked for {largest} bytes of memory",
        payload.len()
    );
    let got = got.ok().map(|v| v.iter().map(|b| b.to_vec()).collect::<Vec<_>>());
    check!(
        got == want,
        "{} bytes beginning {shown:02x?} unpack into {:?} items, the bytes hold {:?}",
        payload.len(),
        got.as_ref().map(|v| v.iter().map(|i| i.len()).collect::<Vec<_>>()),
        want.as_ref().map(|v| v.iter().map(|i| i.len()).collect::<Vec<_>>())
    );
    let want = match want {
        Some(v) if v.len() == 1 => Some(v[0].clone()),
        _ => None,
    };
    check!(
        single.as_ref().ok().map(|b| b.to_vec()) == want,
        "{} bytes beginning {shown:02x?} unpack as a single value into {:?} bytes, expected {:?}",
        payload.len(),
        single.ok().map(|b| b.len()),
        want.map(|b| b.len())
    );
    Ok(())
}

pub fn w02(ctx: &Ctx) {
    // Every list of values over the sizes where the length prefix changes width.
    let sizes: Vec<usize> = ctx.b(
        vec![0, 1, 2, 127, 128, 300, 16383, 16384],
        vec![0, 1, 2, 127, 128, 129, 300, 16383, 16384, 20000, 2097151, 2097152],
    );
    let most = ctx.b(3, 4);
    ctx.explore("lists of values", |ch| {
        let n = ch.pick(most + 1);
        let mut items = vec![];
        for i in 0..n {
            let len = *ch.choose(&sizes);
            items.push(value(len, i as u8 * 17 + 1));
        }
        ch.note(|| format!("values of {:?} bytes", items.iter().map(|i| i.len()).collect::<Vec<_>>()));
        let given: Vec<Bytes> = items.iter().map(|i| Bytes::from(i.clone())).collect();
        let payload = match encode_content_payload(&given) {
            Ok(p) => p.to_vec(),
            Err(e) => vc::fail!("packing fails: {e}"),
        };
        check!(payload == packed(&items), "packed bytes differ from the wire format");
        decode_both(&payload)?;
        ch.evals(3);
        ch.outcome(&items.iter().map(|i| i.len()).collect::<Vec<_>>());
        Ok(())
    });

    // Every truncation, and every surplus of one byte, of small payloads.
    let small = [0usize, 1, 2, 3, 127, 128, 129];
    ctx.explore("cut and extended payloads", |ch| {
        let n = 1 + ch.pick(3);
        let items: Vec<Vec<u8>> = (0..n).map(|i| value(*ch.choose(&small), i as u8 + 3)).collect();
        let payload = packed(&items);
        for cut in 0..payload.len() {
            decode_both(&payload[..cut])?;
        }
        for extra in [0u8, 1, 0x7f, 0x80, 0xff] {
            let mut longer = payload.clone();
            longer.push(extra);
            decode_both(&longer)?;
        }
        ch.evals(payload.len() as u64 + 5);
        ch.outcome(&items.iter().map(|i| i.len()).collect::<Vec<_>>());
        Ok(())
    });

    // Every byte string of the alphabet: announcements of any size with too few bytes behind them.
    let alphabet: Vec<u8> = ctx.b(vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0xff], vec![0x00, 0x01, 0x02, 0x03, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xff]);
    let longest = ctx.b(6usize, 7usize);
    ctx.explore("short byte strings", |ch| {
        let n = ch.pick(longest + 1);
        let bytes: Vec<u8> = (0..n).map(|_| *ch.choose(&alphabet)).collect();
        ch.note(|| format!("payload {bytes:02x?}"));
        decode_both(&bytes)?;
        ch.eval();
        ch.outcome(&unpacked(&bytes).map(|v| v.len()));
        Ok(())
    });

    // Announced sizes around the widths of the prefix and of the counter.
    let announced: Vec<u64> = [7u32, 14, 21, 28, 31, 32, 33, 35, 42, 63]
        .iter()
        .flat_map(|s| [(1u64 << s) - 1, 1u64 << s, (1u64 << s) + 1])
        .chain([u64::MAX, u64::MAX - 1])
        .collect();
    ctx.explore("announced sizes", |ch| {
        let size = *ch.choose(&announced);
        let behind = *ch.choose(&[0usize, 1, 126, 127, 128, 129, 1000]);
        let before = ch.pick(2);
        let mut payload = vec![];
        if before == 1 {
            leb128(3, &mut payload);
            payload.extend_from_slice(b"abc");
        }
        leb128(size, &mut payload);
        payload.extend(value(behind, 9));
        ch.note(|| format!("announced {size}, {behind} bytes follow"));
        decode_both(&payload)?;
        ch.eval();
        ch.outcome(&(size, behind));
        Ok(())
    });

    ctx.once("values of whole payload", |ch| {
        let items: Vec<Bytes> = (0..200usize).map(|i| Bytes::from(value(i, i as u8))).collect();
        let payload = encode_content_payload(&items).map_err(|e| e.to_string())?;
        let back = decode_content_payload(payload.freeze().into()).map_err(|e| e.to_string())?;
        check_eq!(back, items, "200 values of growing size");
        ch.eval();
        Ok(())
    });
}
