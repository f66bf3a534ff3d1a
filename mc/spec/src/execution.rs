//! Headers, transactions, withdrawals and receipts in their encodings.
use crate::{bytes, hash, num, ramp, rlp, trie::keccak, Rlp};

pub fn header(number: u64, timestamp: u64, extra: usize, optional: usize) -> Vec<u8> {
    let mut l = vec![
        bytes(&hash(1)),
        bytes(&hash(2)),
        bytes(&ramp(3, 20)),
        bytes(&hash(4)),
        bytes(&hash(5)),
        bytes(&hash(6)),
        bytes(&ramp(7, 256)),
        num(17),
        num(number as u128),
        num(30_000_000),
        num(21_000),
        num(timestamp as u128),
        bytes(&ramp(8, extra)),
        bytes(&hash(9)),
        bytes(&ramp(10, 8)),
    ];
    let more = [num(7), bytes(&hash(11)), num(131072), num(0), bytes(&hash(12)), bytes(&hash(13))];
    l.extend(more[..optional].iter().cloned());
    rlp(&Rlp::List(l))
}

pub fn transaction(kind: u8, variant: usize) -> Vec<u8> {
    let to = if variant % 2 == 1 && kind < 3 { bytes(&[]) } else { bytes(&ramp(20, 20)) };
    let data = bytes(&ramp(21, [0, 1, 60][variant % 3]));
    let access = Rlp::List(if variant > 0 {
        vec![Rlp::List(vec![bytes(&ramp(22, 20)), Rlp::List(vec![bytes(&hash(23)), bytes(&hash(24))])])]
    } else {
        vec![]
    });
    let sig = |parity: u128| vec![num(parity), bytes(&ramp(25, 32)), bytes(&ramp(26, 32))];
    let price = num(1_000_000_007);
    let mut l = match kind {
        0 => {
            let mut l = vec![num(variant as u128 * 200), price, num(21_000), to, num(5), data];
            l.extend(sig([27, 28, 37][variant % 3]));
            return rlp(&Rlp::List(l));
        }
        1 => vec![num(1), num(3), price, num(21_000), to, num(0), data, access],
        2 => vec![num(1), num(3), num(2), price, num(21_000), to, num(1 << 100), data, access],
        3 => vec![num(1), num(3), num(2), price, num(21_000), to, num(9), data, access, num(77), Rlp::List(vec![bytes(&hash(27))])],
        _ => {
            let auth = Rlp::List([vec![num(1), bytes(&ramp(28, 20)), num(4)], sig(1)].concat());
            vec![num(1), num(3), num(2), price, num(21_000), to, num(9), data, access, Rlp::List(vec![auth])]
        }
    };
    l.extend(sig((variant % 2) as u128));
    [vec![kind], rlp(&Rlp::List(l))].concat()
}

/// Index, validator, address and amount.
pub fn withdrawal_fields(i: u64) -> (u64, u64, Vec<u8>, u64) {
    (i, 300 + i, ramp(30u8.wrapping_add(i as u8), 20), 17_000_000)
}

pub fn withdrawal(i: u64) -> Rlp {
    let (index, validator, address, amount) = withdrawal_fields(i);
    Rlp::List(vec![num(index.into()), num(validator.into()), bytes(&address), num(amount.into())])
}

pub fn logs(n: usize) -> Rlp {
    Rlp::List(
        (0..n)
            .map(|i| {
                Rlp::List(vec![
                    bytes(&ramp(40 + i as u8, 20)),
                    Rlp::List((0..i).map(|t| bytes(&hash(t as u8))).collect()),
                    bytes(&ramp(41, i * 30)),
                ])
            })
            .collect(),
    )
}

/// Sets three bits of the filter for the given bytes.
pub fn bloom_add(bloom: &mut [u8; 256], b: &[u8]) {
    let h = keccak(b);
    for i in [0usize, 2, 4] {
        let bit = ((h[i] as usize) << 8 | h[i + 1] as usize) & 2047;
        bloom[255 - bit / 8] |= 1 << (bit % 8);
    }
}

pub fn receipt(kind: u8, status: u128, n: usize) -> Vec<u8> {
    let mut bloom = [0u8; 256];
    for i in 0..n {
        bloom_add(&mut bloom, &ramp(40 + i as u8, 20));
        for t in 0..i {
            bloom_add(&mut bloom, &hash(t as u8));
        }
    }
    let body = rlp(&Rlp::List(vec![num(status), num(21_000 * (n as u128 + 1)), bytes(&bloom), logs(n)]));
    if kind == 0 {
        body
    } else {
        [vec![kind], body].concat()
    }
}

pub fn wrapped(tx: &[u8]) -> Vec<u8> {
    if tx[0] >= 0xc0 {
        tx.to_vec()
    } else {
        rlp(&bytes(tx))
    }
}

pub fn raw_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = items.concat();
    let mut head = rlp(&Rlp::Str(vec![0xee; body.len()]));
    // The list head is the string head of the same size with its class changed.
    let n = if body.len() == 1 { 0 } else { head.len() - body.len() };
    head.truncate(n);
    if body.len() == 1 {
        head = vec![0xc1];
    } else {
        head[0] += 0x40;
    }
    head.extend(body);
    head
}
