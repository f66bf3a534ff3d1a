//! Plain encoders and hashers written from the specifications, used as the oracle.
pub mod beacon;
pub mod chain;
pub mod execution;
pub mod merkle;
pub mod trie;

use vc::{fail, Ch, Res};

/// One part of an SSZ container or list.
pub enum Part {
    Fixed(Vec<u8>),
    Var(Vec<u8>),
}
pub use Part::{Fixed, Var};

pub fn container(parts: &[Part]) -> Vec<u8> {
    let fixed: usize = parts
        .iter()
        .map(|p| match p {
            Fixed(b) => b.len(),
            Var(_) => 4,
        })
        .sum();
    let mut head: Vec<u8> = vec![];
    let mut tail: Vec<u8> = vec![];
    for p in parts {
        match p {
            Fixed(b) => head.extend(b),
            Var(b) => {
                head.extend(((fixed + tail.len()) as u32).to_le_bytes());
                tail.extend(b);
            }
        }
    }
    head.extend(tail);
    head
}

pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    container(&items.iter().map(|i| Var(i.clone())).collect::<Vec<_>>())
}

#[derive(Clone)]
pub enum Rlp {
    Str(Vec<u8>),
    List(Vec<Rlp>),
}

pub fn num(n: u128) -> Rlp {
    Rlp::Str(n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect())
}
pub fn bytes(b: &[u8]) -> Rlp {
    Rlp::Str(b.to_vec())
}

pub fn rlp(item: &Rlp) -> Vec<u8> {
    fn head(short: u8, len: usize) -> Vec<u8> {
        if len < 56 {
            vec![short + len as u8]
        } else {
            let be: Vec<u8> = len.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
            let mut out = vec![short + 55 + be.len() as u8];
            out.extend(be);
            out
        }
    }
    match item {
        Rlp::Str(b) if b.len() == 1 && b[0] < 0x80 => b.clone(),
        Rlp::Str(b) => [head(0x80, b.len()), b.clone()].concat(),
        Rlp::List(l) => {
            let body: Vec<u8> = l.iter().flat_map(rlp).collect();
            [head(0xc0, body.len()), body].concat()
        }
    }
}

/// A string of distinct-looking bytes that depends on `salt`.
pub fn ramp(salt: u8, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| (i as u8).wrapping_mul(7).wrapping_add(salt) ^ ((i >> 8) as u8).wrapping_mul(29))
        .collect()
}

pub fn hash(salt: u8) -> [u8; 32] {
    ramp(salt, 32).try_into().unwrap()
}

/// Calls `f` with every truncation, every one-byte extension, and, for the first `window`
/// positions, every replacement from a fixed set of byte edits.
pub fn edits(base: &[u8], window: usize, full: bool, mut f: impl FnMut(&[u8]) -> Res) -> Res {
    let cuts: Vec<usize> = if base.len() <= 2 * window {
        (0..base.len()).collect()
    } else {
        (0..window).chain(base.len() - window..base.len()).collect()
    };
    for &n in &cuts {
        f(&base[..n])?;
    }
    let mut v = base.to_vec();
    for b in [0u8, 1, 0x7f, 0x80, 0xc0, 0xff] {
        v.push(b);
        f(&v)?;
        v.pop();
    }
    v.extend([0; 32]);
    f(&v)?;
    v.truncate(base.len());
    for &i in &cuts {
        let was = v[i];
        let mut try_byte = |b: u8, v: &mut Vec<u8>| -> Res {
            if b != was {
                v[i] = b;
                f(v)?;
                v[i] = was;
            }
            Ok(())
        };
        if full {
            for b in 0..=255 {
                try_byte(b, &mut v)?;
            }
        } else {
            let near = [was ^ 1, was ^ 0x80, was.wrapping_add(1), was.wrapping_sub(1), was.wrapping_add(4), was.wrapping_sub(4), 0, 1, 4, 0x7f, 0x80, 0xff];
            for (k, b) in near.iter().enumerate() {
                if !near[..k].contains(b) {
                    try_byte(*b, &mut v)?;
                }
            }
        }
    }
    Ok(())
}

/// Runs `decode` without letting it panic; an accepted string has to be re-encoded as it was.
pub fn canonical<T: std::fmt::Debug>(
    what: &str,
    raw: &[u8],
    ch: &mut Ch,
    decode: impl FnOnce(&[u8]) -> Option<(T, Vec<u8>)>,
) -> Result<Option<T>, String> {
    canonical_but(what, raw, ch, |_, _| false, decode)
}

/// An untyped transaction may give its signature parity as 0 or 1, which is written as 27 or 28.
pub fn parity_form(raw: &[u8], again: &[u8]) -> bool {
    let diff: Vec<(u8, u8)> = raw.iter().zip(again).filter(|(a, b)| a != b).map(|(a, b)| (*a, *b)).collect();
    raw.len() == again.len() && matches!(diff[..], [(0x80, 27)] | [(1, 28)])
}

/// As `canonical`, but allows the given differences.
pub fn canonical_but<T: std::fmt::Debug>(
    what: &str,
    raw: &[u8],
    ch: &mut Ch,
    allowed: fn(&[u8], &[u8]) -> bool,
    decode: impl FnOnce(&[u8]) -> Option<(T, Vec<u8>)>,
) -> Result<Option<T>, String> {
    ch.eval();
    let got = vc::no_panic(|| decode(raw))
        .map_err(|e| format!("decoding {what} panics: {e} (bytes {})", short(raw)))?;
    match got {
        None => Ok(None),
        Some((v, again)) => {
            if again != raw && !allowed(raw, &again) {
                fail!("{what} {} is accepted but encodes as {}", short(raw), short(&again));
            }
            Ok(Some(v))
        }
    }
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 160 {
        format!("0x{}", hex::encode(b))
    } else {
        format!("0x{}..{} ({} bytes)", hex::encode(&b[..100]), hex::encode(&b[b.len() - 40..]), b.len())
    }
}
