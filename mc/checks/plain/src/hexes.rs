use crate::utils::bytes::{
    hex_decode, hex_encode, hex_encode_compact, hex_encode_upper, random_32byte_array,
    ByteUtilsError,
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

fn digits(b: &[u8], upper: bool) -> String {
    let set: &[u8; 16] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    let mut s = String::from("0x");
    for x in b {
        s.push(set[(x >> 4) as usize] as char);
        s.push(set[(x & 15) as usize] as char);
    }
    s
}

fn encode_case(b: &[u8], ch: &mut Ch) -> Res {
    ch.note(|| format!("bytes {b:?}"));
    ch.eval();
    let low = digits(b, false);
    let up = digits(b, true);
    check_eq!(hex_encode(b), low, "hex_encode({b:?})");
    check_eq!(hex_encode_upper(b), up, "hex_encode_upper({b:?})");
    check_eq!(hex_decode(&low), Ok(b.to_vec()), "hex_decode({low})");
    check_eq!(hex_decode(&up), Ok(b.to_vec()), "hex_decode({up})");
    let upper_prefix = format!("0X{}", &low[2..]);
    check_eq!(hex_decode(&upper_prefix), Ok(b.to_vec()), "hex_decode({upper_prefix})");
    let compact = if b.len() <= 8 {
        low.clone()
    } else {
        let first = digits(&b[..2], false);
        let last = digits(&b[b.len() - 2..], false);
        format!("{first}..{}", &last[2..])
    };
    check_eq!(hex_encode_compact(b), compact, "hex_encode_compact({b:?})");
    ch.outcome(&("enc", b.len(), b.first()));
    Ok(())
}

fn digit(c: char) -> Option<u8> {
    match c {
        '0'..='9' => Some(c as u8 - b'0'),
        'a'..='f' => Some(c as u8 - b'a' + 10),
        'A'..='F' => Some(c as u8 - b'A' + 10),
        _ => None,
    }
}

fn reference(s: &str) -> Option<Vec<u8>> {
    let mut it = s.chars();
    if it.next()? != '0' || !matches!(it.next()?, 'x' | 'X') {
        return None;
    }
    let d: Option<Vec<u8>> = it.map(digit).collect();
    let d = d?;
    if d.len() % 2 == 1 {
        return None;
    }
    Some(d.chunks(2).map(|p| p[0] * 16 + p[1]).collect())
}

fn decode_case(s: &str, ch: &mut Ch) -> Res {
    ch.note(|| format!("text {s:?}"));
    ch.eval();
    let got = hex_decode(s);
    let want = reference(s);
    match (&got, &want) {
        (Ok(g), Some(w)) => check!(g == w, "hex_decode({s:?}) gives {g:?}, expected {w:?}"),
        (Ok(g), None) => fail!("hex_decode({s:?}) accepts a malformed text as {g:?}"),
        (Err(e), Some(_)) => fail!("hex_decode({s:?}) refuses a well formed text: {e}"),
        (Err(e), None) => {
            let two: Vec<char> = s.chars().take(2).collect();
            let prefix_ok = two.len() == 2 && two[0] == '0' && matches!(two[1], 'x' | 'X');
            let fits = match e {
                ByteUtilsError::HexDecode { .. } => prefix_ok,
                ByteUtilsError::WrongPrefix { .. } => !prefix_ok && s.len() >= 2,
                ByteUtilsError::NoPrefix { .. } => s.len() < 2 || !s.is_char_boundary(2),
            };
            check!(fits, "hex_decode({s:?}) reports the wrong kind of error: {e:?}");
        }
    }
    let kind = match &got {
        Ok(v) => format!("ok{}", v.len()),
        Err(ByteUtilsError::HexDecode { .. }) => "digits".into(),
        Err(ByteUtilsError::WrongPrefix { .. }) => "wrong".into(),
        Err(ByteUtilsError::NoPrefix { .. }) => "none".into(),
    };
    ch.outcome(&(kind, s.len(), s.chars().next()));
    Ok(())
}

fn nth_string<'a>(alphabet: &[char], mut i: u64, len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push(alphabet[(i % alphabet.len() as u64) as usize]);
        i /= alphabet.len() as u64;
    }
    s
}

pub fn h01(ctx: &Ctx) {
    for len in 0..=ctx.b(2u32, 3u32) {
        ctx.range(&format!("all byte strings of {len} bytes"), 256u64.pow(len), |i, ch| {
            let b: Vec<u8> = (0..len).map(|k| (i >> (8 * k)) as u8).collect();
            encode_case(&b, ch)
        });
    }
    // every length around the compact limit, every byte value at every position
    ctx.range("byte at position", 41 * 41 * 256, |i, ch| {
        let (len, at, v) = ((i % 41) as usize, (i / 41 % 41) as usize, (i / (41 * 41)) as u8);
        let mut b: Vec<u8> = (0..len).map(|k| (k as u8).wrapping_mul(0x1d) ^ 0x5a).collect();
        if let Some(x) = b.get_mut(at) {
            *x = v;
        }
        encode_case(&b, ch)
    });
    ctx.range("long byte strings", 70, |i, ch| {
        let len = [64, 255, 256, 257, 1000, 4096, 65536][(i % 7) as usize];
        let b: Vec<u8> = (0..len).map(|k| (k * 31 + i as usize) as u8).collect();
        encode_case(&b, ch)
    });
    let alphabet: Vec<char> = "0xX9afAFg/:@`G é☃\0-".chars().collect();
    for len in 0..=ctx.b(4u32, 6u32) {
        ctx.range(
            &format!("all texts of {len} characters"),
            (alphabet.len() as u64).pow(len),
            |i, ch| decode_case(&nth_string(&alphabet, i, len as usize), ch),
        );
    }
    let wide = ctx.b(0x180u64, 0x800);
    ctx.range("prefix and two arbitrary characters", wide * wide, |i, ch| {
        let (a, b) = (char::from_u32((i % wide) as u32), char::from_u32((i / wide) as u32));
        decode_case(&format!("0x{}{}", a.unwrap(), b.unwrap()), ch)
    });
    ctx.range("two arbitrary characters and digits", wide * wide, |i, ch| {
        let (a, b) = (char::from_u32((i % wide) as u32), char::from_u32((i / wide) as u32));
        decode_case(&format!("{}{}0a", a.unwrap(), b.unwrap()), ch)
    });
    // a defect at one position of a longer text
    let bad: Vec<char> = "gG/:@`{xé☃ \n+-_0F".chars().collect();
    ctx.range("one replaced character in long texts", 66 * 3 * bad.len() as u64, |i, ch| {
        let at = (i % 66) as usize;
        let c = bad[(i / 66 % bad.len() as u64) as usize];
        let len = [63, 64, 65][(i / (66 * bad.len() as u64)) as usize];
        let mut t: Vec<char> = "0x".chars().collect();
        t.extend((0..len).map(|k| char::from_digit(k % 16, 16).unwrap()));
        if at < t.len() {
            t[at] = c;
        }
        decode_case(&t.into_iter().collect::<String>(), ch)
    });
}

/// Runs `random_32byte_array(n)` with the i-th draw of the random source fixed.
fn draw(n: u8, f: impl Fn(u64) -> u64 + 'static) -> Result<[u8; 32], String> {
    let mut i = 0;
    rand::script::set(move || {
        let v = f(i);
        i += 1;
        v
    });
    let r = vc::no_panic(|| random_32byte_array(n));
    rand::script::clear();
    r
}

pub fn h02(ctx: &Ctx) {
    let fills = [0u64, !0, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
    let draws = ctx.b(8u64, 40);
    ctx.range("every count", 256, |n, ch| {
        let n = n as u8;
        let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
        let mut leading = std::collections::BTreeSet::new();
        for fill in fills {
            for at in 0..draws {
                for k in 0..256u64 {
                    for spread in [k << 56, k.wrapping_mul(0x0101_0101_0101_0101)] {
                        let r = draw(n, move |i| {
                            let v = if i == at { spread } else { fill };
                            // later draws differ so that a rejecting sampler terminates
                            v.wrapping_add((i / 64).wrapping_mul(0x9e37_79b9_7f4a_7c15))
                        });
                        ch.eval();
                        ch.steps(1);
                        let v = match r {
                            Ok(v) => v,
                            Err(p) => fail!("random_32byte_array({n}) panics: {p}"),
                        };
                        let lead = v
                            .iter()
                            .position(|b| *b != 0)
                            .map_or(256, |p| p * 8 + v[p].leading_zeros() as usize);
                        check!(
                            lead == n as usize,
                            "random_32byte_array({n}) has {lead} leading zero bits: {v:?} (draw {at} = {spread:#x}, others {fill:#x})"
                        );
                        for j in 0..32 {
                            ones[j] |= v[j];
                            zeros[j] |= !v[j];
                        }
                        leading.insert(v[n as usize / 8]);
                        ch.state(&(n, v));
                        ch.outcome(&v[n as usize / 8]);
                    }
                }
            }
        }
        for bit in n as usize + 1..256 {
            let mask = 0x80u8 >> (bit % 8);
            check!(
                ones[bit / 8] & mask != 0 && zeros[bit / 8] & mask != 0,
                "random_32byte_array({n}): bit {bit} never takes both values"
            );
        }
        let want = 1usize << (7 - n % 8);
        check_eq!(leading.len(), want, "values of the first non-zero byte for {n} leading zeros");
        ch.note(|| format!("count {n}: all scripts give {n} leading zeros and free bits after"));
        Ok(())
    });
}
