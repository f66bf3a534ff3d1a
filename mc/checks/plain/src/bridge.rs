use crate::types::{
    mode::{BridgeMode, ModeType},
    range::block_range_to_epochs,
};
use std::{collections::BTreeMap, str::FromStr};
use vc::{check_eq, fail, Ch, Ctx, Res};

fn number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.bytes().try_fold(0u64, |a, b| a.checked_mul(10)?.checked_add((b - b'0') as u64))
}

fn range(s: &str) -> Option<ModeType> {
    let (a, b) = s.strip_prefix('r')?.split_once('-')?;
    let (a, b) = (number(a)?, number(b)?);
    (a <= b).then_some(ModeType::BlockRange(a, b))
}

fn reference(s: &str) -> Option<BridgeMode> {
    match s {
        "latest" => Some(BridgeMode::Latest),
        "e2hs" => Some(BridgeMode::E2HS),
        "ephemeral-history" => Some(BridgeMode::EphemeralHistory),
        _ => {
            if let Some(n) = s.strip_prefix("snapshot:") {
                return number(n).map(BridgeMode::Snapshot);
            }
            s.strip_prefix("single:").and_then(range).map(BridgeMode::Single)
        }
    }
}

fn mode_case(s: &str, ch: &mut Ch) -> Res {
    ch.note(|| format!("argument {s:?}"));
    ch.eval();
    let got = BridgeMode::from_str(s);
    match (&got, reference(s)) {
        (Ok(g), Some(w)) => check_eq!(*g, w, "mode of {s:?}"),
        (Ok(g), None) => fail!("{s:?} is accepted as {g:?}"),
        (Err(e), Some(w)) => fail!("{s:?} is refused ({e}), expected {w:?}"),
        (Err(_), None) => {}
    }
    ch.outcome(&format!("{got:?}"));
    let got = ModeType::from_str(s);
    match (&got, range(s)) {
        (Ok(g), Some(w)) => check_eq!(*g, w, "range of {s:?}"),
        (Ok(g), None) => fail!("range {s:?} is accepted as {g:?}"),
        (Err(e), Some(w)) => fail!("range {s:?} is refused ({e}), expected {w:?}"),
        (Err(_), None) => {}
    }
    ch.outcome(&format!("{got:?}"));
    Ok(())
}

pub fn b01(ctx: &Ctx) {
    let tokens = [
        "", "latest", "e2hs", "ephemeral-history", "single", "snapshot", ":", "r", "-", "0", "1", "10", "9",
        "18446744073709551615", "18446744073709551616", "x", "é", " ", "R", "Latest",
    ];
    ctx.explore("token sequences", |ch| {
        let s: String = (0..ctx.b(4, 5)).map(|_| *ch.choose(&tokens)).collect();
        mode_case(&s, ch)
    });
    let tail = [
        "", "r", "-", ":", "0", "1", "2", "10", "12", "9", "007", "18446744073709551615", "18446744073709551614",
        "18446744073709551616", "x", "☃", "_", "."];
    for prefix in ["single:", "single:r", "snapshot:", "r", "single", "Single:r", "backfill:r"] {
        ctx.explore(&format!("tails of {prefix}"), |ch| {
            let mut s = prefix.to_string();
            for _ in 0..ctx.b(4, 5) {
                s.push_str(*ch.choose(&tail));
            }
            mode_case(&s, ch)
        });
    }
    ctx.explore("lists of numbers", |ch| {
        let mut s = ch.choose(&["single:r", "r", "snapshot:"]).to_string();
        for i in 0..ch.pick(ctx.b(5, 6)) {
            if i > 0 {
                s.push_str(*ch.choose(&["-", ":", ",", "-r", "..", "..=", "/"]));
            }
            s.push_str(*ch.choose(&["", "1", "2", "10"]));
        }
        mode_case(&s, ch)
    });
    ctx.range("small ranges", 64 * 64, |i, ch| mode_case(&format!("single:r{}-{}", i % 64, i / 64), ch));
    let big: Vec<u64> = (0..64).flat_map(|b| [(1u64 << b) - 1, 1u64 << b]).chain([u64::MAX]).collect();
    let n = big.len() as u64;
    ctx.range("ranges at powers of two", n * n, |i, ch| {
        let (a, b) = (big[(i % n) as usize], big[(i / n) as usize]);
        mode_case(&format!("single:r{a}-{b}"), ch)?;
        mode_case(&format!("snapshot:{a}"), ch)
    });
    let chars: Vec<char> = ('\0'..='\u{ff}').collect();
    let n = chars.len() as u64;
    ctx.range("any character in any place", n * 20, |i, ch| {
        let c = chars[(i % n) as usize];
        if c == '+' {
            // the spelling of an explicit sign is left open by the property
            return Ok(());
        }
        let mut t: Vec<char> = "single:r10-12".chars().collect();
        let mut u: Vec<char> = "snapshot:100".chars().collect();
        let at = (i / n) as usize;
        t.insert(at.min(t.len()), c);
        u.insert(at.min(u.len()), c);
        mode_case(&t.into_iter().collect::<String>(), ch)?;
        mode_case(&u.into_iter().collect::<String>(), ch)
    });
}

const EPOCH: u128 = 8192;

fn range_case(start: u64, end: u64, ch: &mut Ch) -> Res {
    ch.note(|| format!("blocks {start}..={end}"));
    ch.eval();
    let got: BTreeMap<u64, Option<(u64, u64)>> = block_range_to_epochs(start, end).into_iter().collect();
    let mut want = BTreeMap::new();
    let (s, e) = (start as u128, end as u128);
    for epoch in s / EPOCH..=e / EPOCH {
        let (first, last) = (epoch * EPOCH, epoch * EPOCH + EPOCH - 1);
        let whole = s <= first && last <= e;
        want.insert(
            epoch as u64,
            (!whole).then(|| (s.max(first) as u64, e.min(last) as u64)),
        );
    }
    check_eq!(got, want, "epochs of blocks {start}..={end}");
    // the parts laid end to end are the range
    let mut next = s;
    for (epoch, part) in &got {
        let first = *epoch as u128 * EPOCH;
        let (a, b) = part.map_or((first, first + EPOCH - 1), |(a, b)| (a as u128, b as u128));
        check_eq!(a, next, "start of the part in epoch {epoch} of blocks {start}..={end}");
        next = b + 1;
    }
    check_eq!(next, e + 1, "end of the parts of blocks {start}..={end}");
    ch.outcome(&format!("{got:?}"));
    Ok(())
}

pub fn b02(ctx: &Ctx) {
    let near = ctx.b(4i128, 12);
    let epochs = ctx.b(6, 8);
    // clusters of consecutive epochs at the start, in the middle and at the end of the number space
    let last_epoch = (u64::MAX / 8192) as i128;
    for (name, base) in [
        ("first epochs", 0i128),
        ("mainnet epochs", 1896),
        ("epochs at 2^32 blocks", (1i128 << 32) / 8192 - 2),
        ("epochs at 2^63 blocks", (1i128 << 63) / 8192 - 2),
        ("last epochs", last_epoch - epochs + 1),
    ] {
        let mut pts: Vec<u64> = vec![];
        for k in 0..=epochs {
            for d in -near..=near {
                let b = (base + k) * 8192 + d;
                if (0..=u64::MAX as i128).contains(&b) {
                    pts.push(b as u64);
                }
            }
            let mid = (base + k) * 8192 + 4096;
            if (0..=u64::MAX as i128).contains(&mid) {
                pts.push(mid as u64);
            }
        }
        pts.sort_unstable();
        pts.dedup();
        let n = pts.len() as u64;
        let pts = &pts;
        ctx.range(name, n * n, |i, ch| {
            let (a, b) = (pts[(i % n) as usize], pts[(i / n) as usize]);
            if a > b {
                return Ok(());
            }
            range_case(a, b, ch)
        });
    }
    ctx.range("every offset of one epoch as start and end", 8192 * 4, |i, ch| {
        let o = i % 8192;
        match i / 8192 {
            0 => range_case(8192 + o, 3 * 8192 + 100, ch),
            1 => range_case(100, 8192 + o, ch),
            2 => range_case(8192, 8192 + o, ch),
            _ => range_case(8192 + o, 2 * 8192 - 1, ch),
        }
    });
    ctx.range("long ranges", ctx.b(50, 400), |i, ch| range_case(i * 11, 8192 * (i * 7 + 1) + i, ch));
}
