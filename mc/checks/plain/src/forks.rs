use crate::types::consensus::fork::ForkName;
use std::str::FromStr;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

const FORKS: [(ForkName, [u8; 4], &str, &str); 4] = [
    (ForkName::Bellatrix, [0x4a, 0x26, 0xc5, 0x8b], "bellatrix", "Bellatrix"),
    (ForkName::Capella, [0xbb, 0xa4, 0xda, 0x96], "capella", "Capella"),
    (ForkName::Deneb, [0x6a, 0x95, 0xa1, 0xa9], "deneb", "Deneb"),
    (ForkName::Electra, [0xad, 0x53, 0x2c, 0xeb], "electra", "Electra"),
];

fn digest(d: [u8; 4], ch: &mut Ch) -> Res {
    ch.note(|| format!("digest {d:02x?}"));
    let want = FORKS.iter().find(|f| f.1 == d).map(|f| f.0);
    match (ForkName::try_from(d), want) {
        (Ok(g), Some(w)) => {
            check_eq!(g, w, "fork of digest {d:02x?}");
            ch.outcome(&d);
        }
        (Ok(g), None) => fail!("digest {d:02x?} is accepted as {g:?}"),
        (Err(e), Some(w)) => fail!("digest {d:02x?} of {w:?} is refused: {e}"),
        (Err(e), None) => {
            let hex: String = d.iter().map(|b| format!("{b:02x}")).collect();
            let text = e.to_string();
            check!(text.to_lowercase().contains(&hex), "error for digest {hex} does not name it: {text}");
        }
    }
    Ok(())
}

fn text(s: &str, ch: &mut Ch) -> Res {
    ch.note(|| format!("text {s:?}"));
    ch.eval();
    let low = s.to_lowercase();
    let want = FORKS
        .iter()
        .find(|f| f.2 == low)
        .map(|f| f.0)
        .or((low == "merge").then_some(ForkName::Bellatrix));
    for (how, got) in [
        ("from_str", ForkName::from_str(s)),
        ("try_from", ForkName::try_from(s.to_string())),
    ] {
        match (got, want) {
            (Ok(g), Some(w)) => {
                check_eq!(g, w, "{how}({s:?})");
                ch.outcome(&(s.len(), w.as_fork_digest()));
            }
            (Ok(g), None) => fail!("{how}({s:?}) is accepted as {g:?}"),
            (Err(e), Some(w)) => fail!("{how}({s:?}) of {w:?} is refused: {e}"),
            (Err(e), None) => check!(e.contains(s), "error for {s:?} does not name it: {e}"),
        }
    }
    Ok(())
}

pub fn f01(ctx: &Ctx) {
    ctx.range("forks", 4, |i, ch| {
        let (f, d, s, c) = FORKS[i as usize];
        ch.eval();
        ch.outcome(&s);
        check_eq!(f.as_fork_digest(), d, "digest of {f:?}");
        check_eq!(ForkName::try_from(f.as_fork_digest()), Ok(f), "fork of the digest of {f:?}");
        check_eq!(f.to_string(), s, "text of {f:?}");
        check_eq!(String::from(f), s, "String of {f:?}");
        check_eq!(f.as_capitalized_str(), c, "capitalised text of {f:?}");
        check_eq!(format!("{f:>12}"), format!("{s:>12}"), "padded text of {f:?}");
        text(&f.to_string(), ch)?;
        text(f.as_capitalized_str(), ch)
    });
    if ctx.tier == vc::Tier::Thorough {
        ctx.range("all digests", 1 << 32, |i, ch| digest((i as u32).to_be_bytes(), ch));
    } else {
        // two bytes arbitrary, the other two of a valid digest
        ctx.range("digests sharing two bytes with a valid one", 4 * 6 << 16, |i, ch| {
            let mut d = FORKS[(i >> 16) as usize % 4].1;
            let pair = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][(i >> 16) as usize / 4];
            d[pair.0] = i as u8;
            d[pair.1] = (i >> 8) as u8;
            digest(d, ch)
        });
        let bytes: Vec<u8> = FORKS.iter().flat_map(|f| f.1).chain([0, 0xff]).collect();
        let n = bytes.len() as u64;
        ctx.range("digests mixing bytes of valid ones", n.pow(4), |mut i, ch| {
            let mut d = [0; 4];
            for b in &mut d {
                *b = bytes[(i % n) as usize];
                i /= n;
            }
            digest(d, ch)
        });
    }
    for name in ["bellatrix", "merge", "capella", "deneb", "electra"] {
        ctx.range(&format!("case variants of {name}"), 1 << name.len(), |i, ch| {
            let s: String = name
                .chars()
                .enumerate()
                .map(|(k, c)| if i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c })
                .collect();
            text(&s, ch)
        });
        let edits: Vec<char> = "abcdelnprtxABE0 -_\u{212a}é☃\0".chars().collect();
        ctx.explore(&format!("edits of {name}"), |ch| {
            let mut t: Vec<char> = name.chars().collect();
            for _ in 0..ctx.b(1, 2) {
                let c = *ch.choose(&edits);
                let at = ch.pick(t.len());
                match ch.pick(3) {
                    0 => t.insert(at, c),
                    1 => t[at] = c,
                    _ => {
                        t.remove(at);
                    }
                }
            }
            text(&t.into_iter().collect::<String>(), ch)
        });
    }
    let words = ["", "bellatrix", "merge", "capella", "deneb", "electra", "altair", "phase0", "fulu", "paris", "cancun", " ", "0x4a26c58b"];
    ctx.explore("joined words", |ch| {
        let s = format!("{}{}", ch.choose(&words), ch.choose(&words));
        text(&s, ch)
    });
}
