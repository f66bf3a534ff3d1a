use crate::types::client_type::ClientType;
use vc::{check_eq, Ch, Ctx, Res};

const NAMES: [(&str, ClientType, &str); 6] = [
    ("fluffy", ClientType::Fluffy, "Fluffy"),
    ("trin", ClientType::Trin, "Trin"),
    ("trin-execution", ClientType::TrinExecution, "TrinExecution"),
    ("shisui", ClientType::Shisui, "Shisui"),
    ("ultralight", ClientType::Ultralight, "Ultralight"),
    ("samba", ClientType::Samba, "Samba"),
];

fn case(s: &str, ch: &mut Ch) -> Res {
    ch.note(|| format!("name {s:?}"));
    ch.eval();
    let low = s.to_lowercase();
    let (want, text) = NAMES
        .iter()
        .find(|n| n.0 == low)
        .map(|n| (n.1.clone(), n.2.to_string()))
        .unwrap_or_else(|| (ClientType::Unknown(Some(low.clone())), format!("Unknown({low})")));
    let got = ClientType::from(s);
    check_eq!(got, want, "client type of {s:?}");
    check_eq!(got.to_string(), text, "printed form of {s:?}");
    ch.outcome(&text);
    Ok(())
}

pub fn h03(ctx: &Ctx) {
    for (name, ..) in &NAMES {
        let n = name.chars().count();
        ctx.range(&format!("case variants of {name}"), 1 << n, |i, ch| {
            let s: String = name
                .chars()
                .enumerate()
                .map(|(k, c)| if i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c })
                .collect();
            case(&s, ch)
        });
        let edits: Vec<char> = "abilmnrstuxyTN-_ /0v\u{212a}\u{130}\u{17f}é☃\0".chars().collect();
        let e = edits.len() as u64;
        ctx.explore(&format!("edits of {name}"), |ch| {
            let mut t: Vec<char> = name.chars().collect();
            for _ in 0..ctx.b(1, 2) {
                let c = edits[ch.pick(e as usize)];
                match ch.pick(4) {
                    0 => {
                        let at = ch.pick(t.len() + 1);
                        t.insert(at, c);
                    }
                    1 if !t.is_empty() => {
                        let at = ch.pick(t.len());
                        t[at] = c;
                    }
                    2 if !t.is_empty() => {
                        let at = ch.pick(t.len());
                        t.remove(at);
                    }
                    _ => {
                        if t.len() > 1 {
                            let at = ch.pick(t.len() - 1);
                            t.swap(at, at + 1);
                        }
                    }
                }
            }
            case(&t.into_iter().collect::<String>(), ch)
        });
    }
    ctx.explore("two pieces of names", |ch| {
        let mut s = String::new();
        for _ in 0..2 {
            let name = NAMES[ch.pick(NAMES.len())].0;
            let from = ch.pick(name.len() + 1);
            let to = from + ch.pick(name.len() - from + 1);
            s.push_str(&name[from..to]);
        }
        case(&s, ch)
    });
    // names joined with separators and versions
    let parts = [
        "", "trin", "Trin", "fluffy", "execution", "-", " ", "/", "v0.1.0", "samba", "shisui", "ultralight",
        "trin-execution", "unknown", "x",
    ];
    ctx.explore("joined parts", |ch| {
        let mut s = String::new();
        for _ in 0..ctx.b(3, 4) {
            s.push_str(*ch.choose(&parts));
        }
        case(&s, ch)
    });
    ctx.once("unknown without a name", |ch| {
        ch.eval();
        check_eq!(ClientType::Unknown(None).to_string(), "Unknown", "printed form without name");
        Ok(())
    });
}
