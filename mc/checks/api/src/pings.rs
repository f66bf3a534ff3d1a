use crate::reference::*;
use alloy::primitives::U256;
use ethportal_api::types::{
    bytes::ByteList1100,
    distance::Distance,
    ping_extensions::{
        decode::PingExtension,
        extension_types::PingExtensionType,
        extensions::{type_0::*, type_1::*, type_2::*, type_65535::*},
    },
    portal_wire::CustomPayload,
};
use serde_json::{json, Value};
use std::str::FromStr;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

fn radii() -> Vec<U256> {
    vec![U256::ZERO, U256::from(1), U256::from(0x0102030405060708u64), U256::MAX - U256::from(1), U256::MAX, U256::from(1) << 255]
}

fn info(ch: &mut Ch, small: bool) -> Option<ClientInfo> {
    let name = *ch.choose(&["trin", "", "trin-execution", "a b", "ünï"][..if small { 2 } else { 5 }]);
    let version = *ch.choose(&["v0.1.1", "", "0-1", "-"][..if small { 1 } else { 4 }]);
    let commit = *ch.choose(&["892ad575", ""][..if small { 1 } else { 2 }]);
    let (os, cpu) = *ch.choose(&[("linux", "x86_64"), ("", ""), ("mac os", "")][..if small { 1 } else { 3 }]);
    let lang = *ch.choose(&["rustc1.81.0", "", "a-b-c"][..if small { 1 } else { 3 }]);
    Some(ClientInfo {
        client_name: name.into(),
        client_version: version.into(),
        short_commit: commit.into(),
        operating_system: os.into(),
        cpu_architecture: cpu.into(),
        programming_language_version: lang.into(),
    })
}

fn text(i: &ClientInfo) -> String {
    format!(
        "{}/{}-{}/{}-{}/{}",
        i.client_name, i.client_version, i.short_commit, i.operating_system, i.cpu_architecture, i.programming_language_version
    )
}

fn le(r: U256) -> Vec<u8> {
    r.to_le_bytes::<32>().to_vec()
}

fn quoted(r: U256) -> Value {
    Value::String(format!("{r:#x}"))
}

/// An extension with its type number, wire bytes and JSON form.
fn extension(ch: &mut Ch, small: bool) -> (PingExtension, u16, Vec<u8>, Value) {
    let r = if small { radii()[2] } else { *ch.choose(&radii()) };
    match ch.pick(4) {
        0 => {
            let capabilities: Vec<u16> = match ch.pick(3) {
                0 => vec![],
                1 if small => vec![0, 1, 65535],
                1 => (0..1 + ch.pick(2)).map(|_| *ch.choose(&[0u16, 1, 2, 3, 65535])).collect(),
                _ => (0..*ch.choose(&[399u16, 400])).collect(),
            };
            let kinds = if capabilities.len() > 300 { 1 } else { 3 };
            let client_info = match ch.pick(kinds) {
                0 => None,
                1 => info(ch, small),
                _ => {
                    let n = *ch.choose(&[1usize, 185, 186]);
                    Some(ClientInfo {
                        client_name: "n".repeat(n),
                        client_version: "v".into(),
                        short_commit: "c".into(),
                        operating_system: "os".into(),
                        cpu_architecture: "cp".into(),
                        programming_language_version: "lng".into(),
                    })
                }
            };
            let s = client_info.as_ref().map(text).unwrap_or_default();
            assert!(s.len() <= 200);
            let raw = container(&[
                Var(s.clone().into_bytes()),
                Fixed(le(r)),
                Var(capabilities.iter().flat_map(|c| c.to_le_bytes()).collect()),
            ]);
            let json = json!({
                "clientInfo": if client_info.is_some() { Value::from(s) } else { Value::Null },
                "dataRadius": quoted(r),
                "capabilities": capabilities,
            });
            let c = capabilities.into_iter().map(PingExtensionType::from).collect();
            let e = ClientInfoRadiusCapabilities::new_with_client_info(client_info, Distance::from(r), c);
            (PingExtension::Capabilities(e), 0, raw, json)
        }
        1 => (PingExtension::BasicRadius(BasicRadius::new(Distance::from(r))), 1, le(r), json!({"dataRadius": quoted(r)})),
        2 => {
            let n = *ch.choose(&[0u16, 1, 255, 256, 8192, 65535]);
            (
                PingExtension::HistoryRadius(HistoryRadius::new(Distance::from(r), n)),
                2,
                [le(r), n.to_le_bytes().to_vec()].concat(),
                json!({"dataRadius": quoted(r), "ephemeralHeaderCount": n}),
            )
        }
        _ => {
            let (code, n) = match ch.pick(4) {
                0 => (ErrorCodes::ExtensionNotSupported, 0u16),
                1 => (ErrorCodes::RequestedDataNotFound, 1),
                2 => (ErrorCodes::FailedToDecodePayload, 2),
                _ => (ErrorCodes::SystemError, 3),
            };
            let len = *ch.choose(&[0usize, 1, 2, 299, 300]);
            let message = if ch.flag() { vec![b'm'; len] } else { ramp(200, len) };
            let e = if len == 0 {
                PingError::new(code)
            } else {
                PingError::new_with_message(code, message[..len].to_vec()).expect("short message")
            };
            let raw = container(&[Fixed(n.to_le_bytes().to_vec()), Var(message.clone())]);
            (PingExtension::Error(e), 65535, raw, json!({"errorCode": n, "message": message}))
        }
    }
}

fn payload(raw: &[u8]) -> CustomPayload {
    CustomPayload { payload: ByteList1100::new(raw.to_vec()).expect("payload below the limit") }
}

fn decode(t: u16, raw: &[u8]) -> Option<(PingExtension, Vec<u8>)> {
    let e = PingExtension::decode_ssz(PingExtensionType::from(t), payload(raw)).ok()?;
    let again = CustomPayload::from(e.clone()).payload.to_vec();
    Some((e, again))
}

/// Whether the bytes are a payload of the type, by the specification.
fn valid(t: u16, raw: &[u8]) -> bool {
    let n = raw.len();
    let at = |i: usize| u32::from_le_bytes(raw[i..i + 4].try_into().unwrap()) as usize;
    match t {
        0 => {
            if n < 40 || at(0) != 40 || at(36) < 40 || at(36) > n {
                return false;
            }
            let (s, caps) = (&raw[40..at(36)], &raw[at(36)..]);
            let Ok(s) = std::str::from_utf8(s) else { return false };
            let parts: Vec<&str> = s.split('/').collect();
            let good = s.is_empty() || (s.len() <= 200 && parts.len() == 4 && parts[1].contains('-') && parts[2].matches('-').count() == 1);
            good && caps.len() % 2 == 0 && caps.len() <= 800
        }
        1 => n == 32,
        2 => n == 34,
        65535 => n >= 6 && at(2) == 6 && n <= 306,
        _ => false,
    }
}

fn any(t: u16, raw: &[u8], ch: &mut Ch) -> Res {
    let got = canonical("ping payload", raw, ch, |raw| decode(t, raw))?;
    check_eq!(got.is_some(), valid(t, raw), "acceptance of {} as type {t}", short(raw));
    ch.outcome(&(t, got.is_some()));
    Ok(())
}

pub fn w06(ctx: &Ctx) {
    ctx.explore("extensions", |ch| {
        let (e, t, raw, json) = extension(ch, false);
        ch.note(|| format!("extension {e:?}"));
        ch.eval();
        check_eq!(u16::from(PingExtensionType::from(e.clone())), t, "type of {e:?}");
        check_eq!(u16::from(e.ping_extension_type()), t, "type of {e:?}");
        check_eq!(CustomPayload::from(e.clone()).payload.to_vec(), raw, "bytes of {e:?}");
        match canonical("ping payload", &raw, ch, |raw| decode(t, raw))? {
            Some(again) => check_eq!(again, e, "extension after a round trip"),
            None => fail!("{e:?} is refused in its own encoding"),
        }
        let got = serde_json::to_value(&e).map_err(|e| e.to_string())?;
        check_eq!(got, json, "JSON of {e:?}");
        let back = PingExtension::decode_json(PingExtensionType::from(t), json).map_err(|e| e.to_string())?;
        check_eq!(back, e, "extension from JSON");
        for other in [0u16, 1, 2, 3, 65534, 65535] {
            if raw.len() <= 1100 {
                any(other, &raw, ch)?;
            }
        }
        ch.outcome(&raw);
        Ok(())
    });
    ctx.explore("edited payloads", |ch| {
        let (_, t, raw, _) = extension(ch, true);
        if raw.len() > 400 {
            return Ok(());
        }
        ch.note(|| format!("edits of {}", short(&raw)));
        edits(&raw, ctx.b(50, 320), false, |bad| any(t, bad, ch))
    });
    ctx.range("short payloads", 256, |i, ch| {
        for t in [0u16, 1, 2, 65535] {
            any(t, &[], ch)?;
            any(t, &[i as u8], ch)?;
            for n in 2..=64 {
                for fill in [0u8, 6, 40, 255] {
                    let mut raw = vec![fill; n];
                    raw[0] = i as u8;
                    any(t, &raw, ch)?;
                }
            }
        }
        Ok(())
    });
    ctx.range("every type number", 65536, |t, ch| {
        let t = t as u16;
        check_eq!(u16::from(PingExtensionType::from(t)), t, "number of type {t}");
        let known = [0, 1, 2, 65535].contains(&t);
        for n in [0usize, 6, 32, 34, 40, 306] {
            let mut raw = vec![0u8; n];
            if n == 6 || n == 306 {
                raw[2] = 6;
            }
            if n == 40 {
                raw[0] = 40;
                raw[36] = 40;
            }
            any(t, &raw, ch)?;
        }
        let json = PingExtension::decode_json(PingExtensionType::from(t), json!({"dataRadius": "0x1", "ephemeralHeaderCount": 1, "clientInfo": null, "capabilities": [], "errorCode": 1, "message": []}));
        check_eq!(json.is_ok(), known, "acceptance of JSON as type {t}");
        check_eq!(json.ok().map(|e| u16::from(e.ping_extension_type())), known.then_some(t), "type read from JSON");
        Ok(())
    });
    ctx.explore("client strings", |ch| {
        let n = ch.pick(7);
        let s: String = (0..n).map(|_| *ch.choose(&["/", "-", "a"])).collect();
        let s = format!("{s}{}", ch.choose(&["", "/1-2/3-4/5", "-2/3-4/5", "/3-4/5"]));
        ch.note(|| s.clone());
        ch.eval();
        let parts: Vec<&str> = s.split('/').collect();
        let good = parts.len() == 4 && parts[1].contains('-') && parts[2].matches('-').count() == 1;
        match ClientInfo::from_str(&s) {
            Ok(i) => {
                check!(good, "{s} is accepted");
                check_eq!(i.to_string(), s, "text of the parsed client");
                check_eq!(i.client_name, parts[0], "name in {s}");
                check_eq!(i.programming_language_version, parts[3], "language in {s}");
                check_eq!(i.short_commit, parts[1].rsplit('-').next().unwrap(), "commit in {s}");
                check_eq!(i.operating_system, parts[2].split('-').next().unwrap(), "system in {s}");
            }
            Err(e) => check!(!good, "{s} is refused: {e}"),
        }
        ch.outcome(&s);
        Ok(())
    });
    ctx.range("error message sizes", 400, |n, ch| {
        ch.eval();
        let n = n as usize;
        let got = PingError::new_with_message(ErrorCodes::SystemError, vec![1; n]);
        check_eq!(got.is_ok(), n <= 300, "an error message of {n} bytes");
        any(65535, &container(&[Fixed(vec![0, 0]), Var(vec![7; n])]), ch)?;
        any(0, &container(&[Var(vec![]), Fixed(vec![0; 32]), Var(vec![7; n * 2 + 100])]), ch)?;
        let s = format!("{}/-/-/", "x".repeat(n));
        check_eq!(ClientInfo::from_str(&s).is_ok(), s.len() <= 200, "a client string of {} bytes", s.len());
        any(0, &container(&[Var(s.into_bytes()), Fixed(vec![0; 32]), Var(vec![])]), ch)
    });
}
