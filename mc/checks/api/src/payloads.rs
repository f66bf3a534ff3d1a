//! W13: execution payloads and their headers in JSON.

use ethportal_api::consensus::{
    execution_payload::*,
    fork::ForkName,
};
use serde_json::{json, Map, Value};
use spec::{container, Fixed, Part, Var};
use ssz::{Decode, Encode};
use vc::{check_eq, fail, Ch, Ctx, Res};

const FORKS: [ForkName; 4] = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra];

/// What reading a JSON value gives: the bytes, and the JSON written again.
type Read = Result<(Vec<u8>, Value), String>;

fn of<T: serde::de::DeserializeOwned + serde::Serialize + Encode + Decode + PartialEq>(v: &Value) -> Read {
    let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    let back = serde_json::to_value(&t).expect("a payload is written as JSON");
    let again: T = serde_json::from_value(back.clone()).expect("a payload is read from its own JSON");
    let raw = t.as_ssz_bytes();
    assert!(again == t, "a payload read from its own JSON differs");
    assert!(T::from_ssz_bytes(&raw).expect("a payload is read from its own bytes") == t, "a payload read from its own bytes differs");
    Ok((raw, back))
}

fn read(fork: usize, header: bool, v: &Value) -> Read {
    match (fork, header) {
        (0, false) => of::<ExecutionPayloadBellatrix>(v),
        (1, false) => of::<ExecutionPayloadCapella>(v),
        (2, false) => of::<ExecutionPayloadDeneb>(v),
        (_, false) => of::<ExecutionPayloadElectra>(v),
        (0, true) => of::<ExecutionPayloadHeaderBellatrix>(v),
        (1, true) => of::<ExecutionPayloadHeaderCapella>(v),
        (2, true) => of::<ExecutionPayloadHeaderDeneb>(v),
        (_, true) => of::<ExecutionPayloadHeaderElectra>(v),
    }
}

fn hexed(b: &[u8]) -> Value {
    json!(format!("0x{}", hex::encode(b)))
}

/// The number written in decimal, from its big endian bytes.
fn decimal(b: &[u8; 32]) -> String {
    let mut rest = b.to_vec();
    let mut out = vec![];
    while rest.iter().any(|d| *d != 0) {
        let mut carry = 0u32;
        for d in rest.iter_mut() {
            let n = carry << 8 | *d as u32;
            *d = (n / 10) as u8;
            carry = n % 10;
        }
        out.push(b'0' + carry as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).expect("digits")
}

struct Plan {
    salt: u8,
    number: u64,
    /// whether numbers are texts
    quoted: bool,
    fee: [u8; 32],
    extra: usize,
    transactions: Vec<Vec<u8>>,
    withdrawals: usize,
}

impl Plan {
    fn plain() -> Self {
        Plan { salt: 1, number: 7, quoted: true, fee: one(7), extra: 3, transactions: vec![vec![2, 3]], withdrawals: 1 }
    }
    fn number(&self, n: u64) -> Value {
        if self.quoted {
            json!(n.to_string())
        } else {
            json!(n)
        }
    }
    /// Name, JSON and bytes of each field, in order.
    fn fields(&self, fork: usize, header: bool) -> Vec<(&'static str, Value, Part)> {
        let mut out = vec![];
        let hash = |name, i: u8| {
            let h = spec::hash(self.salt.wrapping_add(i));
            (name, hexed(&h), Fixed(h.to_vec()))
        };
        let num = |name, i: u64| {
            let n = self.number.wrapping_add(i);
            (name, self.number(n), Fixed(n.to_le_bytes().to_vec()))
        };
        let bloom = spec::ramp(self.salt, 256);
        let address = spec::ramp(self.salt.wrapping_add(9), 20);
        let extra = spec::ramp(self.salt, self.extra);
        out.push(hash("parent_hash", 0));
        out.push(("fee_recipient", hexed(&address), Fixed(address.clone())));
        out.push(hash("state_root", 1));
        out.push(hash("receipts_root", 2));
        out.push(("logs_bloom", hexed(&bloom), Fixed(bloom)));
        out.push(hash("prev_randao", 3));
        out.push(num("block_number", 0));
        out.push(num("gas_limit", 1));
        out.push(num("gas_used", 2));
        out.push(num("timestamp", 3));
        out.push(("extra_data", hexed(&extra), Var(extra)));
        let mut fee = self.fee;
        fee.reverse();
        out.push(("base_fee_per_gas", json!(decimal(&self.fee)), Fixed(fee.to_vec())));
        out.push(hash("block_hash", 4));
        if header {
            out.push(hash("transactions_root", 5));
        } else {
            let txs: Vec<Value> = self.transactions.iter().map(|t| hexed(t)).collect();
            out.push(("transactions", json!(txs), Var(spec::list(&self.transactions))));
        }
        if fork > 0 && header {
            out.push(hash("withdrawals_root", 6));
        } else if fork > 0 {
            let (mut list, mut raw) = (vec![], vec![]);
            for i in 0..self.withdrawals as u64 {
                let n = self.number.wrapping_sub(i);
                let a = spec::ramp(i as u8, 20);
                list.push(json!({ "index": self.number(n), "validator_index": self.number(i), "address": hexed(&a), "amount": self.number(n ^ 1) }));
                raw.extend(n.to_le_bytes());
                raw.extend(i.to_le_bytes());
                raw.extend(a);
                raw.extend((n ^ 1).to_le_bytes());
            }
            out.push(("withdrawals", json!(list), Var(raw)));
        }
        if fork > 1 {
            out.push(num("blob_gas_used", 4));
            out.push(num("excess_blob_gas", 5));
        }
        out
    }
}

fn one(n: u8) -> [u8; 32] {
    let mut b = [0; 32];
    b[31] = n;
    b
}

fn object(fields: &[(&'static str, Value, Part)]) -> Map<String, Value> {
    fields.iter().map(|(k, v, _)| (k.to_string(), v.clone())).collect()
}

fn accepted(ch: &mut Ch, fork: usize, header: bool, plan: &Plan) -> Res {
    let fields = plan.fields(fork, header);
    let v = Value::Object(object(&fields));
    ch.evals(3);
    let (raw, back) = match vc::no_panic(|| read(fork, header, &v)) {
        Ok(Ok(got)) => got,
        Ok(Err(e)) => fail!("{v} is refused: {e}"),
        Err(e) => fail!("{v}: {e}"),
    };
    let parts: Vec<Part> = fields.into_iter().map(|f| f.2).collect();
    let want = container(&parts);
    check_eq!(spec::short(&raw), spec::short(&want), "bytes of {v}");
    check_eq!(raw == want, true, "bytes of {v}");
    // by the name of the fork
    let named = vc::no_panic(|| {
        if header {
            ExecutionPayloadHeader::from_ssz_bytes(&want, FORKS[fork]).map(|p| p.as_ssz_bytes())
        } else {
            ExecutionPayload::from_ssz_bytes(&want, FORKS[fork]).map(|p| p.as_ssz_bytes())
        }
    });
    match named {
        Ok(Ok(b)) => check_eq!(b == want, true, "bytes read for the fork and written again"),
        other => fail!("bytes of {v} for the fork: {other:?}"),
    }
    for (k, w) in v.as_object().expect("an object") {
        let unquoted = !matches!(k.as_str(), "base_fee_per_gas") && w.as_str().is_some_and(|s| !s.starts_with("0x"));
        if !unquoted && k != "withdrawals" {
            check_eq!(back[k], *w, "{k} written again");
        }
    }
    ch.outcome(&(fork, header, plan.extra, plan.transactions.len(), plan.withdrawals));
    ch.state(&(fork, header, plan.fee, plan.number));
    Ok(())
}

pub fn w13(ctx: &Ctx) {
    let mut fees = vec![[0; 32], [0xff; 32]];
    for bit in 0..256usize {
        let mut b = [0; 32];
        b[31 - bit / 8] = 1 << (bit % 8);
        fees.push(b);
        let mut c = [0; 32];
        for low in 0..bit {
            c[31 - low / 8] |= 1 << (low % 8);
        }
        fees.push(c);
    }
    ctx.explore("base fees", |ch| {
        let (fork, header) = (ch.pick(4), ch.flag());
        let plan = Plan { fee: fees[ch.pick(fees.len())], ..Plan::plain() };
        ch.note(|| format!("{:?}, base fee {}", FORKS[fork], decimal(&plan.fee)));
        accepted(ch, fork, header, &plan)
    });
    ctx.explore("shapes", |ch| {
        let (fork, header) = (ch.pick(4), ch.flag());
        let plan = Plan {
            salt: *ch.choose(&[0, 0x80]),
            number: *ch.choose(&[0, 1, 1 << 32, 1 << 53, (1 << 63) - 3, u64::MAX - 5]),
            quoted: ch.flag(),
            fee: one(9),
            extra: *ch.choose(&[0, 1, 31, 32]),
            transactions: {
                let n = if header { 0 } else { ch.pick(ctx.b(3, 4)) };
                (0..n).map(|i| spec::ramp(i as u8, *ch.choose(&[0, 1, 40]))).collect()
            },
            withdrawals: if header || fork == 0 { 0 } else { *ch.choose(&[0, 1, 2, 16]) },
        };
        accepted(ch, fork, header, &plan)
    });
    ctx.explore("one field wrong", |ch| {
        let (fork, header) = (ch.pick(4), ch.flag());
        let plan = Plan::plain();
        let fields = plan.fields(fork, header);
        let mut v = object(&fields);
        let at = ch.pick(fields.len() + !header as usize);
        if at == fields.len() {
            let extra = *ch.choose(&["extra", "transactions_root", "withdrawals_root", "deposit_requests", "parentHash", "blob_gas"]);
            v.insert(extra.to_string(), json!("0x"));
            ch.note(|| format!("unknown field {extra}"));
        } else {
            let name = fields[at].0;
            let too_big = "115792089237316195423570985008687907853269984665640564039457584007913129639936";
            let mut odd: Vec<Value> = match name {
                "base_fee_per_gas" => vec![json!(7), json!("0x7"), json!("-1"), json!("1.5"), json!("x"), json!(" 7"), json!("7 "), json!("1e3"), json!(too_big), json!(null), json!(["7"])],
                "block_number" | "gas_limit" | "gas_used" | "timestamp" | "blob_gas_used" | "excess_blob_gas" => {
                    vec![json!("x"), json!("0x7"), json!("18446744073709551616"), json!("7 "), json!([7]), json!({ "n": 7 })]
                }
                "transactions" => vec![json!("0x"), json!(["aa"]), json!(["0xa"]), json!(["0xgg"]), json!([1]), json!([null]), json!(["0x01", ""]), json!(null), json!([["0x01"]])],
                "withdrawals" => {
                    let item = fields[at].1[0].clone();
                    let mut l = vec![item.clone(), json!(null), json!(["0x"])];
                    for k in ["index", "validator_index", "address", "amount"] {
                        let mut less = item.clone();
                        less.as_object_mut().expect("an object").remove(k);
                        l.push(json!([less]));
                        let mut other = item.clone();
                        other[k] = json!("0x01");
                        l.push(json!([item.clone(), other]));
                    }
                    l
                }
                _ => vec![],
            };
            if let (Some(t), true) = (fields[at].1.as_str(), odd.is_empty()) {
                let d = &t[2..];
                odd = vec![json!(format!("0x{d}0")), json!(format!("0xg{}", &d[1..])), json!(7), json!([t]), json!(null), json!(format!("0x {d}"))];
                // a hash without its prefix is left open by the property
                if matches!(name, "extra_data" | "logs_bloom") {
                    odd.push(json!(d));
                }
                if name == "extra_data" {
                    odd.push(hexed(&[1; 33]));
                    odd.push(hexed(&[1; 64]));
                } else {
                    odd.push(json!(format!("0x{}", &d[2..])));
                    odd.push(json!(format!("0x{d}00")));
                    odd.push(json!("0x"));
                }
            }
            let k = ch.pick(odd.len() + 1);
            ch.note(|| format!("{name}: {:?}", odd.get(k)));
            match odd.get(k) {
                Some(o) => v.insert(name.to_string(), o.clone()),
                None => v.remove(name),
            };
        }
        let v = Value::Object(v);
        ch.evals(1);
        match vc::no_panic(|| read(fork, header, &v)) {
            Ok(Err(_)) => {}
            Ok(Ok((raw, _))) => fail!("{:?} {v} is read as {}", FORKS[fork], spec::short(&raw)),
            Err(e) => fail!("{v}: {e}"),
        }
        ch.outcome(&(fork, header, at));
        Ok(())
    });
}
