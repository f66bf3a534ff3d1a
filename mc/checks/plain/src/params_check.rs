use crate::types::jsonrpc::params::Params;
use serde_json::{json, Map, Value};
use vc::{check_eq, fail, Ch, Ctx, Res};

fn value(ch: &mut Ch, depth: u32, width: usize) -> Value {
    let leaves = [
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1.5),
        json!(""),
        json!("null"),
        json!([]),
        json!({}),
    ];
    let kinds = if depth == 0 { leaves.len() } else { leaves.len() + 2 };
    let k = ch.pick(kinds);
    if k < leaves.len() {
        return leaves[k].clone();
    }
    let n = 1 + ch.pick(width);
    if k == leaves.len() {
        Value::Array((0..n).map(|_| value(ch, depth - 1, width)).collect())
    } else {
        let keys = ["a", "", "None", "Array"];
        let mut m = Map::new();
        for i in 0..n {
            let key = keys[(i + ch.pick(2) * 2) % keys.len()];
            m.insert(key.to_string(), value(ch, depth - 1, width));
        }
        Value::Object(m)
    }
}

fn case(v: &Value, ch: &mut Ch) -> Res {
    ch.note(|| format!("value {v}"));
    ch.eval();
    let text = v.to_string();
    for (how, got) in [
        ("text", serde_json::from_str::<Params>(&text)),
        ("value", serde_json::from_value::<Params>(v.clone())),
        ("bytes", serde_json::from_slice::<Params>(text.as_bytes())),
    ] {
        let got = match (v, got) {
            (Value::Null | Value::Array(_) | Value::Object(_), Ok(p)) => p,
            (Value::Null | Value::Array(_) | Value::Object(_), Err(e)) => {
                fail!("{v} from {how} is refused: {e}")
            }
            (_, Ok(p)) => fail!("{v} from {how} is accepted as {p:?}"),
            (_, Err(_)) => continue,
        };
        let want = match v {
            Value::Null => Params::None,
            Value::Array(a) => Params::Array(a.clone()),
            Value::Object(m) => Params::Map(m.clone()),
            _ => unreachable!(),
        };
        check_eq!(got, want, "{v} from {how}");
        check_eq!(Value::from(got.clone()), *v, "{v} from {how}, converted back");
        let again = serde_json::to_value(&got).map_err(|e| format!("{v} does not serialise: {e}"))?;
        check_eq!(again, *v, "{v} from {how}, serialised");
        let t2 = serde_json::to_string(&got).map_err(|e| format!("{v} does not serialise: {e}"))?;
        check_eq!(t2, text, "{v} from {how}, serialised text");
    }
    ch.outcome(&text);
    Ok(())
}

pub fn h04(ctx: &Ctx) {
    ctx.explore("nested values", |ch| {
        let v = value(ch, ctx.b(2, 2), 2);
        case(&v, ch)
    });
    ctx.explore("wide arrays", |ch| {
        let n = ch.pick(ctx.b(5, 6));
        let v = Value::Array((0..n).map(|_| value(ch, 0, 1)).collect());
        case(&v, ch)
    });
    ctx.range("long arrays and objects", 300, |n, ch| {
        let v = Value::Array((0..n).map(|i| json!(i)).collect());
        case(&v, ch)?;
        let m: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), json!(i))).collect();
        case(&Value::Object(m), ch)
    });
    ctx.range("deep values", 100, |n, ch| {
        let mut v = json!([]);
        for i in 0..n {
            v = if i % 2 == 0 { json!([v]) } else { json!({ "k": v }) };
        }
        case(&v, ch)
    });
}
