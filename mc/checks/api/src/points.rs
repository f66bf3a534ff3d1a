//! W12: public keys, signatures and commitments as text and bytes.

use ethportal_api::consensus::{kzg_commitment::KzgCommitment, pubkey::PubKey, signature::BlsSignature};
use serde_json::{json, Value};
use ssz::{Decode, Encode};
use vc::{check_eq, fail, Ch, Ctx, Res};

struct Kind {
    name: &'static str,
    len: usize,
    read: fn(&Value) -> Result<(Vec<u8>, Value), String>,
    decode: fn(&[u8]) -> Result<(Vec<u8>, Vec<u8>), String>,
    root: fn(&[u8]) -> [u8; 32],
}

fn of<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value, bytes: fn(&T) -> Vec<u8>) -> Result<(Vec<u8>, Value), String> {
    let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    let back = serde_json::to_value(&t).map_err(|e| e.to_string())?;
    Ok((bytes(&t), back))
}

fn ssz<T: Decode + Encode>(b: &[u8], bytes: fn(&T) -> Vec<u8>) -> Result<(Vec<u8>, Vec<u8>), String> {
    let t = T::from_ssz_bytes(b).map_err(|e| format!("{e:?}"))?;
    let len = t.ssz_bytes_len();
    let out = t.as_ssz_bytes();
    if !<T as Decode>::is_ssz_fixed_len() || <T as Decode>::ssz_fixed_len() != len || <T as Encode>::ssz_fixed_len() != len || out.len() != len {
        return Ok((vec![], vec![]));
    }
    Ok((bytes(&t), out))
}

fn key(k: &PubKey) -> Vec<u8> {
    k.inner.to_vec()
}
fn signature(s: &BlsSignature) -> Vec<u8> {
    s.signature.to_vec()
}
fn commitment(c: &KzgCommitment) -> Vec<u8> {
    c.0.to_vec()
}

fn kinds() -> [Kind; 3] {
    use tree_hash::TreeHash;
    [
        Kind {
            name: "public key",
            len: 48,
            read: |v| of::<PubKey>(v, key),
            decode: |b| ssz::<PubKey>(b, key),
            root: |b| PubKey::from_ssz_bytes(b).map_or([0; 32], |k| k.tree_hash_root().0),
        },
        Kind {
            name: "signature",
            len: 96,
            read: |v| of::<BlsSignature>(v, signature),
            decode: |b| ssz::<BlsSignature>(b, signature),
            root: |b| BlsSignature::from_ssz_bytes(b).map_or([0; 32], |s| s.tree_hash_root().0),
        },
        Kind {
            name: "commitment",
            len: 48,
            read: |v| of::<KzgCommitment>(v, commitment),
            decode: |b| ssz::<KzgCommitment>(b, commitment),
            root: |b| KzgCommitment::from_ssz_bytes(b).map_or([0; 32], |c| c.tree_hash_root().0),
        },
    ]
}

/// Reads a JSON value, which means these bytes or nothing.
fn text(ch: &mut Ch, k: &Kind, v: &Value, want: Option<&[u8]>) -> Res {
    let got = match vc::no_panic(|| (k.read)(v)) {
        Ok(got) => got,
        Err(e) => fail!("{} from {v}: {e}", k.name),
    };
    ch.evals(1);
    ch.outcome(&(k.name, got.is_ok(), want.is_some()));
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => fail!("{} from {v}: {e}", k.name),
        (Ok((b, _)), None) => fail!("{v} is taken for the {} {}", k.name, hex::encode(b)),
        (Ok((b, back)), Some(w)) => {
            check_eq!(b, w, "{} from {v}", k.name);
            check_eq!(back, json!(format!("0x{}", hex::encode(w))), "text of the {}", k.name);
            Ok(())
        }
    }
}

pub fn w12(ctx: &Ctx) {
    let top = ctx.b(100, 200);
    ctx.explore("lengths", |ch| {
        let all = kinds();
        let k = &all[ch.pick(all.len())];
        let n = ch.pick(top + 1);
        let salt = *ch.choose(&[0u8, 1, 0x7f, 0xc0]);
        // all zero, or counting
        let b: Vec<u8> = (0..n).map(|i| if salt == 0 { 0 } else { salt.wrapping_add(i as u8) }).collect();
        ch.note(|| format!("{} of {n} bytes from {salt}", k.name));
        let want = (n == k.len).then_some(&b[..]);
        let low = hex::encode(&b);
        for t in [format!("0x{low}"), format!("0x{}", low.to_uppercase()), format!("0X{low}")] {
            text(ch, k, &json!(t), want)?;
        }
        for t in [low.clone(), format!("0x{low}0"), format!(" 0x{low}"), format!("0x{low} "), format!("1x{low}"), format!("0x0x{low}")] {
            text(ch, k, &json!(t), None)?;
        }
        text(ch, k, &json!(b), None)?;
        let got = match vc::no_panic(|| (k.decode)(&b)) {
            Ok(got) => got.ok(),
            Err(e) => fail!("{} of {n} bytes: {e}", k.name),
        };
        check_eq!(got, want.map(|w| (w.to_vec(), w.to_vec())), "{} of {n} bytes", k.name);
        if want.is_some() {
            check_eq!((k.root)(&b), spec::merkle::byte_vector(&b), "root of the {}", k.name);
            if k.name == "commitment" {
                let c = KzgCommitment::from_ssz_bytes(&b).map_err(|e| format!("{e:?}"))?;
                let mut hash = spec::merkle::sha256(&b);
                hash[0] = 1;
                check_eq!(c.calculate_versioned_hash().0, hash, "versioned hash of the commitment");
                ch.evals(1);
            }
        }
        ch.evals(2);
        ch.state(&(k.name, n));
        Ok(())
    });
    ctx.explore("one odd character", |ch| {
        let all = kinds();
        let k = &all[ch.pick(all.len())];
        let mut t = format!("0x{}", hex::encode(spec::ramp(3, k.len))).into_bytes();
        let at = ch.pick(t.len());
        let odd = *ch.choose(b"gG/:@`x -_\"\\");
        t[at] = odd;
        ch.note(|| format!("{:?} at {at}", odd as char));
        // the prefix may be in either case
        if at == 1 && odd == b'x' {
            return Ok(());
        }
        text(ch, k, &json!(String::from_utf8(t).expect("text")), None)
    });
    ctx.explore("other JSON", |ch| {
        let all = kinds();
        let k = &all[ch.pick(all.len())];
        let t = format!("0x{}", hex::encode(spec::ramp(3, k.len)));
        let v = [json!(null), json!(1), json!(true), json!([t]), json!({ "signature": t }), json!({ "inner": t }), json!(""), json!("0"), json!("0x")];
        let v = &v[ch.pick(v.len())];
        text(ch, k, v, None)
    });
}
