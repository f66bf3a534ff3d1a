use crate::reference::*;
use discv5::enr::CombinedKey;
use ethportal_api::{
    types::{
        accept_code::{AcceptCode, AcceptCodeList},
        bytes::ByteList1100,
        enr::{Enr, SszEnr},
        ping_extensions::extension_types::PingExtensionType,
        portal_wire::*,
        protocol_versions::ProtocolVersion,
    },
    RawContentKey, RawContentValue,
};
use vc::{check_eq, fail, Ch, Ctx, Res};

pub fn enr(n: u8) -> Enr {
    let mut secret = [n.max(1); 32];
    let key = CombinedKey::secp256k1_from_bytes(&mut secret).expect("key");
    let mut b = Enr::builder();
    b.seq(n as u64 * 200);
    if n > 0 {
        b.ip4([10, 0, 0, n].into()).udp4(9000 + n as u16);
    }
    if n > 1 {
        b.add_value("c", &"t 0.1");
    }
    b.build(&key).expect("record")
}

/// A message with its encoding by the specification.
fn message(ch: &mut Ch, wide: bool) -> (Message, Vec<u8>) {
    let records: Vec<SszEnr> = (0..3).map(|n| SszEnr::new(enr(n))).collect();
    let raw_record = |e: &SszEnr| alloy_rlp::encode(e);
    let lens: &[usize] = if wide { &[0, 1, 2, 32, 36, 300, 1099, 1100] } else { &[0, 1, 36, 1100] };
    let kind = ch.pick(8);
    let (m, body) = match kind {
        0 | 1 => {
            let enr_seq = *ch.choose(&[0u64, 1, 256, u64::MAX - 1, u64::MAX]);
            let t = *ch.choose(&[0u16, 1, 2, 3, 255, 256, 65534, 65535]);
            let payload = ramp(3, *ch.choose(lens));
            let body = container(&[
                Fixed(enr_seq.to_le_bytes().to_vec()),
                Fixed(t.to_le_bytes().to_vec()),
                Var(payload.clone()),
            ]);
            let payload_type = PingExtensionType::from(t);
            let payload = CustomPayload { payload: ByteList1100::new(payload).unwrap() };
            let m = if kind == 0 {
                Message::Ping(Ping { enr_seq, payload_type, payload })
            } else {
                Message::Pong(Pong { enr_seq, payload_type, payload })
            };
            (m, body)
        }
        2 => {
            let n = ch.pick(if wide { 5 } else { 4 });
            let distances: Vec<u16> = (0..n).map(|_| *ch.choose(&[0u16, 1, 255, 256, 257, 65535])).collect();
            let raw = distances.iter().flat_map(|d| d.to_le_bytes()).collect();
            (Message::FindNodes(FindNodes { distances }), container(&[Var(raw)]))
        }
        3 => {
            let total = *ch.choose(&[0u8, 1, 2, 255]);
            let n = ch.pick(4);
            let enrs: Vec<SszEnr> = (0..n).map(|_| ch.choose(&records).clone()).collect();
            let raw = list(&enrs.iter().map(raw_record).collect::<Vec<_>>());
            (Message::Nodes(Nodes { total, enrs }), container(&[Fixed(vec![total]), Var(raw)]))
        }
        4 => {
            let key = ramp(*ch.choose(&[0u8, 0x20, 0xff]), *ch.choose(&[0usize, 1, 2, 9, 33, 66, 1165]));
            (Message::FindContent(FindContent { content_key: RawContentKey::from(key.clone()) }), container(&[Var(key)]))
        }
        5 => match ch.pick(3) {
            0 => {
                let id = *ch.choose(&[0u16, 1, 255, 256, 0x1234, 65535]);
                (Message::Content(Content::ConnectionId(id)), [vec![0], id.to_le_bytes().to_vec()].concat())
            }
            1 => {
                let v = ramp(9, *ch.choose(&[0usize, 1, 2, 32, 1165, 2048]));
                (Message::Content(Content::Content(RawContentValue::from(v.clone()))), [vec![1], v].concat())
            }
            _ => {
                let n = ch.pick(4);
                let enrs: Vec<SszEnr> = (0..n).map(|_| ch.choose(&records).clone()).collect();
                let raw = list(&enrs.iter().map(raw_record).collect::<Vec<_>>());
                (Message::Content(Content::Enrs(enrs)), [vec![2], raw].concat())
            }
        },
        6 => {
            let keys: Vec<Vec<u8>> = if ch.flag() {
                let n = *ch.choose(&[63usize, 64]);
                (0..n).map(|i| ramp(i as u8, 33)).collect()
            } else {
                let n = ch.pick(4);
                (0..n).map(|_| ramp(5, *ch.choose(&[0usize, 1, 9, 33]))).collect()
            };
            let content_keys = keys.iter().map(|k| RawContentKey::from(k.clone())).collect();
            (Message::Offer(Offer { content_keys }), container(&[Var(list(&keys))]))
        }
        _ => {
            let connection_id = *ch.choose(&[0u16, 1, 256, 0xabcd, 65535]);
            let n = ch.pick(4);
            let codes: Vec<u8> = (0..n).map(|_| *ch.choose(&[0u8, 1, 2, 3, 4, 5, 255])).collect();
            let mut l = AcceptCodeList::new(n).expect("short list");
            for (i, c) in codes.iter().enumerate() {
                l.set(i, AcceptCode::from(*c));
            }
            let (version, raw) = if ch.flag() {
                (ProtocolVersion::V1, codes.clone())
            } else {
                let mut bits = 1u8 << n;
                for (i, c) in codes.iter().enumerate() {
                    bits |= ((*c == 0) as u8) << i;
                }
                (ProtocolVersion::V0, vec![bits])
            };
            (
                Message::Accept(Accept::new(version, connection_id, l)),
                container(&[Fixed(connection_id.to_le_bytes().to_vec()), Var(raw)]),
            )
        }
    };
    (m, [vec![kind as u8], body].concat())
}

fn decode(raw: &[u8]) -> Option<(Message, Vec<u8>)> {
    let m = Message::try_from(raw.to_vec()).ok()?;
    let again: Vec<u8> = m.clone().into();
    Some((m, again))
}

fn request_side(m: &Message) -> Res {
    let is_request = matches!(m, Message::Ping(_) | Message::FindNodes(_) | Message::FindContent(_) | Message::Offer(_));
    match Request::try_from(m.clone()) {
        Ok(r) if is_request => check_eq!(Message::from(r), *m, "message through its request form"),
        Ok(_) => fail!("response {m:?} is accepted as a request"),
        Err(e) if is_request => fail!("request {m:?} is refused as a request: {e}"),
        Err(_) => {}
    }
    match Response::try_from(m.clone()) {
        Ok(r) if !is_request => check_eq!(Message::from(r), *m, "message through its response form"),
        Ok(_) => fail!("request {m:?} is accepted as a response"),
        Err(e) if !is_request => fail!("response {m:?} is refused as a response: {e}"),
        Err(_) => {}
    }
    Ok(())
}

pub fn w01(ctx: &Ctx) {
    let wide = ctx.b(0, 1) == 1;
    ctx.explore("messages", |ch| {
        let (m, want) = message(ch, wide);
        ch.note(|| format!("message {m:?}"));
        let got: Vec<u8> = m.clone().into();
        check_eq!(short(&got), short(&want), "encoding of {m:?}");
        check_eq!(got, want, "encoding of the message");
        match canonical("message", &got, ch, decode)? {
            Some(again) => check_eq!(again, m, "message after a round trip"),
            None => fail!("{m:?} is refused in its own encoding {}", short(&got)),
        }
        ch.outcome(&got);
        request_side(&m)
    });
    ctx.explore("edited messages", |ch| {
        let (m, raw) = message(ch, false);
        ch.note(|| format!("edits of {m:?}"));
        let window = ctx.b(24, 200);
        edits(&raw, window, ctx.b(0, 1) == 1 && raw.len() < 64, |bad| {
            let got = canonical("message", bad, ch, decode)?;
            ch.outcome(&got.is_some());
            Ok(())
        })
    });
    ctx.range("short byte strings", 12, |i, ch| {
        let first = if i < 11 { i as u8 } else { 255 };
        canonical("message", &[], ch, decode)?;
        canonical("message", &[first], ch, decode)?;
        for a in 0..=255u8 {
            canonical("message", &[first, a], ch, decode)?;
            for b in 0..=255u8 {
                let got = canonical("message", &[first, a, b], ch, decode)?;
                ch.outcome(&got.map(|m| format!("{m:?}")));
            }
        }
        Ok(())
    });
    ctx.explore("payload sizes around the limit", |ch| {
        let kind = ch.pick(2) as u8;
        let n = *ch.choose(&[1098usize, 1099, 1100, 1101, 1102, 1200, 2200, 65536]);
        ch.note(|| format!("kind {kind}, payload of {n} bytes"));
        let raw = [
            vec![kind],
            container(&[Fixed(vec![1; 8]), Fixed(vec![0, 0]), Var(ramp(1, n))]),
        ]
        .concat();
        let got = canonical("message", &raw, ch, decode)?;
        check_eq!(got.is_some(), n <= 1100, "acceptance of a payload of {n} bytes");
        ch.outcome(&(kind, n <= 1100));
        Ok(())
    });
    ctx.explore("records in nodes and content replies", |ch| {
        let in_nodes = ch.flag();
        let mut rec = alloy_rlp::encode(SszEnr::new(enr(ch.pick(3) as u8)));
        let intact = rec.clone();
        match ch.pick(3) {
            0 => {
                let n = ch.pick(rec.len() + 1);
                rec.truncate(n);
            }
            1 => rec.extend(vec![0; 1 + ch.pick(3)]),
            _ => {
                let i = ch.pick(rec.len());
                rec[i] ^= 1 << ch.pick(8);
            }
        }
        let position = ch.pick(2);
        let good = alloy_rlp::encode(SszEnr::new(enr(2)));
        let items = if position == 0 { vec![rec.clone(), good] } else { vec![good, rec.clone()] };
        let raw = if in_nodes {
            [vec![3], container(&[Fixed(vec![1]), Var(list(&items))])].concat()
        } else {
            [vec![5, 2], list(&items)].concat()
        };
        ch.note(|| format!("record {}", short(&rec)));
        let got = canonical("message", &raw, ch, decode)?;
        check_eq!(got.is_some(), rec == intact, "acceptance of a damaged record");
        ch.outcome(&got.is_some());
        Ok(())
    });
    ctx.explore("offers with their content", |ch| {
        let n = *ch.choose(&[0usize, 1, 2, 3, 8, 62, 63, 64]);
        let kept = ch.flag();
        let size = *ch.choose(&[0usize, 1, 33]);
        let keys: Vec<Vec<u8>> = (0..n).map(|i| ramp(i as u8, size)).collect();
        let content_items = keys
            .iter()
            .enumerate()
            .map(|(i, k)| (RawContentKey::from(k.clone()), RawContentValue::from(ramp(100 + i as u8, i % 5))))
            .collect();
        ch.note(|| format!("{n} items with keys of {size} bytes, result wanted: {kept}"));
        let request = if kept {
            let (result_tx, _rx) = tokio::sync::mpsc::unbounded_channel();
            Request::PopulatedOfferWithResult(PopulatedOfferWithResult { content_items, result_tx })
        } else {
            Request::PopulatedOffer(PopulatedOffer { content_items })
        };
        let got: Vec<u8> = Message::from(request).into();
        let want = [vec![6], container(&[Var(list(&keys))])].concat();
        check_eq!(short(&got), short(&want), "offer of {n} items on the wire");
        check_eq!(got, want, "the offer on the wire");
        ch.outcome(&got);
        Ok(())
    });
    ctx.once("largest payloads", |ch| {
        let room = 1280 - 109;
        let content = Message::Content(Content::Content(RawContentValue::from(ramp(0, MAX_PORTAL_CONTENT_PAYLOAD_SIZE))));
        let raw: Vec<u8> = content.into();
        ch.outcome(&raw.len());
        if raw.len() > room {
            fail!("the largest content sent in one reply takes {} bytes of {room}", raw.len());
        }
        let empty: Vec<u8> = Message::Nodes(Nodes { total: 1, enrs: vec![] }).into();
        if empty.len() + MAX_PORTAL_NODES_ENRS_SIZE > room {
            fail!("the largest nodes reply takes {} bytes of {room}", empty.len() + MAX_PORTAL_NODES_ENRS_SIZE);
        }
        Ok(())
    });
}
