//! The record a content lookup keeps of its own course.

use crate::reference::*;
use alloy::primitives::B256;
use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::types::{
    enr::Enr,
    query_trace::{QueryFailureKind, QueryTrace},
};
use std::{collections::BTreeMap, sync::OnceLock};
use vc::{check_eq, Ch, Ctx, Res};

/// A record of the node `n`; `variant` chooses the sequence number and the contents.
fn record(n: u8, variant: usize) -> Enr {
    static MADE: OnceLock<Vec<Enr>> = OnceLock::new();
    MADE.get_or_init(|| {
        let mut made = vec![];
        for n in 0..4u8 {
            for (seq, port) in [(5, 9001), (5, 9002), (6, 9003)] {
                let mut secret = [n + 1; 32];
                let key = CombinedKey::secp256k1_from_bytes(&mut secret).expect("key");
                let mut b = Enr::builder();
                b.seq(seq).ip4([10, 0, 0, n].into()).udp4(port);
                made.push(b.build(&key).expect("record"));
            }
        }
        made
    })[n as usize * 3 + variant]
        .clone()
}

fn key_of(id: &NodeId) -> [u8; 32] {
    id.raw()
}

#[derive(Default)]
struct Model {
    received_from: Option<[u8; 32]>,
    /// Milliseconds since the start, and the nodes named.
    responses: BTreeMap<[u8; 32], (u64, Vec<[u8; 32]>)>,
    failures: BTreeMap<[u8; 32], (u64, String)>,
    records: BTreeMap<[u8; 32], Enr>,
}

impl Model {
    fn seen(&mut self, enr: &Enr, answered: bool) {
        let id = enr.node_id().raw();
        match self.records.get(&id) {
            None => {
                self.records.insert(id, enr.clone());
            }
            Some(old) if enr.seq() > old.seq() || (enr.seq() == old.seq() && answered) => {
                self.records.insert(id, enr.clone());
            }
            Some(_) => {}
        }
    }
}

fn compare(trace: &QueryTrace, model: &Model, target: B256) -> Res {
    check_eq!(trace.received_from.as_ref().map(key_of), model.received_from, "node the content came from");
    let responses: BTreeMap<_, _> = trace
        .responses
        .iter()
        .map(|(id, r)| (id.raw(), (r.duration_ms, r.responded_with.iter().map(key_of).collect::<Vec<_>>())))
        .collect();
    check_eq!(responses, model.responses, "answers");
    let failures: BTreeMap<_, _> = trace
        .failures
        .iter()
        .map(|(id, f)| (id.raw(), (f.duration_ms, format!("{:?}", f.failure))))
        .collect();
    check_eq!(failures, model.failures, "failures");
    let known: BTreeMap<_, _> = trace.metadata.iter().map(|(id, i)| (id.raw(), i.enr.to_base64())).collect();
    let want: BTreeMap<_, _> = model.records.iter().map(|(id, e)| (*id, e.to_base64())).collect();
    check_eq!(known, want, "records of the nodes met");
    for (id, info) in &trace.metadata {
        let mut distance = [0u8; 32];
        for (i, d) in distance.iter_mut().enumerate() {
            *d = id.raw()[i] ^ target[i];
        }
        check_eq!(info.distance, B256::from(distance), "distance of {id}");
    }
    Ok(())
}

pub fn w10(ctx: &Ctx) {
    ctx.explore("histories of a lookup", |ch| history(ch, ctx.b(2, 3), true));
    ctx.explore("longer histories", |ch| history(ch, ctx.b(4, 5), false));
}

fn history(ch: &mut Ch, steps: usize, wide: bool) -> Res {
    vc::clock::start(1_700_000_000);
    vc::clock::advance_ms(7);
    let target = B256::from(hash(1));
    let origin = record(3, 0);
    let mut trace = QueryTrace::new(&origin, target);
    check_eq!(trace.origin, origin.node_id(), "origin");
    check_eq!(trace.target_id, target, "target");
    check_eq!(trace.started_at_ms, 1_700_000_000_007u64, "start");
    check_eq!(trace.cancelled.len(), 0usize, "cancelled requests at the start");
    let mut model = Model::default();
    let mut now = 0;
    for _ in 0..steps {
        ch.steps(1);
        let wait = if wide { *ch.choose(&[0u64, 1500]) } else { 1500 };
        vc::clock::advance_ms(wait);
        now += wait;
        let node = ch.pick(2) as u8;
        match ch.pick(4) {
            0 => {
                let enr = record(node, ch.pick(3));
                // Nobody; the other node; both nodes, the answering one in a second form.
                let named: Vec<Enr> = match ch.pick(if wide { 3 } else { 2 }) {
                    0 => vec![],
                    1 => vec![record(1 - node, if wide { ch.pick(3) } else { 1 })],
                    _ => vec![record(2, 0), record(node, 1)],
                };
                ch.note(|| format!("at {now}: node {node} ({}) names {} nodes", enr.udp4().unwrap_or(0), named.len()));
                trace.node_responded_with(&enr, named.iter().collect());
                for e in &named {
                    model.seen(e, false);
                }
                model.seen(&enr, true);
                let ids = named.iter().map(|e| e.node_id().raw());
                model.responses.entry(enr.node_id().raw()).or_insert((now, vec![])).1.extend(ids);
            }
            1 => {
                let enr = record(node, ch.pick(3));
                ch.note(|| format!("at {now}: node {node} ({}) sends content", enr.udp4().unwrap_or(0)));
                trace.node_responded_with_content(&enr);
                model.seen(&enr, true);
                model.responses.insert(enr.node_id().raw(), (now, vec![]));
            }
            2 => {
                let kinds = [
                    QueryFailureKind::InvalidContent,
                    QueryFailureKind::UtpConnectionFailed,
                    QueryFailureKind::UtpTransferFailed,
                ];
                let kind = kinds[if wide { ch.pick(3) } else { 0 }].clone();
                ch.note(|| format!("at {now}: node {node} fails with {kind:?}"));
                let id = record(node, 0).node_id();
                model.failures.insert(id.raw(), (now, format!("{kind:?}")));
                trace.node_failed(id, kind);
            }
            _ => {
                ch.note(|| format!("at {now}: content of node {node} is validated"));
                let id = record(node, 0).node_id();
                model.received_from.get_or_insert(id.raw());
                trace.content_validated(id);
            }
        }
        ch.eval();
        compare(&trace, &model, target)?;
    }
    let text = serde_json::to_string(&trace).map_err(|e| format!("trace not written as JSON: {e}"))?;
    let again: QueryTrace = serde_json::from_str(&text).map_err(|e| format!("trace not read back from {text}: {e}"))?;
    check_eq!(again, trace, "trace read back from JSON");
    ch.outcome(&(&model.responses, &model.failures, model.received_from));
    vc::clock::stop();
    Ok(())
}
