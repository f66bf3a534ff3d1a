//! O01: the queue of content that is being received.

use std::{collections::BTreeMap, time::Duration};

use ethportal_api::IdentityContentKey;
use portalnet::accept_queue::AcceptQueue;
use vc::{check_eq, check, Ch, Ctx, Res};

use crate::peers;

/// Tenths of a second after which an entry is given up.
const LIFE: u64 = 1200;

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct Item {
    since: u64,
    origin: u16,
    fallback: Vec<u16>,
}

fn history(ch: &mut Ch, len: usize, keys: usize, who: u16, steps: &[u64]) -> Res {
    let mut queue = AcceptQueue::<IdentityContentKey>::default();
    let key = |k: usize| IdentityContentKey::new([k as u8 + 1; 32]);
    let mut model: BTreeMap<usize, Item> = BTreeMap::new();
    let mut now = 0u64;
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    rt.block_on(async {
        let mut log = vec![];
        for _ in 0..len {
            let op = ch.pick(keys * (who as usize + 2) + steps.len());
            let expire = |m: &mut BTreeMap<usize, Item>, now: u64| m.retain(|_, i| now < i.since + LIFE);
            if op < keys * who as usize {
                let (k, p) = (op / who as usize, (op % who as usize) as u16 + 10);
                ch.note(|| format!("offer of key {k} by {p}"));
                expire(&mut model, now);
                let got = queue.add_key_to_queue(&key(k), &peers::record(p, 1));
                let want = match model.get_mut(&k) {
                    None => {
                        model.insert(k, Item { since: now, origin: p, fallback: vec![] });
                        true
                    }
                    Some(i) => {
                        if i.origin != p && !i.fallback.contains(&p) {
                            i.fallback.push(p);
                        }
                        false
                    }
                };
                check_eq!(got, want, "offer of key {k} by {p} at {now}/10 s after {log:?} taken");
            } else if op < keys * (who as usize + 1) {
                let k = op - keys * who as usize;
                ch.note(|| format!("key {k} done"));
                queue.remove_key(&key(k));
                model.remove(&k);
            } else if op < keys * (who as usize + 2) {
                let k = op - keys * (who as usize + 1);
                ch.note(|| format!("key {k} failed"));
                let got = queue.process_failed_key(&key(k));
                let entry = model.remove(&k);
                // Whether an entry whose time is over still has its fallback is left open.
                let over = entry.as_ref().is_some_and(|i| now >= i.since + LIFE);
                let can: Vec<u16> = entry.map(|i| i.fallback).unwrap_or_default();
                match got {
                    None => check!(
                        can.is_empty() || over,
                        "no fallback for key {k} at {now}/10 s after {log:?}, peers {can:?} offered it too"
                    ),
                    Some(e) => {
                        let p = can.iter().find(|p| peers::record(**p, 1) == e);
                        check!(
                            p.is_some(),
                            "fallback for key {k} at {now}/10 s after {log:?} is a peer outside {can:?}"
                        );
                        ch.outcome(&(p, can.len()));
                    }
                }
            } else {
                let s = steps[op - keys * (who as usize + 2)];
                ch.note(|| format!("{} s pass", s as f64 / 10.0));
                tokio::time::advance(Duration::from_millis(100 * s)).await;
                now += s;
            }
            log.push(op);
            ch.steps(1);
            let view: Vec<(usize, u64, u16, Vec<u16>)> = model
                .iter()
                .map(|(k, i)| (*k, (now - i.since).min(LIFE), i.origin, i.fallback.clone()))
                .collect();
            ch.state(&view);
            ch.outcome(&view);
        }
        Ok(())
    })
}

pub fn o01(ctx: &Ctx) {
    let len = ctx.b(6, 7);
    ctx.explore("one key, three peers", |ch| history(ch, len, 1, 3, &[610, 589]));
    let len = ctx.b(5, 6);
    ctx.explore("two keys, two peers", |ch| history(ch, len, 2, 2, &[610, 1220]));
    let len = ctx.b(4, 5);
    ctx.explore("three keys, two peers", |ch| history(ch, len, 3, 2, &[610, 1201]));
}
