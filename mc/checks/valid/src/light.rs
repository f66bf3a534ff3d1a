//! The light client.
use crate::{
    chain::*,
    headers::block_on,
};
use alloy::primitives::{FixedBytes, B256};
use anyhow::{anyhow, Result};
use ethportal_api::light_client::{
    bootstrap::LightClientBootstrapElectra, finality_update::LightClientFinalityUpdateElectra, optimistic_update::LightClientOptimisticUpdateElectra,
    update::LightClientUpdateElectra,
};
use light_client::{
    config::{client_config::Config, networks},
    consensus::{rpc::ConsensusRpc, verify_generic_update, ConsensusLightClient},
};
use spec::beacon;
use ssz::Decode;
use std::sync::{Arc, Mutex};
use vc::{check, check_eq, Ch, Ctx, Res};

fn judge(ch: &mut Ch, what: &str, s: &Store, u: &Update, now: u64, version: [u8; 4], genesis: &[u8; 32]) -> Res {
    let broken = s.broken_rules(u, now, version, genesis);
    let got = verify_generic_update(&s.typed(), &u.generic(), now, B256::from(*genesis), FixedBytes::from(version));
    ch.eval();
    ch.note(|| format!("{what}: broken rules {broken:?}, verdict {got:?}"));
    check_eq!(got.is_ok(), broken.is_empty(), "acceptance of an update ({what}) that breaks the rules {broken:?}");
    ch.outcome(&(what, broken));
    Ok(())
}

pub fn l01(ctx: &Ctx) {
    let genesis = genesis_root();
    let finalized: &[u64] = ctx.b(&[P, P + 4000, P + PERIOD - 1], &[P, P + 1, P + 4000, P + PERIOD - 2, P + PERIOD - 1]);
    ctx.explore("slots and periods", |ch| {
        let own = *ch.choose(finalized);
        let mut s = Store::new(Header::at(own, 9), 0);
        s.next = ch.flag().then_some(1);
        let slots = [own - PERIOD, own - 1, own, own + 1, P + PERIOD - 1, P + PERIOD, P + PERIOD + 1, P + 2 * PERIOD - 1, P + 2 * PERIOD];
        let attested = *ch.choose(&slots);
        let signed = match ch.pick(6) {
            0 => attested - 1,
            1 => attested,
            2 => attested + 1,
            3 => P + PERIOD,
            4 => P + 2 * PERIOD - 1,
            _ => P + 2 * PERIOD,
        };
        let now = signed + ch.pick(3) as u64 - 1;
        let fin = match ch.pick(5) {
            0 => attested - 64,
            1 => attested,
            2 => attested + 1,
            3 => 0,
            _ => own,
        };
        let by = ch.pick(3);
        let mut u = Update::honest(attested, fin, signed, 400, 5);
        match ch.pick(3) {
            0 => {}
            1 => u = u.as_finality(),
            _ => u = u.as_optimistic(),
        }
        u.sign(by, ELECTRA, &genesis);
        judge(ch, &format!("own {own}, attested {attested}, signed {signed}, now {now}, finalized {fin}, signed by {by}"), &s, &u, now, ELECTRA, &genesis)
    });
    ctx.explore("signers, domains and branches", |ch| {
        // An update everything is right with, then changed in up to two places.
        let mut s = Store::new(Header::at(P + 64, 9), 0);
        s.next = ch.flag().then_some(1);
        let (att, sig) = if s.next.is_some() && ch.flag() { (P + PERIOD + 100, P + PERIOD + 101) } else { (P + 200, P + 201) };
        let now = sig + 5;
        let bits = *ch.choose(&[1usize, 2, 341, 342, 511, 512]);
        let honest = Update::honest(att, att - 64, sig, bits, 5);
        let honest = match ch.pick(3) {
            0 => honest,
            1 => honest.as_finality(),
            _ => honest.as_optimistic(),
        };
        judge(ch, "honest", &s, &honest, now, ELECTRA, &genesis)?;
        let mut all: Vec<(String, Update)> = vec![];
        for change in 0..22 {
            let mut u = honest.clone();
            let name = match change {
                0 => {
                    u.bits = first_bits(0);
                    u.sign(active(sig), ELECTRA, &genesis);
                    "nobody signed"
                }
                1 => {
                    u.bits = first_bits(0);
                    "no bits"
                }
                2 => {
                    u.bits[511] ^= true;
                    "one bit more or less"
                }
                3 => {
                    u.bits[0] = false;
                    u.bits[511] = true;
                    "another bit"
                }
                4 => {
                    u.bits.rotate_right(1);
                    "bits moved"
                }
                5 => {
                    u.sign(active(sig) + 1, ELECTRA, &genesis);
                    "signed by the following committee"
                }
                6 => {
                    u.sign((active(sig) + 4) % 5, ELECTRA, &genesis);
                    "signed by a foreign committee"
                }
                7 => {
                    u.sign(active(sig), DENEB, &genesis);
                    "signed for another fork"
                }
                8 => {
                    u.sign(active(sig), ELECTRA, &[1; 32]);
                    "signed for another chain"
                }
                9 => {
                    u.signature[95] ^= 1;
                    "another signature"
                }
                10 => {
                    u.signature[0] &= 0x7f;
                    "no signature"
                }
                11 => {
                    u.attested.proposer += 1;
                    "another proposer"
                }
                12 => {
                    u.attested.body[0] ^= 1;
                    "another body"
                }
                13 => {
                    u.attested.parent[31] ^= 1;
                    "another parent"
                }
                14 => {
                    u.attested.slot -= 1;
                    "another slot"
                }
                15 => {
                    u.attested.state[0] ^= 1;
                    u.sign(active(sig), ELECTRA, &genesis);
                    "another state"
                }
                16 => {
                    let Some(f) = &mut u.finalized else { continue };
                    f.0.body[3] ^= 1;
                    "another finalized header"
                }
                17 => {
                    let Some(f) = &mut u.finalized else { continue };
                    f.0.slot -= 1;
                    "another finalized slot"
                }
                18 => {
                    let Some(n) = &mut u.next else { continue };
                    n.0 = 4;
                    "another next committee"
                }
                19 => {
                    let Some(n) = &mut u.next else { continue };
                    n.0 = active(att);
                    "the current committee as the next one"
                }
                20 => {
                    // The branch of the neighbouring field.
                    let Some(n) = &mut u.next else { continue };
                    let fin = u.finalized.as_ref().unwrap().0.root();
                    *n = (active(att), state(&fin, active(att), active(att) + 1, 5).current);
                    "the branch of the current committee"
                }
                _ => {
                    let Some(f) = &mut u.finalized else { continue };
                    f.1.swap(1, 2);
                    "swapped branch nodes"
                }
            };
            all.push((name.to_owned(), u));
        }
        for i in 0..7 {
            for byte in [0, 31] {
                let mut u = honest.clone();
                if let Some(f) = &mut u.finalized {
                    f.1[i][byte] ^= 1;
                    all.push((format!("finality branch node {i}"), u.clone()));
                }
                let mut u = honest.clone();
                if let Some(n) = u.next.as_mut().filter(|n| i < n.1.len()) {
                    n.1[i][byte] ^= 1;
                    all.push((format!("committee branch node {i}"), u));
                }
            }
        }
        for (name, u) in &all {
            judge(ch, name, &s, u, now, ELECTRA, &genesis)?;
        }
        // The same update judged for another fork or chain.
        judge(ch, "judged for another fork", &s, &honest, now, DENEB, &genesis)?;
        judge(ch, "judged for another chain", &s, &honest, now, ELECTRA, &[1; 32])?;
        Ok(())
    });
}

// ---- a scripted provider ------------------------------------------------------------------------

#[derive(Default)]
struct Script {
    bootstrap: Option<LightClientBootstrapElectra>,
    updates: Vec<LightClientUpdateElectra>,
    finality: Option<LightClientFinalityUpdateElectra>,
    optimistic: Option<LightClientOptimisticUpdateElectra>,
    asked: Vec<(u64, u8)>,
    portal: bool,
}

#[derive(Clone)]
struct Provider(Arc<Mutex<Script>>);

#[async_trait::async_trait]
impl ConsensusRpc for Provider {
    fn new(_: &str) -> Self {
        unreachable!()
    }
    async fn get_bootstrap(&self, _: B256) -> Result<LightClientBootstrapElectra> {
        self.0.lock().unwrap().bootstrap.clone().ok_or(anyhow!("no bootstrap"))
    }
    async fn get_updates(&self, period: u64, count: u8) -> Result<Vec<LightClientUpdateElectra>> {
        let mut s = self.0.lock().unwrap();
        s.asked.push((period, count));
        Ok(s.updates.clone())
    }
    async fn get_finality_update(&self) -> Result<LightClientFinalityUpdateElectra> {
        self.0.lock().unwrap().finality.clone().ok_or(anyhow!("no finality update"))
    }
    async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdateElectra> {
        self.0.lock().unwrap().optimistic.clone().ok_or(anyhow!("no optimistic update"))
    }
    async fn chain_id(&self) -> Result<u64> {
        Ok(1)
    }
    fn name(&self) -> String {
        if self.0.lock().unwrap().portal { "portal" } else { "other" }.to_owned()
    }
}

fn config(strict: bool) -> Arc<Config> {
    let base = networks::mainnet();
    Arc::new(Config {
        consensus_rpc: String::new(),
        chain: base.chain,
        forks: base.forks,
        max_checkpoint_age: base.max_checkpoint_age,
        strict_checkpoint_age: strict,
        ..Config::default()
    })
}

/// A block at `slot` of the chain, with a proof of its committee.
pub fn bootstrap(slot: u64, salt: u8) -> beacon::Bootstrap {
    let st = state(&[8; 32], active(slot), active(slot) + 1, salt);
    let mut header = Header::at(slot, salt);
    header.state = st.root;
    beacon::Bootstrap { fork: beacon::ELECTRA, header, committee: committee(active(slot)).raw.clone(), branch: st.current.concat() }
}

pub fn decode_bootstrap(b: &beacon::Bootstrap) -> LightClientBootstrapElectra {
    LightClientBootstrapElectra::from_ssz_bytes(&b.encode()[4..]).expect("a bootstrap decodes")
}

pub fn clock_at(slot: u64) {
    vc::clock::start(GENESIS_TIME + 12 * slot + 3);
}

// ---- sequences --------------------------------------------------------------------------------

struct Messages {
    updates: Vec<(Update, LightClientUpdateElectra)>,
    finality: Vec<(Update, LightClientFinalityUpdateElectra)>,
    optimistic: Vec<(Update, LightClientOptimisticUpdateElectra)>,
}

fn broken(mut u: Update) -> Update {
    u.signature[95] ^= 1;
    u
}

fn messages() -> Messages {
    let h = Update::honest;
    let updates = vec![
        h(P + 110, P + 64, P + 111, 400, 1),
        h(P + 120, P + 32, P + 121, 342, 1),
        h(P + 130, P + 96, P + 131, 341, 2),
        h(P + PERIOD + 50, P + PERIOD + 32, P + PERIOD + 51, 500, 3),
        h(P + 2 * PERIOD + 50, P + 2 * PERIOD + 33, P + 2 * PERIOD + 51, 342, 7),
        broken(h(P + 140, P + 96, P + 141, 512, 4)),
    ];
    let finality = vec![
        h(P + 100, P + 64, P + 101, 342, 1),
        h(P + 200, P + 160, P + 201, 341, 1),
        h(P + 300, P + 257, P + 301, 512, 1),
        h(P + PERIOD + 40, P + PERIOD, P + PERIOD + 41, 400, 3),
        h(P + PERIOD - 1, P + PERIOD - 96, P + PERIOD, 350, 3),
        h(P + PERIOD + 100, P + 320, P + PERIOD + 101, 512, 3),
        broken(h(P + 400, P + 352, P + 401, 512, 4)),
    ];
    let optimistic = vec![
        h(P + 105, P + 64, P + 106, 512, 1),
        h(P + 500, P + 64, P + 501, 60, 1),
        h(P + 501, P + 64, P + 502, 200, 6),
        h(P + PERIOD + 60, P + 64, P + PERIOD + 61, 300, 3),
        broken(h(P + 600, P + 64, P + 601, 512, 4)),
    ];
    read(updates, finality, optimistic)
}

/// Different headers at the same slot, and a committee announced along with finality of the period before.
fn twins() -> Messages {
    let h = Update::honest;
    read(
        vec![h(P + 110, P - 64, P + 111, 400, 1), h(P + 110, P + 64, P + 111, 400, 1)],
        vec![h(P + 105, P + 64, P + 106, 512, 2), h(P + 105, P + 64, P + 106, 512, 9)],
        vec![h(P + 105, P + 64, P + 106, 512, 1), h(P + 105, P + 64, P + 106, 512, 5)],
    )
}

fn read(updates: Vec<Update>, finality: Vec<Update>, optimistic: Vec<Update>) -> Messages {
    Messages {
        updates: updates.into_iter().map(|u| (u.clone(), LightClientUpdateElectra::from_ssz_bytes(&u.wire(3).encode()[4..]).unwrap())).collect(),
        finality: finality
            .into_iter()
            .map(|u| (u.as_finality(), LightClientFinalityUpdateElectra::from_ssz_bytes(&u.wire(3).finality()[4..]).unwrap()))
            .collect(),
        optimistic: optimistic
            .into_iter()
            .map(|u| (u.as_optimistic(), LightClientOptimisticUpdateElectra::from_ssz_bytes(&u.wire(3).optimistic()[4..]).unwrap()))
            .collect(),
    }
}

/// Notifications per channel: the number and slot of the last one.
#[derive(Debug, PartialEq, Eq, Clone, Default)]
struct Sent {
    update: Option<u64>,
    finality: Option<u64>,
    optimistic: Option<u64>,
}

fn offer(s: &mut Store, sent: &mut Option<u64>, u: &Update, now: u64) -> bool {
    if !s.broken_rules(u, now, ELECTRA, &genesis_root()).is_empty() {
        return false;
    }
    let (o, f) = s.apply(u);
    if o || f {
        *sent = Some(u.signature_slot);
    }
    true
}

fn run_step(ch: &mut Ch, m: &Messages, client: &mut ConsensusLightClient<Provider>, script: &Arc<Mutex<Script>>, s: &mut Store, first: bool, now: u64, max: (usize, usize, usize)) -> Res {
    let f = ch.pick(max.0 + 1);
    let o = ch.pick(max.1 + 1);
    // The updates served: none, one, or for the first request some in a row.
    let rows: &[&[usize]] = if first && m.updates.len() > 4 { &[&[0, 3], &[3, 4], &[0, 1], &[0, 3, 4]] } else { &[] };
    let u = ch.pick(max.2 + 1 + rows.len());
    let served: Vec<usize> = match u {
        0 => vec![],
        n if n <= max.2 => vec![n - 1],
        n => rows[n - max.2 - 1].to_vec(),
    };
    {
        let mut sc = script.lock().unwrap();
        sc.finality = (f > 0).then(|| m.finality[f - 1].1.clone());
        sc.optimistic = (o > 0).then(|| m.optimistic[o - 1].1.clone());
        sc.updates = served.iter().map(|i| m.updates[*i].1.clone()).collect();
        sc.asked.clear();
    }
    let watch = client.get_watch_receivers();
    ch.note(|| format!("{} with finality {f}, optimistic {o}, updates {served:?}", if first { "sync" } else { "advance" }));
    let before = s.clone();
    let mut sent = Sent::default();
    let asked_period = s.finalized.slot / PERIOD;
    // What the protocol asks for.
    let want: std::result::Result<(), ()> = (|| {
        if first {
            for i in &served {
                if !offer(s, &mut sent.update, &m.updates[*i].0, now) {
                    return Err(());
                }
            }
        }
        if f > 0 && !offer(s, &mut sent.finality, &m.finality[f - 1].0, now) {
            return Err(());
        }
        if o == 0 || !offer(s, &mut sent.optimistic, &m.optimistic[o - 1].0, now) {
            return Err(());
        }
        if !first && s.next.is_none() {
            if let [i] = served[..] {
                offer(s, &mut sent.update, &m.updates[i].0, now);
            }
        }
        Ok(())
    })();
    let got = block_on(async {
        if first {
            client.sync().await
        } else {
            client.advance().await
        }
    });
    ch.steps(1);
    check_eq!(got.is_ok(), want.is_ok(), "result of the step ({got:?})");
    let store = client.get_light_client_store();
    let seen = Store {
        finalized: from_typed(&store.finalized_header),
        optimistic: from_typed(&store.optimistic_header),
        current: number(&store.current_sync_committee),
        next: store.next_sync_committee.as_ref().map(number),
        previous_max: store.previous_max_active_participants,
        current_max: store.current_max_active_participants,
        checkpoint: client.last_checkpoint.map(|c| c.0),
    };
    check!(seen.finalized.slot >= before.finalized.slot, "the finalized header went back");
    check!(seen.optimistic.slot >= before.optimistic.slot, "the optimistic header went back");
    check!(seen.optimistic.slot >= seen.finalized.slot, "the optimistic header is behind the finalized one");
    check_eq!(seen, *s, "the store");
    check_eq!(typed(&s.finalized), *client.get_finalized_header(), "the finalized header");
    check_eq!(typed(&s.optimistic), *client.get_header(), "the optimistic header");
    let told = Sent {
        update: watch.update.has_changed().unwrap().then(|| *watch.update.borrow().as_ref().unwrap().signature_slot()),
        finality: watch.finality_update.has_changed().unwrap().then(|| *watch.finality_update.borrow().as_ref().unwrap().signature_slot()),
        optimistic: watch.optimistic_update.has_changed().unwrap().then(|| *watch.optimistic_update.borrow().as_ref().unwrap().signature_slot()),
    };
    check_eq!(told, sent, "notifications");
    for (period, count) in &script.lock().unwrap().asked {
        if !first {
            check!((*period == asked_period || *period == s.finalized.slot / PERIOD) && *count == 1, "{count} updates of period {period} are asked for");
        }
    }
    ch.state(&seen);
    ch.outcome(&(first, got.is_ok(), told.update.is_some(), told.finality.is_some(), told.optimistic.is_some()));
    Ok(())
}

fn from_typed(h: &ethportal_api::consensus::header::BeaconBlockHeader) -> Header {
    Header { slot: h.slot, proposer: h.proposer_index, parent: h.parent_root.0, state: h.state_root.0, body: h.body_root.0 }
}

fn number(c: &ethportal_api::consensus::sync_committee::SyncCommittee) -> usize {
    (0..5).find(|i| committee(*i).typed == *c).unwrap_or(99)
}

pub fn l02(ctx: &Ctx) {
    let m = messages();
    let full = (m.finality.len(), m.optimistic.len(), m.updates.len());
    let cases: Vec<(&str, u64, usize, (usize, usize, usize))> = ctx.b(
        vec![("a sync and an advance", P + 2 * PERIOD + 200, 1, (5, 3, 4)), ("a sync", P + 2 * PERIOD + 200, 0, full)],
        vec![
            ("a sync and an advance", P + 2 * PERIOD + 200, 1, full),
            ("a sync and an advance in the first period", P + 150, 1, full),
            ("a sync and two advances", P + 2 * PERIOD + 200, 2, (4, 2, 4)),
        ],
    );
    let t = twins();
    let other = (t.finality.len(), t.optimistic.len(), t.updates.len());
    let mut cases: Vec<_> = cases.into_iter().map(|(name, now, advances, max)| (&m, name, now, advances, max)).collect();
    cases.push((&t, "headers of the same slot", P + 150, 1, other));
    for (m, name, now, advances, max) in cases {
        ctx.explore(name, |ch| {
            clock_at(now);
            let b = bootstrap(P + 32, 77);
            let script = Arc::new(Mutex::new(Script { bootstrap: Some(decode_bootstrap(&b)), ..Script::default() }));
            let mut client = ConsensusLightClient::with_custom_rpc(Provider(script.clone()), B256::from(b.header.root()), config(true));
            // The checkpoint is too old for the strict mode when the clock is far ahead.
            if now > P + 32 + 14 * 7200 {
                client = ConsensusLightClient::with_custom_rpc(Provider(script.clone()), B256::from(b.header.root()), config(false));
            }
            let mut s = Store::new(b.header.clone(), 0);
            run_step(ch, m, &mut client, &script, &mut s, true, now, max)?;
            for _ in 0..advances {
                run_step(ch, m, &mut client, &script, &mut s, false, now, max)?;
            }
            vc::clock::stop();
            Ok(())
        });
    }
    ctx.explore("updates of all periods over the portal network", |ch| {
        // One request per period between the checkpoint and now.
        let ahead = ch.pick(4) as u64;
        let now = P + 200 + ahead * PERIOD;
        clock_at(now);
        let b = bootstrap(P + 32, 77);
        let script = Arc::new(Mutex::new(Script { bootstrap: Some(decode_bootstrap(&b)), portal: true, ..Script::default() }));
        let mut client = ConsensusLightClient::with_custom_rpc(Provider(script.clone()), B256::from(b.header.root()), config(false));
        script.lock().unwrap().optimistic = Some(m.optimistic[0].1.clone());
        let got = block_on(client.sync());
        vc::clock::stop();
        check!(got.is_ok(), "sync fails: {got:?}");
        let want: Vec<(u64, u8)> = (0..ahead).map(|i| (P / PERIOD + i, 1)).collect();
        check_eq!(script.lock().unwrap().asked, want, "requested periods");
        ch.outcome(&ahead);
        Ok(())
    });
}

pub fn l03(ctx: &Ctx) {
    const AGE: u64 = 1_209_600 / 12;
    ctx.explore("bootstraps", |ch| {
        let now = P + 200_000;
        let strict = ch.flag();
        let slot = *ch.choose(&[now, now - 1, now - AGE + 1, now - AGE, now - AGE - 1, now - 150_000, now + 1, now + 1000, 0, u64::MAX, u64::MAX / 12, u64::MAX / 12 + 1, 1 << 62]);
        let right = bootstrap(slot, 50);
        let checkpoint = right.header.root();
        let mut b = bootstrap(slot, 50);
        let mut hash_ok = true;
        let mut committee_ok = true;
        let change = ch.pick(16);
        match change {
            0 => {}
            1 => {
                b = bootstrap(slot, 51);
                hash_ok = false;
            }
            2 => {
                b.header.slot ^= 1;
                hash_ok = false;
            }
            3 => {
                b.header.proposer += 1;
                hash_ok = false;
            }
            4 => {
                b.header.parent[0] ^= 1;
                hash_ok = false;
            }
            5 => {
                b.header.body[31] ^= 1;
                hash_ok = false;
            }
            6 => {
                b.header.state[5] ^= 1;
                hash_ok = false;
            }
            7 => {
                b.committee = committee(4).raw.clone();
                committee_ok = false;
            }
            8 => {
                b.committee[512 * 48 + 5] ^= 1;
                committee_ok = false;
            }
            9 => {
                // The next committee under its own branch.
                b.committee = committee(active(slot) + 1).raw.clone();
                b.branch = state(&[8; 32], active(slot), active(slot) + 1, 50).next.concat();
                committee_ok = false;
            }
            n => {
                b.branch[32 * (n - 10) + n] ^= 1;
                committee_ok = false;
            }
        }
        let served = ch.flag() || change != 0;
        clock_at(now);
        let script = Arc::new(Mutex::new(Script { bootstrap: served.then(|| decode_bootstrap(&b)), ..Script::default() }));
        let mut client = ConsensusLightClient::with_custom_rpc(Provider(script.clone()), B256::from(checkpoint), config(strict));
        let empty = client.get_light_client_store().clone();
        ch.note(|| format!("slot {slot} at {now}, strict {strict}, change {change}, served {served}"));
        // Nothing else is served, so that a sync ends after the bootstrap in any case.
        let got = vc::no_panic(|| block_on(client.sync()));
        vc::clock::stop();
        let got = got?;
        check!(got.is_err(), "a sync without an optimistic update succeeds");
        let age_ok = !strict || b.header.slot.saturating_add(AGE) > now;
        let want = served && hash_ok && committee_ok && age_ok;
        let store = client.get_light_client_store();
        ch.eval();
        if want {
            let s = Store::new(b.header.clone(), active(slot));
            check_eq!(*store, s.typed(), "the store after the bootstrap at {slot}");
        } else {
            check!(*store == empty, "the store is replaced by a refused bootstrap (slot {slot}, change {change}, strict {strict})");
        }
        ch.outcome(&(slot > now, change, strict, want));
        Ok(())
    });
}

// ---- forks ------------------------------------------------------------------------------------

/// Epoch and version of each fork, in order.
fn calendar(c: &Config) -> [(u64, [u8; 4]); 6] {
    let f = &c.forks;
    [&f.genesis, &f.altair, &f.bellatrix, &f.capella, &f.deneb, &f.electra].map(|f| (f.epoch, f.fork_version.0))
}

/// The version of the last fork that has begun at a slot.
fn version_at(forks: &[(u64, [u8; 4]); 6], slot: u64) -> [u8; 4] {
    forks.iter().rev().find(|f| f.0 <= slot / 32).map_or(forks[0].1, |f| f.1)
}

fn with_forks(mut c: Config, forks: &[(u64, [u8; 4]); 6]) -> Config {
    let f = &mut c.forks;
    for (to, (epoch, version)) in [&mut f.genesis, &mut f.altair, &mut f.bellatrix, &mut f.capella, &mut f.deneb, &mut f.electra].into_iter().zip(forks) {
        to.epoch = *epoch;
        to.fork_version = FixedBytes::from(*version);
    }
    c
}

fn unwrapped(c: Arc<Config>) -> Config {
    Arc::try_unwrap(c).expect("nobody else has the configuration")
}

pub fn l07(ctx: &Ctx) {
    // epochs and versions as the chains announced them
    let mainnet = [(0, [0, 0, 0, 0]), (74_240, [1, 0, 0, 0]), (144_896, [2, 0, 0, 0]), (194_048, [3, 0, 0, 0]), (269_568, [4, 0, 0, 0]), (364_032, [5, 0, 0, 0])];
    let sepolia = [
        (0, [0x90, 0, 0, 0x69]),
        (50, [0x90, 0, 0, 0x70]),
        (100, [0x90, 0, 0, 0x71]),
        (56_832, [0x90, 0, 0, 0x72]),
        (132_608, [0x90, 0, 0, 0x73]),
        (222_464, [0x90, 0, 0, 0x74]),
    ];
    ctx.explore("slots of the known chains", |ch| {
        let (base, known, id, time) = if ch.flag() {
            (networks::Network::Mainnet.to_base_config(), &mainnet, 1, GENESIS_TIME)
        } else {
            (networks::Network::Sepolia.to_base_config(), &sepolia, 11155111, 1655733600)
        };
        check_eq!((base.chain.chain_id, base.chain.genesis_time), (id, time), "chain and its start");
        let c = Config { chain: base.chain, forks: base.forks, ..Config::default() };
        check_eq!(calendar(&c), *known, "forks");
        let edge = known[ch.pick(6)].0 * 32;
        let slot = (edge + ch.pick(129) as u64).saturating_sub(64);
        check_eq!(c.fork_version(slot).0, version_at(known, slot), "version at slot {slot}");
        ch.evals(3);
        ch.outcome(&version_at(known, slot));
        Ok(())
    });
    ctx.explore("slots of all small calendars", |ch| {
        let top = ctx.b(3, 5) as u64;
        let mut epoch = 0;
        let mut forks = [(0, [9, 0, 0, 0]); 6];
        for (i, f) in forks.iter_mut().enumerate().skip(1) {
            epoch += ch.pick((top - epoch) as usize + 1) as u64;
            *f = (epoch, [9, 0, 0, i as u8]);
        }
        let c = with_forks(Config::default(), &forks);
        for slot in (0..(top + 2) * 32).chain([u64::MAX - 1, u64::MAX]) {
            check_eq!(c.fork_version(slot).0, version_at(&forks, slot), "version at slot {slot} of {forks:?}");
            ch.evals(1);
        }
        ch.state(&forks);
        Ok(())
    });
    ctx.explore("updates signed around a fork", |ch| {
        let sig = P + 96 + *ch.choose(&[0, 1, 31, 32, 33]);
        let at = (P + 96) / 32;
        let last = at + ch.pick(4) as u64 - 1;
        let before = last - ch.pick(3) as u64;
        let mut forks = mainnet;
        forks[4].0 = before;
        forks[5].0 = last;
        let kind = ch.pick(3);
        let version = forks[ch.pick(3) + 3].1;
        ch.note(|| format!("signed at {} with version {version:?}, forks at {before} and {last}", sig / 32));
        // The committee of a slot signs the block before it, in the domain of that block.
        let right = version_at(&forks, sig - 1);
        let honest = |v: [u8; 4]| {
            let mut u = Update::honest(sig - 1, P + 64, sig, 400, 1);
            u.sign(active(sig), v, &genesis_root());
            u
        };
        let mut m = read(vec![honest(right)], vec![honest(right)], vec![honest(right)]);
        let given = read(vec![honest(version)], vec![honest(version)], vec![honest(version)]);
        let now = sig + 5;
        clock_at(now);
        let b = bootstrap(P + 32, 77);
        let script = Script { bootstrap: Some(decode_bootstrap(&b)), ..Script::default() };
        let script = Arc::new(Mutex::new(script));
        match kind {
            0 => m.updates = given.updates,
            1 => m.finality = given.finality,
            _ => m.optimistic = given.optimistic,
        }
        {
            let mut s = script.lock().unwrap();
            // An update that is not under test would only repeat the others.
            s.updates = if kind == 0 { vec![m.updates[0].1.clone()] } else { vec![] };
            s.finality = Some(m.finality[0].1.clone());
            s.optimistic = Some(m.optimistic[0].1.clone());
        }
        let c = with_forks(unwrapped(config(false)), &forks);
        let mut client = ConsensusLightClient::with_custom_rpc(Provider(script), B256::from(b.header.root()), Arc::new(c));
        let got = block_on(client.sync());
        vc::clock::stop();
        check_eq!(got.is_ok(), version == right, "the {} is accepted ({got:?})", ["update", "finality update", "optimistic update"][kind]);
        ch.evals(1);
        ch.steps(1);
        ch.outcome(&(kind, version == right, sig - P));
        Ok(())
    });
}
