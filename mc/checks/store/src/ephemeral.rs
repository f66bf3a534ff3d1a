//! The store of ephemeral content.
use crate::{
    eternal::new_pool,
    versioned::{
        ephemeral_v1::{EphemeralV1Store, EphemeralV1StoreConfig},
        ContentType,
    },
};
use ethportal_api::{
    types::{content_key::overlay::IdentityContentKey, distance::Distance, network::Subnetwork},
    OverlayContentKey, RawContentValue,
};
use rusqlite::fault;
use std::collections::BTreeMap;
use trin_storage::{versioned::create_store, ContentId, PortalStorageConfig};
use vc::{check, check_eq, Ch, Ctx, Res};

type Store = EphemeralV1Store<IdentityContentKey>;
type Model = BTreeMap<usize, Vec<u8>>;

fn key(i: usize) -> IdentityContentKey {
    IdentityContentKey::new(spec::hash(i as u8))
}
fn id(i: usize) -> ContentId {
    ContentId::from(key(i).content_id())
}

fn observe(s: &Store, m: &Model, keys: usize, ch: &mut Ch) -> Res {
    for i in 0..keys {
        ch.eval();
        check_eq!(s.lookup_content_value(&id(i)).map_err(|e| e.to_string())?.map(|v| v.to_vec()), m.get(&i).cloned(), "value under key {i}");
        check_eq!(s.has_content(&id(i)).map_err(|e| e.to_string())?, m.contains_key(&i), "presence of key {i}");
        check_eq!(s.lookup_content_key(&id(i)).map_err(|e| e.to_string())?, m.get(&i).map(|_| key(i)), "key under id {i}");
    }
    let stats = s.usage_stats();
    check_eq!(stats.entry_count(), m.len() as u64, "counted entries");
    check_eq!(stats.total_entry_size_bytes(), m.values().map(|v| 64 + v.len() as u64).sum::<u64>(), "counted bytes");
    Ok(())
}

pub fn s05(ctx: &Ctx) {
    let keys = 3;
    let depth = ctx.b(4, 5);
    let open = |pool: &r2d2::Pool<r2d2_sqlite::SqliteConnectionManager>| {
        let config = EphemeralV1StoreConfig::new(
            ContentType::LegacyHistoryEphemeral,
            Subnetwork::LegacyHistory,
            PortalStorageConfig {
                storage_capacity_bytes: 1,
                node_id: discv5::enr::NodeId::new(&[0; 32]),
                node_data_dir: "/nonexistent".into(),
                sql_connection_pool: pool.clone(),
                max_radius: Distance::MAX,
            },
        );
        create_store::<Store>(ContentType::LegacyHistoryEphemeral, config, pool.clone()).map_err(|e| format!("opening fails: {e}"))
    };
    let value = |v: usize| spec::ramp(v as u8, [0, 90][v % 2]);
    ctx.explore("histories with at most one failing statement", |ch| {
        let pool = new_pool();
        let mut s = open(&pool)?;
        let mut m = Model::new();
        // At which operation and statement the fault is; every operation has at most one statement.
        let n = 1 + ch.pick(depth);
        let faulty = ch.pick(n + 1);
        for step in 0..n {
            let op = ch.pick(3 * keys + 1);
            let (k, what) = (op / 3, op % 3);
            ch.note(|| format!("op {op}, fault at {faulty}"));
            if step == faulty {
                fault::arm(0, false);
            }
            let was = m.clone();
            let done = if op == 3 * keys {
                fault::reset();
                s = open(&pool)?;
                true
            } else if what < 2 {
                let r = s.insert(&key(k), RawContentValue::from(value(what)), k as u8, 7 * what as u64);
                if r.is_ok() {
                    m.entry(k).or_insert(value(what));
                }
                r.is_ok()
            } else {
                let r = s.delete(&id(k));
                if r.is_ok() {
                    m.remove(&k);
                }
                r.is_ok()
            };
            fault::reset();
            check!(done || step == faulty, "operation {op} fails without a fault");
            if !done {
                check_eq!(m, was, "contents after a failed operation");
            }
            ch.steps(1);
        }
        observe(&s, &m, keys, ch)?;
        let again = open(&pool)?;
        observe(&again, &m, keys, ch)?;
        ch.state(&format!("{m:?}"));
        ch.outcome(&m.keys().copied().collect::<Vec<_>>());
        Ok(())
    });
}
