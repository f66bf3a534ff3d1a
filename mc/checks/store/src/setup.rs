//! Sharing out the capacity and opening stores by version.
use crate::eternal::new_pool;
use discv5::enr::NodeId;
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use r2d2::Pool;
use r2d2_sqlite::SqliteConnectionManager;
use rusqlite::{fault, named_params, OptionalExtension};
use std::{cell::RefCell, collections::BTreeMap};
use trin_storage::{
    config::StorageCapacityConfig,
    error::ContentStoreError,
    versioned::{create_store, sql, ContentType, StoreVersion, VersionedContentStore},
    PortalStorageConfigFactory,
};
use vc::{check, check_eq, fail, Ctx};

const NETS: [Subnetwork; 3] = [Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State];

pub fn s07(ctx: &Ctx) {
    let dir = tempfile::tempdir().expect("scratch directory");
    let factory = |config: StorageCapacityConfig, ch: usize| {
        let d = dir.path().join(format!("{:?}-{ch}", std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&d).unwrap();
        PortalStorageConfigFactory::new(config, NodeId::new(&[7; 32]), d).map_err(|e| e.to_string())
    };
    let megabytes = [0u32, 1, 2, 3, 7, 1000, 1001, u32::MAX - 1, u32::MAX];
    ctx.explore("combined capacity", |ch| {
        let total_mb = *ch.choose(&megabytes);
        let n = ch.pick(4);
        let order = ch.permutation(3);
        let subnetworks: Vec<Subnetwork> = order[..n].iter().map(|i| NETS[*i]).collect();
        let f = factory(StorageCapacityConfig::Combined { total_mb, subnetworks: subnetworks.clone() }, 0)?;
        let total = total_mb as u64 * 1_000_000;
        let mut sum = 0;
        let mut shares = vec![];
        for net in NETS {
            let radius = *ch.choose(&[Distance::MAX, Distance::ZERO]);
            let got = f.create(&net, radius);
            ch.eval();
            if !subnetworks.contains(&net) {
                check!(got.is_err(), "{net} is not enabled but gets a capacity");
                continue;
            }
            let got = match got {
                Ok(got) => got,
                Err(e) => fail!("{net} is enabled but gets no capacity: {e}"),
            };
            let weighted = subnetworks.iter().filter(|n| **n != Subnetwork::Beacon).count() as u64;
            let want = if net == Subnetwork::Beacon { 0 } else { total / weighted };
            check_eq!(got.storage_capacity_bytes, want, "share of {net} among {subnetworks:?} of {total_mb} MB");
            check_eq!(got.max_radius, radius, "maximum radius");
            check_eq!(got.node_id, NodeId::new(&[7; 32]), "node id");
            sum += got.storage_capacity_bytes;
            shares.push(want);
        }
        check!(sum <= total, "shares add up to {sum} of {total}");
        ch.outcome(&shares);
        Ok(())
    });
    let each = [None, Some(0), Some(1), Some(1000), Some(u32::MAX)];
    ctx.explore("specific capacities", |ch| {
        let mb: Vec<Option<u32>> = (0..3).map(|_| *ch.choose(&each)).collect();
        let f = factory(StorageCapacityConfig::Specific { beacon_mb: mb[0], legacy_history_mb: mb[1], state_mb: mb[2] }, 1)?;
        for (net, mb) in NETS.iter().zip(&mb) {
            let got = f.create(net, Distance::MAX).ok().map(|c| c.storage_capacity_bytes);
            ch.eval();
            check_eq!(got, mb.map(|m| m as u64 * 1_000_000), "capacity of {net}");
        }
        ch.outcome(&mb);
        Ok(())
    });
}

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// A store that only records what it is asked to do. `M` says whether it can take over old data.
struct Recorder<const V: usize, const M: bool>;

fn version(v: usize) -> StoreVersion {
    match v {
        0 => StoreVersion::MockContentStore,
        1 => StoreVersion::IdIndexedV1,
        _ => StoreVersion::EphemeralV1,
    }
}

impl<const V: usize, const M: bool> VersionedContentStore for Recorder<V, M> {
    type Config = ();
    fn version() -> StoreVersion {
        version(V)
    }
    fn migrate_from(ct: &ContentType, old_version: StoreVersion, _: &()) -> Result<(), ContentStoreError> {
        LOG.with(|l| l.borrow_mut().push(format!("migrate {ct} {old_version}")));
        if M {
            Ok(())
        } else {
            Err(ContentStoreError::UnsupportedStoreMigration { old_version, new_version: version(V) })
        }
    }
    fn create(ct: ContentType, _: ()) -> Result<Self, ContentStoreError> {
        LOG.with(|l| l.borrow_mut().push(format!("create {ct}")));
        Ok(Self)
    }
}

fn open(which: usize, ct: &ContentType, pool: &Pool<SqliteConnectionManager>) -> (bool, Vec<String>) {
    LOG.with(|l| l.borrow_mut().clear());
    let (ct, pool) = (ct.clone(), pool.clone());
    let ok = match which {
        0 => create_store::<Recorder<0, false>>(ct, (), pool).is_ok(),
        1 => create_store::<Recorder<1, false>>(ct, (), pool).is_ok(),
        2 => create_store::<Recorder<2, false>>(ct, (), pool).is_ok(),
        3 => create_store::<Recorder<0, true>>(ct, (), pool).is_ok(),
        4 => create_store::<Recorder<1, true>>(ct, (), pool).is_ok(),
        _ => create_store::<Recorder<2, true>>(ct, (), pool).is_ok(),
    };
    (ok, LOG.with(|l| l.borrow().clone()))
}

fn recorded(ct: &ContentType, pool: &Pool<SqliteConnectionManager>) -> Option<String> {
    pool.get()
        .unwrap()
        .query_row(sql::STORE_INFO_LOOKUP, named_params! { ":content_type": ct.as_ref() }, |r| r.get::<_, String>("version"))
        .optional()
        .unwrap()
}

pub fn s08(ctx: &Ctx) {
    let types = [ContentType::State, ContentType::LegacyHistoryEternal, ContentType::LegacyHistoryEphemeral];
    let depth = ctx.b(3, 4);
    ctx.explore("histories of openings with at most one failure or stop", |ch| {
        let pool = new_pool();
        let mut model: BTreeMap<usize, String> = BTreeMap::new();
        // One content type may have been written by a version that is not known any more.
        if ch.flag() {
            pool.get()
                .unwrap()
                .execute(sql::STORE_INFO_UPDATE, named_params! { ":content_type": types[0].as_ref(), ":version": *ch.choose(&["future_v9", "", "IdIndexedV1"]) })
                .unwrap();
            model.insert(0, recorded(&types[0], &pool).unwrap());
        }
        let faulty = ch.pick(depth + 1);
        for step in 0..depth {
            let t = ch.pick(types.len());
            let which = ch.pick(6);
            let (v, migrates) = (version(which % 3), which >= 3);
            ch.note(|| format!("open {} as {v}, migrates {migrates}", types[t]));
            let was = model.get(&t).cloned();
            if step == faulty {
                fault::arm(ch.pick(2) as u64, ch.flag());
            }
            let (ok, log) = open(which, &types[t], &pool);
            let fired = step == faulty;
            fault::reset();
            let now = recorded(&types[t], &pool);
            let ct = types[t].to_string();
            if fired {
                // Either the version is as before, or it is the new one and nothing is left to do.
                check!(now == was || now == Some(v.to_string()), "version {now:?} recorded after a failure over {was:?}");
                check!(ok == log.iter().any(|l| *l == format!("create {ct}")), "opening reports {ok} but ran {log:?}");
                if ok {
                    check_eq!(now, Some(v.to_string()), "version recorded by a successful opening");
                }
            } else {
                let known = was.as_ref().is_none_or(|w| (0..3).any(|i| version(i).to_string() == *w));
                let (want_ok, want_log) = match &was {
                    _ if !known => (false, vec![]),
                    None => (true, vec![format!("create {ct}")]),
                    Some(w) if *w == v.to_string() => (true, vec![format!("create {ct}")]),
                    Some(w) if migrates => (true, vec![format!("migrate {ct} {w}"), format!("create {ct}")]),
                    Some(w) => (false, vec![format!("migrate {ct} {w}")]),
                };
                check_eq!(ok, want_ok, "opening {ct} of version {was:?} as {v}");
                check_eq!(log, want_log, "what opening {ct} of version {was:?} as {v} did");
                check_eq!(now, if want_ok { Some(v.to_string()) } else { was }, "recorded version of {ct}");
            }
            match now {
                Some(n) => model.insert(t, n),
                None => model.remove(&t),
            };
            for (i, ty) in types.iter().enumerate() {
                check_eq!(recorded(ty, &pool), model.get(&i).cloned(), "recorded version of {ty}");
            }
            ch.steps(1);
        }
        ch.state(&format!("{model:?}"));
        ch.outcome(&format!("{model:?}"));
        Ok(())
    });
    use crate::eternal::{observe, step, Op, World, COUNTERS, LOOKUPS};
    ctx.explore("real stores side by side", |ch| {
        // Two content types in one database, opened again in every order between operations.
        let mut a = World::new(ContentType::State, 5000, Distance::MAX);
        let mut b = World { pool: a.pool.clone(), ct: ContentType::LegacyHistoryEternal, capacity: 5000, max_radius: Distance::MAX, store: None, model: Default::default() };
        b.open().map_err(|e| e.to_string())?;
        for _ in 0..ctx.b(3, 4) {
            let w = if ch.flag() { &mut a } else { &mut b };
            let op = *ch.choose(&[Op::Insert(0, 0), Op::Insert(1, 1), Op::Delete(0), Op::Open(5000), Op::Open(1128)]);
            check!(step(w, op, 3, 0)?, "{op:?} fails");
            ch.steps(1);
        }
        observe(&mut a, ch, 3, LOOKUPS | COUNTERS)?;
        observe(&mut b, ch, 3, LOOKUPS | COUNTERS)?;
        check_eq!(recorded(&ContentType::State, &a.pool), Some("id_indexed_v1".to_string()), "recorded version");
        // The same data under another version's store is refused and kept.
        let (ok, log) = open(ch.pick(2) * 2, &ContentType::State, &a.pool);
        check!(!ok && log.len() == 1, "a store of another version opens: {log:?}");
        observe(&mut a, ch, 3, LOOKUPS)?;
        ch.outcome(&(a.model.len(), b.model.len()));
        Ok(())
    });
}
