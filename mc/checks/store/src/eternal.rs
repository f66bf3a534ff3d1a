//! The store of permanent content: lookups, capacity, counters, paging and failures.
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        content_key::overlay::IdentityContentKey,
        distance::{Distance, XorMetric},
        network::Subnetwork,
    },
    OverlayContentKey, RawContentValue,
};
use r2d2::Pool;
use r2d2_sqlite::SqliteConnectionManager;
use rusqlite::fault;
use std::collections::BTreeMap;
use trin_storage::{
    error::ContentStoreError,
    versioned::{create_store, ContentType, IdIndexedV1Store, IdIndexedV1StoreConfig},
    ContentId, PortalStorageConfig,
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

type Store = IdIndexedV1Store<IdentityContentKey, XorMetric>;

pub const NODE: [u8; 32] = [0x5a; 32];

/// Distances from the node; the first two agree in their leading 32 bits.
const LEADS: [(u32, u8); 6] = [(1, 0), (1, 0xff), (0x7fff_ffff, 0x10), (0x8000_0000, 1), (0xffff_ffff, 0xff), (0, 3)];

fn distance(i: usize) -> [u8; 32] {
    let (lead, fill) = LEADS.get(i).copied().unwrap_or((0x1000 + 3 * i as u32, 7));
    let mut d = [fill; 32];
    d[..4].copy_from_slice(&lead.to_be_bytes());
    d
}

fn key(i: usize) -> IdentityContentKey {
    let d = distance(i);
    IdentityContentKey::new(std::array::from_fn(|j| d[j] ^ NODE[j]))
}

fn id(i: usize) -> ContentId {
    ContentId::from(key(i).content_id())
}

fn lead(i: usize) -> u32 {
    u32::from_be_bytes(distance(i)[..4].try_into().unwrap())
}

/// The value with the given number; values 0 and 1 are small and large.
fn value(v: usize) -> Vec<u8> {
    match v {
        0 => vec![],
        1 => spec::ramp(9, 1200),
        n => spec::ramp(n as u8, 300),
    }
}

fn dist(b: [u8; 32]) -> Distance {
    XorMetric_distance(b)
}

#[allow(non_snake_case)]
fn XorMetric_distance(b: [u8; 32]) -> Distance {
    use ethportal_api::types::distance::Metric;
    XorMetric::distance(&[0; 32], &b)
}

pub fn extra(ct: &ContentType) -> u64 {
    match ct {
        ContentType::State => 500,
        _ => 750,
    }
}

/// What should be stored: key number to value number.
pub type Model = BTreeMap<usize, usize>;

pub struct World {
    pub pool: Pool<SqliteConnectionManager>,
    pub ct: ContentType,
    pub capacity: u64,
    pub max_radius: Distance,
    pub store: Option<Store>,
    pub model: Model,
}

pub fn new_pool() -> Pool<SqliteConnectionManager> {
    let pool = Pool::new(SqliteConnectionManager::memory()).unwrap();
    pool.get().unwrap().execute_batch(trin_storage::versioned::sql::STORE_INFO_CREATE_TABLE).unwrap();
    pool
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Insert(usize, usize),
    Delete(usize),
    Open(u64),
}

impl World {
    pub fn new(ct: ContentType, capacity: u64, max_radius: Distance) -> Self {
        let mut w = Self { pool: new_pool(), ct, capacity, max_radius, store: None, model: Model::new() };
        w.open().expect("a fresh store opens");
        w
    }

    pub fn config(&self) -> IdIndexedV1StoreConfig {
        IdIndexedV1StoreConfig::new(
            self.ct.clone(),
            if self.ct == ContentType::State { Subnetwork::State } else { Subnetwork::LegacyHistory },
            PortalStorageConfig {
                storage_capacity_bytes: self.capacity,
                node_id: NodeId::new(&NODE),
                node_data_dir: "/nonexistent".into(),
                sql_connection_pool: self.pool.clone(),
                max_radius: self.max_radius,
            },
        )
    }

    pub fn open(&mut self) -> Result<(), ContentStoreError> {
        self.store = None;
        self.store = Some(create_store(self.ct.clone(), self.config(), self.pool.clone())?);
        Ok(())
    }

    pub fn st(&mut self) -> &mut Store {
        self.store.as_mut().unwrap()
    }

    fn size(&self, v: usize) -> u64 {
        64 + value(v).len() as u64
    }
    fn usage(&self, m: &Model) -> u64 {
        m.values().map(|v| self.size(*v) + extra(&self.ct)).sum()
    }
    fn total(&self, m: &Model) -> u64 {
        m.values().map(|v| self.size(*v)).sum()
    }
    fn target(&self) -> u64 {
        (self.capacity as f64 * 0.95).round() as u64
    }

    /// How many items the documented rule evicts: down to the estimated number of average items
    /// that fit in 95% of the capacity, a bounded batch at a time, farthest first.
    /// Items at the same leading distance may go in any order; `kept` tells which orders it can
    /// have been.
    fn evictions(&self, m: &Model, kept: &Model) -> Vec<usize> {
        let mut orders: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..m.len() {
            let mut longer = vec![];
            for order in orders {
                let rest = || m.keys().copied().filter(|i| !order.contains(i));
                let first = rest().map(|i| (lead(i), !kept.contains_key(&i))).min();
                for i in rest().filter(|i| Some((lead(*i), !kept.contains_key(i))) == first) {
                    let mut order = order.clone();
                    order.push(i);
                    longer.push(order);
                }
            }
            orders = longer;
        }
        orders.into_iter().map(|order| self.evictions_in(m, order)).collect()
    }

    fn evictions_in(&self, m: &Model, mut order: Vec<usize>) -> usize {
        let mut gone = 0;
        let mut batch = 100u64;
        let mut left = m.clone();
        while self.usage(&left) > self.capacity {
            let n = left.len() as u64;
            let count = if self.capacity == 0 {
                n
            } else {
                let average = self.total(&left) as f64 / n as f64 + extra(&self.ct) as f64;
                (n - (self.target() as f64 / average).floor() as u64).min(batch)
            };
            batch = (1.2 * batch as f64).round() as u64;
            for _ in 0..count {
                left.remove(&order.pop().unwrap());
                gone += 1;
            }
        }
        gone
    }

    /// What is stored according to lookups of all key numbers below `keys`.
    pub fn contents(&mut self, keys: usize) -> Result<Model, String> {
        let mut m = Model::new();
        for i in 0..keys {
            let s = self.store.as_ref().unwrap();
            let found = s.lookup_content_value(&id(i)).map_err(|e| format!("lookup fails: {e}"))?;
            if let Some(found) = found {
                let known = (0..4).find(|v| value(*v) == found.to_vec());
                match known {
                    Some(v) => m.insert(i, v),
                    None => fail!("key {i} holds bytes that were never stored"),
                };
            }
        }
        Ok(m)
    }

    /// Farthest-first eviction from `before`: what remains is `after`.
    fn evicted_farthest(&self, before: &Model, after: &Model) -> Res {
        for (i, _) in before.iter().filter(|(i, _)| !after.contains_key(i)) {
            for j in after.keys() {
                check!(lead(*i) >= lead(*j), "evicted an item at {:08x} while keeping one at {:08x}", lead(*i), lead(*j));
            }
        }
        Ok(())
    }

    /// The radius after pruning or opening above the target: the distance of a farthest item.
    fn radius_is_farthest(&mut self, m: &Model) -> Res {
        let got = self.st().radius();
        let Some(far) = m.keys().map(|i| lead(*i)).max() else {
            let want = if self.capacity == 0 { Distance::ZERO } else { self.max_radius };
            check_eq!(got, want, "radius of an empty store");
            return Ok(());
        };
        let fine = m.keys().filter(|i| lead(**i) == far).any(|i| got == dist(distance(*i)).min(self.max_radius));
        check!(fine, "radius {got} is not the distance of the farthest item (leading bits {far:08x})");
        Ok(())
    }
}

pub const LOOKUPS: u8 = 1;
pub const CAPACITY: u8 = 2;
pub const COUNTERS: u8 = 4;

/// Runs one operation and updates the model; `Ok(false)` if the operation reported an error.
pub fn step(w: &mut World, op: Op, keys: usize, parts: u8) -> Result<bool, String> {
    let before = w.model.clone();
    match op {
        Op::Insert(k, v) => {
            let radius = w.st().radius();
            let within = dist(distance(k)) <= radius;
            let new = within && !before.contains_key(&k);
            let got = w.st().insert(&key(k), RawContentValue::from(value(v)));
            let gone = match got {
                Err(ContentStoreError::InsufficientRadius { .. }) => {
                    check!(!within, "an item within the radius is refused");
                    return Ok(true);
                }
                Err(_) => return Ok(false),
                Ok(gone) => gone,
            };
            check!(within, "an item at {} outside the radius {radius} is stored", dist(distance(k)));
            if new {
                w.model.insert(k, v);
            }
            let full = w.model.clone();
            for (gk, gv) in &gone {
                let i = (0..keys).find(|i| key(*i) == *gk);
                let known = i.and_then(|i| w.model.remove(&i));
                check_eq!(known.map(value), Some(gv.to_vec()), "value of an evicted item");
            }
            if parts & CAPACITY != 0 {
                check!(w.usage(&w.model) <= w.capacity, "{} bytes kept with a capacity of {}", w.usage(&w.model), w.capacity);
                let counts = w.evictions(&full, &w.model);
                check!(counts.contains(&gone.len()), "number of evicted items: got {}, expected {counts:?}", gone.len());
                w.evicted_farthest(&full, &w.model)?;
                if w.usage(&full) > w.capacity {
                    let m = w.model.clone();
                    w.radius_is_farthest(&m)?;
                } else {
                    check_eq!(w.st().radius(), radius, "radius after an insert that did not evict");
                }
            }
        }
        Op::Delete(k) => {
            let radius = w.st().radius();
            if w.st().delete(&id(k)).is_err() {
                return Ok(false);
            }
            w.model.remove(&k);
            if parts & CAPACITY != 0 {
                check_eq!(w.st().radius(), radius, "radius after a delete");
            }
        }
        Op::Open(capacity) => {
            w.capacity = capacity;
            if w.open().is_err() {
                return Ok(false);
            }
            if w.usage(&before) > w.capacity {
                // Opening does not hand back what it evicts.
                w.model = w.contents(keys)?;
                check!(w.model.iter().all(|(k, v)| before.get(k) == Some(v)), "opening the store invents items");
                if parts & CAPACITY != 0 {
                    let counts = w.evictions(&before, &w.model);
                    let gone = before.len() - w.model.len();
                    check!(counts.contains(&gone), "number of items evicted while opening: got {gone}, expected {counts:?}");
                    w.evicted_farthest(&before, &w.model)?;
                    let m = w.model.clone();
                    w.radius_is_farthest(&m)?;
                }
            } else if parts & CAPACITY != 0 {
                if w.usage(&before) > w.target() {
                    w.radius_is_farthest(&before)?;
                } else {
                    let want = if capacity == 0 { Distance::ZERO } else { w.max_radius };
                    check_eq!(w.st().radius(), want, "radius after opening a store with room");
                }
            }
        }
    }
    if parts & CAPACITY != 0 {
        check!(w.st().radius() <= w.max_radius, "radius {} beyond the maximum {}", w.st().radius(), w.max_radius);
    }
    Ok(true)
}

/// Compares everything the store says with the model.
pub fn observe(w: &mut World, ch: &mut Ch, keys: usize, parts: u8) -> Res {
    let m = w.model.clone();
    if parts & LOOKUPS != 0 {
        for i in 0..keys {
            let s = w.store.as_ref().unwrap();
            let want = m.get(&i).map(|v| value(*v));
            ch.eval();
            check_eq!(s.lookup_content_value(&id(i)).map_err(|e| e.to_string())?.map(|v| v.to_vec()), want, "value found under key {i}");
            check_eq!(s.has_content(&id(i)).map_err(|e| e.to_string())?, want.is_some(), "presence of key {i}");
            check_eq!(s.lookup_content_key(&id(i)).map_err(|e| e.to_string())?, want.map(|_| key(i)), "key found for id {i}");
        }
    }
    if parts & COUNTERS != 0 {
        let stored = w.contents(keys)?;
        let stats = w.st().usage_stats();
        ch.eval();
        check_eq!(stats.entry_count(), stored.len() as u64, "counted entries");
        check_eq!(stats.total_entry_size_bytes(), w.total(&stored), "counted bytes");
        check_eq!(stats.estimated_disk_usage_bytes(), w.usage(&stored), "estimated disk usage");
        let page = w.st().paginate(0, 1000).map_err(|e| e.to_string())?;
        check_eq!(page.entry_count, stored.len() as u64, "entry count of a page");
        if w.usage(&stored) <= w.capacity {
            w.open().map_err(|e| format!("reopening fails: {e}"))?;
            check!(w.st().usage_stats() == stats, "reopening counts {:?} instead of {stats:?}", w.st().usage_stats());
        }
    }
    Ok(())
}

fn capacities() -> Vec<u64> {
    // small items take 564 bytes, large ones 1764
    vec![5000, 2328, 1128, 563, 0]
}

fn ops(keys: usize, caps: &[u64]) -> Vec<Op> {
    let mut l = vec![];
    for k in 0..keys {
        l.push(Op::Insert(k, 0));
        l.push(Op::Insert(k, 1));
        l.push(Op::Delete(k));
    }
    l.extend(caps.iter().map(|c| Op::Open(*c)));
    l
}

fn radii() -> [Distance; 3] {
    [Distance::MAX, dist(distance(3)), dist(distance(0))]
}

/// All histories up to the bound; the state is inspected after the last operation (every prefix is
/// a history of its own).
fn histories(ctx: &Ctx, keys: usize, depth: usize, parts: u8) {
    let caps = capacities();
    let alphabet = ops(keys, &caps);
    ctx.explore(&format!("histories of up to {depth} operations on {keys} keys"), |ch| {
        vc::clock::start(1_700_000_000);
        let n = 1 + ch.pick(depth);
        let cap = *ch.choose(&caps);
        let radius = *ch.choose(&radii());
        let mut w = World::new(ContentType::State, cap, radius);
        for _ in 0..n {
            let op = *ch.choose(&alphabet);
            ch.note(|| format!("{op:?}"));
            check!(step(&mut w, op, keys, parts)?, "{op:?} fails");
            ch.steps(1);
        }
        let r = observe(&mut w, ch, keys, parts);
        let radius = w.store.as_mut().map(|s| s.radius());
        ch.state(&(format!("{:?}", w.model), w.capacity, format!("{radius:?}")));
        ch.outcome(&(w.model.len(), w.capacity, format!("{radius:?}")));
        vc::clock::stop();
        r
    });
}

pub fn s01(ctx: &Ctx) {
    histories(ctx, 3, ctx.b(3, 4), LOOKUPS);
    through_network(ctx);
}

/// The same answers through the legacy history network's own storage interface.
fn through_network(ctx: &Ctx) {
    use ethportal_api::{types::content_key::legacy_history::*, LegacyHistoryContentKey as K};
    use crate::legacy_history_storage::LegacyHistoryStorage;
    use trin_storage::{ContentStore, ShouldWeStoreContent};
    let keys = [
        K::BlockHeaderByHash(BlockHeaderByHashKey { block_hash: spec::hash(1) }),
        K::BlockBody(BlockBodyKey { block_hash: spec::hash(1) }),
        K::BlockReceipts(BlockReceiptsKey { block_hash: spec::hash(1) }),
        K::BlockHeaderByNumber(BlockHeaderByNumberKey { block_number: 1 }),
    ];
    let depth = ctx.b(3, 4);
    ctx.explore("histories through the network storage", |ch| {
        vc::clock::start(1_700_000_000);
        // The node sits at the id of one of the keys, so that the others are away from it.
        let own = ch.pick(keys.len());
        let node: [u8; 32] = keys[own].content_id();
        let away: Vec<Distance> = keys.iter().map(|k| dist(std::array::from_fn(|j| k.content_id()[j] ^ node[j]))).collect();
        let max_radius = [Distance::MAX, away[ch.pick(keys.len())]][ch.pick(2)];
        let config = PortalStorageConfig {
            storage_capacity_bytes: *ch.choose(&[1_000_000, 2600]),
            node_id: NodeId::new(&node),
            node_data_dir: "/nonexistent".into(),
            sql_connection_pool: new_pool(),
            max_radius,
        };
        let mut s = LegacyHistoryStorage::new(config.clone()).map_err(|e| e.to_string())?;
        let mut model: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for _ in 0..depth {
            let op = ch.pick(2 * keys.len() + 1);
            if op == 2 * keys.len() {
                drop(s);
                s = LegacyHistoryStorage::new(config.clone()).map_err(|e| e.to_string())?;
            } else {
                let (k, v) = (op / 2, spec::ramp(op as u8, 100 * (op % 2)));
                let radius = s.radius();
                match s.put(keys[k].clone(), &v) {
                    Ok(gone) => {
                        check!(away[k] <= radius, "an item outside the radius is stored");
                        model.entry(k).or_insert(v);
                        for (gk, gv) in gone {
                            let i = keys.iter().position(|k| *k == gk).ok_or("an unknown key is evicted")?;
                            check_eq!(model.remove(&i), Some(gv.to_vec()), "value of an evicted item");
                        }
                    }
                    Err(ContentStoreError::InsufficientRadius { .. }) => check!(away[k] > radius, "an item within the radius is refused"),
                    Err(e) => fail!("put fails: {e}"),
                }
            }
            ch.steps(1);
            for (i, k) in keys.iter().enumerate() {
                ch.eval();
                check_eq!(s.get(k).map_err(|e| e.to_string())?.map(|v| v.to_vec()), model.get(&i).cloned(), "content under {k:?}");
                let want = if away[i] > s.radius() {
                    ShouldWeStoreContent::NotWithinRadius
                } else if model.contains_key(&i) {
                    ShouldWeStoreContent::AlreadyStored
                } else {
                    ShouldWeStoreContent::Store
                };
                check_eq!(s.should_we_store(k).map_err(|e| e.to_string())?, want, "whether to store {k:?}");
            }
            let batch = s.should_we_store_batch(&keys).map_err(|e| e.to_string())?;
            for (k, b) in keys.iter().zip(&batch) {
                check_eq!(s.should_we_store(k).map_err(|e| e.to_string())?, *b, "batched answer for {k:?}");
            }
            let page = s.paginate(0, 100).map_err(|e| e.to_string())?;
            check_eq!(page.total_entries, model.len() as u64, "listed total");
            check_eq!(page.content_keys.len(), model.len(), "listed keys");
        }
        ch.state(&(own, format!("{model:?}"), format!("{}", s.radius())));
        ch.outcome(&(model.keys().copied().collect::<Vec<_>>(), format!("{}", s.radius())));
        vc::clock::stop();
        Ok(())
    });
}

pub fn s02(ctx: &Ctx) {
    histories(ctx, 4, ctx.b(3, 4), CAPACITY | LOOKUPS);
    let caps = capacities();
    ctx.explore("both sizes, nearly full", |ch| {
        // All insertion orders of items that together exceed every small capacity.
        vc::clock::start(1_700_000_000);
        let keys = ctx.b(4, 5);
        let mut w = World::new(if ch.flag() { ContentType::State } else { ContentType::LegacyHistoryEternal }, *ch.choose(&caps), *ch.choose(&radii()));
        let order = ch.permutation(keys);
        let big = ch.subset(keys);
        for k in order {
            step(&mut w, Op::Insert(k, (big >> k & 1) as usize), keys, CAPACITY)?;
            ch.steps(1);
        }
        observe(&mut w, ch, keys, LOOKUPS)?;
        ch.state(&(w.capacity, format!("{:?}", w.model)));
        ch.outcome(&w.model.len());
        vc::clock::stop();
        Ok(())
    });
    let many = [1usize, 2, 99, 100, 101, 130, 220, 221, 222, 230];
    ctx.explore("opening a large store with less room", |ch| {
        vc::clock::start(1_700_000_000);
        let n = *ch.choose(&many);
        let keys = n + 6;
        let mut w = World::new(ContentType::State, u64::MAX / 4, Distance::MAX);
        for k in 6..keys {
            step(&mut w, Op::Insert(k, k % 2), keys, CAPACITY)?;
        }
        let full = w.usage(&w.model);
        let cap = *ch.choose(&[0, 1, full / 4, full / 2, full.saturating_sub(1764), full - 1, full, full * 100 / 95, full * 2]);
        step(&mut w, Op::Open(cap), keys, CAPACITY)?;
        step(&mut w, Op::Insert(5, 1), keys, CAPACITY)?;
        step(&mut w, Op::Insert(0, 0), keys, CAPACITY)?;
        ch.steps(3);
        observe(&mut w, ch, keys, LOOKUPS)?;
        ch.state(&(n, cap, w.model.len()));
        ch.outcome(&(n, w.model.len()));
        vc::clock::stop();
        Ok(())
    });
    ctx.explore("opening with another maximum radius", |ch| {
        vc::clock::start(1_700_000_000);
        let keys = 5;
        let mut w = World::new(ContentType::State, 100_000, Distance::MAX);
        let stored = ch.subset(keys);
        for k in (0..keys).filter(|k| stored >> k & 1 == 1) {
            step(&mut w, Op::Insert(k, 1), keys, CAPACITY)?;
        }
        w.max_radius = dist(distance(ch.pick(keys)));
        let full = w.usage(&w.model);
        let cap = *ch.choose(&[full * 2 + 1, full * 100 / 97, full, full.saturating_sub(1), full / 2]);
        ch.note(|| format!("items {stored:b}, then {cap} bytes and maximum {}", w.max_radius));
        step(&mut w, Op::Open(cap), keys, CAPACITY)?;
        step(&mut w, Op::Insert(ch.pick(keys), 0), keys, CAPACITY)?;
        ch.steps(2);
        observe(&mut w, ch, keys, LOOKUPS)?;
        ch.state(&(stored, cap, format!("{}", w.max_radius), w.model.len()));
        ch.outcome(&w.model.len());
        vc::clock::stop();
        Ok(())
    });
    ctx.explore("opening with another node id", |ch| {
        let stored = ch.subset(4);
        let mut w = World::new(ContentType::State, 100_000, Distance::MAX);
        for k in (0..4).filter(|k| stored >> k & 1 == 1) {
            step(&mut w, Op::Insert(k, 0), 4, 0)?;
        }
        let mut config = w.config();
        let mut node = NODE;
        node[*ch.choose(&[0, 3, 4, 31])] ^= *ch.choose(&[0u8, 1, 0x80]);
        config.node_id = NodeId::new(&node);
        let same = node[..4] == NODE[..4];
        let got = create_store::<Store>(ContentType::State, config, w.pool.clone());
        check_eq!(got.is_ok(), same || stored == 0, "opening the data of another node");
        ch.outcome(&(stored, got.is_ok()));
        Ok(())
    });
}

pub fn s03(ctx: &Ctx) {
    histories(ctx, 3, ctx.b(3, 4), COUNTERS);
    failures(ctx, ctx.b(1, 2), COUNTERS);
}

pub fn s04(ctx: &Ctx) {
    failures(ctx, ctx.b(2, 3), COUNTERS | LOOKUPS | CAPACITY);
}

/// All short histories in which one statement fails, or the process stops at one statement.
fn failures(ctx: &Ctx, prefix: usize, parts: u8) {
    let keys = 3;
    let caps = [2328, 1128];
    let alphabet = ops(keys, &caps);
    ctx.explore("a failure or stop at every statement", |ch| {
        vc::clock::start(1_700_000_000);
        let cap = *ch.choose(&caps);
        let mut w = World::new(ContentType::State, cap, Distance::MAX);
        let mut done = vec![];
        for _ in 0..ch.pick(prefix + 1) {
            let op = *ch.choose(&alphabet);
            check!(step(&mut w, op, keys, 0)?, "{op:?} fails without a fault");
            done.push(op);
        }
        let op = *ch.choose(&alphabet);
        // The number of statements of the operation, counted on a twin.
        let points = {
            let mut twin = World::new(ContentType::State, cap, Distance::MAX);
            for op in &done {
                step(&mut twin, *op, keys, 0)?;
            }
            fault::reset();
            fault::arm(u64::MAX, false);
            run(&mut twin, op);
            let n = fault::count();
            fault::reset();
            n as usize
        };
        if points == 0 {
            return Ok(());
        }
        let at = ch.pick(points);
        let stop = ch.flag();
        ch.note(|| format!("{done:?} then {op:?} failing at statement {at} of {points}, stop: {stop}"));
        let before = w.model.clone();
        let full = match op {
            Op::Insert(k, v) if dist(distance(k)) <= w.st().radius() => {
                let mut m = before.clone();
                m.entry(k).or_insert(v);
                m
            }
            _ => before.clone(),
        };
        fault::arm(at as u64, stop);
        let ok = if stop {
            run(&mut w, op)
        } else {
            // A completed operation has to have had all of its effects.
            step(&mut w, op, keys, 0)?
        };
        fault::reset();
        if stop || w.store.is_none() {
            w.open().map_err(|e| format!("the store does not open after a failure: {e}"))?;
        }
        let now = w.contents(keys)?;
        if ok && !stop {
            check_eq!(now, w.model, "contents after an operation that reported success");
        } else {
            let mut allowed = vec![before.clone(), full.clone()];
            if let Op::Delete(k) = op {
                let mut m = before.clone();
                m.remove(&k);
                allowed.push(m);
            }
            let fits = allowed.iter().any(|m| {
                let pruned = w.usage(m) > w.capacity && now.iter().all(|(k, v)| m.get(k) == Some(v)) && w.evicted_farthest(m, &now).is_ok();
                now == *m || pruned
            });
            check!(fits, "contents {now:?} after a failed {op:?} on {before:?}");
        }
        w.model = now;
        ch.steps(1);
        ch.state(&(format!("{:?}", w.model), w.capacity, at, stop));
        ch.outcome(&(ok, w.model.len()));
        observe(&mut w, ch, keys, parts & !CAPACITY)?;
        if ch.flag() {
            w.open().map_err(|e| format!("reopening fails: {e}"))?;
            w.model = w.contents(keys)?;
        }
        let next = *ch.choose(&[Op::Insert(0, 1), Op::Insert(2, 0)]);
        check!(step(&mut w, next, keys, parts)?, "the next operation fails");
        observe(&mut w, ch, keys, parts)?;
        vc::clock::stop();
        Ok(())
    });
}

/// Runs the operation without looking at what it returns, except whether it succeeded.
fn run(w: &mut World, op: Op) -> bool {
    match op {
        Op::Insert(k, v) => w.st().insert(&key(k), RawContentValue::from(value(v))).is_ok(),
        Op::Delete(k) => w.st().delete(&id(k)).is_ok(),
        Op::Open(c) => {
            w.capacity = c;
            w.open().is_ok()
        }
    }
}

pub fn s06(ctx: &Ctx) {
    let keys = ctx.b(5, 6);
    ctx.explore("every page of every set of keys", |ch| {
        let mut w = World::new(ContentType::State, 1_000_000, Distance::MAX);
        let order = ch.permutation(keys);
        let present = ch.subset(keys);
        for k in order.iter().filter(|k| present >> **k & 1 == 1) {
            step(&mut w, Op::Insert(*k, 0), keys, 0)?;
        }
        let gone = ch.pick(keys + 1);
        if gone < keys {
            step(&mut w, Op::Delete(gone), keys, 0)?;
        }
        let n = w.model.len();
        for limit in 0..=n as u64 + 1 {
            let mut seen = vec![];
            let mut offset = 0;
            loop {
                let page = w.st().paginate(offset, limit).map_err(|e| e.to_string())?;
                ch.eval();
                check_eq!(page.entry_count, n as u64, "total of the page at {offset}");
                check_eq!(page.content_keys.len() as u64, limit.min((n as u64).saturating_sub(offset)), "length of the page at {offset} of size {limit}");
                seen.extend(page.content_keys.clone());
                offset += limit;
                if page.content_keys.is_empty() {
                    break;
                }
            }
            if limit > 0 {
                let mut want: Vec<Vec<u8>> = w.model.keys().map(|k| key(*k).to_bytes().to_vec()).collect();
                let mut got: Vec<Vec<u8>> = seen.iter().map(|k| k.to_bytes().to_vec()).collect();
                want.sort();
                got.sort();
                check_eq!(got, want, "keys seen with pages of {limit}");
            }
        }
        for offset in [n as u64, n as u64 + 1, 1 << 40] {
            let page = w.st().paginate(offset, 3).map_err(|e| e.to_string())?;
            check!(page.content_keys.is_empty(), "a page beyond the end has entries");
        }
        ch.outcome(&w.model.keys().copied().collect::<Vec<_>>());
        Ok(())
    });
}
