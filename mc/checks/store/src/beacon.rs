//! Beacon storage.
use crate::{beacon_storage::BeaconStorage, eternal::new_pool};
use ethportal_api::{types::content_key::beacon::*, types::distance::Distance, BeaconContentKey as K};
use spec::beacon::*;
use std::{collections::BTreeMap, sync::OnceLock};
use trin_storage::{ContentStore, PortalStorageConfig, ShouldWeStoreContent};
use trin_validation::chain_head::ChainHead;
use vc::{check, check_eq, Ch, Ctx, Res};

const GENESIS: u64 = 1_606_824_023;
/// Slots in 4 months of 30 days.
const WINDOW: u64 = 4 * 30 * 24 * 60 * 5;
const NOW: u64 = 20_000_000;

struct Alphabet {
    bootstraps: Vec<(Header, Vec<u8>)>,
    updates: Vec<Vec<u8>>,
    finality: Vec<(u64, Vec<u8>)>,
    optimistic: Vec<(u64, Vec<u8>)>,
    summaries: Vec<(u64, usize, Vec<u8>)>,
}

fn alphabet() -> &'static Alphabet {
    static A: OnceLock<Alphabet> = OnceLock::new();
    A.get_or_init(|| {
        let slots = [NOW - WINDOW - 1, NOW - WINDOW, NOW - WINDOW + 1, NOW - 5];
        let mut bootstraps: Vec<(Header, Vec<u8>)> = slots
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let h = Header::at(*s, 3 + i as u8);
                (h.clone(), Bootstrap::at(i, h).encode())
            })
            .collect();
        // The same block again with other contents.
        let mut other = Bootstrap::at(ELECTRA, bootstraps[3].0.clone());
        other.committee = committee(99);
        bootstraps.push((bootstraps[3].0.clone(), other.encode()));
        let update = |i: u64| Update::at(ELECTRA, Header::at(13_000_000 + i, 20), Header::at(12_000_000 + i, 30), 13_000_010 + i);
        Alphabet {
            bootstraps,
            updates: (0..5).map(|i| update(i).encode()).collect(),
            finality: (0..3).map(|i| (12_000_000 + 10 * i, update(10 * i).finality())).collect(),
            optimistic: (0..3).map(|i| (13_000_010 + 10 * i, update(10 * i).optimistic())).collect(),
            summaries: [(500u64, 3usize), (600, 700), (700, 701)]
                .iter()
                .map(|(e, n)| (*e, *n, summaries(ELECTRA, *e, &spec::ramp(*n as u8, n * 64), &hashes(5, 6))))
                .collect(),
        }
    })
}

#[derive(Default, Clone, Debug, Hash)]
struct Model {
    bootstraps: BTreeMap<[u8; 32], usize>,
    updates: BTreeMap<u64, usize>,
    finality: Option<usize>,
    optimistic: Option<usize>,
    summaries: Option<usize>,
    longest: usize,
}

fn bootstrap_key(h: &Header) -> K {
    K::LightClientBootstrap(LightClientBootstrapKey { block_hash: h.root() })
}
fn range_key(start_period: u64, count: u64) -> K {
    K::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period, count })
}

fn observe(s: &BeaconStorage, head: &ChainHead, m: &Model, ch: &mut Ch) -> Res {
    let a = alphabet();
    let mut ask = |key: K, want: Option<Vec<u8>>, stored: bool| -> Res {
        ch.eval();
        let got = s.get(&key).map_err(|e| format!("lookup of {key:?} fails: {e}"))?.map(|v| v.to_vec());
        check!(got == want, "{key:?} gives {:?} instead of {:?} bytes", got.map(|g| g.len()), want.map(|g| g.len()));
        let say = s.should_we_store(&key).map_err(|e| e.to_string())?;
        check_eq!(say, if stored { ShouldWeStoreContent::AlreadyStored } else { ShouldWeStoreContent::Store }, "whether to store {key:?}");
        Ok(())
    };
    for (h, _) in &a.bootstraps {
        let want = m.bootstraps.get(&h.root()).map(|i| a.bootstraps[*i].1.clone());
        let stored = want.is_some();
        ask(bootstrap_key(h), want, stored)?;
    }
    ask(bootstrap_key(&Header::at(1, 1)), None, false)?;
    for start in 0..4u64 {
        for count in 1..=4u64 {
            let all: Option<Vec<Vec<u8>>> = (start..start + count).map(|p| m.updates.get(&p).map(|i| a.updates[*i].clone())).collect();
            let any = (start..start + count).any(|p| m.updates.contains_key(&p));
            ask(range_key(start, count), all.map(|l| range(&l)), any)?;
        }
    }
    for f in [0, 1] {
        let items = if f == 0 { &a.finality } else { &a.optimistic };
        let held = if f == 0 { m.finality } else { m.optimistic };
        for slot in items.iter().flat_map(|(s, _)| [s - 1, *s, s + 1]).chain([0, u64::MAX]) {
            let want = held.filter(|i| items[*i].0 >= slot).map(|i| items[i].1.clone());
            let stored = want.is_some();
            let key = if f == 0 {
                K::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(slot))
            } else {
                K::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(slot))
            };
            ask(key, want, stored)?;
        }
    }
    for epoch in a.summaries.iter().flat_map(|(e, _, _)| [e - 1, *e, e + 1]).chain([0]) {
        let want = m.summaries.filter(|i| a.summaries[*i].0 >= epoch).map(|i| a.summaries[i].2.clone());
        let stored = want.is_some();
        ask(K::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch }), want, stored)?;
    }
    let newest = m.bootstraps.iter().max_by_key(|(_, i)| a.bootstraps[**i].0.slot).map(|(r, _)| *r);
    let got = s.lookup_latest_block_root().map_err(|e| e.to_string())?;
    check_eq!(got.map(|r| r.0), newest, "root of the latest bootstrap");
    // The summaries that follow from what was stored: the longest list seen by this process or kept.
    let first = 6_209_536; // first slot of Capella
    let at = |n: usize| head.historical_summary(first + 8192 * n as u64);
    for n in [699, 700] {
        let want = (m.longest > n).then(|| {
            let b = spec::ramp(m.longest as u8, m.longest * 64);
            b[n * 64..n * 64 + 64].to_vec()
        });
        let got = at(n).map(|s| [s.block_summary_root.to_vec(), s.state_summary_root.to_vec()].concat());
        check_eq!(got, want, "historical summary {n}");
    }
    Ok(())
}

fn open(pool: &r2d2::Pool<r2d2_sqlite::SqliteConnectionManager>) -> Result<(BeaconStorage, ChainHead), String> {
    let head = ChainHead::new_pectra_defaults();
    let s = BeaconStorage::new(
        PortalStorageConfig {
            storage_capacity_bytes: 0,
            node_id: discv5::enr::NodeId::new(&[0; 32]),
            node_data_dir: "/nonexistent".into(),
            sql_connection_pool: pool.clone(),
            max_radius: Distance::ZERO,
        },
        head.clone(),
    )
    .map_err(|e| format!("opening fails: {e}"))?;
    Ok((s, head))
}

fn beacon_pool() -> r2d2::Pool<r2d2_sqlite::SqliteConnectionManager> {
    let pool = new_pool();
    let conn = pool.get().unwrap();
    use trin_storage::sql::*;
    for q in [LC_BOOTSTRAP_CREATE_TABLE, LC_UPDATE_CREATE_TABLE, HISTORICAL_SUMMARIES_CREATE_TABLE] {
        conn.execute_batch(q).unwrap();
    }
    drop(conn);
    pool
}

fn put(s: &mut BeaconStorage, key: K, value: &[u8]) -> Res {
    let gone = s.put(key, value).map_err(|e| format!("storing fails: {e}"))?;
    check!(gone.is_empty(), "the beacon store hands back content");
    Ok(())
}

pub fn s09(ctx: &Ctx) {
    let a = alphabet();
    let depth = ctx.b(2, 3);
    ctx.explore("histories of stores, prunes and reopenings", |ch| {
        vc::clock::start(GENESIS + 12 * NOW);
        let pool = beacon_pool();
        let (mut s, mut head) = open(&pool)?;
        let mut m = Model::default();
        for _ in 0..depth {
            match ch.pick(7) {
                0 => {
                    let i = ch.pick(a.bootstraps.len());
                    // The key names the block; other content of the same block is not kept twice.
                    put(&mut s, bootstrap_key(&a.bootstraps[i].0), &a.bootstraps[i].1)?;
                    m.bootstraps.entry(a.bootstraps[i].0.root()).or_insert(i);
                }
                1 => {
                    let (start, count) = (ch.pick(3) as u64, 1 + ch.pick(3));
                    let from = ch.pick(2);
                    let values: Vec<Vec<u8>> = (0..count).map(|i| a.updates[from + i].clone()).collect();
                    put(&mut s, range_key(start, count as u64), &range(&values))?;
                    for i in 0..count {
                        m.updates.entry(start + i as u64).or_insert(from + i);
                    }
                }
                2 => {
                    let i = ch.pick(a.finality.len());
                    if m.finality.is_none_or(|h| h < i) {
                        put(&mut s, K::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(a.finality[i].0)), &a.finality[i].1)?;
                        m.finality = Some(i);
                    }
                }
                3 => {
                    let i = ch.pick(a.optimistic.len());
                    if m.optimistic.is_none_or(|h| h < i) {
                        put(&mut s, K::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(a.optimistic[i].0)), &a.optimistic[i].1)?;
                        m.optimistic = Some(i);
                    }
                }
                4 => {
                    let i = ch.pick(a.summaries.len());
                    if m.summaries.is_none_or(|h| h < i) {
                        let (epoch, n, v) = &a.summaries[i];
                        put(&mut s, K::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: *epoch }), v)?;
                        m.summaries = Some(i);
                        m.longest = m.longest.max(*n);
                    }
                }
                5 => {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
                    rt.block_on(async {
                        s.spawn_pruning_task();
                        for _ in 0..4 {
                            tokio::task::yield_now().await;
                        }
                    });
                    m.bootstraps.retain(|_, i| a.bootstraps[*i].0.slot >= NOW - WINDOW);
                }
                _ => {
                    drop(s);
                    (s, head) = open(&pool)?;
                    m.finality = None;
                    m.optimistic = None;
                    m.longest = m.summaries.map_or(0, |i| a.summaries[i].1);
                }
            }
            ch.steps(1);
        }
        ch.note(|| format!("{m:?}"));
        observe(&s, &head, &m, ch)?;
        drop(s);
        let (s, head) = open(&pool)?;
        ch.state(&m);
        ch.outcome(&m);
        m.finality = None;
        m.optimistic = None;
        m.longest = m.summaries.map_or(0, |i| a.summaries[i].1);
        observe(&s, &head, &m, ch)?;
        vc::clock::stop();
        Ok(())
    });
    ctx.explore("ranges that cannot be held", |ch| {
        let pool = beacon_pool();
        let (mut s, head) = open(&pool)?;
        put(&mut s, range_key(0, 1), &range(&a.updates[..1]))?;
        let m = Model { updates: [(0, 0)].into(), ..Default::default() };
        let start = *ch.choose(&[0u64, 1, 2, 1 << 40, i64::MAX as u64 - 1, u64::MAX - 128, u64::MAX - 1, u64::MAX]);
        let count = *ch.choose(&[128u64, 129, 130, 1 << 20, u64::MAX / 2, u64::MAX - 1, u64::MAX]);
        let key = range_key(start, count);
        ch.note(|| format!("{key:?}"));
        let t = std::time::Instant::now();
        check!(!matches!(s.get(&key), Ok(Some(_))), "a range that is not stored is returned");
        let say = s.should_we_store(&key);
        if count > 128 {
            check!(!matches!(say, Ok(ShouldWeStoreContent::Store)), "a range of {count} periods is wanted");
            check!(s.put(key, range(&a.updates[..1])).is_err(), "a range of {count} periods is stored");
        }
        check!(t.elapsed().as_secs() < 5, "a range of {count} periods takes {:?}", t.elapsed());
        ch.outcome(&(count > 128));
        observe(&s, &head, &m, ch)
    });
}
