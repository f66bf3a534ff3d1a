//! Where the light client takes its checkpoint from.
use crate::{chain::*, headers::block_on, light::*};
use alloy::primitives::B256;
use anyhow::{anyhow, Result};
use ethportal_api::light_client::{
    bootstrap::LightClientBootstrapElectra, finality_update::LightClientFinalityUpdateElectra, optimistic_update::LightClientOptimisticUpdateElectra,
    update::LightClientUpdateElectra,
};
use light_client::{
    config::{
        checkpoints::{CheckpointFallback, CheckpointFallbackService, Health, CHECKPOINT_SYNC_SERVICES_LIST},
        client_config::Config,
        networks, Network,
    },
    consensus::rpc::ConsensusRpc,
    database::{ConfigDB, Database, FileDB},
    Client, ClientBuilder,
};
use serde_json::json;
use spec::beacon;
use ssz::Decode;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    rc::Rc,
    sync::{Arc, Mutex, OnceLock},
};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

// ---- the services -------------------------------------------------------------------------------

/// What a checkpoint service answers.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Silent,
    Garbage,
    NoSlots,
    NoRoot,
    /// A slot of the epoch with the root.
    Slot(u64, u8),
    /// The same behind a slot without a root.
    Later(u64, u8),
    /// The first slot, before a slot of another epoch and root.
    First(u64, u8),
}

impl Answer {
    fn body(self) -> Option<(u16, Vec<u8>)> {
        let slot = |epoch: u64, root: Option<u8>, text: bool| {
            let number = |n: u64| if text { json!(n.to_string()) } else { json!(n) };
            json!({
                "slot": number(epoch * 32),
                "block_root": root.map(|r| B256::repeat_byte(r)),
                "state_root": root.map(|_| B256::repeat_byte(0x55)),
                "epoch": number(epoch),
                "time": {"start_time": "2024-05-28T00:00:11Z", "end_time": "2024-05-28T00:00:23Z"},
            })
        };
        let slots = match self {
            Answer::Silent => return None,
            Answer::Garbage => return Some((500, b"<html>".to_vec())),
            Answer::NoSlots => vec![],
            Answer::NoRoot => vec![slot(20, None, true), slot(19, None, false)],
            Answer::Slot(e, r) => vec![slot(e, Some(r), true)],
            Answer::Later(e, r) => vec![slot(20, None, false), slot(e, Some(r), false)],
            Answer::First(e, r) => vec![slot(e, Some(r), true), slot(30, Some(0x77), true)],
        };
        Some((200, serde_json::to_vec(&json!({"data": {"slots": slots}})).expect("JSON")))
    }

    /// The epoch and root of the latest slot that has a root.
    fn latest(self) -> Option<(u64, u8)> {
        match self {
            Answer::Slot(e, r) | Answer::Later(e, r) | Answer::First(e, r) => Some((e, r)),
            _ => None,
        }
    }
}

const ALL: [Answer; 10] = [
    Answer::Silent,
    Answer::NoRoot,
    Answer::Slot(10, 0xa1),
    Answer::Slot(11, 0xa1),
    Answer::Slot(11, 0xb2),
    Answer::Later(10, 0xb2),
    Answer::First(11, 0xc3),
    Answer::Garbage,
    Answer::NoSlots,
    Answer::Later(12, 0xa1),
];

/// The roots most services agree on for the latest epoch any of them knows.
fn most_common(answers: &[Answer]) -> Vec<u8> {
    let slots: Vec<(u64, u8)> = answers.iter().filter_map(|a| a.latest()).collect();
    let Some(epoch) = slots.iter().map(|s| s.0).max() else { return vec![] };
    let mut votes = BTreeMap::<u8, usize>::new();
    for s in slots.iter().filter(|s| s.0 == epoch) {
        *votes.entry(s.1).or_default() += 1;
    }
    let most = votes.values().max().copied().unwrap_or(0);
    votes.into_iter().filter(|v| v.1 == most).map(|v| v.0).collect()
}

fn service(i: usize, healthy: bool, slashes: usize) -> CheckpointFallbackService {
    CheckpointFallbackService {
        endpoint: format!("https://service{i}.example{}", "/".repeat(slashes)),
        name: format!("service {i}"),
        state: healthy,
        verification: i % 2 == 0,
        health: vec![Health { result: !healthy, date: "2024-05-28".to_owned() }],
        ..Default::default()
    }
}

fn url(i: usize) -> String {
    format!("https://service{i}.example/checkpointz/v1/beacon/slots")
}

fn list(services: &[CheckpointFallbackService]) -> String {
    serde_json::to_string(&json!({
        "sepolia": [{"endpoint": "https://other.example", "name": "x", "state": true, "verification": true, "contacts": null, "notes": null, "health": []}],
        "mainnet": services,
    }))
    .expect("JSON")
}

/// Serves the bodies by URL and keeps what was asked.
fn serve(answers: Vec<(String, Option<(u16, Vec<u8>)>)>) -> Rc<RefCell<Vec<String>>> {
    let asked = Rc::new(RefCell::new(vec![]));
    let log = asked.clone();
    reqwest::fake::set(move |url, _| {
        log.borrow_mut().push(url.to_owned());
        answers.iter().find(|a| a.0 == url).and_then(|a| a.1.clone())
    });
    asked
}

pub fn l04(ctx: &Ctx) {
    let n = ctx.b(3, 4);
    ctx.explore("answers of the services", |ch| {
        let answers: Vec<Answer> = (0..n).map(|_| *ch.choose(&ALL)).collect();
        let unhealthy = ch.pick(n + 1);
        ch.note(|| format!("answers {answers:?}, service {unhealthy} is unhealthy"));
        let services: Vec<_> = (0..n).map(|i| service(i, i != unhealthy, i)).collect();
        let mut all: Vec<_> = answers.iter().enumerate().map(|(i, a)| (url(i), a.body())).collect();
        all.push((CHECKPOINT_SYNC_SERVICES_LIST.to_owned(), Some((200, list(&services).into_bytes()))));
        let asked = serve(all);
        let got = vc::no_panic(|| {
            block_on(async {
                let known = CheckpointFallback::new().build().await?;
                anyhow::ensure!(known.get_fallback_services(&Network::Mainnet) == &services, "other services were read from the list");
                known.fetch_latest_checkpoint(&Network::Mainnet).await
            })
        })?;
        let counted: Vec<Answer> = (0..n).filter(|i| *i != unhealthy).map(|i| answers[i]).collect();
        let want = most_common(&counted);
        ch.eval();
        match got {
            Ok(root) => check!(want.contains(&root[0]) && root == B256::repeat_byte(root[0]), "{root} is taken, the services answered {counted:?}"),
            Err(e) => check!(want.is_empty(), "no checkpoint ({e}) although the services answered {counted:?}"),
        }
        let mut asked = asked.borrow().clone();
        asked.sort();
        let mut expected: Vec<String> = (0..n).filter(|i| *i != unhealthy).map(url).collect();
        expected.push(CHECKPOINT_SYNC_SERVICES_LIST.to_owned());
        expected.sort();
        check_eq!(asked, expected, "requests");
        ch.outcome(&(want, unhealthy));
        reqwest::fake::clear();
        Ok(())
    });
    ctx.explore("one service", |ch| {
        let answer = *ch.choose(&ALL);
        let slashes = ch.pick(3);
        ch.note(|| format!("{answer:?}, {slashes} slashes behind the address"));
        let asked = serve(vec![(url(0), answer.body())]);
        let address = format!("https://service0.example{}", "/".repeat(slashes));
        let got = vc::no_panic(|| block_on(CheckpointFallback::fetch_checkpoint_from_api(&address)))?;
        ch.eval();
        let want = match answer {
            Answer::Slot(_, r) | Answer::First(_, r) => Some(B256::repeat_byte(r)),
            _ => None,
        };
        match (got, answer) {
            // The first slot has no root: a later one may be taken.
            (Ok(root), Answer::Later(_, r)) => check_eq!(root, B256::repeat_byte(r), "checkpoint of a later slot"),
            (got, _) => check_eq!(got.as_ref().ok().copied(), want, "checkpoint out of {answer:?} ({got:?})"),
        }
        check_eq!(*asked.borrow(), vec![url(0)], "requests");
        ch.outcome(&format!("{answer:?}"));
        reqwest::fake::clear();
        Ok(())
    });
    ctx.explore("lists of services", |ch| {
        let (body, good) = match ch.pick(6) {
            0 => (None, false),
            1 => (Some((200, b"{".to_vec())), false),
            2 => (Some((200, br#"{"sepolia": []}"#.to_vec())), false),
            3 => (Some((200, br#"{"mainnet": [{"endpoint": "x"}]}"#.to_vec())), false),
            4 => (Some((200, br#"{"mainnet": []}"#.to_vec())), true),
            _ => (Some((200, list(&[service(0, true, 0), service(1, false, 1)]).into_bytes())), true),
        };
        let _asked = serve(vec![(CHECKPOINT_SYNC_SERVICES_LIST.to_owned(), body.clone())]);
        ch.note(|| format!("list {:?}", body.as_ref().map(|b| String::from_utf8_lossy(&b.1).into_owned())));
        let got = vc::no_panic(|| block_on(CheckpointFallback::new().build()))?;
        check_eq!(got.is_ok(), good, "whether the list is read");
        if let Ok(known) = got {
            let all = known.get_all_fallback_endpoints(&Network::Mainnet);
            let healthy = known.get_healthy_fallback_endpoints(&Network::Mainnet);
            check!(all.len() == 0 || (all.len() == 2 && healthy == all[..1]), "endpoints {all:?}, healthy {healthy:?}");
        }
        ch.outcome(&good);
        reqwest::fake::clear();
        Ok(())
    });
}

// ---- the client ---------------------------------------------------------------------------------

#[derive(Default)]
struct World {
    bootstraps: Vec<(B256, LightClientBootstrapElectra)>,
    finality: Option<LightClientFinalityUpdateElectra>,
    optimistic: Option<LightClientOptimisticUpdateElectra>,
    chain: u64,
    asked: Vec<B256>,
    addresses: Vec<String>,
}

thread_local! {
    static WORLD: Arc<Mutex<World>> = Arc::default();
}

fn world() -> Arc<Mutex<World>> {
    WORLD.with(|w| w.clone())
}

#[derive(Clone)]
struct Wired(Arc<Mutex<World>>);

#[async_trait::async_trait]
impl ConsensusRpc for Wired {
    fn new(address: &str) -> Self {
        world().lock().unwrap().addresses.push(address.to_owned());
        Wired(world())
    }
    async fn get_bootstrap(&self, root: B256) -> Result<LightClientBootstrapElectra> {
        let mut w = self.0.lock().unwrap();
        w.asked.push(root);
        w.bootstraps.iter().find(|b| b.0 == root).map(|b| b.1.clone()).ok_or(anyhow!("no bootstrap"))
    }
    async fn get_updates(&self, _: u64, _: u8) -> Result<Vec<LightClientUpdateElectra>> {
        Ok(vec![])
    }
    async fn get_finality_update(&self) -> Result<LightClientFinalityUpdateElectra> {
        self.0.lock().unwrap().finality.clone().ok_or(anyhow!("no finality update"))
    }
    async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdateElectra> {
        self.0.lock().unwrap().optimistic.clone().ok_or(anyhow!("no optimistic update"))
    }
    async fn chain_id(&self) -> Result<u64> {
        Ok(self.0.lock().unwrap().chain)
    }
    fn name(&self) -> String {
        "wired".to_owned()
    }
}

/// The served chain: a block that is too old as a checkpoint, two that are not, and updates.
struct Served {
    old: beacon::Bootstrap,
    fresh: beacon::Bootstrap,
    other: beacon::Bootstrap,
    typed: Vec<(B256, LightClientBootstrapElectra)>,
    finality: LightClientFinalityUpdateElectra,
    optimistic: LightClientOptimisticUpdateElectra,
    finalized: B256,
}

const HEAD: u64 = P + 119;
const AGE_SLOTS: u64 = 60;

fn served() -> &'static Served {
    static MADE: OnceLock<Served> = OnceLock::new();
    MADE.get_or_init(|| {
        let (old, fresh, other) = (bootstrap(P + 32, 70), bootstrap(P + 88, 71), bootstrap(P + 80, 72));
        let typed = [&old, &fresh, &other].map(|b| (B256::from(b.header.root()), decode_bootstrap(b))).to_vec();
        let u = Update::honest(P + 118, P + 96, P + 119, 400, 1);
        let finality = LightClientFinalityUpdateElectra::from_ssz_bytes(&u.wire(3).finality()[4..]).expect("finality update");
        let o = Update::honest(HEAD, P + 64, HEAD + 1, 512, 1);
        let optimistic = LightClientOptimisticUpdateElectra::from_ssz_bytes(&o.wire(3).optimistic()[4..]).expect("optimistic update");
        let finalized = B256::from(u.finalized.as_ref().expect("finalized header").0.root());
        Served { old, fresh, other, typed, finality, optimistic, finalized }
    })
}

fn root(b: &beacon::Bootstrap) -> B256 {
    B256::from(b.header.root())
}

/// Service answers naming the root.
fn naming(root: B256) -> Option<(u16, Vec<u8>)> {
    let time = json!({"start_time": "", "end_time": ""});
    Some((
        200,
        serde_json::to_vec(&json!({"data": {"slots": [{"slot": "1", "block_root": root, "state_root": null, "epoch": "1", "time": time}]}})).expect("JSON"),
    ))
}

fn settings(strict: bool) -> Config {
    let base = networks::mainnet();
    Config {
        consensus_rpc: "http://configured.example".to_owned(),
        default_checkpoint: root(&served().other),
        chain: base.chain,
        forks: base.forks,
        max_checkpoint_age: AGE_SLOTS * 12,
        strict_checkpoint_age: strict,
        ..Config::default()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Service {
    Unset,
    Silent,
    Fresh,
    Old,
    Unknown,
}

fn offered(s: Service) -> Option<B256> {
    match s {
        Service::Unset | Service::Silent => None,
        Service::Fresh => Some(root(&served().fresh)),
        Service::Old => Some(root(&served().old)),
        Service::Unknown => Some(B256::repeat_byte(0x99)),
    }
}

pub fn l05(ctx: &Ctx) {
    use Service::*;
    ctx.explore("checkpoints of a first start", |ch| {
        let s = served();
        let names = [None, Some(root(&s.old)), Some(root(&s.fresh)), Some(B256::repeat_byte(0x33))];
        let explicit = *ch.choose(&names);
        let configured = *ch.choose(&names);
        // Nothing stored, a checkpoint, or something that is none.
        let stored: Option<Vec<u8>> = match ch.pick(6) {
            0 => None,
            1 => Some(root(&s.fresh).to_vec()),
            2 => Some(root(&s.old).to_vec()),
            n => Some(root(&s.fresh).repeat(2)[..[0, 31, 33][n - 3]].to_vec()),
        };
        let with_rpc = ch.flag();
        let strict = ch.flag();
        ch.note(|| format!("explicit {explicit:?}, configured {configured:?}, stored {stored:?}, strict {strict}, own provider {with_rpc}"));
        let scratch = tempfile::tempdir().map_err(|e| e.to_string())?;
        let dir = scratch.path().join("light").join("client");
        if let Some(bytes) = &stored {
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            std::fs::write(dir.join("checkpoint"), bytes).map_err(|e| e.to_string())?;
        }
        let first = explicit.or(configured).unwrap_or(match &stored {
            Some(b) if b.len() == 32 => B256::from_slice(b),
            _ => root(&s.other),
        });
        let known = s.typed.iter().any(|t| t.0 == first);
        let want = known && !(strict && first == root(&s.old));
        prepare(1, true);
        let asked_http = serve(vec![]);
        let mut config = settings(strict);
        config.checkpoint = configured;
        config.data_dir = Some(dir.clone());
        let mut builder = ClientBuilder::new().config(config);
        if let Some(c) = explicit {
            builder = builder.checkpoint(c);
        }
        clock_at(HEAD + 1);
        let got = vc::no_panic(|| {
            block_on(async {
                let mut client: Client<FileDB, Wired> = if with_rpc { builder.build_with_rpc(Wired(world()))? } else { builder.build()? };
                client.start().await?;
                client.shutdown().await;
                Ok::<_, anyhow::Error>(client)
            })
        });
        vc::clock::stop();
        let got = got?;
        ch.eval();
        check_eq!(got.is_ok(), want, "whether the client starts from {first} ({:?})", got.as_ref().err().map(|e| e.to_string()));
        check_eq!(asked_of_provider(), vec![first], "checkpoints asked for");
        check!(asked_http.borrow().is_empty(), "requests to {:?} without a fallback", asked_http.borrow());
        let after = std::fs::read(dir.join("checkpoint")).ok();
        if want {
            check_eq!(after, Some(s.finalized.to_vec()), "stored checkpoint after a shutdown");
            // The next start takes it up.
            world().lock().unwrap().asked.clear();
            let mut config = settings(strict);
            config.data_dir = Some(dir.clone());
            clock_at(HEAD + 1);
            let _ = block_on(async {
                let mut client: Client<FileDB, Wired> = ClientBuilder::new().config(config).build()?;
                client.start().await
            });
            vc::clock::stop();
            check_eq!(asked_of_provider(), vec![s.finalized], "checkpoints asked for by the next start");
        } else {
            check_eq!(after, stored, "stored checkpoint after a failed start");
        }
        ch.outcome(&(first, strict, want));
        reqwest::fake::clear();
        Ok(())
    });
    ctx.explore("fallbacks", |ch| {
        let s = served();
        let first = *ch.choose(&[root(&s.fresh), root(&s.old), B256::repeat_byte(0x33)]);
        let strict = ch.pick(3);
        let own = *ch.choose(&[Unset, Silent, Fresh, Old, Unknown]);
        let own_by_config = ch.flag();
        let external = ch.pick(3);
        let listed = *ch.choose(&[Silent, Fresh, Old, Unknown]);
        let chain = *ch.choose(&[1u64, 5]);
        let finality = ch.flag();
        ch.note(|| format!("start from {first}, strict {strict}, fallback {own:?}, external {external} naming {listed:?}, chain {chain}, finality {finality}"));
        prepare(chain, finality);
        let service_url = "https://own.example/checkpointz/v1/beacon/slots".to_owned();
        let http = serve(vec![
            (service_url.clone(), offered(own).and_then(naming)),
            (CHECKPOINT_SYNC_SERVICES_LIST.to_owned(), Some((200, list(&[service(0, true, 0)]).into_bytes()))),
            (url(0), offered(listed).and_then(naming)),
        ]);
        let mut config = settings(strict == 1);
        config.checkpoint = Some(first);
        config.load_external_fallback = external == 1;
        let mut builder = ClientBuilder::new().consensus_rpc("http://chosen.example");
        if strict == 2 {
            builder = builder.strict_checkpoint_age();
        }
        if external == 2 {
            builder = builder.load_external_fallback();
        }
        if own != Unset {
            if own_by_config {
                config.fallback = Some("https://own.example".to_owned());
            } else {
                builder = builder.fallback("https://own.example");
            }
        }
        let builder = builder.config(config);
        clock_at(HEAD + 1);
        let got = vc::no_panic(|| {
            block_on(async {
                let mut client: Client<ConfigDB, Wired> = builder.build()?;
                client.start().await?;
                Ok::<_, anyhow::Error>(client)
            })
        });
        // What has to happen: checkpoints asked for, requests, the block started from.
        let old = root(&s.old);
        let (mut asked, mut requests, mut from) = (vec![], vec![], None);
        if chain == 1 {
            asked.push(first);
            let works = |c: B256| s.typed.iter().any(|t| t.0 == c) && !(strict > 0 && c == old);
            if works(first) {
                from = Some(first);
            } else if first == old {
                if own != Unset {
                    requests.push(service_url);
                    if let Some(c) = offered(own) {
                        asked.push(c);
                        from = works(c).then_some(c);
                    }
                }
                if from.is_none() && external > 0 {
                    requests.push(CHECKPOINT_SYNC_SERVICES_LIST.to_owned());
                    requests.push(url(0));
                    if let Some(c) = offered(listed) {
                        asked.push(c);
                        from = works(c).then_some(c);
                    }
                }
            }
        }
        ch.eval();
        let seen = got.as_ref().ok().map(|g| match g {
            Ok(client) => Some((block_on(client.get_finalized_header()), block_on(client.get_header()))),
            Err(_) => None,
        });
        vc::clock::stop();
        let got = got?;
        check_eq!(got.is_ok(), from.is_some(), "whether the client starts ({:?})", got.as_ref().err().map(|e| e.to_string()));
        check_eq!(asked_of_provider(), asked, "checkpoints asked for");
        check_eq!(*http.borrow(), requests, "requests");
        check!(world().lock().unwrap().addresses.iter().all(|a| a == "http://chosen.example"), "the provider is built with another address");
        if let (Some(Some((finalized, head))), Some(from)) = (seen, from) {
            let at = [&s.old, &s.fresh, &s.other].into_iter().find(|b| root(b) == from).map_or(0, |b| b.header.slot);
            let want = if finality { P + 96 } else { at };
            match (finalized, head) {
                (Ok(f), Ok(h)) => check_eq!((f.slot, h.slot), (want, HEAD), "finalized slot and head after the start"),
                (f, h) => fail!("no headers after the start: {f:?}, {h:?}"),
            }
        }
        ch.outcome(&(asked.len(), from));
        reqwest::fake::clear();
        Ok(())
    });
    ctx.explore("age of the head", |ch| {
        let s = served();
        let behind = ch.pick(14) as u64 + 1;
        ch.note(|| format!("head {behind} slots behind the clock"));
        prepare(1, true);
        let mut config = settings(false);
        config.checkpoint = Some(root(&s.fresh));
        clock_at(HEAD + behind);
        let (head, chain) = block_on(async {
            let mut client: Client<ConfigDB, Wired> = ClientBuilder::new().config(config).build().map_err(|e| e.to_string())?;
            client.start().await.map_err(|e| format!("the client does not start: {e}"))?;
            Ok::<_, String>((client.get_header().await, client.chain_id().await))
        })?;
        vc::clock::stop();
        ch.eval();
        check_eq!(head.is_ok(), behind <= 10, "whether a head {behind} slots behind is given out");
        check_eq!(chain, 1u64, "chain id");
        ch.outcome(&head.is_ok());
        Ok(())
    });
    ctx.explore("checkpoint file", |ch| {
        let steps = ctx.b(3, 4);
        let scratch = tempfile::tempdir().map_err(|e| e.to_string())?;
        let dir = scratch.path().join("data");
        let mut config = settings(false);
        config.data_dir = Some(dir.clone());
        let db = FileDB::new(&config).map_err(|e| e.to_string())?;
        let mut want = config.default_checkpoint;
        for _ in 0..steps {
            match ch.pick(3) {
                0 => {
                    let c = B256::repeat_byte(ch.pick(2) as u8 + 1);
                    ch.note(|| format!("save {c}"));
                    db.save_checkpoint(c).map_err(|e| format!("not saved: {e}"))?;
                    want = c;
                }
                1 => {
                    // A write cut short, or a file of another make.
                    let len = *ch.choose(&[0usize, 1, 31, 33, 64]);
                    ch.note(|| format!("the file has {len} bytes"));
                    std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(dir.join("checkpoint"), vec![7; len])).map_err(|e| e.to_string())?;
                    want = config.default_checkpoint;
                }
                _ => {
                    ch.note(|| "the directory is lost".to_owned());
                    let _ = std::fs::remove_dir_all(&dir);
                    want = config.default_checkpoint;
                }
            }
            ch.steps(1);
            let again = FileDB::new(&config).map_err(|e| e.to_string())?;
            for db in [&db, &again] {
                let got = db.load_checkpoint().map_err(|e| format!("not loaded: {e}"))?;
                check_eq!(got, want, "loaded checkpoint");
            }
        }
        ch.outcome(&want);
        check!(FileDB::new(&settings(false)).is_err(), "a file store without a directory is accepted");
        Ok(())
    });
}

fn prepare(chain: u64, finality: bool) {
    let s = served();
    *world().lock().unwrap() = World {
        bootstraps: s.typed.clone(),
        finality: finality.then(|| s.finality.clone()),
        optimistic: Some(s.optimistic.clone()),
        chain,
        ..World::default()
    };
}

fn asked_of_provider() -> Vec<B256> {
    world().lock().unwrap().asked.clone()
}
