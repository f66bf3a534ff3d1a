//! The client of consensus providers.

use std::{sync::OnceLock, time::Duration};

use alloy::{primitives::B256, rpc::types::beacon::events::BeaconNodeEventTopic};
use ethereum_rpc_client::consensus::{event::BeaconEvent, ConsensusApi};
use ethportal_api::light_client::{
    bootstrap::LightClientBootstrapElectra, finality_update::LightClientFinalityUpdateElectra,
    optimistic_update::LightClientOptimisticUpdateElectra, update::LightClientUpdateElectra,
};
use eventsource_client::{ConnectionDetails, Event, SSE};
use futures::StreamExt;
use reqwest::fake::Reply;
use serde::Serialize;
use spec::{
    beacon::{Bootstrap, Header, Update, ELECTRA},
    chain::{Block, State},
    hash, short,
};
use ssz::{Decode, Encode};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

use crate::{address, answers, hex, reply, run, Asked, ID, SECRET};

const JSON: &str = "application/json";
const SSZ: &str = "application/octet-stream";

/// What is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ask {
    StateRoot,
    Bootstrap,
    /// By name, slot and root.
    BlockRoot(usize),
    Updates,
    Optimistic,
    Finality,
    Version,
    State,
    Block(usize),
}
use Ask::*;
const ASKS: [Ask; 13] = [
    StateRoot,
    Bootstrap,
    BlockRoot(0),
    BlockRoot(1),
    BlockRoot(2),
    Updates,
    Optimistic,
    Finality,
    Version,
    State,
    Block(0),
    Block(1),
    Block(2),
];

fn name(k: usize) -> String {
    ["finalized".to_string(), "12345".into(), hex(&hash(5))][k].clone()
}

impl Ask {
    fn path(self) -> String {
        match self {
            StateRoot => "/eth/v1/beacon/states/finalized/root".into(),
            Bootstrap => format!("/eth/v1/beacon/light_client/bootstrap/{}", hex(&hash(6))),
            BlockRoot(k) => format!("/eth/v1/beacon/blocks/{}/root", name(k)),
            Updates => "/eth/v1/beacon/light_client/updates?start_period=1400&count=3".into(),
            Optimistic => "/eth/v1/beacon/light_client/optimistic_update".into(),
            Finality => "/eth/v1/beacon/light_client/finality_update".into(),
            Version => "/eth/v1/node/version".into(),
            State => "/eth/v2/debug/beacon/states/head".into(),
            Block(k) => format!("/eth/v2/beacon/blocks/{}", name(k)),
        }
    }
    /// The value the given provider has, encoded.
    fn value(self, provider: u8) -> &'static [u8] {
        static ALL: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
        let make = |ask: Ask, n: u8| {
            let plain = |b: Vec<u8>| b[4..].to_vec();
            let u = Update::at(ELECTRA, Header::at(9000 + n as u64, n), Header::at(8900, n ^ 1), 9001 + n as u64);
            match ask {
                StateRoot | BlockRoot(_) => hash(n).to_vec(),
                Bootstrap => plain(spec::beacon::Bootstrap::at(ELECTRA, Header::at(9000, n)).encode()),
                Updates => plain(u.encode()),
                Optimistic => plain(u.optimistic()),
                Finality => plain(u.finality()),
                Version => format!("Name/v{n}").into_bytes(),
                State => state(9000 + n as u64),
                Block(_) => block(9000 + n as u64),
            }
        };
        let all = ALL.get_or_init(|| ASKS.iter().flat_map(|a| [make(*a, 1), make(*a, 2)]).collect());
        let k = ASKS.iter().position(|a| *a == self).expect("listed");
        &all[2 * k + provider as usize - 1]
    }
    fn json(self, provider: u8) -> Option<String> {
        fn of<T: Decode + Serialize>(b: &[u8]) -> String {
            serde_json::to_string(&T::from_ssz_bytes(b).expect("a value")).expect("a text")
        }
        let b = self.value(provider);
        let data = match self {
            StateRoot | BlockRoot(_) => format!("{{\"root\":\"{}\"}}", hex(b)),
            Bootstrap => of::<LightClientBootstrapElectra>(b),
            Optimistic => of::<LightClientOptimisticUpdateElectra>(b),
            Finality => of::<LightClientFinalityUpdateElectra>(b),
            Version => format!("{{\"version\":\"{}\"}}", std::str::from_utf8(b).expect("a text")),
            Updates => {
                let one = format!("{{\"version\":\"electra\",\"data\":{}}}", of::<LightClientUpdateElectra>(b));
                return Some(format!("[{one},{one}]"));
            }
            State | Block(_) => return None,
        };
        Some(format!("{{\"version\":\"electra\",\"execution_optimistic\":false,\"data\":{data}}}"))
    }
    async fn call(self, api: &ConsensusApi) -> Result<Vec<u8>, String> {
        let e = |e| format!("{e}");
        Ok(match self {
            StateRoot => api.get_beacon_state_finalized_root().await.map_err(e)?.root.to_vec(),
            Bootstrap => api.get_light_client_bootstrap(B256::from(hash(6))).await.map_err(e)?.as_ssz_bytes(),
            BlockRoot(k) => api.get_beacon_block_root(name(k)).await.map_err(e)?.root.to_vec(),
            Updates => {
                let l = api.get_light_client_updates(1400, 3).await.map_err(e)?;
                let l: Vec<Vec<u8>> = l.iter().map(|u| u.as_ssz_bytes()).collect();
                check!(l.len() == 2 && l[0] == l[1], "{} updates instead of two", l.len());
                l[0].clone()
            }
            Optimistic => api.get_light_client_optimistic_update().await.map_err(e)?.as_ssz_bytes(),
            Finality => api.get_light_client_finality_update().await.map_err(e)?.as_ssz_bytes(),
            Version => api.get_node_version().await.map_err(e)?.version.into_bytes(),
            State => api.get_beacon_state("head").await.map_err(e)?.as_ssz_bytes(),
            Block(k) => api.get_beacon_block(name(k)).await.map_err(e)?.as_ssz_bytes(),
        })
    }
}

fn state(slot: u64) -> Vec<u8> {
    let mut s = spec::chain::State::new(ELECTRA, slot);
    s.summaries = vec![(hash(1), hash(2))];
    s.object().encode()
}
fn block(slot: u64) -> Vec<u8> {
    let mut b = spec::chain::Block::new(ELECTRA, slot, 22_000_000, slot as u8);
    b.seal();
    b.signed()
}

/// How a provider answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Ssz,
    Json,
    Nothing,
    NoType,
    Html,
    Text,
    JsonError,
    JsonBroken,
    JsonOther,
    SszShort,
    SszLong,
    /// A list with something else in it.
    JsonPart,
    Late,
    /// As late as just allowed.
    Slow,
}
const HOWS: [How; 14] = [
    How::Ssz,
    How::Json,
    How::Nothing,
    How::NoType,
    How::Html,
    How::Text,
    How::JsonError,
    How::JsonBroken,
    How::JsonOther,
    How::SszShort,
    How::SszLong,
    How::JsonPart,
    How::Late,
    How::Slow,
];

impl How {
    fn reply(self, ask: Ask, provider: u8) -> Option<Reply> {
        let v = || ask.value(provider).to_vec();
        let text = |s: &str| s.as_bytes().to_vec();
        match self {
            How::Ssz => reply(200, Some(SSZ), v()),
            How::Json => reply(200, Some(JSON), ask.json(provider)?.into_bytes()),
            How::Nothing => None,
            How::NoType => reply(200, None, v()),
            How::Html => reply(502, Some("text/html"), text("<html>bad gateway</html>")),
            How::Text => reply(200, Some("text/plain"), ask.json(provider)?.into_bytes()),
            How::JsonError => reply(404, Some(JSON), text("{\"code\":404,\"message\":\"not found\"}")),
            How::JsonBroken => reply(200, Some(JSON), text("{\"data\":")),
            How::JsonOther => reply(200, Some(JSON), text("{\"version\":\"electra\",\"data\":{\"other\":1}}")),
            How::SszShort => reply(200, Some(SSZ), v()[..ask.value(provider).len() / 2].to_vec()),
            How::SszLong => reply(200, Some(SSZ), [v(), vec![0xfe; 7]].concat()),
            How::JsonPart => {
                let l = ask.json(provider)?;
                reply(200, Some(JSON), [&l[..l.len() - 1], ",{\"code\":404}]"].concat().into_bytes())
            }
            How::Late | How::Slow => {
                let how = if ask == Updates { How::Json } else { How::Ssz };
                let mut r = how.reply(ask, provider)?;
                let limit = if matches!(ask, State | Block(_)) { 60_000 } else { 5000 };
                r.after = Duration::from_millis(if self == How::Late { limit + 1 } else { limit - 1 });
                Some(r)
            }
        }
    }
    fn good(self, ask: Ask) -> bool {
        match self {
            How::Ssz => ask != Updates,
            How::Json => ask.json(1).is_some(),
            How::Slow => true,
            _ => false,
        }
    }
    /// Whether this is an answer of its own to the request.
    fn applies(self, ask: Ask) -> bool {
        match self {
            How::Json | How::Text => ask.json(1).is_some(),
            // Any text is a version.
            How::JsonPart => ask == Updates,
            How::SszShort => ask != Version,
            // Elsewhere more bytes are a longer last field.
            How::SszLong => matches!(ask, StateRoot | BlockRoot(_)),
            _ => true,
        }
    }
}

async fn client(first: &str, second: &str) -> Result<ConsensusApi, String> {
    ConsensusApi::new(address(first), address(second), 5).await.map_err(|e| format!("no client: {e}"))
}

fn fallback(ch: &mut Ch) -> Res {
    let ask = *ch.choose(&ASKS);
    let hows: Vec<How> = HOWS.into_iter().filter(|h| h.applies(ask)).collect();
    let a = *ch.choose(&hows);
    let b = *ch.choose(&hows);
    let up = ch.flag();
    ch.steps(2);
    ch.note(|| format!("{ask:?}: {a:?}, then {b:?}; providers up at the start: {up}"));
    ch.state(&(ask, a, b));
    let want = if a.good(ask) {
        Some(1)
    } else if b.good(ask) {
        Some(2)
    } else {
        None
    };
    ch.outcome(&want);
    run(move || async move {
        let log = answers(move |_| if up { reply(200, Some(JSON), b"{\"data\":{\"version\":\"x\"}}".to_vec()) } else { None });
        let api = client("one.test", "two.test").await?;
        drop(log);
        let path = ask.path();
        let log = answers(move |a_| match a_.url.strip_prefix("http://") {
            Some(u) if u.strip_prefix("one.test") == Some(&path) => a.reply(ask, 1),
            Some(u) if u.strip_prefix("two.test") == Some(&path) => b.reply(ask, 2),
            _ => None,
        });
        let got = ask.call(&api).await;
        match (&got, want) {
            (Ok(v), Some(k)) => check!(v == ask.value(k), "got {} instead of {}", short(v), short(ask.value(k))),
            (Err(_), None) => {}
            (Ok(v), None) => fail!("got {}, though no provider has it", short(v)),
            (Err(e), Some(k)) => fail!("failed, though provider {k} has it: {e}"),
        }
        let urls: Vec<String> = log.borrow().iter().map(|a| a.url.clone()).collect();
        let mut all = vec![format!("http://one.test{}", ask.path())];
        if !a.good(ask) {
            all.push(format!("http://two.test{}", ask.path()));
        }
        check_eq!(urls, all, "requests made");
        for r in log.borrow().iter() {
            check!(r.accept.contains(JSON), "asks for {:?}", r.accept);
            check_eq!(r.accept.contains(SSZ), ask != Updates, "asks for {:?}", r.accept);
        }
        Ok(())
    })
}

/// What is found at a slot.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum At {
    Here,
    OnSecond,
    Skipped,
    Earlier,
    Later,
}

const EDGES: [u64; 8] = [0, 1, 8191, 8192, 8193, 16383, 12_298_240 - 1, 12_298_240];

fn walk(ch: &mut Ch, edges: &[u64]) -> Res {
    // Blocks from a slot on, blocks from the start of the finalized period on, states.
    let kind = ch.pick(3);
    let slot = *ch.choose(edges);
    let kinds: &[At] = match kind {
        2 => &[At::Here, At::OnSecond, At::Skipped, At::Earlier, At::Later],
        _ => &[At::Here, At::OnSecond, At::Skipped],
    };
    let mut plan = vec![];
    while plan.len() < 6 {
        plan.push(*ch.choose(kinds));
        if !matches!(plan[plan.len() - 1], At::Skipped | At::Earlier) {
            break;
        }
    }
    // Found only by those that go on.
    plan.push(At::Here);
    ch.steps(plan.len() as u64);
    ch.note(|| format!("kind {kind} from {slot}: {plan:?}"));
    ch.state(&(kind, slot, plan.clone()));
    let first = match kind {
        0 => slot,
        1 => slot / 8192 * 8192,
        _ => (slot / 8192 + 1) * 8192,
    };
    let end = plan.iter().position(|a| !matches!(a, At::Skipped | At::Earlier)).expect("an end");
    let found = end <= 5 && plan[end] != At::Later;
    ch.outcome(&(kind, end, found));
    run(move || async move {
        let _log = answers(|_| None);
        let api = client("one.test", "two.test").await?;
        let script = plan.clone();
        let log = answers(move |a| {
            let (one, path) = match a.url.strip_prefix("http://one.test") {
                Some(p) => (true, p),
                None => (false, a.url.strip_prefix("http://two.test")?),
            };
            if path == "/eth/v2/beacon/blocks/finalized" {
                return reply(200, Some(SSZ), block(slot));
            }
            let prefix = if kind == 2 { "/eth/v2/debug/beacon/states/" } else { "/eth/v2/beacon/blocks/" };
            let at: u64 = path.strip_prefix(prefix)?.parse().ok()?;
            let make = |s: u64| if kind == 2 { state(s) } else { block(s) };
            let body = match script.get(at.checked_sub(first)? as usize)? {
                At::Here => make(at),
                At::OnSecond if !one => make(at),
                At::Earlier => make(at - 1),
                At::Later => make(at + 1),
                _ => return reply(404, Some(JSON), b"{\"code\":404}".to_vec()),
            };
            reply(200, Some(SSZ), body)
        });
        let e = |e| format!("{e}");
        let got = match kind {
            0 => api.find_first_beacon_block(slot).await.map(|b| b.message.slot).map_err(e),
            1 => api.first_block_in_latest_finalized_period().await.map(|b| b.slot).map_err(e),
            _ => api.get_state_for_start_of_next_period(slot).await.map(|b| b.slot).map_err(e),
        };
        match got {
            Ok(s) => check!(found && s == first + end as u64, "found slot {s}"),
            Err(e) => check!(!found, "not found: {e}"),
        }
        let n = log.borrow().len();
        check!(n <= 13, "{n} requests");
        Ok(())
    })
}

const TOPICS: [(BeaconNodeEventTopic, &str); 4] = [
    (BeaconNodeEventTopic::Head, "head"),
    (BeaconNodeEventTopic::ChainReorg, "chain_reorg"),
    (BeaconNodeEventTopic::LightClientOptimisticUpdate, "light_client_optimistic_update"),
    (BeaconNodeEventTopic::FinalizedCheckpoint, "finalized_checkpoint"),
];

fn event(k: usize, n: u64) -> String {
    let h = |s: u8| format!("\"{}\"", hex(&hash(s ^ n as u8)));
    match k {
        0 => format!("{{\"slot\":\"{n}\",\"block\":{},\"state\":{},\"epoch_transition\":true,\"previous_duty_dependent_root\":{},\"current_duty_dependent_root\":{},\"execution_optimistic\":false}}", h(1), h(2), h(3), h(4)),
        1 => format!("{{\"slot\":\"{n}\",\"depth\":\"2\",\"old_head_block\":{},\"new_head_block\":{},\"old_head_state\":{},\"new_head_state\":{},\"epoch\":\"7\",\"execution_optimistic\":false}}", h(1), h(2), h(3), h(4)),
        2 => format!("{{\"version\":\"electra\",\"data\":{{\"attested_header\":{{\"beacon\":{{\"slot\":\"{n}\",\"proposer_index\":\"9\",\"parent_root\":{},\"state_root\":{},\"body_root\":{}}}}},\"signature_slot\":\"{n}\",\"sync_aggregate\":{{}}}}}}", h(1), h(2), h(3)),
        _ => format!("{{\"block\":{},\"state\":{},\"epoch\":\"{n}\",\"execution_optimistic\":false}}", h(1), h(2)),
    }
}

fn shown(e: &BeaconEvent) -> (usize, u64, Vec<[u8; 32]>) {
    match e {
        BeaconEvent::Head(e) => (0, e.slot, vec![e.block.0, e.state.0]),
        BeaconEvent::ChainReorg(e) => (1, e.slot, vec![e.old_head_block.0, e.new_head_block.0]),
        BeaconEvent::LightClientOptimisticUpdate(e) => {
            let b = &e.data.attested_header.beacon;
            (2, b.slot, vec![b.parent_root.0, b.state_root.0])
        }
        BeaconEvent::FinalizedCheckpoint(e) => (3, e.epoch, vec![e.block.0, e.state.0]),
    }
}

fn events(ch: &mut Ch, most: usize) -> Res {
    let mask = ch.pick(15) + 1;
    let n = ch.pick(most + 1);
    let items: Vec<usize> = (0..n).map(|_| ch.pick(10)).collect();
    ch.steps(n as u64);
    ch.note(|| format!("topics {mask:b}, {items:?}"));
    ch.state(&items);
    run(move || async move {
        let _log = answers(|_| None);
        let api = client("one.test", "two.test").await?;
        let source = eventsource_client::fake::source();
        let topics: Vec<BeaconNodeEventTopic> =
            (0..4).filter(|k| mask >> k & 1 == 1).map(|k| TOPICS[k].0).collect();
        let stream = api.get_events_stream(&topics, "test").map_err(|e| e.to_string())?;
        let asked = eventsource_client::fake::asked();
        let names: Vec<&str> = (0..4).filter(|k| mask >> k & 1 == 1).map(|k| TOPICS[k].1).collect();
        check_eq!(asked.len(), 1, "streams opened");
        check_eq!(asked[0].0, format!("http://one.test/eth/v1/events?topics={}", names.join(",")), "address");
        let mut want = vec![];
        for (n, k) in items.iter().enumerate() {
            let n = n as u64 + 100;
            let sse = |kind: &str, data: String| Ok(SSE::Event(Event { event_type: kind.into(), data, id: None, retry: None }));
            let item = match k {
                0..=3 => {
                    want.push((*k, n, vec![hash(1 ^ n as u8), hash(2 ^ n as u8)]));
                    sse(TOPICS[*k].1, event(*k, n))
                }
                4 => sse("block", format!("{{\"slot\":\"{n}\",\"block\":\"0x00\"}}")),
                5 => sse("head", event(3, n)),
                6 => sse("finalized_checkpoint", "nothing".into()),
                7 => Ok(SSE::Connected(ConnectionDetails)),
                8 => Ok(SSE::Comment("hello".into())),
                _ => Err(eventsource_client::Error("broken".into())),
            };
            source.unbounded_send(item).map_err(|_| "the stream is gone")?;
        }
        drop(source);
        let got: Vec<_> = stream.collect::<Vec<_>>().await.iter().map(shown).collect();
        check_eq!(got, want, "events");
        Ok(())
    })
}

const HOSTS: [(&str, bool); 4] =
    [("one.test", false), ("nimbus.mainnet.eu1.ethpandaops.io", true), ("pandaops.io", true), ("pandaops.test", false)];

/// Credentials go to the hosts that need them, and to no other.
pub fn credentials(asked: &[Asked], hosts: &[(&str, bool)]) -> Res {
    for a in asked {
        let Some((_, needs)) = hosts.iter().find(|h| a.url.starts_with(&format!("http://{}/", h.0))) else {
            fail!("a request to {}", a.url)
        };
        let got = (a.id.as_deref(), a.secret.as_deref());
        check_eq!(got, if *needs { (Some(ID), Some(SECRET)) } else { (None, None) }, "credentials for {}", a.url);
    }
    Ok(())
}

pub fn r01(ctx: &Ctx) {
    let quick = ctx.b(0, 1) == 0;
    ctx.explore("answers", fallback);
    ctx.explore("skipped slots", |ch| walk(ch, if quick { &EDGES[2..5] } else { &EDGES }));
    ctx.explore("events", |ch| events(ch, ctx.b(3, 4)));
    ctx.explore("credentials", |ch| {
        let first = *ch.choose(&HOSTS);
        let second = *ch.choose(&HOSTS);
        let ask = *ch.choose(&[StateRoot, Updates]);
        ch.note(|| format!("{} and {}, {ask:?}", first.0, second.0));
        ch.outcome(&(first.1, second.1));
        run(move || async move {
            let log = answers(|_| None);
            let api = client(first.0, second.0).await?;
            let _ = ask.call(&api).await;
            let _ = api.get_events_stream(&[BeaconNodeEventTopic::Head], "test").map_err(|e| e.to_string())?;
            check_eq!(log.borrow().len(), 4, "requests");
            credentials(&log.borrow(), &[first, second])?;
            let asked = eventsource_client::fake::asked();
            let got: Vec<(String, String)> = asked[0].1.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
            let of = |k: &str| got.iter().find(|h| h.0 == k).map(|h| h.1.as_str());
            let got = (of("cf-access-client-id"), of("cf-access-client-secret"));
            check_eq!(got, if first.1 { (Some(ID), Some(SECRET)) } else { (None, None) }, "credentials for events");
            Ok(())
        })
    });
}
