//! M02: the metrics a node and a bridge publish.

use std::{
    collections::BTreeMap,
    sync::{Mutex, OnceLock},
};

use alloy::primitives::U256;
use ethportal_api::types::{
    accept_code::AcceptCode,
    client_type::ClientType,
    distance::Distance,
    network::Subnetwork,
    ping_extensions::extension_types::PingExtensionType,
    portal_wire::{
        Accept, Content, CustomPayload, FindContent, FindNodes, Nodes, Offer, OfferTrace, Ping, Pong,
        PopulatedOffer, PopulatedOfferWithResult, Request, Response,
    },
};
use prometheus_exporter::prometheus::{default_registry, TextEncoder};
use trin_metrics::{
    bridge::BridgeMetricsReporter,
    chain_head::ChainHeadMetricsReporter,
    labels::{UtpDirectionLabel, UtpOutcomeLabel},
    overlay::OverlayMetricsReporter,
    portalnet::PORTALNET_METRICS,
    storage::StorageMetricsReporter,
};
use vc::{check, check_eq, Ch, Ctx, Res};

type Series = BTreeMap<String, f64>;

/// The registry is one for the whole process.
static ONE: Mutex<()> = Mutex::new(());

fn name(metric: &str, labels: &[(&str, &str)]) -> String {
    let mut labels: Vec<_> = labels.iter().map(|(k, v)| format!("{k}={v:?}")).collect();
    labels.sort();
    format!("{metric}{{{}}}", labels.join(","))
}

/// Everything published, except the times taken.
fn published() -> Series {
    let text = TextEncoder::new()
        .encode_to_string(&default_registry().gather())
        .expect("text");
    let mut all = Series::new();
    for line in text.lines().filter(|l| !l.starts_with('#')) {
        let (key, value) = line.rsplit_once(' ').expect("a value");
        let (metric, labels) = key.split_once('{').unwrap_or((key, "}"));
        let delay = metric.contains("_slot_update_delay");
        if metric.starts_with("process_") || metric.ends_with("_bucket") || (metric.ends_with("_sum") && !delay) {
            continue;
        }
        let mut labels: Vec<_> = labels
            .trim_end_matches('}')
            .split(',')
            .filter(|l| !l.is_empty())
            .collect();
        labels.sort();
        all.insert(format!("{metric}{{{}}}", labels.join(",")), value.parse().expect("a number"));
    }
    all
}

fn change(from: &Series, to: &Series) -> Series {
    let mut all = Series::new();
    for key in from.keys().chain(to.keys()) {
        let d = to.get(key).unwrap_or(&0.) - from.get(key).unwrap_or(&0.);
        if d != 0. {
            all.insert(key.clone(), d);
        }
    }
    all
}

fn add(model: &mut Series, key: String, by: f64) {
    *model.entry(key).or_default() += by;
}

fn nonzero(model: Series) -> Series {
    model.into_iter().filter(|(_, v)| *v != 0.).collect()
}

/// The numbers of a summary under the names they follow.
fn numbers(text: &str) -> BTreeMap<String, Vec<f64>> {
    let mut all = BTreeMap::<String, Vec<f64>>::new();
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut under) = (0, None::<String>);
    while i < c.len() {
        let start = i;
        if c[i].is_alphabetic() || c[i] == '#' {
            while i < c.len() && (c[i].is_alphabetic() || c[i] == '_' || c[i] == '#') {
                i += 1;
            }
            if c.get(i) == Some(&'=') {
                under = Some(c[start..i].iter().collect());
            }
        } else if c[i].is_ascii_digit() || (c[i] == '-' && c.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if let Some(u) = &under {
                let n: String = c[start..i].iter().collect();
                all.entry(u.clone()).or_default().push(n.parse().expect("a number"));
            }
        } else {
            i += 1;
        }
    }
    all
}

const NETS: [&str; 2] = ["history", "state"];

fn overlay(net: usize) -> &'static OverlayMetricsReporter {
    static ALL: OnceLock<Vec<OverlayMetricsReporter>> = OnceLock::new();
    &ALL.get_or_init(|| {
        NETS.iter()
            .map(|n| OverlayMetricsReporter {
                protocol: n.to_string(),
                overlay_metrics: PORTALNET_METRICS.overlay(),
            })
            .collect()
    })[net]
}

fn requests() -> Vec<(&'static str, Request)> {
    let (tx, _) = tokio::sync::mpsc::unbounded_channel();
    let ty = PingExtensionType::Capabilities;
    let payload = || CustomPayload::from(vec![]);
    vec![
        ("ping", Request::Ping(Ping { enr_seq: 1, payload_type: ty, payload: payload() })),
        ("find_nodes", Request::FindNodes(FindNodes { distances: vec![1] })),
        ("find_content", Request::FindContent(FindContent { content_key: vec![1].into() })),
        ("offer", Request::Offer(Offer { content_keys: vec![] })),
        ("offer", Request::PopulatedOffer(PopulatedOffer { content_items: vec![] })),
        ("offer", Request::PopulatedOfferWithResult(PopulatedOfferWithResult { content_items: vec![], result_tx: tx })),
    ]
}

fn responses() -> Vec<(&'static str, Response)> {
    let ty = PingExtensionType::Capabilities;
    vec![
        ("pong", Response::Pong(Pong { enr_seq: 1, payload_type: ty, payload: CustomPayload::from(vec![]) })),
        ("nodes", Response::Nodes(Nodes { total: 1, enrs: vec![] })),
        ("content", Response::Content(Content::ConnectionId(1))),
        ("content", Response::Content(Content::Enrs(vec![]))),
        ("content", Response::Content(Content::Content(vec![1].into()))),
        ("accept", Response::Accept(Accept { connection_id: 1, content_keys: vec![1].into() })),
    ]
}

const DIRS: [(&str, UtpDirectionLabel); 2] =
    [("inbound", UtpDirectionLabel::Inbound), ("outbound", UtpDirectionLabel::Outbound)];
const OUTCOMES: [(&str, UtpOutcomeLabel); 4] = [
    ("success", UtpOutcomeLabel::Success),
    ("failed connection", UtpOutcomeLabel::FailedConnection),
    ("failed data tx", UtpOutcomeLabel::FailedDataTx),
    ("failed shutdown", UtpOutcomeLabel::FailedShutdown),
];

fn overlay_history(ch: &mut Ch, len: usize, nets: usize, small: bool) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let (requests, responses) = (requests(), responses());
    // streams that are open throughout, so that none is ended that was not begun
    static OPEN: OnceLock<()> = OnceLock::new();
    OPEN.get_or_init(|| {
        for net in 0..NETS.len() {
            for _ in 0..8 {
                DIRS.iter().for_each(|d| overlay(net).report_utp_active_inc(d.1));
            }
        }
    });
    let start = published();
    let mut model = Series::new();
    let mut log = vec![];
    for _ in 0..len {
        let net = ch.pick(nets);
        let (n, r) = (NETS[net], overlay(net));
        // offers, accepts, outcomes and validations make the summaries
        let kind = ch.pick(5);
        match kind {
            0 => {
                let (label, request) = if small { &requests[3] } else { &requests[ch.pick(requests.len())] };
                let sent = ch.flag();
                log.push(format!("{n}: {label} {}", if sent { "sent" } else { "received" }));
                if sent {
                    r.report_outbound_request(request)
                } else {
                    r.report_inbound_request(request)
                }
                let dir = if sent { "sent" } else { "received" };
                add(&mut model, name("trin_message_total", &[("protocol", n), ("direction", dir), ("type", label)]), 1.);
            }
            1 => {
                let (label, response) = if small { &responses[5] } else { &responses[ch.pick(responses.len())] };
                let sent = ch.flag();
                log.push(format!("{n}: {label} {}", if sent { "sent" } else { "received" }));
                if sent {
                    r.report_outbound_response(response)
                } else {
                    r.report_inbound_response(response)
                }
                let dir = if sent { "sent" } else { "received" };
                add(&mut model, name("trin_message_total", &[("protocol", n), ("direction", dir), ("type", label)]), 1.);
            }
            2 => {
                let (d, dir) = *ch.choose(&DIRS);
                let o = ch.pick(if small { 5 } else { 7 });
                let active = name("trin_utp_active_streams", &[("protocol", n), ("direction", d)]);
                log.push(format!("{n}: stream {d} {o}"));
                match o {
                    0 => {
                        r.report_utp_active_inc(dir);
                        add(&mut model, active, 1.);
                    }
                    1..=4 => {
                        let (l, outcome) = OUTCOMES[o - 1];
                        r.report_utp_outcome(dir, outcome);
                        add(&mut model, name("trin_utp_outcome_total", &[("protocol", n), ("direction", d), ("outcome", l)]), 1.);
                        add(&mut model, active, -1.);
                    }
                    5 => {
                        r.report_utp_active_dec(dir);
                        add(&mut model, active, -1.);
                    }
                    _ => {
                        r.start_utp_process_timer(dir).stop_and_record();
                        add(&mut model, name("trin_utp_connection_duration_count", &[("protocol", n), ("direction", d)]), 1.);
                    }
                }
            }
            3 => {
                let valid = ch.flag();
                log.push(format!("{n}: valid {valid}"));
                r.report_validation(valid);
                add(&mut model, name("trin_validation_total", &[("protocol", n), ("success", if valid { "true" } else { "false" })]), 1.);
            }
            _ => {
                // a summary changes nothing
                log.push(format!("{n}: summary"));
                let _ = (r.get_utp_summary(), r.get_message_summary());
            }
        }
        ch.steps(1);
        ch.state(&log);
    }
    ch.note(|| format!("{log:?}"));
    let now = published();
    let summaries: Vec<_> = (0..nets).map(|n| (overlay(n).get_utp_summary(), overlay(n).get_message_summary())).collect();
    // leave the streams as they were
    for net in 0..nets {
        for (d, dir) in DIRS {
            let by = *model.get(&name("trin_utp_active_streams", &[("protocol", NETS[net]), ("direction", d)])).unwrap_or(&0.);
            for _ in 0..by.abs() as usize {
                if by > 0. {
                    overlay(net).report_utp_active_dec(dir)
                } else {
                    overlay(net).report_utp_active_inc(dir)
                }
            }
        }
    }
    let model = nonzero(model);
    check_eq!(change(&start, &now), model, "what {log:?} added to the metrics");
    ch.outcome(&format!("{model:?}"));
    for (net, (utp, messages)) in summaries.iter().enumerate() {
        let n = NETS[net];
        let read = |key: String| start.get(&key).unwrap_or(&0.) + model.get(&key).unwrap_or(&0.);
        let message = |dir, ty| read(name("trin_message_total", &[("protocol", n), ("direction", dir), ("type", ty)]));
        let valid = |v| read(name("trin_validation_total", &[("protocol", n), ("success", v)]));
        let want = BTreeMap::from([
            ("offers".to_string(), vec![message("received", "accept"), message("sent", "offer")]),
            ("accepts".to_string(), vec![message("sent", "accept"), message("received", "offer")]),
            ("validations".to_string(), vec![valid("true"), valid("true") + valid("false")]),
        ]);
        check_eq!(numbers(messages), want, "the summary of messages of {n} after {log:?}: {messages}");
        let active = DIRS.map(|(d, _)| read(name("trin_utp_active_streams", &[("protocol", n), ("direction", d)])));
        let outcome = |o: usize| {
            DIRS.map(|(d, _)| read(name("trin_utp_outcome_total", &[("protocol", n), ("direction", d), ("outcome", OUTCOMES[o].0)])))
        };
        let failed = [0, 1].map(|d| outcome(1)[d] + outcome(2)[d] + outcome(3)[d]);
        let row = |name: &str, v: [f64; 2]| (name.to_string(), vec![v[0] + v[1], v[0], v[1]]);
        let want = BTreeMap::from([
            row("active", active),
            row("success", outcome(0)),
            row("failed", failed),
            row("failed_connection", outcome(1)),
            row("failed_data_tx", outcome(2)),
            row("failed_shutdown", outcome(3)),
        ]);
        check_eq!(numbers(utp), want, "the summary of streams of {n} after {log:?}: {utp}");
        ch.evals(2);
    }
    Ok(())
}

const SUBNETS: [Subnetwork; 2] = [Subnetwork::History, Subnetwork::State];

fn storage(net: usize) -> &'static StorageMetricsReporter {
    static ALL: OnceLock<Vec<StorageMetricsReporter>> = OnceLock::new();
    &ALL.get_or_init(|| SUBNETS.iter().map(|s| StorageMetricsReporter::new(*s)).collect())[net]
}

/// Radii with the part of the whole they are.
fn radii() -> Vec<(U256, f64)> {
    let mut all = vec![(U256::ZERO, 0.), (U256::MAX, 1.)];
    for shift in [1, 3, 4, 7, 10, 11, 14, 17, 24] {
        all.push((U256::MAX >> shift, 0.5f64.powi(shift as i32)));
    }
    all.push((U256::MAX - (U256::MAX >> 2), 0.75));
    all.push((U256::from(0xff) << 224, 255. / 4294967296.));
    all.push((U256::from(1) << 232, 256. / 4294967296.));
    all
}

fn storage_history(ch: &mut Ch, len: usize, nets: usize, small: bool) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    for net in 0..NETS.len() {
        let r = storage(net);
        r.report_content_data_storage_bytes(0.);
        r.report_total_storage_usage_bytes(0.);
        r.report_storage_capacity_bytes(0.);
        r.report_radius(Distance::from(U256::ZERO));
        r.report_entry_count(0);
    }
    let start = published();
    let radii = radii();
    // per network: content, disk, capacity, radius, entries
    let mut model = vec![[0f64; 5]; nets];
    let mut timed = Series::new();
    let mut log = vec![];
    let bytes: &[f64] = if small { &[1_500_000., 7.] } else { &[1_500_000., 7., 123_456_789., 8e9, 0.] };
    for _ in 0..len {
        let net = ch.pick(nets);
        let r = storage(net);
        let kind = ch.pick(if small { 7 } else { 8 });
        match kind {
            0..=2 => {
                let b = *ch.choose(bytes);
                log.push(format!("{net}: {} {b}", ["content", "disk", "capacity"][kind]));
                match kind {
                    0 => r.report_content_data_storage_bytes(b),
                    1 => r.report_total_storage_usage_bytes(b),
                    _ => r.report_storage_capacity_bytes(b),
                }
                model[net][kind] = b;
            }
            3 => {
                let (radius, part) = radii[ch.pick(if small { 3 } else { radii.len() })];
                log.push(format!("{net}: radius {radius:x}"));
                r.report_radius(Distance::from(radius));
                model[net][3] = part;
            }
            4 => {
                let n = *ch.choose(&[3u64, 1 << 40]);
                log.push(format!("{net}: {n} entries"));
                r.report_entry_count(n);
                model[net][4] = n as f64;
            }
            5 => {
                log.push(format!("{net}: one more"));
                r.increase_entry_count();
                model[net][4] += 1.;
            }
            6 => {
                log.push(format!("{net}: one less"));
                r.decrease_entry_count();
                model[net][4] -= 1.;
            }
            _ => {
                let f = *ch.choose(&["get", "prune"]);
                let stop = ch.flag();
                log.push(format!("{net}: timer of {f}, stopped {stop}"));
                let t = r.start_process_timer(f);
                if stop {
                    r.stop_process_timer(t);
                    add(&mut timed, name("trin_storage_process_timer_count", &[("protocol", &SUBNETS[net].to_string()), ("function", f)]), 1.);
                } else {
                    drop(t);
                }
            }
        }
        ch.steps(1);
        ch.state(&log);
    }
    ch.note(|| format!("{log:?}"));
    let mut got = change(&start, &published());
    let mut want = timed;
    for (net, m) in model.iter().enumerate() {
        let protocol = SUBNETS[net].to_string();
        let labels = [("protocol", protocol.as_str())];
        for (i, metric) in [
            "trin_content_storage_usage_bytes",
            "trin_total_storage_usage_bytes",
            "trin_storage_capacity_bytes",
        ]
        .iter()
        .enumerate()
        {
            add(&mut want, name(metric, &labels), m[i]);
        }
        add(&mut want, name("trin_entry_count", &labels), m[4]);
        let part = got.remove(&name("trin_radius_ratio", &labels)).unwrap_or(0.);
        check!((part - m[3]).abs() < 1e-9, "{protocol}: the radius is {} of the whole, published as {part} after {log:?}", m[3]);
        let text = storage(net).get_summary();
        let shown = numbers(&text);
        let near = |key: &str, i: usize, v: f64, by: f64| {
            shown.get(key).and_then(|n| n.get(i)).is_some_and(|n| (n - v).abs() <= by + 1e-6 * by.max(1e-3))
        };
        let percent = m[3] * 100.;
        let unit = [(10., 0.5), (1., 0.05), (0.1, 0.005), (0.01, 0.0005)]
            .iter()
            .find(|(from, _)| percent >= *from)
            .map_or(0.00005, |(_, by)| *by);
        check!(near("radius", 0, percent, unit), "{protocol}: a radius of {percent}% is summed up as {text}");
        check!(near("content", 0, m[0] / 1e6, 0.05), "{protocol}: {} bytes of content are summed up as {text}", m[0]);
        check!(near("content", 1, m[2] / 1e6, 1e-9), "{protocol}: a capacity of {} bytes is summed up as {text}", m[2]);
        check!(near("#", 0, m[4], 0.), "{protocol}: {} entries are summed up as {text}", m[4]);
        check!(near("disk", 0, m[1] / 1e6, 0.05), "{protocol}: {} bytes on disk are summed up as {text}", m[1]);
        ch.evals(6);
    }
    let want = nonzero(want);
    ch.outcome(&format!("{model:?}"));
    check_eq!(got, want, "what {log:?} left in the metrics");
    Ok(())
}

fn bridge_history(ch: &mut Ch, len: usize) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let names = ["state", "beacon"];
    let start = {
        for n in names {
            BridgeMetricsReporter::new(n.to_string(), "latest").report_current_block(0);
        }
        published()
    };
    let mut model = Series::new();
    let mut log = vec![];
    let traces = [
        ("Failed", OfferTrace::Failed),
        ("Accepted", OfferTrace::Success(AcceptCode::Accepted)),
        ("Declined", OfferTrace::Success(AcceptCode::Declined)),
        ("RateLimited", OfferTrace::Success(AcceptCode::RateLimited)),
        ("NotWithinRadius", OfferTrace::Success(AcceptCode::NotWithinRadius)),
        ("AlreadyStored", OfferTrace::Success(AcceptCode::AlreadyStored)),
        ("InboundTransferInProgress", OfferTrace::Success(AcceptCode::InboundTransferInProgress)),
        ("Unspecified", OfferTrace::Success(AcceptCode::Unspecified)),
    ];
    let clients = [("Trin", ClientType::Trin), ("Unknown", ClientType::Unknown(None)), ("Unknown(x)", ClientType::Unknown(Some("x".into())))];
    let mut block = [0i64; 2];
    let mut modes = vec![];
    for i in 0..2 {
        let mode = *ch.choose(&["latest", "snapshot:5"]);
        modes.push(mode);
        add(&mut model, name("bridge_info", &[("bridge", names[i]), ("bridge_mode", mode)]), 1.);
    }
    let reporters: Vec<_> = (0..2).map(|i| BridgeMetricsReporter::new(names[i].to_string(), modes[i])).collect();
    for _ in 0..len {
        let b = ch.pick(2);
        let (n, r) = (names[b], &reporters[b]);
        match ch.pick(4) {
            0 => {
                let (ok, ty) = (ch.flag(), *ch.choose(&["body", "receipts"]));
                log.push(format!("{n}: gossip {ok} {ty}"));
                r.report_gossip_success(ok, ty);
                add(&mut model, name("bridge_gossip_total", &[("bridge", n), ("success", if ok { "true" } else { "false" }), ("type", ty)]), 1.);
            }
            1 => {
                let (ty, (cl, client), (tl, trace)) = (*ch.choose(&["body", "receipts"]), ch.choose(&clients), ch.choose(&traces));
                log.push(format!("{n}: offer {ty} {cl} {tl}"));
                r.report_offer(ty, client, trace);
                add(&mut model, name("bridge_offer_total", &[("bridge", n), ("content_type", ty), ("client_type", cl), ("result", tl)]), 1.);
            }
            2 => {
                let at = *ch.choose(&[1i64, 22_000_000]);
                log.push(format!("{n}: block {at}"));
                r.report_current_block(at);
                block[b] = at;
            }
            _ => {
                let f = *ch.choose(&["construct", "serve"]);
                log.push(format!("{n}: timer of {f}"));
                let t = r.start_process_timer(f);
                r.stop_process_timer(t);
                add(&mut model, name("bridge_process_timer_count", &[("bridge", n), ("function", f)]), 1.);
            }
        }
        ch.steps(1);
        ch.state(&log);
    }
    ch.note(|| format!("{log:?}"));
    for b in 0..2 {
        add(&mut model, name("bridge_current_block", &[("bridge", names[b])]), block[b] as f64);
    }
    let model = nonzero(model);
    check_eq!(change(&start, &published()), model, "what {log:?} added to the metrics");
    ch.outcome(&format!("{model:?}"));
    Ok(())
}

fn head_history(ch: &mut Ch, len: usize) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let r = ChainHeadMetricsReporter::new();
    // no lag, and no header known
    r.report_optimistic_slot_update(1);
    r.report_finalized_slot_update(1);
    r.on_slot(1);
    r.report_optimistic_slot_update(0);
    r.report_finalized_slot_update(0);
    let start = published();
    let kinds = ["optimistic_slot", "finalized_slot"];
    let (mut slot, mut lag) = ([0i64; 2], [0i64; 2]);
    let mut model = Series::new();
    let mut log = vec![];
    for _ in 0..len {
        let at = *ch.choose(&[3i64, 4, 96]);
        match ch.pick(3) {
            2 => {
                log.push(format!("slot {at}"));
                r.on_slot(at as u64);
                for k in 0..2 {
                    if slot[k] > 0 {
                        lag[k] = at - slot[k];
                    }
                }
            }
            k => {
                log.push(format!("{} {at}", kinds[k]));
                if k == 0 {
                    r.report_optimistic_slot_update(at as u64)
                } else {
                    r.report_finalized_slot_update(at as u64)
                }
                if slot[k] > 0 {
                    add(&mut model, name(&format!("{}_update_delay_count", kinds[k]), &[]), 1.);
                    add(&mut model, name(&format!("{}_update_delay_sum", kinds[k]), &[]), (at - slot[k]) as f64);
                }
                slot[k] = at;
            }
        }
        ch.steps(1);
        ch.state(&(slot, lag));
    }
    ch.note(|| format!("{log:?}"));
    for k in 0..2 {
        add(&mut model, name(kinds[k], &[]), slot[k] as f64);
        add(&mut model, name(&format!("{}_lag", kinds[k]), &[]), lag[k] as f64);
    }
    let model = nonzero(model);
    check_eq!(change(&start, &published()), model, "what {log:?} left in the metrics");
    ch.outcome(&format!("{model:?}"));
    Ok(())
}

pub fn m02(ctx: &Ctx) {
    for len in 0..=ctx.b(2, 2) {
        ctx.explore(&format!("overlay: {len} reports of two networks"), |ch| overlay_history(ch, len, 2, false));
    }
    let len = ctx.b(3, 4);
    ctx.explore(&format!("overlay: {len} reports that are summed up"), |ch| overlay_history(ch, len, 1, true));
    for len in 0..=2 {
        ctx.explore(&format!("storage: {len} reports of two networks"), |ch| storage_history(ch, len, 2, false));
    }
    let len = ctx.b(3, 4);
    ctx.explore(&format!("storage: {len} reports of one network"), |ch| storage_history(ch, len, 1, true));
    for len in 0..=ctx.b(1, 2) {
        ctx.explore(&format!("bridge: {len} reports of two bridges"), |ch| bridge_history(ch, len));
    }
    for len in 0..=ctx.b(3, 4) {
        ctx.explore(&format!("head of the chain: {len} reports"), |ch| head_history(ch, len));
    }
}
