//! The command line of the node, and its directories.

use std::{collections::BTreeMap, net::SocketAddr, path::PathBuf};

use discv5::Enr;
use ethportal_api::types::{
    distance::Distance,
    network::{Network, Subnetwork},
};
use portalnet::utils::db::{configure_node_data_dir, configure_trin_data_dir};
use rpc::config::RpcConfig;
use trin::TrinConfig;
use trin_storage::config::StorageCapacityConfig;
use trin_utils::cli::Web3TransportType;
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::peers;

fn parse(args: &[String]) -> Option<TrinConfig> {
    let args = std::iter::once("trin".to_string()).chain(args.iter().cloned());
    TrinConfig::new_from(args).ok()
}

fn transports(ch: &mut Ch) -> Res {
    let transport = *ch.choose(&[None, Some("http"), Some("ipc"), Some("HTTP"), Some("")]);
    let path = *ch.choose(&[None, Some("/tmp/trin-jsonrpc.ipc"), Some("/tmp/other.ipc")]);
    let address = *ch.choose(&[None, Some("http://127.0.0.1:8545/"), Some("http://127.0.0.1:8545"), Some("http://0.0.0.0:80/"), Some("nonsense")]);
    let ws = ch.flag();
    let port = *ch.choose(&[None, Some("8546"), Some("9"), Some("70000")]);
    let mut args: Vec<String> = vec![];
    let pairs = [("--web3-transport", transport), ("--web3-ipc-path", path), ("--web3-http-address", address), ("--ws-port", port)];
    for (name, value) in pairs {
        args.extend(value.map(|v| [name.to_string(), v.to_string()]).into_iter().flatten());
    }
    if ws {
        args.push("--ws".into());
    }
    ch.note(|| format!("{args:?}"));
    let http = transport == Some("http");
    let default = matches!(address, None | Some("http://127.0.0.1:8545/") | Some("http://127.0.0.1:8545"));
    let fine = matches!(transport, None | Some("http") | Some("ipc"))
        && address != Some("nonsense")
        && port != Some("70000")
        && (port.is_none() || ws)
        && if http { path != Some("/tmp/other.ipc") } else { default && !ws };
    let got = parse(&args);
    ch.eval();
    check_eq!(got.is_some(), fine, "accepted");
    let Some(got) = got else { return Ok(()) };
    let rpc = RpcConfig::from(&got);
    check_eq!(rpc.web3_transport, if http { Web3TransportType::HTTP } else { Web3TransportType::IPC }, "transport");
    check_eq!(rpc.web3_ipc_path, PathBuf::from(path.unwrap_or("/tmp/trin-jsonrpc.ipc")), "path");
    let at = if default { "http://127.0.0.1:8545/" } else { "http://0.0.0.0:80/" };
    check_eq!(rpc.web3_http_address, at.parse::<url::Url>().expect("url"), "address");
    check_eq!((rpc.ws, rpc.ws_port), (ws, port.map_or(8546, |p| p.parse().expect("port"))), "web sockets");
    ch.outcome(&(transport, path, address, ws, port));
    Ok(())
}

fn networks(ch: &mut Ch) -> Res {
    let names = ["beacon", "legacy_history", "state", "history", "verkle_state", "Beacon", "utp"];
    let n = ch.pick(4);
    let mut left: Vec<&str> = names.to_vec();
    let list: Vec<&str> = (0..n).map(|_| left.remove(ch.pick(left.len()))).collect();
    let flags = ["--storage.total", "--mb", "--storage.beacon", "--storage.legacy_history", "--storage.state"];
    let mask = ch.subset(5);
    let mut args: Vec<String> = vec![];
    if n > 0 {
        args.extend(["--portal-subnetworks".to_string(), list.join(",")]);
    }
    for (i, f) in flags.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1) {
        args.extend([f.to_string(), format!("{}", 10 * i + 1)]);
    }
    ch.note(|| format!("{args:?}"));
    let on = if n == 0 { vec!["beacon", "legacy_history"] } else { list };
    let has = |i: usize| mask >> i & 1 == 1;
    let total = has(0) || has(1);
    let each = [2, 3, 4].map(has);
    let known = on.iter().all(|o| names[..3].contains(o));
    let depends = (!on.contains(&"legacy_history") || on.contains(&"beacon"))
        && (!on.contains(&"state") || (on.contains(&"beacon") && on.contains(&"legacy_history")));
    let storage = match (total, each) {
        // The two names are one flag, which can be given once.
        (true, [false, false, false]) => !(has(0) && has(1)),
        (true, _) => false,
        (false, [false, false, false]) => true,
        (false, e) => (0..3).all(|i| e[i] == on.contains(&names[i])),
    };
    let got = parse(&args);
    ch.eval();
    check_eq!(got.is_some(), known && depends && storage, "accepted");
    let Some(got) = got else { return Ok(()) };
    let kind = |n: &str| match n {
        "beacon" => Subnetwork::Beacon,
        "legacy_history" => Subnetwork::LegacyHistory,
        _ => Subnetwork::State,
    };
    let nets: Vec<Subnetwork> = on.iter().map(|n| kind(n)).collect();
    let value = |i: usize| has(i).then_some(10 * i as u32 + 1);
    let want = if each == [false; 3] {
        StorageCapacityConfig::Combined { total_mb: value(0).or(value(1)).unwrap_or(1000), subnetworks: nets.clone() }
    } else {
        StorageCapacityConfig::Specific { beacon_mb: value(2), legacy_history_mb: value(3), state_mb: value(4) }
    };
    let runtime = got.as_node_runtime_config("/nowhere".into());
    check_eq!(runtime.portal_subnetworks.to_vec(), nets, "networks");
    check_eq!(runtime.storage_capacity_config, want, "capacity");
    check_eq!(runtime.node_data_dir, PathBuf::from("/nowhere"), "directory");
    ch.outcome(&(on, mask));
    Ok(())
}

fn percent(p: u32) -> Distance {
    if p == 100 {
        return Distance::MAX;
    }
    // A hundredth of all distances, rounded down, that many times.
    let (mut digits, mut rest) = (vec![], 0u32);
    for _ in 0..32 {
        let x = rest << 8 | 0xff;
        digits.push(x / 100);
        rest = x % 100;
    }
    let (mut out, mut carry) = ([0u8; 32], 0u32);
    for i in (0..32).rev() {
        let x = digits[i] * p + carry;
        out[i] = x as u8;
        carry = x >> 8;
    }
    Distance::from(alloy::primitives::U256::from_be_bytes(out))
}

/// Each option alone, with good and bad values.
fn values(ch: &mut Ch) -> Res {
    let one = |c: char, n: usize| c.to_string().repeat(n);
    let hex64 = format!("0x{}", one('1', 64));
    let records: Vec<Enr> = (2..5).map(|k| peers::record(k, 1)).collect();
    let text: Vec<String> = records.iter().map(|r| r.to_base64()).collect();
    let key = |s: &str| (s == hex64 || s == hex64.to_uppercase().replacen("0X", "0x", 1)).then(|| [0x11u8; 32]);
    let mut all: Vec<(&str, Option<String>)> = vec![];
    let mut add = |name: &'static str, values: Vec<String>| all.extend(values.into_iter().map(|v| (name, Some(v))));
    let keys = vec![hex64.clone(), hex64[2..].to_string(), hex64[..65].to_string(), format!("{hex64}1"), format!("11{}", &hex64[2..]), hex64.replacen("11", "1g", 1), String::new()];
    add("--unsafe-private-key", keys.clone());
    add("--trusted-block-root", keys);
    add("--network", ["mainnet", "angelfood", "sepolia", "Mainnet", "goerli", ""].map(String::from).to_vec());
    add("--max-radius", (0..=101).map(|n: u32| n.to_string()).chain(["-1".into(), "x".into(), "5%".into(), "4294967297".into(), "".into(), "1.5".into()]).collect());
    add("--discovery-port", ["1", "65535", "65536", "-1", "x"].map(String::from).to_vec());
    add("--utp-transfer-limit", ["0", "7", "-1", "x"].map(String::from).to_vec());
    add("--external-address", ["1.2.3.4:5", "[::1]:5", "1.2.3.4", ":5", "host:5"].map(String::from).to_vec());
    add("--enable-metrics-with-url", ["1.2.3.4:5", "1.2.3.4"].map(String::from).to_vec());
    add("--data-dir", vec!["/nowhere".into()]);
    add("--bootnodes", vec!["default".into(), "none".into(), text[0].clone(), text[1..].join(","), text.join(","), format!("{},x", text[0]), "x".into(), "".into()]);
    for flag in ["--no-stun", "--no-upnp", "--ephemeral", "--disable-poke", "-e", "--nothing"] {
        all.push((flag, None));
    }
    // A second option shows that they do not change each other.
    let (name, value) = ch.choose(&all).clone();
    let also: (&str, Option<String>) = ch.choose(&[("", None), ("--no-stun", None), ("--disable-poke", None), ("--discovery-port", Some("77".into())), ("--network", Some("angelfood".into()))]).clone();
    let mut args = vec![];
    for (n, v) in [(name, &value), (also.0, &also.1)] {
        if !n.is_empty() {
            // Values may look like options.
            args.push(match v {
                Some(v) => format!("{n}={v}"),
                None => n.to_string(),
            });
        }
    }
    ch.note(|| format!("{args:?}"));
    let got = parse(&args);
    ch.eval();
    let v = value.clone().unwrap_or_default();
    let socket = v.parse::<SocketAddr>().ok();
    let fine = match name {
        "--unsafe-private-key" | "--trusted-block-root" => key(&v).is_some(),
        "--network" => ["mainnet", "angelfood", "sepolia"].contains(&&v[..]),
        "--max-radius" => (0..=100).any(|n| v == n.to_string()),
        "--discovery-port" => v == "1" || v == "65535",
        "--utp-transfer-limit" => v == "0" || v == "7",
        "--external-address" | "--enable-metrics-with-url" => socket.is_some(),
        "--bootnodes" => v == "default" || v == "none" || (v.starts_with("enr") && !v.ends_with('x')),
        "--nothing" => false,
        _ => true,
    };
    // Twice the same option, or two ways to have an address.
    let clash = name == also.0 || (name == "--external-address" && also.0 == "--no-stun");
    // The empty radius is open.
    if name == "--max-radius" && v.is_empty() {
        return Ok(());
    }
    check_eq!(got.is_some(), fine && !clash, "accepted");
    let Some(got) = got else { return Ok(()) };
    ch.outcome(&args);
    let chosen = |n: &str| if name == n { Some(v.clone()) } else if also.0 == n { also.1.clone() } else { None };
    let set = |n: &str| name == n || also.0 == n;
    let net = got.as_portalnet_config([9; 32].into());
    let runtime = got.as_node_runtime_config("/nowhere".into());
    check_eq!(net.private_key.0, [9; 32], "key in use");
    check_eq!(got.private_key.map(|k| k.0), chosen("--unsafe-private-key").and_then(|s| key(&s)), "key given");
    check_eq!(net.trusted_block_root.map(|k| k.0), chosen("--trusted-block-root").and_then(|s| key(&s)), "trusted root");
    let network = match chosen("--network").as_deref() {
        Some("angelfood") => Network::Angelfood,
        Some("sepolia") => Network::Sepolia,
        _ => Network::Mainnet,
    };
    check_eq!(got.network.network(), network, "network");
    let radius = chosen("--max-radius").map_or(5, |s| s.parse().expect("a number"));
    check_eq!(runtime.max_radius, percent(radius), "radius of {radius} per cent");
    check_eq!(net.listen_port, chosen("--discovery-port").map_or(9009, |s| s.parse().expect("a port")), "port");
    check_eq!(net.utp_transfer_limit, chosen("--utp-transfer-limit").map_or(50, |s| s.parse().expect("a number")), "transfers");
    check_eq!(net.external_addr, chosen("--external-address").and(socket), "own address");
    check_eq!(runtime.enable_metrics_with_url, chosen("--enable-metrics-with-url").and(socket), "metrics");
    check_eq!(got.data_dir, chosen("--data-dir").map(PathBuf::from), "directory");
    check_eq!((net.no_stun, net.no_upnp), (set("--no-stun"), set("--no-upnp")), "no stun, no upnp");
    check_eq!((got.ephemeral, net.disable_poke), (set("--ephemeral") || set("-e"), set("--disable-poke")), "ephemeral, no poke");
    match chosen("--bootnodes").as_deref() {
        None | Some("default") => {
            let l = &net.bootnodes;
            match network {
                Network::Mainnet => check!(l.len() > 3, "{} bootnodes", l.len()),
                Network::Angelfood => check_eq!(l.len(), 1, "bootnodes of angelfood"),
                _ => check_eq!(l.len(), 0, "bootnodes of sepolia"),
            }
        }
        Some("none") => check!(net.bootnodes.is_empty(), "there are bootnodes"),
        Some(s) => check_eq!(net.bootnodes.iter().map(|e| e.to_base64()).collect::<Vec<_>>().join(","), s, "bootnodes"),
    }
    Ok(())
}

pub fn n07(ctx: &Ctx) {
    ctx.explore("transports", transports);
    ctx.explore("networks", networks);
    ctx.explore("values", values);
}

/// Starts of nodes in one directory. What a start finds depends only on key and network.
fn directories(ch: &mut Ch, length: usize) -> Res {
    let nets = [Network::Mainnet, Network::Angelfood, Network::Sepolia];
    let ops: Vec<(usize, usize)> = (0..length).map(|_| (ch.pick(4), ch.pick(3))).collect();
    ch.note(|| format!("keys and networks {ops:?}; key 0 is the one of the directory"));
    vc::on_thread(|| {
        let scratch = tempfile::tempdir().map_err(|e| e.to_string())?;
        let base = scratch.path().join("a").join("data");
        let mut own: Option<[u8; 32]> = None;
        let mut dirs: BTreeMap<([u8; 32], usize), PathBuf> = BTreeMap::new();
        for (key, net) in &ops {
            let dir = configure_trin_data_dir(Some(base.clone()), false).map_err(|e| e.to_string())?;
            check_eq!(dir, base, "directory of the application");
            let given = match key {
                0 => None,
                k => Some(peers::secret(*k as u16)),
            };
            let got = configure_node_data_dir(&dir, given.map(Into::into), nets[*net]);
            ch.eval();
            let (place, secret) = got.map_err(|e| e.to_string())?;
            match given {
                Some(g) => check_eq!(secret.0, g, "the key that was given"),
                None => {
                    if let Some(o) = own {
                        check_eq!(secret.0, o, "the key of the directory");
                    }
                    own = Some(secret.0);
                }
            }
            check!(place.starts_with(&base) && place.is_dir(), "{place:?} is no directory in {base:?}");
            let text = place.display().to_string();
            if let Some(old) = dirs.get(&(secret.0, *net)) {
                check_eq!(place, *old, "directory of the node");
            } else {
                check!(dirs.values().all(|d| *d != place), "two nodes share {text}");
            }
            dirs.insert((secret.0, *net), place.clone());
            let mark = place.join("mark");
            if let Ok(old) = std::fs::read_to_string(&mark) {
                check_eq!(old, format!("{:?}{net}", secret.0), "what was left in the directory");
            }
            std::fs::write(&mark, format!("{:?}{net}", secret.0)).map_err(|e| e.to_string())?;
            ch.state(&(dirs.len(), own.is_some()));
        }
        for ((key, net), place) in &dirs {
            let left = std::fs::read_to_string(place.join("mark")).unwrap_or_default();
            check_eq!(left, format!("{key:?}{net}"), "what was left in the directory");
        }
        Ok(())
    })?
}

/// Directories for one use are new.
fn ephemeral(ch: &mut Ch) -> Res {
    let ops: Vec<bool> = (0..4).map(|_| ch.flag()).collect();
    vc::on_thread(|| {
        let scratch = tempfile::tempdir().map_err(|e| e.to_string())?;
        let base = scratch.path().join("data");
        let mut seen = vec![];
        for once in &ops {
            let dir = configure_trin_data_dir(Some(base.clone()), *once).map_err(|e| e.to_string())?;
            ch.eval();
            check!(dir.is_dir(), "there is no directory");
            if *once {
                check!(dir.starts_with(&base) && dir != base && !seen.contains(&dir), "{dir:?} is not new");
                seen.push(dir.clone());
            } else {
                check_eq!(dir, base, "directory");
            }
            let (place, _) = configure_node_data_dir(&dir, None, Network::Mainnet).map_err(|e| e.to_string())?;
            check!(place.starts_with(&dir), "{place:?} is not in {dir:?}");
        }
        ch.outcome(&ops);
        Ok(())
    })?
}

pub fn n08(ctx: &Ctx) {
    for n in 1..=ctx.b(3, 4) {
        ctx.explore(&format!("directories {n}"), |ch| directories(ch, n));
    }
    ctx.explore("ephemeral", ephemeral);
}
