//! F03: names of networks and subnetworks, and which subnetworks need which.

use std::collections::BTreeSet;
use std::str::FromStr;

use alloy_chains::Chain;
use ethportal_api::types::network::{Network, Subnetwork};
use serde_json::{json, Value};
use vc::{check, check_eq, fail, Ch, Ctx, Res};

/// Subnetwork, name on a command line, label, in use, what it cannot do without.
const SUBNETWORKS: [(Subnetwork, &str, &str, bool, &[Subnetwork]); 8] = [
    (Subnetwork::History, "history", "History", false, &[]),
    (Subnetwork::Beacon, "beacon", "Beacon", true, &[]),
    (Subnetwork::LegacyHistory, "legacy_history", "Legacy History", true, &[Subnetwork::Beacon]),
    (Subnetwork::State, "state", "State", true, &[Subnetwork::LegacyHistory, Subnetwork::Beacon]),
    (Subnetwork::CanonicalIndices, "canonical_indices", "Canonical Indices", false, &[]),
    (Subnetwork::VerkleState, "verkle_state", "Verkle State", false, &[]),
    (Subnetwork::TransactionGossip, "transaction_gossip", "Transaction Gossip", false, &[]),
    (Subnetwork::Utp, "utp", "uTP", false, &[]),
];

const NETWORKS: [(Network, &str, u64); 3] =
    [(Network::Mainnet, "mainnet", 1), (Network::Angelfood, "angelfood", 1), (Network::Sepolia, "sepolia", 11155111)];

fn text(ch: &mut Ch, s: &str) -> Res {
    ch.note(|| format!("name {s:?}"));
    let sub = SUBNETWORKS.iter().find(|n| n.1 == s).map(|n| n.0);
    let net = NETWORKS.iter().find(|n| n.1 == s).map(|n| n.0);
    match (Subnetwork::from_str(s), sub) {
        (Err(e), None) => check!(e.contains(s), "the error {e:?} does not name {s:?}"),
        (got, want) => check_eq!(got.ok(), want, "subnetwork {s:?}"),
    }
    match (Network::from_str(s), net) {
        (Err(e), None) => check!(e.contains(s), "the error {e:?} does not name {s:?}"),
        (got, want) => check_eq!(got.ok(), want, "network {s:?}"),
    }
    ch.evals(2);
    ch.outcome(&(sub.map(|n| n.to_string()), net.map(|n| n.to_string())));
    Ok(())
}

pub fn f03(ctx: &Ctx) {
    ctx.explore("each subnetwork", |ch| {
        let (n, name, label, active, needs) = SUBNETWORKS[ch.pick(SUBNETWORKS.len())];
        ch.note(|| name.to_string());
        check_eq!(n.to_cli_arg(), name, "name on a command line");
        check_eq!(n.to_string(), label, "label");
        check_eq!(n.is_active(), active, "{name} in use");
        text(ch, name)?;
        let v = serde_json::to_value(n).map_err(|e| e.to_string())?;
        check_eq!(serde_json::from_value::<Subnetwork>(v.clone()).map_err(|e| e.to_string())?, n, "{name} from {v}");
        for (m, ..) in SUBNETWORKS {
            let w = serde_json::to_value(m).map_err(|e| e.to_string())?;
            check_eq!(v == w, n == m, "JSON of {n} and {m}");
        }
        let got = n.dependencies();
        let with: Vec<Subnetwork> = n.with_dependencies().into_iter().collect();
        let set = |l: &[Subnetwork]| l.iter().map(|n| n.to_cli_arg()).collect::<BTreeSet<_>>();
        check_eq!(set(&got), set(needs), "what {name} needs");
        check_eq!(got.len(), needs.len(), "what {name} needs: {got:?}");
        check_eq!(with.first(), Some(&n), "{name} and what it needs: {with:?}");
        check_eq!(with.len(), needs.len() + 1, "{name} and what it needs: {with:?}");
        check_eq!(set(&with[1..]), set(needs), "{name} and what it needs");
        // nothing else is missing, and nothing needs itself
        for m in &got {
            check!(*m != n && !m.dependencies().contains(&n), "{n} and {m} need each other");
            for k in m.dependencies() {
                check!(got.contains(&k), "{n} needs {m}, which needs {k}");
            }
            check!(m.is_active() || !active, "{n} is in use but needs {m}");
        }
        ch.evals(10);
        ch.state(&name);
        Ok(())
    });
    ctx.explore("each network", |ch| {
        let (n, name, id) = NETWORKS[ch.pick(NETWORKS.len())];
        ch.note(|| name.to_string());
        check_eq!(n.to_string(), name, "name");
        check_eq!(Chain::from(n).id(), id, "chain of {name}");
        ch.evals(2);
        ch.state(&name);
        text(ch, name)
    });
    let names: Vec<&str> = SUBNETWORKS.iter().map(|n| n.1).chain(NETWORKS.iter().map(|n| n.1)).collect();
    ctx.explore("names with edits", |ch| {
        let mut t: Vec<char> = names[ch.pick(names.len())].chars().collect();
        for _ in 0..ctx.b(1, 2) {
            let c = *ch.choose(&['a', 'e', 'i', 'n', 's', 't', 'y', 'S', 'H', '_', '-', ' ', ':', '0', 'é', '\0']);
            match ch.pick(4) {
                0 => {
                    let at = ch.pick(t.len() + 1);
                    t.insert(at, c);
                }
                1 => {
                    let at = ch.pick(t.len());
                    t[at] = c;
                }
                2 => {
                    let at = ch.pick(t.len());
                    t.remove(at);
                }
                _ => {
                    let at = ch.pick(t.len());
                    t[at] = t[at].to_ascii_uppercase();
                }
            }
        }
        text(ch, &t.into_iter().collect::<String>())
    });
    ctx.explore("pieces of names", |ch| {
        let mut s = String::new();
        for _ in 0..2 {
            let name = names[ch.pick(names.len())];
            let from = ch.pick(name.len() + 1);
            // from the front, or to the end
            s.push_str(if ch.flag() { &name[from..] } else { &name[..from] });
        }
        text(ch, &s)
    });
    ctx.explore("labels and odd JSON", |ch| {
        let (n, name, label, ..) = SUBNETWORKS[ch.pick(SUBNETWORKS.len())];
        let odd = [label.to_uppercase(), format!("{label} "), format!("{n:?} "), format!("{name}/"), "*".into(), "all".into(), "".into()];
        let s = &odd[ch.pick(odd.len())];
        text(ch, s)?;
        let v: Value = [json!(null), json!(0), json!(1), json!([name]), json!("nothing"), json!({ "name": name })][ch.pick(6)].clone();
        if let Ok(n) = serde_json::from_value::<Subnetwork>(v.clone()) {
            fail!("{v} is taken for {n}");
        }
        ch.evals(1);
        Ok(())
    });
}
