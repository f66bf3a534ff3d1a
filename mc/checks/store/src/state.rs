//! State storage.
use crate::{eternal::new_pool, state_storage::StateStorage};
use alloy::primitives::{keccak256, B256};
use ethportal_api::{
    types::{content_key::state::*, distance::{Distance, Metric, XorMetric}, state_trie::nibbles::Nibbles},
    OverlayContentKey, StateContentKey,
};
use spec::{container, hash, list, ramp, Fixed, Var};
use trin_storage::{ContentStore, PortalStorageConfig, ShouldWeStoreContent};
use vc::{check, check_eq, Ctx};

pub fn s10(ctx: &Ctx) {
    ctx.explore("values of every kind under every key", |ch| {
        let mut s = StateStorage::new(PortalStorageConfig {
            storage_capacity_bytes: 1_000_000,
            node_id: discv5::enr::NodeId::new(&[0; 32]),
            node_data_dir: "/nonexistent".into(),
            sql_connection_pool: new_pool(),
            max_radius: Distance::MAX,
        })
        .map_err(|e| e.to_string())?;
        let kind = ch.pick(3);
        let nodes: Vec<Vec<u8>> = (0..ch.pick(4)).map(|i| ramp(3 + i as u8, [33, 0, 100][(i + ch.pick(2)) % 3])).collect();
        let account: Vec<Vec<u8>> = (0..ch.pick(2)).map(|i| ramp(90 + i as u8, 40)).collect();
        let code = ramp(77, *ch.choose(&[0usize, 1, 500]));
        // What the key's hash commits to: the last node, the first, the code, the account proof or nothing.
        let committed = match ch.pick(5) {
            0 => nodes.last().cloned(),
            1 => nodes.first().cloned(),
            2 => Some(code.clone()),
            3 => account.last().cloned(),
            _ => None,
        };
        let target = committed.as_ref().map(keccak256).unwrap_or(B256::from(hash(1)));
        let path = Nibbles::try_from_unpacked_nibbles(&[1, 2, 3]).unwrap();
        let key = match kind {
            0 => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash: target }),
            1 => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: hash(8).into(), path, node_hash: target }),
            _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: hash(8).into(), code_hash: target }),
        };
        let form = ch.pick(5);
        let raw = match form {
            0 => container(&[Var(list(&nodes)), Fixed(hash(5).into())]),
            1 => container(&[Var(list(&nodes)), Var(list(&account)), Fixed(hash(5).into())]),
            2 => container(&[Var(code.clone()), Var(list(&account)), Fixed(hash(5).into())]),
            3 => container(&[Var(nodes.last().cloned().unwrap_or_default())]),
            _ => vec![],
        };
        let proven = match (kind, form) {
            (0, 0) | (1, 1) => nodes.last().cloned(),
            (2, 2) => Some(code.clone()),
            // A list of nodes and a code are both byte strings.
            (2, 1) => Some(list(&nodes)),
            (1, 2) => None,
            _ => None,
        };
        let want = proven.filter(|p| keccak256(p) == target).map(|p| container(&[Var(p)]));
        ch.note(|| format!("kind {kind} form {form} nodes {} want {}", nodes.len(), want.is_some()));
        let got = s.put(key.clone(), &raw);
        ch.eval();
        // A code that happens to be a well-formed list of nodes is not part of the alphabet.
        if (kind, form) == (1, 2) && got.is_ok() {
            check!(code.is_empty(), "code accepted as a list of nodes");
        }
        check_eq!(got.is_ok(), want.is_some(), "storing value of form {form} under key of kind {kind}");
        check!(got.map_or(true, |g| g.is_empty()), "state storage hands back evicted content");
        check_eq!(s.get(&key).map_err(|e| e.to_string())?.map(|v| v.to_vec()), want.clone(), "stored value");
        let page = s.paginate(0, 10).map_err(|e| e.to_string())?;
        check_eq!((page.total_entries, page.content_keys), if want.is_some() { (1, vec![key.clone()]) } else { (0, vec![]) }, "listed content");
        check_eq!(
            s.should_we_store(&key).map_err(|e| e.to_string())?,
            if want.is_some() { ShouldWeStoreContent::AlreadyStored } else { ShouldWeStoreContent::Store },
            "whether to store it"
        );
        ch.outcome(&(kind, form, want));
        Ok(())
    });
    ctx.explore("keys within and outside the radius", |ch| {
        let codes: Vec<Vec<u8>> = (0..3).map(|i| ramp(40 + i, 10 + i as usize)).collect();
        let keys: Vec<StateContentKey> = codes
            .iter()
            .map(|c| StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: hash(8).into(), code_hash: keccak256(c) }))
            .collect();
        let node = if ch.flag() { keys[0].content_id() } else { [0; 32] };
        let away: Vec<Distance> = keys.iter().map(|k| XorMetric::distance(&node, &k.content_id())).collect();
        let max_radius = if ch.flag() { Distance::MAX } else { away[ch.pick(keys.len())] };
        let mut s = StateStorage::new(PortalStorageConfig {
            storage_capacity_bytes: 1_000_000,
            node_id: discv5::enr::NodeId::new(&node),
            node_data_dir: "/nonexistent".into(),
            sql_connection_pool: new_pool(),
            max_radius,
        })
        .map_err(|e| e.to_string())?;
        check_eq!(s.radius(), max_radius, "radius");
        let mut stored = [false; 3];
        for _ in 0..3 {
            let k = ch.pick(keys.len());
            let raw = container(&[Var(codes[k].clone()), Var(list(&[])), Fixed(hash(5).into())]);
            ch.note(|| format!("{k} at {} with radius {max_radius}", away[k]));
            check_eq!(s.put(keys[k].clone(), &raw).is_ok(), away[k] <= max_radius, "storing an item at {} with radius {max_radius}", away[k]);
            stored[k] |= away[k] <= max_radius;
            for i in 0..keys.len() {
                let want = if away[i] > max_radius {
                    ShouldWeStoreContent::NotWithinRadius
                } else if stored[i] {
                    ShouldWeStoreContent::AlreadyStored
                } else {
                    ShouldWeStoreContent::Store
                };
                ch.eval();
                check_eq!(s.should_we_store(&keys[i]).map_err(|e| e.to_string())?, want, "whether to store key {i}");
            }
            ch.steps(1);
        }
        ch.state(&(stored, format!("{max_radius}")));
        ch.outcome(&stored);
        Ok(())
    });
}
