//! X02: content made of proofs.
use alloy::primitives::{Bytes, B256};
use ethportal_api::{ContentValue, OverlayContentKey};
use revm::state::Bytecode;
use spec::{container, hash, list, ramp, trie::keccak, Fixed, Var};
use trin_execution::{
    content::*,
    types::trie_proof::TrieProof,
    utils::{full_nibble_path_to_address_hash, nibbles_to_right_padded_b256},
};
use vc::{check, check_eq, Ch, Ctx, Res};

use crate::walker::family;

fn proof(path: &[u8], nodes: &[Vec<u8>]) -> TrieProof {
    TrieProof { path: path.to_vec(), proof: nodes.iter().map(|n| Bytes::from(n.clone())).collect() }
}
/// Two nibbles to a byte, after one byte that tells an odd number of them.
pub fn packed(path: &[u8]) -> Vec<u8> {
    let all: Vec<u8> = if path.len() % 2 == 0 { [&[0, 0], path].concat() } else { [&[1], path].concat() };
    all.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

fn all(i: u64, ch: &mut Ch) -> Res {
    let (Some(accounts), Some(storage)) = (family(i as u32, true), family((i * 37 % 1024) as u32 | 3, i % 2 == 0)) else { return Ok(()) };
    let block = hash(i as u8);
    let accounts = accounts.all();
    for (path, nodes, node) in &accounts {
        ch.state(&(path, nodes));
        let p = proof(path, nodes);
        let key = create_account_content_key(&p).map_err(|e| e.to_string())?;
        let expected = [vec![0x20], container(&[Var(packed(path)), Fixed(node.hash().to_vec())])].concat();
        check_eq!(key.to_bytes().to_vec(), expected, "key of the node at {path:?}");
        let value = create_account_content_value(block.into(), &p).map_err(|e| e.to_string())?;
        check_eq!(value.encode().to_vec(), container(&[Var(list(nodes)), Fixed(block.to_vec())]), "value of the node at {path:?}");
        ch.evals(2);
    }
    let (account_path, account_nodes, _) = accounts.last().unwrap();
    let account = proof(account_path, account_nodes);
    let owner = hash(i as u8 ^ 0x33);
    for (path, nodes, node) in storage.all() {
        ch.state(&(&path, &nodes));
        let p = proof(&path, &nodes);
        let key = create_storage_content_key(&p, owner.into()).map_err(|e| e.to_string())?;
        let expected = [vec![0x21], container(&[Fixed(owner.to_vec()), Var(packed(&path)), Fixed(node.hash().to_vec())])].concat();
        check_eq!(key.to_bytes().to_vec(), expected, "key of the storage node at {path:?}");
        let value = create_storage_content_value(block.into(), &account, &p).map_err(|e| e.to_string())?;
        let expected = container(&[Var(list(&nodes)), Var(list(account_nodes)), Fixed(block.to_vec())]);
        check_eq!(value.encode().to_vec(), expected, "value of the storage node at {path:?}");
        ch.evals(2);
    }
    for len in [1, 2, 31, 100, 1000] {
        let code = ramp(i as u8, len);
        let code_hash = keccak(&code);
        let key = create_contract_content_key(owner.into(), code_hash.into()).map_err(|e| e.to_string())?;
        check_eq!(key.to_bytes().to_vec(), [&[0x22][..], &owner, &code_hash].concat(), "key of a code");
        let value = create_contract_content_value(block.into(), &account, Bytecode::new_raw(code.clone().into())).map_err(|e| e.to_string())?;
        let expected = container(&[Var(code), Var(list(account_nodes)), Fixed(block.to_vec())]);
        check_eq!(value.encode().to_vec(), expected, "value of a code");
        ch.evals(2);
    }
    Ok(())
}

/// Paths, also those that are none.
fn paths(ch: &mut Ch) -> Res {
    let len = ch.pick(66);
    let odd = *ch.choose(&[None, Some(16u8), Some(255)]);
    let mut path: Vec<u8> = (0..len).map(|i| (i * 7 % 16) as u8).collect();
    if let (Some(v), Some(last)) = (odd, path.last_mut()) {
        *last = v;
    }
    let fine = path.iter().all(|n| *n < 16);
    ch.state(&path);
    let node = ramp(1, 40);
    let p = proof(&path, &[node.clone()]);
    if path.len() <= 64 {
        check_eq!(create_account_content_key(&p).is_ok(), fine, "a key for {path:?}");
        check_eq!(create_storage_content_key(&p, B256::ZERO).is_ok(), fine, "a key for {path:?}");
    }
    let none = proof(&path, &[]);
    check!(create_account_content_key(&none).is_err() && create_storage_content_key(&none, B256::ZERO).is_err(), "a key for no node");
    if fine && path.len() <= 64 {
        let mut full = path.clone();
        full.resize(64, 0);
        let bytes: Vec<u8> = full.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
        check_eq!(nibbles_to_right_padded_b256(&path).to_vec(), bytes, "{path:?} as 32 bytes");
        if path.len() == 64 {
            check_eq!(full_nibble_path_to_address_hash(&path).to_vec(), bytes, "{path:?} as the hash of an address");
        }
    }
    ch.outcome(&fine);
    Ok(())
}

pub fn x02(ctx: &Ctx) {
    ctx.range("nodes and codes", ctx.b(128, 1024), all);
    ctx.explore("paths", paths);
}
