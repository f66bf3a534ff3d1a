//! Merkle-Patricia root of an in-memory key/value set.
use alloy_primitives::{keccak256, B256};
use alloy_rlp::{Encodable, Header};

pub const EMPTY_ROOT_HASH: B256 =
    alloy_primitives::b256!("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");

fn nibbles(key: &[u8]) -> Vec<u8> {
    key.iter().flat_map(|b| [b >> 4, b & 0xf]).collect()
}

fn compact(path: &[u8], leaf: bool) -> Vec<u8> {
    let odd = path.len() % 2 == 1;
    let mut flag = if leaf { 2u8 } else { 0 };
    let mut rest = path;
    let mut out = vec![];
    if odd {
        flag += 1;
        out.push(flag << 4 | path[0]);
        rest = &path[1..];
    } else {
        out.push(flag << 4);
    }
    out.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
    out
}

fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let payload: usize = items.iter().map(|i| i.len()).sum();
    let mut out = vec![];
    Header { list: true, payload_length: payload }.encode(&mut out);
    for i in items {
        out.extend_from_slice(i);
    }
    out
}

fn bytes(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    b.encode(&mut out);
    out
}

fn reference(node: Vec<u8>) -> Vec<u8> {
    if node.len() < 32 {
        node
    } else {
        bytes(keccak256(&node).as_slice())
    }
}

/// RLP of the node covering `items` below `depth`; keys are unique.
fn node(items: &[(Vec<u8>, Vec<u8>)], depth: usize) -> Vec<u8> {
    if items.len() == 1 {
        return list(&[bytes(&compact(&items[0].0[depth..], true)), bytes(&items[0].1)]);
    }
    let first = &items[0].0;
    let last = &items[items.len() - 1].0;
    let mut common = depth;
    while common < first.len() && common < last.len() && first[common] == last[common] {
        common += 1;
    }
    if common > depth {
        return list(&[bytes(&compact(&first[depth..common], false)), reference(node(items, common))]);
    }
    let mut value = vec![];
    let mut children: Vec<Vec<u8>> = vec![vec![0x80]; 16];
    let mut rest = items;
    if rest[0].0.len() == depth {
        value = rest[0].1.clone();
        rest = &rest[1..];
    }
    while !rest.is_empty() {
        let n = rest[0].0[depth];
        let end = rest.iter().position(|i| i.0[depth] != n).unwrap_or(rest.len());
        children[n as usize] = reference(node(&rest[..end], depth + 1));
        rest = &rest[end..];
    }
    children.push(bytes(&value));
    list(&children)
}

pub fn trie_root(items: impl IntoIterator<Item = (Vec<u8>, Vec<u8>)>) -> B256 {
    let mut items: Vec<(Vec<u8>, Vec<u8>)> =
        items.into_iter().map(|(k, v)| (nibbles(&k), v)).collect();
    if items.is_empty() {
        return EMPTY_ROOT_HASH;
    }
    items.sort();
    keccak256(node(&items, 0))
}

pub fn ordered_trie_root<T>(items: &[T], mut encode: impl FnMut(&T, &mut Vec<u8>)) -> B256 {
    trie_root(items.iter().enumerate().map(|(i, item)| {
        let mut value = vec![];
        encode(item, &mut value);
        (alloy_rlp::encode(i), value)
    }))
}
