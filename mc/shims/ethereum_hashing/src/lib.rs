//! SHA-256 helpers with the `ethereum_hashing` API.
use lazy_static::lazy_static;
use sha2::{Digest, Sha256};

pub const HASH_LEN: usize = 32;
pub const ZERO_HASHES_MAX_INDEX: usize = 48;

pub fn hash(input: &[u8]) -> Vec<u8> {
    Sha256::digest(input).to_vec()
}

pub fn hash_fixed(input: &[u8]) -> [u8; HASH_LEN] {
    Sha256::digest(input).into()
}

pub fn hash32_concat(h1: &[u8], h2: &[u8]) -> [u8; 32] {
    let mut ctxt = Sha256::new();
    ctxt.update(h1);
    ctxt.update(h2);
    ctxt.finalize().into()
}

lazy_static! {
    pub static ref ZERO_HASHES: Vec<[u8; HASH_LEN]> = {
        let mut hashes = vec![[0; HASH_LEN]; ZERO_HASHES_MAX_INDEX + 1];
        for i in 0..ZERO_HASHES_MAX_INDEX {
            hashes[i + 1] = hash32_concat(&hashes[i], &hashes[i]);
        }
        hashes
    };
}
