//! Binary merkle tree; the number of leaves used by trin is always a power of two, an odd last
//! node is promoted unchanged as in the original crate.
pub trait Hasher: Clone {
    type Hash: Copy + PartialEq + AsRef<[u8]>;
    fn hash(data: &[u8]) -> Self::Hash;
    fn concat_and_hash(l: &Self::Hash, r: Option<&Self::Hash>) -> Self::Hash {
        match r {
            Some(r) => Self::hash(&[l.as_ref(), r.as_ref()].concat()),
            None => *l,
        }
    }
}
pub mod algorithms {
    use sha2::Digest;
    #[derive(Clone)]
    pub struct Sha256;
    impl super::Hasher for Sha256 {
        type Hash = [u8; 32];
        fn hash(data: &[u8]) -> [u8; 32] {
            sha2::Sha256::digest(data).into()
        }
    }
}
pub struct MerkleTree<H: Hasher> {
    layers: Vec<Vec<H::Hash>>,
}
impl<H: Hasher> MerkleTree<H> {
    pub fn from_leaves(leaves: &[H::Hash]) -> Self {
        let mut layers = vec![leaves.to_vec()];
        while layers.last().unwrap().len() > 1 {
            let next = layers
                .last()
                .unwrap()
                .chunks(2)
                .map(|c| H::concat_and_hash(&c[0], c.get(1)))
                .collect();
            layers.push(next);
        }
        Self { layers }
    }
    pub fn root(&self) -> Option<H::Hash> {
        self.layers.last().and_then(|l| l.first()).copied()
    }
    pub fn leaves_len(&self) -> usize {
        self.layers[0].len()
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<H> {
        let mut known: Vec<usize> = indices.to_vec();
        known.sort_unstable();
        known.dedup();
        let mut hashes = vec![];
        for layer in &self.layers {
            if layer.len() <= 1 {
                break;
            }
            for i in &known {
                let sibling = i ^ 1;
                if !known.contains(&sibling) {
                    if let Some(h) = layer.get(sibling) {
                        hashes.push(*h);
                    }
                }
            }
            known = known.iter().map(|i| i / 2).collect();
            known.dedup();
        }
        MerkleProof { hashes }
    }
}
pub struct MerkleProof<H: Hasher> {
    hashes: Vec<H::Hash>,
}
impl<H: Hasher> MerkleProof<H> {
    pub fn proof_hashes(&self) -> &[H::Hash] {
        &self.hashes
    }
}
