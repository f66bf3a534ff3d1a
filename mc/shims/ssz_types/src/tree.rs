use tree_hash::{Hash256, MerkleHasher, TreeHash, TreeHashType, BYTES_PER_CHUNK};
use typenum::Unsigned;

pub fn vec_tree_hash_root<T: TreeHash, N: Unsigned>(vec: &[T]) -> Hash256 {
    match T::tree_hash_type() {
        TreeHashType::Basic => {
            let mut hasher = MerkleHasher::with_leaves(N::to_usize().div_ceil(T::tree_hash_packing_factor()));
            for item in vec {
                hasher.write(&item.tree_hash_packed_encoding()).expect("fits");
            }
            hasher.finish().expect("fits")
        }
        _ => {
            let mut hasher = MerkleHasher::with_leaves(N::to_usize());
            for item in vec {
                hasher.write(item.tree_hash_root().as_slice()).expect("fits");
            }
            hasher.finish().expect("fits")
        }
    }
}
#[allow(dead_code)]
const _: usize = BYTES_PER_CHUNK;
