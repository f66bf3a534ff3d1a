//! SSZ hash tree roots and branches.
use sha2::{Digest, Sha256};

pub type Root = [u8; 32];

pub fn sha256(b: &[u8]) -> Root {
    Sha256::digest(b).into()
}

pub fn node(a: &Root, b: &Root) -> Root {
    sha256(&[&a[..], &b[..]].concat())
}

/// All levels of the tree over `leaves` padded with zero leaves to `1 << depth`; the last level is
/// the root. Only the nodes above real leaves are stored.
pub struct Tree {
    levels: Vec<Vec<Root>>,
    zeros: Vec<Root>,
}

impl Tree {
    pub fn new(leaves: &[Root], depth: usize) -> Self {
        assert!(leaves.len() <= 1usize << depth);
        let mut zeros = vec![[0; 32]];
        for d in 0..depth {
            zeros.push(node(&zeros[d], &zeros[d]));
        }
        let mut levels = vec![leaves.to_vec()];
        for d in 0..depth {
            let below = &levels[d];
            let up = (0..below.len().div_ceil(2))
                .map(|i| node(&below[2 * i], below.get(2 * i + 1).unwrap_or(&zeros[d])))
                .collect();
            levels.push(up);
        }
        Self { levels, zeros }
    }
    pub fn depth(&self) -> usize {
        self.levels.len() - 1
    }
    pub fn root(&self) -> Root {
        *self.levels[self.depth()].first().unwrap_or(&self.zeros[self.depth()])
    }
    /// Siblings from the leaf up.
    pub fn branch(&self, index: usize) -> Vec<Root> {
        (0..self.depth()).map(|d| *self.levels[d].get((index >> d) ^ 1).unwrap_or(&self.zeros[d])).collect()
    }
}

pub fn fold(leaf: &Root, branch: &[Root], mut index: usize) -> Root {
    let mut r = *leaf;
    for b in branch {
        r = if index & 1 == 1 { node(b, &r) } else { node(&r, b) };
        index >>= 1;
    }
    r
}

fn depth_for(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}

/// Root of a container or vector with the given field roots.
pub fn fields(roots: &[Root]) -> Root {
    Tree::new(roots, depth_for(roots.len())).root()
}

pub fn with_length(root: Root, n: usize) -> Root {
    let mut len = [0; 32];
    len[..8].copy_from_slice(&(n as u64).to_le_bytes());
    node(&root, &len)
}

pub fn uint(n: u64) -> Root {
    let mut r = [0; 32];
    r[..8].copy_from_slice(&n.to_le_bytes());
    r
}

pub fn chunks(b: &[u8]) -> Vec<Root> {
    b.chunks(32)
        .map(|c| {
            let mut r = [0; 32];
            r[..c.len()].copy_from_slice(c);
            r
        })
        .collect()
}

/// Root of a byte vector.
pub fn byte_vector(b: &[u8]) -> Root {
    fields(&chunks(b))
}

/// Root of a byte list with at most `limit` bytes.
pub fn byte_list(b: &[u8], limit: usize) -> Root {
    with_length(Tree::new(&chunks(b), depth_for(limit.div_ceil(32))).root(), b.len())
}
