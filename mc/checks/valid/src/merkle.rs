//! Merkle trees and branches.
use alloy::primitives::B256;
use spec::merkle::{fold, Root, Tree};
use trin_validation::merkle::proof::{verify_merkle_proof, MerkleTree};
use vc::{check, check_eq, Ch, Ctx, Res};

fn leaf(i: usize) -> Root {
    spec::hash(3 + 5 * i as u8)
}
fn b(r: &Root) -> B256 {
    B256::from(*r)
}
fn list(r: &[Root]) -> Vec<B256> {
    r.iter().map(b).collect()
}

/// The verdict has to be that of recomputing the root.
fn judge(ch: &mut Ch, what: &str, leaf: &Root, branch: &[Root], depth: usize, index: usize, root: &Root) -> Result<bool, String> {
    ch.eval();
    let want = branch.len() == depth && fold(leaf, branch, index) == *root;
    let got = verify_merkle_proof(b(leaf), &list(branch), depth, index, b(root));
    check_eq!(got, want, "verdict on {what}");
    Ok(got)
}

fn proof_changes(ch: &mut Ch, leaf_: &Root, branch: &[Root], index: usize, root: &Root) -> Res {
    let depth = branch.len();
    check!(judge(ch, "the branch itself", leaf_, branch, depth, index, root)?, "the branch of leaf {index} is refused");
    let mut bad = vec![];
    for byte in [0, 15, 31] {
        for bit in [1u8, 0x80] {
            let flip = |r: &Root| {
                let mut r = *r;
                r[byte] ^= bit;
                r
            };
            bad.push(judge(ch, "another leaf", &flip(leaf_), branch, depth, index, root)?);
            bad.push(judge(ch, "another root", leaf_, branch, depth, index, &flip(root))?);
            for i in 0..depth {
                let mut l = branch.to_vec();
                l[i] = flip(&l[i]);
                bad.push(judge(ch, "another sibling", leaf_, &l, depth, index, root)?);
            }
        }
    }
    for other in 0..1usize << depth {
        // A branch of equal siblings is the same at both positions.
        let got = judge(ch, "another index", leaf_, branch, depth, other, root)?;
        if other != index && branch.iter().all(|s| s != leaf_) {
            bad.push(got);
        }
    }
    for i in 1..depth {
        let mut l = branch.to_vec();
        l.swap(i - 1, i);
        if l != branch {
            bad.push(judge(ch, "swapped siblings", leaf_, &l, depth, index, root)?);
        }
    }
    for cut in 0..depth {
        bad.push(judge(ch, "a short branch", leaf_, &branch[..cut], depth, index, root)?);
        bad.push(judge(ch, "a short branch of its depth", leaf_, &branch[..cut], cut, index, root)?);
        bad.push(judge(ch, "a smaller depth", leaf_, branch, cut, index, root)?);
    }
    let longer = [branch, &[[0; 32]]].concat();
    bad.push(judge(ch, "a long branch", leaf_, &longer, depth, index, root)?);
    bad.push(judge(ch, "a longer branch of its depth", leaf_, &longer, depth + 1, index, root)?);
    bad.push(judge(ch, "a greater depth", leaf_, branch, depth + 1, index, root)?);
    bad.push(judge(ch, "a greater depth", leaf_, branch, usize::MAX, index, root)?);
    check!(!bad.contains(&true), "a changed proof of leaf {index} is accepted");
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push,
    Finalize(usize),
    Reload,
}

fn observe(ch: &mut Ch, t: &MerkleTree, leaves: &[Root], finalised: usize, depth: usize) -> Res {
    let want = Tree::new(leaves, depth);
    check_eq!(t.hash(), b(&want.root()), "root");
    // Finalising in steps leaves only the subtrees that are complete; the leaves outside of them
    // can still be proven.
    for i in finalised..leaves.len() {
        ch.eval();
        let (l, branch) = t.generate_proof(i, depth).map_err(|e| format!("no branch for leaf {i}: {e:?}"))?;
        check_eq!(l, b(&leaves[i]), "proven leaf");
        check_eq!(branch, list(&want.branch(i)), "branch of leaf {i}");
    }
    Ok(())
}

pub fn v01(ctx: &Ctx) {
    let max = ctx.b(4, 6);
    ctx.range("trees and their branches", (0..=max).map(|d| (1u64 << d) + 1).sum(), |n, ch| {
        let mut depth = 0;
        let mut n = n as usize;
        while n > 1 << depth {
            n -= (1 << depth) + 1;
            depth += 1;
        }
        for kind in 0..3 {
            // Distinct leaves, equal leaves, zero leaves among others.
            let leaves: Vec<Root> = (0..n)
                .map(|i| match kind {
                    0 => leaf(i),
                    1 => leaf(7),
                    _ if i % 2 == 1 => [0; 32],
                    _ => leaf(i),
                })
                .collect();
            ch.note(|| format!("depth {depth}, {n} leaves of kind {kind}"));
            let want = Tree::new(&leaves, depth);
            let t = MerkleTree::create(&list(&leaves), depth);
            check_eq!(t.hash(), b(&want.root()), "root");
            for i in 0..n {
                let (l, branch) = t.generate_proof(i, depth).map_err(|e| format!("no branch for leaf {i}: {e:?}"))?;
                check_eq!(l, b(&leaves[i]), "proven leaf");
                check_eq!(branch, list(&want.branch(i)), "branch of leaf {i}");
                if kind == 0 {
                    proof_changes(ch, &leaves[i], &want.branch(i), i, &want.root())?;
                } else {
                    check!(judge(ch, "the branch itself", &leaves[i], &want.branch(i), depth, i, &want.root())?, "the branch of leaf {i} is refused");
                }
                ch.steps(1);
            }
            ch.outcome(&(depth, n, kind));
        }
        Ok(())
    });
    let depths: &[usize] = ctx.b(&[1, 2, 3], &[1, 2, 3, 4]);
    let max = ctx.b(6, 8);
    ctx.explore("histories of pushes, finalisations and reloads", |ch| {
        let depth = *ch.choose(depths);
        let start = ch.pick((1 << depth) + 1);
        let mut leaves: Vec<Root> = (0..start).map(leaf).collect();
        let mut finalised = 0usize;
        let mut t = MerkleTree::create(&list(&leaves), depth);
        let length = ch.pick(max) + 1;
        for _ in 0..length {
            let mut ops = vec![Op::Push, Op::Reload];
            ops.extend((finalised.max(1)..=leaves.len()).map(Op::Finalize));
            let op = *ch.choose(&ops);
            ch.note(|| format!("{op:?} at depth {depth} with {} leaves of which {finalised} final", leaves.len()));
            match op {
                Op::Push => {
                    let next = leaf(leaves.len());
                    let got = t.push_leaf(b(&next), depth);
                    check_eq!(got.is_ok(), leaves.len() < 1 << depth, "whether a leaf can be pushed");
                    if got.is_ok() {
                        leaves.push(next);
                    }
                }
                Op::Finalize(n) => {
                    t.finalize_deposits(n, depth).map_err(|e| format!("finalising {n} fails: {e:?}"))?;
                    finalised = n;
                }
                Op::Reload => {
                    let hashes = t.get_finalized_hashes();
                    t = MerkleTree::from_finalized_snapshot(&hashes, finalised, depth).map_err(|e| format!("reloading fails: {e:?}"))?;
                    for l in &leaves[finalised..] {
                        t.push_leaf(b(l), depth).map_err(|e| format!("pushing after reloading fails: {e:?}"))?;
                    }
                }
            }
        }
        observe(ch, &t, &leaves, finalised, depth)?;
        ch.state(&(depth, leaves.len(), finalised));
        ch.outcome(&(depth, leaves.len(), finalised));
        Ok(())
    });
    ctx.explore("snapshots", |ch| {
        // Snapshots that do not fit the count are refused or give the root they describe.
        let depth = ch.pick(4);
        let hashes = ch.pick(5);
        let count = ch.pick((1 << depth) + 2);
        let branch: Vec<B256> = (0..hashes).map(|i| b(&leaf(i))).collect();
        ch.note(|| format!("{hashes} hashes for {count} leaves at depth {depth}"));
        let got = MerkleTree::from_finalized_snapshot(&branch, count, depth);
        let needed = count.count_ones() as usize;
        if count <= 1 << depth && hashes == needed {
            check!(got.is_ok(), "a fitting snapshot is refused");
            // One hash per complete subtree, from the widest to the narrowest.
            let mut r = spec_root(depth, count, &branch);
            if count == 0 {
                r = b(&Tree::new(&[], depth).root());
            }
            check_eq!(got.unwrap().hash(), r, "root of the snapshot");
        } else if hashes < needed && count <= 1 << depth {
            check!(got.is_err(), "a snapshot with too few hashes is accepted");
        }
        ch.outcome(&(depth, hashes, count));
        Ok(())
    });
}

fn spec_root(depth: usize, count: usize, hashes: &[B256]) -> B256 {
    if count == 0 {
        return b(&Tree::new(&[], depth).root());
    }
    if count == 1 << depth {
        return hashes[0];
    }
    let half = 1 << (depth - 1);
    let (l, r) = if count >= half {
        (hashes[0], spec_root(depth - 1, count - half, &hashes[1..]))
    } else {
        (spec_root(depth - 1, count, hashes), b(&Tree::new(&[], depth - 1).root()))
    };
    b(&spec::merkle::node(&l.0, &r.0))
}
