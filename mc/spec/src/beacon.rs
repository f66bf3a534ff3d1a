//! Light client objects in their SSZ encoding.
use crate::{container, hash, list, merkle, ramp, Fixed, Part, Var};

pub const DIGESTS: [[u8; 4]; 4] = [[0x4a, 0x26, 0xc5, 0x8b], [0xbb, 0xa4, 0xda, 0x96], [0x6a, 0x95, 0xa1, 0xa9], [0xad, 0x53, 0x2c, 0xeb]];
/// Bellatrix, Capella, Deneb, Electra.
pub const ELECTRA: usize = 3;

pub fn le(n: u64) -> Part {
    Fixed(n.to_le_bytes().to_vec())
}

pub fn hashes(salt: u8, n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| hash(salt.wrapping_add(i as u8 * 3))).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Header {
    pub slot: u64,
    pub proposer: u64,
    pub parent: [u8; 32],
    pub state: [u8; 32],
    pub body: [u8; 32],
}

impl Header {
    pub fn at(slot: u64, salt: u8) -> Self {
        Self { slot, proposer: 7, parent: hash(salt), state: hash(salt.wrapping_add(1)), body: hash(salt.wrapping_add(2)) }
    }
    pub fn encode(&self) -> Vec<u8> {
        container(&[le(self.slot), le(self.proposer), Fixed(self.parent.into()), Fixed(self.state.into()), Fixed(self.body.into())])
    }
    pub fn root(&self) -> [u8; 32] {
        merkle::fields(&[merkle::uint(self.slot), merkle::uint(self.proposer), self.parent, self.state, self.body])
    }
}

pub fn payload_header(fork: usize, extra: usize) -> Vec<u8> {
    let mut parts = vec![
        Fixed(hash(10).into()),
        Fixed(ramp(11, 20)),
        Fixed(hash(12).into()),
        Fixed(hash(13).into()),
        Fixed(ramp(14, 256)),
        Fixed(hash(15).into()),
        le(1),
        le(2),
        le(3),
        le(4),
        Var(ramp(16, extra)),
        Fixed(hash(17).into()),
        Fixed(hash(18).into()),
        Fixed(hash(19).into()),
        Fixed(hash(20).into()),
    ];
    if fork >= 2 {
        parts.extend([le(5), le(6)]);
    }
    container(&parts)
}

pub fn light_header(fork: usize, h: &Header) -> Part {
    if fork == 0 {
        Fixed(h.encode())
    } else {
        Var(container(&[Fixed(h.encode()), Var(payload_header(fork, 3)), Fixed(hashes(30, 4))]))
    }
}

fn long(fork: usize) -> usize {
    (fork == ELECTRA) as usize
}

pub fn committee(salt: u8) -> Vec<u8> {
    [ramp(salt, 512 * 48), ramp(salt ^ 0x55, 48)].concat()
}

/// Participation bits and signature.
pub fn aggregate(salt: u8) -> Vec<u8> {
    [ramp(salt, 64), ramp(salt ^ 0x55, 96)].concat()
}

fn forked(fork: usize, body: Vec<u8>) -> Vec<u8> {
    [DIGESTS[fork].to_vec(), body].concat()
}

pub struct Bootstrap {
    pub fork: usize,
    pub header: Header,
    pub committee: Vec<u8>,
    pub branch: Vec<u8>,
}
impl Bootstrap {
    pub fn at(fork: usize, header: Header) -> Self {
        Self { fork, header, committee: committee(40), branch: hashes(60, 5 + long(fork)) }
    }
    pub fn encode(&self) -> Vec<u8> {
        forked(
            self.fork,
            container(&[light_header(self.fork, &self.header), Fixed(self.committee.clone()), Fixed(self.branch.clone())]),
        )
    }
}

pub struct Update {
    pub fork: usize,
    pub attested: Header,
    pub next_committee: Vec<u8>,
    pub committee_branch: Vec<u8>,
    pub finalized: Header,
    pub finality_branch: Vec<u8>,
    pub aggregate: Vec<u8>,
    pub signature_slot: u64,
}
impl Update {
    pub fn at(fork: usize, attested: Header, finalized: Header, signature_slot: u64) -> Self {
        Self {
            fork,
            attested,
            next_committee: committee(41),
            committee_branch: hashes(61, 5 + long(fork)),
            finalized,
            finality_branch: hashes(62, 6 + long(fork)),
            aggregate: aggregate(50),
            signature_slot,
        }
    }
    /// One update with its fork digest, as it appears in a range of updates.
    pub fn encode(&self) -> Vec<u8> {
        forked(
            self.fork,
            container(&[
                light_header(self.fork, &self.attested),
                Fixed(self.next_committee.clone()),
                Fixed(self.committee_branch.clone()),
                light_header(self.fork, &self.finalized),
                Fixed(self.finality_branch.clone()),
                Fixed(self.aggregate.clone()),
                le(self.signature_slot),
            ]),
        )
    }
    pub fn finality(&self) -> Vec<u8> {
        forked(
            self.fork,
            container(&[
                light_header(self.fork, &self.attested),
                light_header(self.fork, &self.finalized),
                Fixed(self.finality_branch.clone()),
                Fixed(self.aggregate.clone()),
                le(self.signature_slot),
            ]),
        )
    }
    pub fn optimistic(&self) -> Vec<u8> {
        forked(self.fork, container(&[light_header(self.fork, &self.attested), Fixed(self.aggregate.clone()), le(self.signature_slot)]))
    }
}

pub fn range(updates: &[Vec<u8>]) -> Vec<u8> {
    list(updates)
}

/// Historical summaries (pairs of roots) with their proof.
pub fn summaries(fork: usize, epoch: u64, roots: &[u8], proof: &[u8]) -> Vec<u8> {
    forked(fork, container(&[le(epoch), Var(roots.to_vec()), Fixed(proof.to_vec())]))
}
