//! Blocks of the execution chain, as plain data.

use spec::{bytes, num, rlp, trie, Rlp};

pub type Hash = [u8; 32];

pub fn empty_root() -> Hash {
    trie::keccak(&[0x80])
}

/// A header and what follows from it.
#[derive(Clone)]
pub struct Head {
    pub number: u64,
    pub timestamp: u64,
    pub state: Hash,
    pub transactions: Hash,
    pub receipts: Hash,
    pub uncles: Hash,
    pub beneficiary: [u8; 20],
    pub difficulty: u128,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub mix: Hash,
    pub extra: Vec<u8>,
    /// Everything later forks added, in order: base fee, withdrawals root, blob gas used, excess
    /// blob gas, parent beacon root, requests hash.
    pub base_fee: Option<u64>,
    pub withdrawals: Option<Hash>,
    pub blobs: Option<(u64, u64, Hash)>,
    pub requests: Option<Hash>,
}

impl Head {
    pub fn at(number: u64) -> Head {
        Head {
            number,
            timestamp: 1_500_000_000 + number,
            state: empty_root(),
            transactions: empty_root(),
            receipts: empty_root(),
            uncles: trie::keccak(&[0xc0]),
            beneficiary: [0xbe; 20],
            difficulty: 7000,
            gas_limit: 30_000_000,
            gas_used: 21_000,
            mix: [0x11; 32],
            extra: b"extra".to_vec(),
            base_fee: None,
            withdrawals: None,
            blobs: None,
            requests: None,
        }
    }

    pub fn rlp(&self) -> Vec<u8> {
        let mut l: Vec<Rlp> = vec![
            bytes(&[0x99; 32]),
            bytes(&self.uncles),
            bytes(&self.beneficiary),
            bytes(&self.state),
            bytes(&self.transactions),
            bytes(&self.receipts),
            bytes(&[0; 256]),
            num(self.difficulty),
            num(self.number.into()),
            num(self.gas_limit.into()),
            num(self.gas_used.into()),
            num(self.timestamp.into()),
            bytes(&self.extra),
            bytes(&self.mix),
            bytes(&[0x77; 8]),
        ];
        if let Some(fee) = self.base_fee {
            l.push(num(fee.into()));
        }
        if let Some(w) = &self.withdrawals {
            l.push(bytes(w));
        }
        if let Some((used, excess, root)) = &self.blobs {
            l.extend([num((*used).into()), num((*excess).into()), bytes(root)]);
        }
        if let Some(r) = &self.requests {
            l.push(bytes(r));
        }
        rlp(&Rlp::List(l))
    }

    pub fn hash(&self) -> Hash {
        trie::keccak(&self.rlp())
    }

    /// The header of a block of one of the five kinds of proof, the first without a base fee.
    pub fn of(fork: usize) -> Head {
        let mut h = Head::at([1000, 13_000_000, 15_600_000, 17_100_000, 19_500_000][fork]);
        if fork > 0 {
            h.base_fee = Some(7_000_000_000);
        }
        if fork > 1 {
            h.difficulty = 0;
            h.timestamp = 1_664_000_000;
        }
        if fork > 2 {
            h.timestamp = 1_682_000_000;
            h.withdrawals = Some(empty_root());
        }
        if fork > 3 {
            h.timestamp = 1_711_000_000;
            h.blobs = Some((131_072, 262_144, [0x55; 32]));
        }
        h
    }

    /// The header as content, with a proof that has the right form for a header of its time.
    pub fn content(&self) -> Vec<u8> {
        let hashes = |salt, n| spec::beacon::hashes(salt, n);
        let (block, execution) = match (self.blobs.is_some(), self.withdrawals.is_some(), self.difficulty) {
            (true, _, _) => (13, 12),
            (_, true, _) => (13, 11),
            (_, _, 0) => (14, 11),
            _ => (0, 0),
        };
        let proof = match block {
            0 => hashes(1, 15),
            n => [hashes(1, n), hashes(2, 1), hashes(3, execution), 6_000_000u64.to_le_bytes().to_vec()].concat(),
        };
        spec::container(&[spec::Var(self.rlp()), spec::Var(proof)])
    }
}
