//! Keccak-256 with the `tiny-keccak` API subset used by `alloy-primitives`.

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const RHO: [u32; 24] = [
    1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
];
const PI: [usize; 24] = [
    10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
];

fn keccakf(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PI[i]];
            a[PI[i]] = last.rotate_left(RHO[i]);
            last = t;
        }
        for y in 0..5 {
            let row: [u64; 5] = a[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}

#[derive(Clone)]
pub struct Keccak {
    state: [u64; 25],
    buf: [u8; 136],
    len: usize,
}

impl Keccak {
    pub fn v256() -> Self {
        Self { state: [0; 25], buf: [0; 136], len: 0 }
    }
    fn absorb(&mut self) {
        for i in 0..17 {
            self.state[i] ^= u64::from_le_bytes(self.buf[8 * i..8 * i + 8].try_into().unwrap());
        }
        keccakf(&mut self.state);
        self.len = 0;
    }
}

impl Hasher for Keccak {
    fn update(&mut self, mut input: &[u8]) {
        while !input.is_empty() {
            let n = input.len().min(136 - self.len);
            self.buf[self.len..self.len + n].copy_from_slice(&input[..n]);
            self.len += n;
            input = &input[n..];
            if self.len == 136 {
                self.absorb();
            }
        }
    }
    fn finalize(mut self, output: &mut [u8]) {
        let l = self.len;
        self.buf[l..].fill(0);
        self.buf[l] = 0x01;
        self.buf[135] |= 0x80;
        self.absorb();
        let mut bytes = [0u8; 32];
        for i in 0..4 {
            bytes[8 * i..8 * i + 8].copy_from_slice(&self.state[i].to_le_bytes());
        }
        output.copy_from_slice(&bytes[..output.len()]);
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn empty_digest() {
        let mut out = [0u8; 32];
        Keccak::v256().finalize(&mut out);
        assert_eq!(out[..4], [0xc5, 0xd2, 0x46, 0x01]);
        assert_eq!(out[31], 0x70);
    }
}
