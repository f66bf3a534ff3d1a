use crate::TrieError;
use std::cmp::min;

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Nibbles {
    hex_data: Vec<u8>,
}
impl Nibbles {
    pub fn from_hex(hex: &[u8]) -> Self {
        Self { hex_data: hex.to_vec() }
    }
    pub fn from_raw(raw: &[u8], is_leaf: bool) -> Self {
        let mut hex_data: Vec<u8> = raw.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        if is_leaf {
            hex_data.push(16);
        }
        Self { hex_data }
    }
    pub fn from_compact(compact: &[u8]) -> Self {
        Self::try_from_compact(compact).expect("invalid data")
    }
    pub fn try_from_compact(compact: &[u8]) -> Result<Self, TrieError> {
        let Some((flag, rest)) = compact.split_first() else {
            return Err(TrieError::InvalidData);
        };
        let mut hex = vec![];
        match flag >> 4 {
            0 | 2 => {}
            1 | 3 => hex.push(flag & 15),
            _ => return Err(TrieError::InvalidData),
        }
        hex.extend(rest.iter().flat_map(|b| [b >> 4, b & 15]));
        if flag >> 4 >= 2 {
            hex.push(16);
        }
        Ok(Self { hex_data: hex })
    }
    pub fn is_leaf(&self) -> bool {
        self.hex_data.last() == Some(&16)
    }
    pub fn encode_compact(&self) -> Vec<u8> {
        let is_leaf = self.is_leaf();
        let hex = if is_leaf {
            &self.hex_data[..self.hex_data.len() - 1]
        } else {
            &self.hex_data[..]
        };
        let mut flag = if is_leaf { 0x20 } else { 0 };
        let rest = if hex.len() % 2 == 1 {
            flag |= 0x10 | hex[0];
            &hex[1..]
        } else {
            hex
        };
        let mut out = vec![flag];
        out.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
        out
    }
    pub fn encode_raw(&self) -> (Vec<u8>, bool) {
        let is_leaf = self.is_leaf();
        let n = self.hex_data.len() - is_leaf as usize;
        let raw = self.hex_data[..n].chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect();
        (raw, is_leaf)
    }
    pub fn at(&self, i: usize) -> usize {
        self.hex_data[i] as usize
    }
    pub fn common_prefix(&self, other: &Nibbles) -> usize {
        let n = min(self.len(), other.len());
        (0..n).find(|i| self.at(*i) != other.at(*i)).unwrap_or(n)
    }
    pub fn offset(&self, index: usize) -> Nibbles {
        self.slice(index, self.hex_data.len())
    }
    pub fn slice(&self, start: usize, end: usize) -> Nibbles {
        Nibbles::from_hex(&self.hex_data[start..end])
    }
    pub fn get_data(&self) -> &[u8] {
        &self.hex_data
    }
    pub fn join(&self, b: &Nibbles) -> Nibbles {
        let mut d = self.hex_data.clone();
        d.extend(b.get_data());
        Nibbles::from_hex(&d)
    }
    pub fn extend(&mut self, b: &Nibbles) {
        self.hex_data.extend(b.get_data());
    }
    pub fn truncate(&mut self, len: usize) {
        self.hex_data.truncate(len)
    }
    pub fn pop(&mut self) -> Option<u8> {
        self.hex_data.pop()
    }
    pub fn push(&mut self, e: u8) {
        self.hex_data.push(e)
    }
    pub fn len(&self) -> usize {
        self.hex_data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.hex_data.is_empty()
    }
}
