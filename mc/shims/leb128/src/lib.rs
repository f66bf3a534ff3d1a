//! LEB128 (DWARF) variable-length integers with the `leb128` crate's interface and overflow rules.
const CONT: u8 = 1 << 7;
pub mod read {
    use super::CONT;
    use std::{fmt, io};
    #[derive(Debug)]
    pub enum Error {
        IoError(io::Error),
        Overflow,
    }
    impl From<io::Error> for Error {
        fn from(e: io::Error) -> Self {
            Error::IoError(e)
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Error::IoError(e) => e.fmt(f),
                Error::Overflow => write!(f, "The number being read is larger than can be represented"),
            }
        }
    }
    impl std::error::Error for Error {}
    pub fn unsigned<R: io::Read + ?Sized>(r: &mut R) -> Result<u64, Error> {
        let mut result = 0u64;
        let mut shift = 0;
        loop {
            let mut buf = [0u8];
            r.read_exact(&mut buf)?;
            if shift == 63 && buf[0] != 0x00 && buf[0] != 0x01 {
                while buf[0] & CONT != 0 {
                    r.read_exact(&mut buf)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((buf[0] & !CONT) as u64) << shift;
            if buf[0] & CONT == 0 {
                return Ok(result);
            }
            shift += 7;
        }
    }
    pub fn signed<R: io::Read + ?Sized>(r: &mut R) -> Result<i64, Error> {
        let mut result = 0i64;
        let mut shift = 0;
        let mut byte;
        loop {
            let mut buf = [0u8];
            r.read_exact(&mut buf)?;
            byte = buf[0];
            if shift == 63 && byte != 0x00 && byte != 0x7f {
                while buf[0] & CONT != 0 {
                    r.read_exact(&mut buf)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((byte & !CONT) as i64) << shift;
            shift += 7;
            if byte & CONT == 0 {
                break;
            }
        }
        if shift < 64 && byte & 0x40 != 0 {
            result |= !0 << shift;
        }
        Ok(result)
    }
}
pub mod write {
    use super::CONT;
    use std::io;
    pub fn unsigned<W: io::Write + ?Sized>(w: &mut W, mut val: u64) -> Result<usize, io::Error> {
        let mut n = 0;
        loop {
            let mut b = (val & 0x7f) as u8;
            val >>= 7;
            if val != 0 {
                b |= CONT;
            }
            w.write_all(&[b])?;
            n += 1;
            if val == 0 {
                return Ok(n);
            }
        }
    }
    pub fn signed<W: io::Write + ?Sized>(w: &mut W, mut val: i64) -> Result<usize, io::Error> {
        let mut n = 0;
        loop {
            let mut byte = val as u8;
            val >>= 6;
            let done = val == 0 || val == -1;
            if done {
                byte &= !CONT;
            } else {
                val >>= 1;
                byte |= CONT;
            }
            w.write_all(&[byte])?;
            n += 1;
            if done {
                return Ok(n);
            }
        }
    }
}
