//! Snappy raw and frame formats. The encoders store literals only (valid, not compact).
use std::{fmt, io};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Corrupt(&'static str),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "snappy: {self:?}")
    }
}
impl std::error::Error for Error {}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        io::Error::new(io::ErrorKind::Other, e)
    }
}

fn varint(b: &[u8]) -> Result<(usize, usize), Error> {
    let (mut v, mut s) = (0u64, 0);
    for (i, x) in b.iter().enumerate().take(5) {
        v |= ((x & 0x7f) as u64) << s;
        if x & 0x80 == 0 {
            if v > u32::MAX as u64 {
                break;
            }
            return Ok((v as usize, i + 1));
        }
        s += 7;
    }
    Err(Error::Corrupt("header"))
}

fn raw_decompress(b: &[u8]) -> Result<Vec<u8>, Error> {
    let (len, mut i) = varint(b)?;
    let mut out = Vec::with_capacity(len.min(1 << 24));
    let need = |i: usize, n: usize| if i + n <= b.len() { Ok(()) } else { Err(Error::Corrupt("truncated")) };
    while i < b.len() {
        let tag = b[i];
        i += 1;
        if tag & 3 == 0 {
            let mut n = (tag >> 2) as usize;
            if n >= 60 {
                let k = n - 59;
                need(i, k)?;
                n = 0;
                for j in 0..k {
                    n |= (b[i + j] as usize) << (8 * j);
                }
                i += k;
            }
            n += 1;
            need(i, n)?;
            out.extend_from_slice(&b[i..i + n]);
            i += n;
        } else {
            let (n, off) = match tag & 3 {
                1 => {
                    need(i, 1)?;
                    let r = (4 + ((tag >> 2) & 7) as usize, ((tag >> 5) as usize) << 8 | b[i] as usize);
                    i += 1;
                    r
                }
                2 => {
                    need(i, 2)?;
                    let r = (1 + (tag >> 2) as usize, b[i] as usize | (b[i + 1] as usize) << 8);
                    i += 2;
                    r
                }
                _ => {
                    need(i, 4)?;
                    let r = (
                        1 + (tag >> 2) as usize,
                        u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize,
                    );
                    i += 4;
                    r
                }
            };
            if off == 0 || off > out.len() {
                return Err(Error::Corrupt("offset"));
            }
            for _ in 0..n {
                out.push(out[out.len() - off]);
            }
        }
        if out.len() > len {
            return Err(Error::Corrupt("too long"));
        }
    }
    if out.len() != len {
        return Err(Error::Corrupt("length mismatch"));
    }
    Ok(out)
}

fn crc_masked(data: &[u8]) -> u32 {
    fn table() -> [u32; 256] {
        std::array::from_fn(|i| {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 };
            }
            c
        })
    }
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(table);
    let crc = !data.iter().fold(!0u32, |c, b| t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8));
    crc.rotate_right(15).wrapping_add(0xa282ead8)
}

pub mod raw {
    use super::*;
    #[derive(Default, Debug, Clone)]
    pub struct Decoder(());
    impl Decoder {
        pub fn new() -> Self {
            Self(())
        }
        pub fn decompress_vec(&mut self, b: &[u8]) -> Result<Vec<u8>, Error> {
            raw_decompress(b)
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct Encoder(());
    impl Encoder {
        pub fn new() -> Self {
            Self(())
        }
        pub fn compress_vec(&mut self, b: &[u8]) -> Result<Vec<u8>, Error> {
            let mut out = vec![];
            let mut n = b.len();
            loop {
                let low = (n & 0x7f) as u8;
                n >>= 7;
                if n == 0 {
                    out.push(low);
                    break;
                }
                out.push(low | 0x80);
            }
            for c in b.chunks(60) {
                out.push(((c.len() - 1) as u8) << 2);
                out.extend_from_slice(c);
            }
            Ok(out)
        }
    }
}

const MAGIC: [u8; 10] = [0xff, 6, 0, 0, b's', b'N', b'a', b'P', b'p', b'Y'];

pub mod read {
    use super::*;
    #[derive(Debug)]
    pub struct FrameDecoder<R: io::Read> {
        inner: R,
        out: io::Cursor<Vec<u8>>,
        started: bool,
    }
    impl<R: io::Read> FrameDecoder<R> {
        pub fn new(inner: R) -> Self {
            Self { inner, out: io::Cursor::new(vec![]), started: false }
        }
        fn next_chunk(&mut self) -> io::Result<Option<Vec<u8>>> {
            loop {
                let mut head = [0u8; 4];
                let mut got = 0;
                while got < 4 {
                    let n = self.inner.read(&mut head[got..])?;
                    if n == 0 {
                        break;
                    }
                    got += n;
                }
                if got == 0 {
                    return Ok(None);
                }
                if got < 4 {
                    return Err(io::ErrorKind::UnexpectedEof.into());
                }
                let len = u32::from_le_bytes([head[1], head[2], head[3], 0]) as usize;
                if !self.started {
                    if head[0] != 0xff {
                        return Err(Error::Corrupt("stream header").into());
                    }
                    self.started = true;
                }
                let mut body = vec![0; len];
                self.inner.read_exact(&mut body)?;
                match head[0] {
                    0xff => {
                        if body != MAGIC[4..] {
                            return Err(Error::Corrupt("stream header").into());
                        }
                    }
                    0 | 1 => {
                        if len < 4 || len > 4 + 76490 {
                            return Err(Error::Corrupt("chunk length").into());
                        }
                        let crc = u32::from_le_bytes(body[..4].try_into().unwrap());
                        let data = if head[0] == 0 {
                            raw_decompress(&body[4..])?
                        } else {
                            body[4..].to_vec()
                        };
                        if data.len() > 65536 {
                            return Err(Error::Corrupt("chunk length").into());
                        }
                        if crc_masked(&data) != crc {
                            return Err(Error::Corrupt("checksum").into());
                        }
                        return Ok(Some(data));
                    }
                    0x80..=0xfe => {}
                    _ => return Err(Error::Corrupt("chunk type").into()),
                }
            }
        }
    }
    impl<R: io::Read> io::Read for FrameDecoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            loop {
                let n = self.out.read(buf)?;
                if n > 0 || buf.is_empty() {
                    return Ok(n);
                }
                match self.next_chunk()? {
                    Some(c) => self.out = io::Cursor::new(c),
                    None => return Ok(0),
                }
            }
        }
    }
}

pub mod write {
    use super::*;
    #[derive(Debug)]
    pub struct FrameEncoder<W: io::Write> {
        inner: Option<W>,
        buf: Vec<u8>,
        started: bool,
    }
    impl<W: io::Write> FrameEncoder<W> {
        pub fn new(w: W) -> Self {
            Self { inner: Some(w), buf: vec![], started: false }
        }
        pub fn get_ref(&self) -> &W {
            self.inner.as_ref().unwrap()
        }
        pub fn get_mut(&mut self) -> &mut W {
            self.inner.as_mut().unwrap()
        }
        fn emit(&mut self) -> io::Result<()> {
            if self.buf.is_empty() {
                return Ok(());
            }
            let w = self.inner.as_mut().unwrap();
            if !self.started {
                w.write_all(&MAGIC)?;
                self.started = true;
            }
            for c in self.buf.chunks(65536) {
                let len = (c.len() + 4) as u32;
                let l = len.to_le_bytes();
                w.write_all(&[1, l[0], l[1], l[2]])?;
                w.write_all(&crc_masked(c).to_le_bytes())?;
                w.write_all(c)?;
            }
            self.buf.clear();
            Ok(())
        }
        pub fn into_inner(mut self) -> Result<W, IntoInnerError<FrameEncoder<W>>> {
            match self.emit() {
                Ok(()) => Ok(self.inner.take().unwrap()),
                Err(err) => Err(IntoInnerError { wtr: self, err }),
            }
        }
    }
    pub struct IntoInnerError<W> {
        #[allow(dead_code)]
        wtr: W,
        err: io::Error,
    }
    impl<W> IntoInnerError<W> {
        pub fn error(&self) -> &io::Error {
            &self.err
        }
        pub fn into_error(self) -> io::Error {
            self.err
        }
        pub fn into_inner(self) -> W {
            self.wtr
        }
    }
    impl<W> fmt::Debug for IntoInnerError<W> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.err.fmt(f)
        }
    }
    impl<W> fmt::Display for IntoInnerError<W> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.err.fmt(f)
        }
    }
    impl<W> std::error::Error for IntoInnerError<W> {}
    impl<W: io::Write> io::Write for FrameEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.buf.extend_from_slice(b);
            if self.buf.len() >= 65536 {
                self.emit()?;
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            self.emit()?;
            self.inner.as_mut().unwrap().flush()
        }
    }
    impl<W: io::Write> Drop for FrameEncoder<W> {
        fn drop(&mut self) {
            if self.inner.is_some() {
                let _ = self.emit();
            }
        }
    }
}
