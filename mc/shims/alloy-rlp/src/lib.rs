//! RLP codec with the API and strictness of `alloy-rlp` 0.3.
use std::{borrow::Cow, rc::Rc, sync::Arc};

pub use alloy_rlp_derive::{
    RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper, RlpMaxEncodedLen,
};
pub use bytes::{self, Buf, BufMut, Bytes, BytesMut};

pub const EMPTY_STRING_CODE: u8 = 0x80;
pub const EMPTY_LIST_CODE: u8 = 0xC0;

pub type Result<T, E = Error> = core::result::Result<T, E>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow,
    LeadingZero,
    InputTooShort,
    NonCanonicalSingleByte,
    NonCanonicalSize,
    UnexpectedLength,
    UnexpectedString,
    UnexpectedList,
    ListLengthMismatch { expected: usize, got: usize },
    Custom(&'static str),
}

impl std::error::Error for Error {}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Overflow => f.write_str("overflow"),
            Error::LeadingZero => f.write_str("leading zero"),
            Error::InputTooShort => f.write_str("input too short"),
            Error::NonCanonicalSingleByte => f.write_str("non-canonical single byte"),
            Error::NonCanonicalSize => f.write_str("non-canonical size"),
            Error::UnexpectedLength => f.write_str("unexpected length"),
            Error::UnexpectedString => f.write_str("unexpected string"),
            Error::UnexpectedList => f.write_str("unexpected list"),
            Error::ListLengthMismatch { got, expected } => {
                write!(f, "unexpected list length (got {got}, expected {expected})")
            }
            Error::Custom(e) => f.write_str(e),
        }
    }
}

/// The header of an RLP item.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Header {
    pub list: bool,
    pub payload_length: usize,
}

#[derive(Debug)]
pub enum PayloadView<'a> {
    String(&'a [u8]),
    List(Vec<&'a [u8]>),
}

fn get_next_byte(buf: &[u8]) -> Result<u8> {
    buf.first().copied().ok_or(Error::InputTooShort)
}

fn advance_unchecked<'a>(buf: &mut &'a [u8], cnt: usize) -> &'a [u8] {
    let bytes = &buf[..cnt];
    *buf = &buf[cnt..];
    bytes
}

fn static_left_pad<const N: usize>(data: &[u8]) -> Result<[u8; N]> {
    if data.len() > N {
        return Err(Error::Overflow);
    }
    let mut v = [0; N];
    if data.is_empty() {
        return Ok(v);
    }
    if data[0] == 0 {
        return Err(Error::LeadingZero);
    }
    v[N - data.len()..].copy_from_slice(data);
    Ok(v)
}

impl Header {
    pub fn decode(buf: &mut &[u8]) -> Result<Self> {
        let payload_length;
        let mut list = false;
        match get_next_byte(buf)? {
            0..=0x7F => payload_length = 1,
            b @ EMPTY_STRING_CODE..=0xB7 => {
                *buf = &buf[1..];
                payload_length = (b - EMPTY_STRING_CODE) as usize;
                if payload_length == 1 && get_next_byte(buf)? < EMPTY_STRING_CODE {
                    return Err(Error::NonCanonicalSingleByte);
                }
            }
            b @ (0xB8..=0xBF | 0xF8..=0xFF) => {
                *buf = &buf[1..];
                list = b >= 0xF8;
                let code = if list { 0xF7 } else { 0xB7 };
                let len_of_len = (b - code) as usize;
                if buf.len() < len_of_len {
                    return Err(Error::InputTooShort);
                }
                let len = advance_unchecked(buf, len_of_len);
                let len = u64::from_be_bytes(static_left_pad(len)?);
                payload_length = usize::try_from(len).map_err(|_| Error::Custom("Input too big"))?;
                if payload_length < 56 {
                    return Err(Error::NonCanonicalSize);
                }
            }
            b @ EMPTY_LIST_CODE..=0xF7 => {
                *buf = &buf[1..];
                list = true;
                payload_length = (b - EMPTY_LIST_CODE) as usize;
            }
        }
        if buf.len() < payload_length {
            return Err(Error::InputTooShort);
        }
        Ok(Self { list, payload_length })
    }

    pub fn decode_bytes<'a>(buf: &mut &'a [u8], is_list: bool) -> Result<&'a [u8]> {
        let Self { list, payload_length } = Self::decode(buf)?;
        if list != is_list {
            return Err(if is_list { Error::UnexpectedString } else { Error::UnexpectedList });
        }
        Ok(advance_unchecked(buf, payload_length))
    }

    pub fn decode_str<'a>(buf: &mut &'a [u8]) -> Result<&'a str> {
        let bytes = Self::decode_bytes(buf, false)?;
        core::str::from_utf8(bytes).map_err(|_| Error::Custom("invalid string"))
    }

    pub fn decode_raw<'a>(buf: &mut &'a [u8]) -> Result<PayloadView<'a>> {
        let Self { list, payload_length } = Self::decode(buf)?;
        let mut payload = advance_unchecked(buf, payload_length);
        if !list {
            return Ok(PayloadView::String(payload));
        }
        let mut items = Vec::new();
        while !payload.is_empty() {
            let start = payload;
            let header = Self::decode(&mut payload)?;
            let header_len = start.len() - payload.len();
            advance_unchecked(&mut payload, header.payload_length);
            items.push(&start[..header_len + header.payload_length]);
        }
        Ok(PayloadView::List(items))
    }

    pub fn encode(&self, out: &mut dyn BufMut) {
        if self.payload_length < 56 {
            let code = if self.list { EMPTY_LIST_CODE } else { EMPTY_STRING_CODE };
            out.put_u8(code + self.payload_length as u8);
        } else {
            let len_be = self.payload_length.to_be_bytes();
            let skip = len_be.iter().take_while(|b| **b == 0).count();
            let len_be = &len_be[skip..];
            let code = if self.list { 0xF7 } else { 0xB7 };
            out.put_u8(code + len_be.len() as u8);
            out.put_slice(len_be);
        }
    }

    pub const fn length(&self) -> usize {
        length_of_length(self.payload_length)
    }

    pub const fn length_with_payload(&self) -> usize {
        self.length() + self.payload_length
    }
}

pub trait Encodable {
    fn encode(&self, out: &mut dyn BufMut);

    fn length(&self) -> usize {
        let mut out = Vec::new();
        self.encode(&mut out);
        out.len()
    }
}

/// # Safety
/// Same contract as upstream.
pub unsafe trait MaxEncodedLen<const LEN: usize>: Encodable {}

/// # Safety
/// Same contract as upstream.
pub unsafe trait MaxEncodedLenAssoc: Encodable {
    const LEN: usize;
}

#[macro_export]
macro_rules! impl_max_encoded_len {
    ($t:ty, $len:expr) => {
        unsafe impl $crate::MaxEncodedLen<{ $len }> for $t {}
        unsafe impl $crate::MaxEncodedLenAssoc for $t {
            const LEN: usize = $len;
        }
    };
}

pub trait Decodable: Sized {
    fn decode(buf: &mut &[u8]) -> Result<Self>;
}

pub const fn length_of_length(payload_length: usize) -> usize {
    if payload_length < 56 {
        1
    } else {
        1 + (usize::BITS as usize / 8) - payload_length.leading_zeros() as usize / 8
    }
}

impl Encodable for [u8] {
    fn length(&self) -> usize {
        let mut len = self.len();
        if len != 1 || self[0] >= EMPTY_STRING_CODE {
            len += length_of_length(len);
        }
        len
    }
    fn encode(&self, out: &mut dyn BufMut) {
        if self.len() != 1 || self[0] >= EMPTY_STRING_CODE {
            Header { list: false, payload_length: self.len() }.encode(out);
        }
        out.put_slice(self);
    }
}

impl<const N: usize> Encodable for [u8; N] {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}

impl<const N: usize> Decodable for [u8; N] {
    fn decode(from: &mut &[u8]) -> Result<Self> {
        let bytes = Header::decode_bytes(from, false)?;
        Self::try_from(bytes).map_err(|_| Error::UnexpectedLength)
    }
}

impl Encodable for str {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}

impl Encodable for String {
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
}

impl Decodable for String {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_str(buf).map(Into::into)
    }
}

impl Encodable for bool {
    fn length(&self) -> usize {
        1
    }
    fn encode(&self, out: &mut dyn BufMut) {
        out.put_u8(if *self { 1 } else { EMPTY_STRING_CODE });
    }
}

impl Decodable for bool {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Ok(match u8::decode(buf)? {
            0 => false,
            1 => true,
            _ => return Err(Error::Custom("invalid bool value, must be 0 or 1")),
        })
    }
}

macro_rules! uint_impl {
    ($($t:ty),+) => {$(
        impl Encodable for $t {
            fn length(&self) -> usize {
                let x = *self;
                if x < EMPTY_STRING_CODE as $t {
                    1
                } else {
                    1 + (<$t>::BITS as usize / 8) - (x.leading_zeros() as usize / 8)
                }
            }
            fn encode(&self, out: &mut dyn BufMut) {
                let x = *self;
                if x == 0 {
                    out.put_u8(EMPTY_STRING_CODE);
                } else if x < EMPTY_STRING_CODE as $t {
                    out.put_u8(x as u8);
                } else {
                    let be = x.to_be_bytes();
                    let skip = x.leading_zeros() as usize / 8;
                    let be = &be[skip..];
                    out.put_u8(EMPTY_STRING_CODE + be.len() as u8);
                    out.put_slice(be);
                }
            }
        }
        impl_max_encoded_len!($t, {
            let bytes = <$t>::BITS as usize / 8;
            bytes + length_of_length(bytes)
        });
        impl Decodable for $t {
            fn decode(buf: &mut &[u8]) -> Result<Self> {
                let bytes = Header::decode_bytes(buf, false)?;
                static_left_pad(bytes).map(<$t>::from_be_bytes)
            }
        }
    )+};
}
uint_impl!(u8, u16, u32, u64, usize, u128);

impl<T: Encodable> Encodable for Vec<T> {
    fn length(&self) -> usize {
        list_length(self)
    }
    fn encode(&self, out: &mut dyn BufMut) {
        encode_list(self, out)
    }
}

impl<T: Decodable> Decodable for Vec<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let mut bytes = Header::decode_bytes(buf, true)?;
        let mut vec = Self::new();
        let payload_view = &mut bytes;
        while !payload_view.is_empty() {
            vec.push(T::decode(payload_view)?);
        }
        Ok(vec)
    }
}

impl Encodable for Bytes {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl Decodable for Bytes {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(|x| Self::from(x.to_vec()))
    }
}
impl Encodable for BytesMut {
    fn length(&self) -> usize {
        self[..].length()
    }
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl Decodable for BytesMut {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(Self::from)
    }
}

macro_rules! deref_impl {
    ($($(#[$attr:meta])* [$($gen:tt)*] $t:ty),+ $(,)?) => {$(
        impl<$($gen)*> Encodable for $t {
            fn length(&self) -> usize { (**self).length() }
            fn encode(&self, out: &mut dyn BufMut) { (**self).encode(out) }
        }
    )+};
}
deref_impl! {
    [T: ?Sized + Encodable] &T,
    [T: ?Sized + Encodable] &mut T,
    [T: ?Sized + Encodable] Box<T>,
    [T: ?Sized + Encodable] Rc<T>,
    [T: ?Sized + Encodable] Arc<T>,
    [T: ?Sized + Encodable + ToOwned] Cow<'_, T>,
}

macro_rules! wrap_impl {
    ($([$($gen:tt)*] <$inner:ty> :: $f:ident -> $t:ty),+ $(,)?) => {$(
        impl<$($gen)*> Decodable for $t {
            fn decode(buf: &mut &[u8]) -> Result<Self> {
                <$inner as Decodable>::decode(buf).map(<$t>::$f)
            }
        }
    )+};
}
wrap_impl! {
    [T: Decodable] <T>::new -> Box<T>,
    [T: Decodable] <T>::new -> Rc<T>,
    [T: Decodable] <T>::new -> Arc<T>,
}

impl<T: ?Sized + ToOwned> Decodable for Cow<'_, T>
where
    T::Owned: Decodable,
{
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        T::Owned::decode(buf).map(Self::Owned)
    }
}

impl<T: Encodable> Encodable for [T]
where
    T: NotU8,
{
    fn length(&self) -> usize {
        list_length(self)
    }
    fn encode(&self, out: &mut dyn BufMut) {
        encode_list(self, out)
    }
}
/// Upstream does not implement `Encodable` for generic slices; this marker is never implemented.
pub trait NotU8 {}

impl Encodable for std::net::IpAddr {
    fn length(&self) -> usize {
        match self {
            Self::V4(ip) => ip.octets().length(),
            Self::V6(ip) => ip.octets().length(),
        }
    }
    fn encode(&self, out: &mut dyn BufMut) {
        match self {
            Self::V4(ip) => ip.octets().encode(out),
            Self::V6(ip) => ip.octets().encode(out),
        }
    }
}
impl Encodable for std::net::Ipv4Addr {
    fn encode(&self, out: &mut dyn BufMut) {
        self.octets().encode(out)
    }
}
impl Decodable for std::net::Ipv4Addr {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        <[u8; 4]>::decode(buf).map(Self::from)
    }
}
impl Encodable for std::net::Ipv6Addr {
    fn encode(&self, out: &mut dyn BufMut) {
        self.octets().encode(out)
    }
}
impl Decodable for std::net::Ipv6Addr {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        <[u8; 16]>::decode(buf).map(Self::from)
    }
}

pub fn encode<T: Encodable>(value: T) -> Vec<u8> {
    let mut out = Vec::with_capacity(value.length());
    value.encode(&mut out);
    out
}

pub fn encode_list<B, T>(values: &[B], out: &mut dyn BufMut)
where
    B: core::borrow::Borrow<T>,
    T: ?Sized + Encodable,
{
    rlp_list_header(values).encode(out);
    for value in values {
        value.borrow().encode(out);
    }
}

pub fn encode_iter<I, B, T>(values: I, out: &mut dyn BufMut)
where
    I: Iterator<Item = B> + Clone,
    B: core::borrow::Borrow<T>,
    T: ?Sized + Encodable,
{
    let payload_length = values.clone().map(|x| x.borrow().length()).sum();
    Header { list: true, payload_length }.encode(out);
    for value in values {
        value.borrow().encode(out);
    }
}

pub fn list_length<B, T>(values: &[B]) -> usize
where
    B: core::borrow::Borrow<T>,
    T: ?Sized + Encodable,
{
    rlp_list_header(values).length_with_payload()
}

pub fn encode_fixed_size<T: Encodable, const LEN: usize>(value: &T) -> Vec<u8> {
    encode(value)
}

fn rlp_list_header<B, T>(values: &[B]) -> Header
where
    B: core::borrow::Borrow<T>,
    T: ?Sized + Encodable,
{
    let mut h = Header { list: true, payload_length: 0 };
    for value in values {
        h.payload_length += value.borrow().length();
    }
    h
}

pub fn decode_exact<T: Decodable>(bytes: impl AsRef<[u8]>) -> Result<T> {
    let mut buf = bytes.as_ref();
    let out = T::decode(&mut buf)?;
    if !buf.is_empty() {
        return Err(Error::UnexpectedLength);
    }
    Ok(out)
}

/// An active RLP decoder, with a specific slice of a payload.
#[derive(Debug)]
pub struct Rlp<'a> {
    payload_view: &'a [u8],
}

impl<'a> Rlp<'a> {
    pub fn new(mut payload: &'a [u8]) -> Result<Self> {
        let payload_view = Header::decode_bytes(&mut payload, true)?;
        Ok(Self { payload_view })
    }
    pub fn get_next<T: Decodable>(&mut self) -> Result<Option<T>> {
        if self.payload_view.is_empty() {
            Ok(None)
        } else {
            T::decode(&mut self.payload_view).map(Some)
        }
    }
}
