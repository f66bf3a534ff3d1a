//! Thin rusqlite-compatible layer over the system libsqlite3, plus a statement
//! level fault hook (`fault`) used by the crash-point explorer.
use std::{
    ffi::{c_char, c_int, c_void, CStr, CString},
    fmt,
    marker::PhantomData,
    path::Path,
    ptr,
};

#[repr(C)]
pub struct sqlite3 {
    _p: [u8; 0],
}
#[repr(C)]
pub struct sqlite3_stmt {
    _p: [u8; 0],
}
extern "C" {
    fn sqlite3_config(op: c_int, ...) -> c_int;
    fn sqlite3_open_v2(f: *const c_char, db: *mut *mut sqlite3, flags: c_int, vfs: *const c_char) -> c_int;
    fn sqlite3_close_v2(db: *mut sqlite3) -> c_int;
    fn sqlite3_busy_timeout(db: *mut sqlite3, ms: c_int) -> c_int;
    fn sqlite3_prepare_v2(db: *mut sqlite3, sql: *const c_char, n: c_int, st: *mut *mut sqlite3_stmt, tail: *mut *const c_char) -> c_int;
    fn sqlite3_step(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_reset(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_finalize(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_clear_bindings(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_bind_parameter_count(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_bind_parameter_index(s: *mut sqlite3_stmt, n: *const c_char) -> c_int;
    fn sqlite3_bind_int64(s: *mut sqlite3_stmt, i: c_int, v: i64) -> c_int;
    fn sqlite3_bind_double(s: *mut sqlite3_stmt, i: c_int, v: f64) -> c_int;
    fn sqlite3_bind_null(s: *mut sqlite3_stmt, i: c_int) -> c_int;
    fn sqlite3_bind_text(s: *mut sqlite3_stmt, i: c_int, v: *const c_char, n: c_int, d: *const c_void) -> c_int;
    fn sqlite3_bind_blob(s: *mut sqlite3_stmt, i: c_int, v: *const c_void, n: c_int, d: *const c_void) -> c_int;
    fn sqlite3_bind_zeroblob(s: *mut sqlite3_stmt, i: c_int, n: c_int) -> c_int;
    fn sqlite3_column_count(s: *mut sqlite3_stmt) -> c_int;
    fn sqlite3_column_name(s: *mut sqlite3_stmt, i: c_int) -> *const c_char;
    fn sqlite3_column_type(s: *mut sqlite3_stmt, i: c_int) -> c_int;
    fn sqlite3_column_int64(s: *mut sqlite3_stmt, i: c_int) -> i64;
    fn sqlite3_column_double(s: *mut sqlite3_stmt, i: c_int) -> f64;
    fn sqlite3_column_text(s: *mut sqlite3_stmt, i: c_int) -> *const u8;
    fn sqlite3_column_blob(s: *mut sqlite3_stmt, i: c_int) -> *const c_void;
    fn sqlite3_column_bytes(s: *mut sqlite3_stmt, i: c_int) -> c_int;
    fn sqlite3_changes(db: *mut sqlite3) -> c_int;
    fn sqlite3_last_insert_rowid(db: *mut sqlite3) -> i64;
    fn sqlite3_get_autocommit(db: *mut sqlite3) -> c_int;
    fn sqlite3_errmsg(db: *mut sqlite3) -> *const c_char;
    fn sqlite3_extended_errcode(db: *mut sqlite3) -> c_int;
}
const OK: c_int = 0;
const ROW: c_int = 100;
const DONE: c_int = 101;
fn transient() -> *const c_void {
    usize::MAX as *const c_void
}

/// Fault injection: every statement execution is a numbered point; when armed,
/// the n-th point (and all later ones until disarmed) fails before taking effect.
pub mod fault {
    use std::cell::{Cell, RefCell};
    thread_local! {
        static COUNT: Cell<u64> = const { Cell::new(0) };
        static FAIL_AT: Cell<Option<u64>> = const { Cell::new(None) };
        static STICKY: Cell<bool> = const { Cell::new(true) };
        static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    }
    pub fn reset() {
        COUNT.with(|c| c.set(0));
        FAIL_AT.with(|c| c.set(None));
        TRACE.with(|t| *t.borrow_mut() = None);
    }
    /// Arms: point number `n` (0-based) fails; if `sticky`, everything after it fails as well.
    pub fn arm(n: u64, sticky: bool) {
        COUNT.with(|c| c.set(0));
        FAIL_AT.with(|c| c.set(Some(n)));
        STICKY.with(|c| c.set(sticky));
    }
    pub fn disarm() {
        FAIL_AT.with(|c| c.set(None));
    }
    pub fn count() -> u64 {
        COUNT.with(|c| c.get())
    }
    pub fn trace_on() {
        TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
    }
    pub fn trace() -> Vec<String> {
        TRACE.with(|t| t.borrow().clone().unwrap_or_default())
    }
    pub(crate) fn point(sql: &str) -> bool {
        let n = COUNT.with(|c| {
            let n = c.get();
            c.set(n + 1);
            n
        });
        TRACE.with(|t| {
            if let Some(t) = t.borrow_mut().as_mut() {
                t.push(sql.to_string())
            }
        });
        match FAIL_AT.with(|f| f.get()) {
            Some(at) => n == at || (STICKY.with(|s| s.get()) && n > at),
            None => false,
        }
    }
}

pub mod ffi {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error {
        pub code: ErrorCode,
        pub extended_code: i32,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Error code {}", self.extended_code)
        }
    }
    impl std::error::Error for Error {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum ErrorCode {
        InternalMalfunction,
        PermissionDenied,
        OperationAborted,
        DatabaseBusy,
        DatabaseLocked,
        OutOfMemory,
        ReadOnly,
        OperationInterrupted,
        SystemIoFailure,
        DatabaseCorrupt,
        NotFound,
        DiskFull,
        CannotOpen,
        FileLockingProtocolFailed,
        SchemaChanged,
        TooBig,
        ConstraintViolation,
        TypeMismatch,
        ApiMisuse,
        NoLargeFileSupport,
        AuthorizationForStatementDenied,
        ParameterOutOfRange,
        NotADatabase,
        Unknown,
    }
    impl Error {
        pub fn new(c: i32) -> Self {
            let code = match c & 0xff {
                2 => ErrorCode::InternalMalfunction,
                5 => ErrorCode::DatabaseBusy,
                6 => ErrorCode::DatabaseLocked,
                10 => ErrorCode::SystemIoFailure,
                11 => ErrorCode::DatabaseCorrupt,
                13 => ErrorCode::DiskFull,
                14 => ErrorCode::CannotOpen,
                19 => ErrorCode::ConstraintViolation,
                25 => ErrorCode::ParameterOutOfRange,
                26 => ErrorCode::NotADatabase,
                _ => ErrorCode::Unknown,
            };
            Self { code, extended_code: c }
        }
    }
}
pub use ffi::ErrorCode;

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    SqliteFailure(ffi::Error, Option<String>),
    FromSqlConversionFailure(usize, types::Type, Box<dyn std::error::Error + Send + Sync + 'static>),
    IntegralValueOutOfRange(usize, i64),
    InvalidParameterName(String),
    InvalidPath(std::path::PathBuf),
    ExecuteReturnedResults,
    QueryReturnedNoRows,
    InvalidColumnIndex(usize),
    InvalidColumnName(String),
    InvalidColumnType(usize, String, types::Type),
    StatementChangedRows(usize),
    ToSqlConversionFailure(Box<dyn std::error::Error + Send + Sync + 'static>),
    InvalidQuery,
    MultipleStatement,
    InvalidParameterCount(usize, usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::SqliteFailure(e, None) => write!(f, "{e}"),
            Error::SqliteFailure(_, Some(m)) => write!(f, "{m}"),
            Error::FromSqlConversionFailure(i, t, e) => write!(f, "Conversion error from type {t} at index: {i}, {e}"),
            Error::QueryReturnedNoRows => write!(f, "Query returned no rows"),
            Error::InvalidColumnName(n) => write!(f, "Invalid column name: {n}"),
            Error::InvalidColumnType(i, n, t) => write!(f, "Invalid column type {t} at index: {i}, name: {n}"),
            other => write!(f, "{other:?}"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub mod types {
    use super::Error;
    pub use super::{FromSql, FromSqlError, FromSqlResult, ToSql, ToSqlOutput, Value, ValueRef};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Type {
        Null,
        Integer,
        Real,
        Text,
        Blob,
    }
    impl std::fmt::Display for Type {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            std::fmt::Debug::fmt(self, f)
        }
    }
    pub struct Null;
    #[allow(unused)]
    type _E = Error;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Integer(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ValueRef<'a> {
    Null,
    Integer(i64),
    Real(f64),
    Text(&'a [u8]),
    Blob(&'a [u8]),
}
impl<'a> ValueRef<'a> {
    pub fn data_type(&self) -> types::Type {
        match self {
            Self::Null => types::Type::Null,
            Self::Integer(_) => types::Type::Integer,
            Self::Real(_) => types::Type::Real,
            Self::Text(_) => types::Type::Text,
            Self::Blob(_) => types::Type::Blob,
        }
    }
    pub fn as_str(&self) -> FromSqlResult<&'a str> {
        match *self {
            Self::Text(t) => std::str::from_utf8(t).map_err(|e| FromSqlError::Other(Box::new(e))),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_i64(&self) -> FromSqlResult<i64> {
        match *self {
            Self::Integer(i) => Ok(i),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_blob(&self) -> FromSqlResult<&'a [u8]> {
        match *self {
            Self::Blob(b) => Ok(b),
            _ => Err(FromSqlError::InvalidType),
        }
    }
    pub fn as_bytes(&self) -> FromSqlResult<&'a [u8]> {
        match *self {
            Self::Blob(b) | Self::Text(b) => Ok(b),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
#[derive(Debug)]
#[non_exhaustive]
pub enum FromSqlError {
    InvalidType,
    OutOfRange(i64),
    InvalidBlobSize { expected_size: usize, blob_size: usize },
    Other(Box<dyn std::error::Error + Send + Sync + 'static>),
}
impl fmt::Display for FromSqlError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FromSqlError {}
impl PartialEq for FromSqlError {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::InvalidType, Self::InvalidType) => true,
            (Self::OutOfRange(a), Self::OutOfRange(b)) => a == b,
            (Self::InvalidBlobSize { expected_size: a, blob_size: b }, Self::InvalidBlobSize { expected_size: c, blob_size: d }) => a == c && b == d,
            _ => false,
        }
    }
}
impl<'a> From<&'a str> for ValueRef<'a> {
    fn from(s: &'a str) -> Self {
        ValueRef::Text(s.as_bytes())
    }
}
impl<'a> From<&'a [u8]> for ValueRef<'a> {
    fn from(s: &'a [u8]) -> Self {
        ValueRef::Blob(s)
    }
}
impl<'a> From<&'a Value> for ValueRef<'a> {
    fn from(v: &'a Value) -> Self {
        match v {
            Value::Null => ValueRef::Null,
            Value::Integer(i) => ValueRef::Integer(*i),
            Value::Real(r) => ValueRef::Real(*r),
            Value::Text(t) => ValueRef::Text(t.as_bytes()),
            Value::Blob(b) => ValueRef::Blob(b),
        }
    }
}
pub type FromSqlResult<T> = std::result::Result<T, FromSqlError>;
pub trait FromSql: Sized {
    fn column_result(value: ValueRef<'_>) -> FromSqlResult<Self>;
}
macro_rules! int_from {
    ($($t:ty),*) => {$(
        impl FromSql for $t {
            fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
                let i = v.as_i64()?;
                <$t>::try_from(i).map_err(|_| FromSqlError::OutOfRange(i))
            }
        }
        impl ToSql for $t {
            fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
                i64::try_from(*self)
                    .map(|v| ToSqlOutput::Owned(Value::Integer(v)))
                    .map_err(|e| Error::ToSqlConversionFailure(Box::new(e)))
            }
        }
    )*};
}
int_from!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl FromSql for bool {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_i64().map(|i| i != 0)
    }
}
impl FromSql for f64 {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Integer(i) => Ok(i as f64),
            ValueRef::Real(r) => Ok(r),
            _ => Err(FromSqlError::InvalidType),
        }
    }
}
impl FromSql for String {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_str().map(str::to_string)
    }
}
impl FromSql for Vec<u8> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        v.as_blob().map(<[u8]>::to_vec)
    }
}
impl<const N: usize> FromSql for [u8; N] {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        let s = v.as_blob()?;
        s.try_into().map_err(|_| FromSqlError::InvalidBlobSize { expected_size: N, blob_size: s.len() })
    }
}
impl<T: FromSql> FromSql for Option<T> {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        match v {
            ValueRef::Null => Ok(None),
            v => T::column_result(v).map(Some),
        }
    }
}
impl FromSql for Value {
    fn column_result(v: ValueRef<'_>) -> FromSqlResult<Self> {
        Ok(match v {
            ValueRef::Null => Value::Null,
            ValueRef::Integer(i) => Value::Integer(i),
            ValueRef::Real(r) => Value::Real(r),
            ValueRef::Text(t) => Value::Text(String::from_utf8_lossy(t).into_owned()),
            ValueRef::Blob(b) => Value::Blob(b.to_vec()),
        })
    }
}

#[derive(Clone, Debug)]
#[non_exhaustive]
pub enum ToSqlOutput<'a> {
    Borrowed(ValueRef<'a>),
    Owned(Value),
}
impl From<Value> for ToSqlOutput<'_> {
    fn from(v: Value) -> Self {
        Self::Owned(v)
    }
}
impl<'a> From<&'a str> for ToSqlOutput<'a> {
    fn from(v: &'a str) -> Self {
        Self::Borrowed(ValueRef::Text(v.as_bytes()))
    }
}
impl<'a> From<&'a [u8]> for ToSqlOutput<'a> {
    fn from(v: &'a [u8]) -> Self {
        Self::Borrowed(ValueRef::Blob(v))
    }
}
impl From<String> for ToSqlOutput<'_> {
    fn from(v: String) -> Self {
        Self::Owned(Value::Text(v))
    }
}
impl From<Vec<u8>> for ToSqlOutput<'_> {
    fn from(v: Vec<u8>) -> Self {
        Self::Owned(Value::Blob(v))
    }
}
impl From<i64> for ToSqlOutput<'_> {
    fn from(v: i64) -> Self {
        Self::Owned(Value::Integer(v))
    }
}
pub trait ToSql {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>>;
}
impl<T: ToSql + ?Sized> ToSql for &'_ T {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        (**self).to_sql()
    }
}
impl<T: ToSql + ?Sized> ToSql for &'_ mut T {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        (**self).to_sql()
    }
}
impl<T: ToSql + ?Sized> ToSql for Box<T> {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        (**self).to_sql()
    }
}
impl<T: ToSql> ToSql for Option<T> {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        match self {
            None => Ok(ToSqlOutput::Owned(Value::Null)),
            Some(t) => t.to_sql(),
        }
    }
}
impl ToSql for str {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.into())
    }
}
impl ToSql for String {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.as_str().into())
    }
}
impl ToSql for [u8] {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.into())
    }
}
impl ToSql for Vec<u8> {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.as_slice().into())
    }
}
impl<const N: usize> ToSql for [u8; N] {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.as_slice().into())
    }
}
impl ToSql for bool {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(Value::Integer(*self as i64)))
    }
}
impl ToSql for f64 {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(Value::Real(*self)))
    }
}
impl ToSql for Value {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(self.clone()))
    }
}
impl ToSql for types::Null {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(ToSqlOutput::Owned(Value::Null))
    }
}
impl ToSql for ToSqlOutput<'_> {
    fn to_sql(&self) -> Result<ToSqlOutput<'_>> {
        Ok(self.clone())
    }
}

pub trait Params {
    #[doc(hidden)]
    fn bind_in(self, stmt: &mut Statement<'_>) -> Result<()>;
}
impl Params for () {
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        s.expect_count(0)
    }
}
impl Params for [&(dyn ToSql + Send + Sync); 0] {
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        s.expect_count(0)
    }
}
impl Params for &[&dyn ToSql] {
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        s.expect_count(self.len())?;
        for (i, p) in self.iter().enumerate() {
            s.bind(i + 1, *p)?;
        }
        Ok(())
    }
}
impl Params for &[(&str, &dyn ToSql)] {
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        for (n, p) in self {
            s.bind_name(n, *p)?;
        }
        Ok(())
    }
}
impl<const N: usize> Params for &[(&str, &dyn ToSql); N] {
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        for (n, p) in self {
            s.bind_name(n, *p)?;
        }
        Ok(())
    }
}
macro_rules! arr {
    ($($n:literal)*) => {$(
        impl<T: ToSql> Params for [T; $n] {
            fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
                s.expect_count($n)?;
                for (i, p) in self.iter().enumerate() {
                    s.bind(i + 1, p)?;
                }
                Ok(())
            }
        }
        impl<T: ToSql + ?Sized> Params for &[&T; $n] {
            fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
                s.expect_count($n)?;
                for (i, p) in self.iter().enumerate() {
                    s.bind(i + 1, p)?;
                }
                Ok(())
            }
        }
        impl<T: ToSql> Params for [(&str, T); $n] {
            fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
                for (n, p) in self.iter() {
                    s.bind_name(n, p)?;
                }
                Ok(())
            }
        }
    )*};
}
arr!(1 2 3 4 5 6 7 8 9 10 11 12);
macro_rules! tup {
    ($($t:ident $i:tt),*) => {
        impl<$($t: ToSql),*> Params for ($($t,)*) {
            fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
                s.expect_count(0 $(+ {let _ = $i; 1})*)?;
                $( s.bind($i + 1, &self.$i)?; )*
                Ok(())
            }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
pub struct ParamsFromIter<I>(I);
pub fn params_from_iter<I: IntoIterator>(i: I) -> ParamsFromIter<I>
where
    I::Item: ToSql,
{
    ParamsFromIter(i)
}
impl<I: IntoIterator> Params for ParamsFromIter<I>
where
    I::Item: ToSql,
{
    fn bind_in(self, s: &mut Statement<'_>) -> Result<()> {
        let mut n = 0;
        for (i, p) in self.0.into_iter().enumerate() {
            s.bind(i + 1, &p)?;
            n += 1;
        }
        s.expect_count(n)
    }
}
#[macro_export]
macro_rules! params {
    () => { &[] as &[&dyn $crate::ToSql] };
    ($($p:expr),+ $(,)?) => { &[$(&$p as &dyn $crate::ToSql),+] as &[&dyn $crate::ToSql] };
}
#[macro_export]
macro_rules! named_params {
    () => { &[] as &[(&str, &dyn $crate::ToSql)] };
    ($($n:literal: $v:expr),+ $(,)?) => { &[$(($n, &$v as &dyn $crate::ToSql)),+] as &[(&str, &dyn $crate::ToSql)] };
}

pub struct Connection {
    db: *mut sqlite3,
}
unsafe impl Send for Connection {}
impl fmt::Debug for Connection {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Connection")
    }
}
pub struct OpenFlags(c_int);
impl OpenFlags {
    pub const SQLITE_OPEN_READ_ONLY: OpenFlags = OpenFlags(1);
    pub const SQLITE_OPEN_READ_WRITE: OpenFlags = OpenFlags(2);
    pub const SQLITE_OPEN_CREATE: OpenFlags = OpenFlags(4);
}
impl Default for OpenFlags {
    fn default() -> Self {
        OpenFlags(2 | 4 | 0x40 | 0x8000)
    }
}
impl Connection {
    fn err(&self) -> Error {
        unsafe {
            let c = sqlite3_extended_errcode(self.db);
            let m = CStr::from_ptr(sqlite3_errmsg(self.db)).to_string_lossy().into_owned();
            Error::SqliteFailure(ffi::Error::new(c), Some(m))
        }
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::open_with_flags(p, OpenFlags::default())
    }
    pub fn open_in_memory() -> Result<Self> {
        Self::open(":memory:")
    }
    pub fn open_with_flags<P: AsRef<Path>>(p: P, flags: OpenFlags) -> Result<Self> {
        let path = CString::new(p.as_ref().to_string_lossy().as_bytes())
            .map_err(|_| Error::InvalidPath(p.as_ref().to_path_buf()))?;
        let mut db = ptr::null_mut();
        // No memory statistics: they serialise all threads.
        static CONFIG: std::sync::Once = std::sync::Once::new();
        CONFIG.call_once(|| unsafe {
            sqlite3_config(9, 0 as c_int);
        });
        let r = unsafe { sqlite3_open_v2(path.as_ptr(), &mut db, flags.0, ptr::null()) };
        if r != OK {
            unsafe { sqlite3_close_v2(db) };
            return Err(Error::SqliteFailure(ffi::Error::new(r), Some(format!("unable to open database file: {}", p.as_ref().display()))));
        }
        unsafe { sqlite3_busy_timeout(db, 5000) };
        Ok(Self { db })
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement<'_>> {
        let (st, tail) = self.prepare_raw(sql)?;
        if st.is_null() {
            return Err(Error::InvalidQuery);
        }
        let _ = tail;
        Ok(Statement { conn: self, st, sql: sql.to_string() })
    }
    pub fn prepare_cached(&self, sql: &str) -> Result<Statement<'_>> {
        self.prepare(sql)
    }
    fn prepare_raw(&self, sql: &str) -> Result<(*mut sqlite3_stmt, usize)> {
        let mut st = ptr::null_mut();
        let mut tail = ptr::null();
        let p = sql.as_ptr() as *const c_char;
        let r = unsafe { sqlite3_prepare_v2(self.db, p, sql.len() as c_int, &mut st, &mut tail) };
        if r != OK {
            return Err(self.err());
        }
        let used = if tail.is_null() { sql.len() } else { tail as usize - p as usize };
        Ok((st, used))
    }
    pub fn execute<P: Params>(&self, sql: &str, params: P) -> Result<usize> {
        let (st, used) = self.prepare_raw(sql)?;
        if st.is_null() {
            return Ok(0);
        }
        let mut st = Statement { conn: self, st, sql: sql[..used].to_string() };
        if !sql[used..].trim_matches(|c: char| c.is_whitespace() || c == ';').is_empty() {
            // rusqlite only reports trailing statements with the `extra_check` feature.
        }
        st.execute(params)
    }
    pub fn execute_batch(&self, sql: &str) -> Result<()> {
        let mut rest = sql;
        while !rest.trim().is_empty() {
            let (st, used) = self.prepare_raw(rest)?;
            if !st.is_null() {
                let s = Statement { conn: self, st, sql: rest[..used].to_string() };
                s.point()?;
                loop {
                    match unsafe { sqlite3_step(s.st) } {
                        ROW => continue,
                        DONE => break,
                        _ => return Err(self.err()),
                    }
                }
            }
            if used == 0 {
                break;
            }
            rest = &rest[used..];
        }
        Ok(())
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&self, sql: &str, params: P, f: F) -> Result<T> {
        self.prepare(sql)?.query_row(params, f)
    }
    pub fn query_row_and_then<T, E: From<Error>, P: Params, F: FnOnce(&Row<'_>) -> std::result::Result<T, E>>(&self, sql: &str, params: P, f: F) -> std::result::Result<T, E> {
        let mut st = self.prepare(sql)?;
        let mut rows = st.query(params)?;
        match rows.next()? {
            Some(r) => f(r),
            None => Err(Error::QueryReturnedNoRows.into()),
        }
    }
    pub fn pragma_update<V: ToSql>(&self, _schema: Option<&str>, name: &str, v: V) -> Result<()> {
        let v = match v.to_sql()? {
            ToSqlOutput::Owned(Value::Integer(i)) => i.to_string(),
            ToSqlOutput::Owned(Value::Text(t)) => format!("'{t}'"),
            ToSqlOutput::Borrowed(ValueRef::Text(t)) => format!("'{}'", String::from_utf8_lossy(t)),
            _ => return Err(Error::InvalidQuery),
        };
        self.execute_batch(&format!("PRAGMA {name}={v}"))
    }
    pub fn changes(&self) -> u64 {
        unsafe { sqlite3_changes(self.db) as u64 }
    }
    pub fn last_insert_rowid(&self) -> i64 {
        unsafe { sqlite3_last_insert_rowid(self.db) }
    }
    pub fn is_autocommit(&self) -> bool {
        unsafe { sqlite3_get_autocommit(self.db) != 0 }
    }
    pub fn busy_timeout(&self, d: std::time::Duration) -> Result<()> {
        unsafe { sqlite3_busy_timeout(self.db, d.as_millis() as c_int) };
        Ok(())
    }
    pub fn transaction(&mut self) -> Result<Transaction<'_>> {
        self.transaction_with_behavior(TransactionBehavior::Deferred)
    }
    pub fn transaction_with_behavior(&mut self, b: TransactionBehavior) -> Result<Transaction<'_>> {
        Transaction::new_unchecked(self, b)
    }
    pub fn unchecked_transaction(&self) -> Result<Transaction<'_>> {
        Transaction::new_unchecked(self, TransactionBehavior::Deferred)
    }
    pub fn close(self) -> std::result::Result<(), (Connection, Error)> {
        Ok(())
    }
}
impl Drop for Connection {
    fn drop(&mut self) {
        unsafe { sqlite3_close_v2(self.db) };
    }
}
#[derive(Clone, Copy, Debug)]
pub enum TransactionBehavior {
    Deferred,
    Immediate,
    Exclusive,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DropBehavior {
    Rollback,
    Commit,
    Ignore,
    Panic,
}
#[derive(Debug)]
pub struct Transaction<'c> {
    conn: &'c Connection,
    done: bool,
    drop: DropBehavior,
}
impl<'c> Transaction<'c> {
    fn new_unchecked(conn: &'c Connection, b: TransactionBehavior) -> Result<Self> {
        conn.execute_batch(match b {
            TransactionBehavior::Deferred => "BEGIN DEFERRED",
            TransactionBehavior::Immediate => "BEGIN IMMEDIATE",
            TransactionBehavior::Exclusive => "BEGIN EXCLUSIVE",
        })?;
        Ok(Self { conn, done: false, drop: DropBehavior::Rollback })
    }
    pub fn new(conn: &'c mut Connection, b: TransactionBehavior) -> Result<Self> {
        Self::new_unchecked(conn, b)
    }
    pub fn commit(mut self) -> Result<()> {
        self.conn.execute_batch("COMMIT")?;
        self.done = true;
        Ok(())
    }
    pub fn rollback(mut self) -> Result<()> {
        self.done = true;
        self.conn.execute_batch("ROLLBACK")
    }
    pub fn set_drop_behavior(&mut self, d: DropBehavior) {
        self.drop = d;
    }
    pub fn finish(self) -> Result<()> {
        match self.drop {
            DropBehavior::Commit => self.commit(),
            _ => self.rollback(),
        }
    }
}
impl std::ops::Deref for Transaction<'_> {
    type Target = Connection;
    fn deref(&self) -> &Connection {
        self.conn
    }
}
impl Drop for Transaction<'_> {
    fn drop(&mut self) {
        if !self.done && !self.conn.is_autocommit() {
            // A rollback is what a crash does as well: it never fails here.
            if let Ok((st, _)) = self.conn.prepare_raw(if self.drop == DropBehavior::Commit { "COMMIT" } else { "ROLLBACK" }) {
                unsafe {
                    sqlite3_step(st);
                    sqlite3_finalize(st);
                }
            }
        }
    }
}

pub struct Statement<'c> {
    conn: &'c Connection,
    st: *mut sqlite3_stmt,
    sql: String,
}
pub type CachedStatement<'c> = Statement<'c>;
impl Drop for Statement<'_> {
    fn drop(&mut self) {
        unsafe { sqlite3_finalize(self.st) };
    }
}
impl Statement<'_> {
    fn point(&self) -> Result<()> {
        if fault::point(&self.sql) {
            return Err(Error::SqliteFailure(ffi::Error::new(10), Some("injected fault".into())));
        }
        Ok(())
    }
    fn expect_count(&self, n: usize) -> Result<()> {
        let want = unsafe { sqlite3_bind_parameter_count(self.st) } as usize;
        if want != n {
            return Err(Error::InvalidParameterCount(n, want));
        }
        Ok(())
    }
    fn bind(&mut self, i: usize, v: &(impl ToSql + ?Sized)) -> Result<()> {
        let o = v.to_sql()?;
        let vr = match &o {
            ToSqlOutput::Borrowed(v) => *v,
            ToSqlOutput::Owned(Value::Null) => ValueRef::Null,
            ToSqlOutput::Owned(Value::Integer(i)) => ValueRef::Integer(*i),
            ToSqlOutput::Owned(Value::Real(r)) => ValueRef::Real(*r),
            ToSqlOutput::Owned(Value::Text(t)) => ValueRef::Text(t.as_bytes()),
            ToSqlOutput::Owned(Value::Blob(b)) => ValueRef::Blob(b),
        };
        let i = i as c_int;
        let r = unsafe {
            match vr {
                ValueRef::Null => sqlite3_bind_null(self.st, i),
                ValueRef::Integer(v) => sqlite3_bind_int64(self.st, i, v),
                ValueRef::Real(v) => sqlite3_bind_double(self.st, i, v),
                ValueRef::Text(t) => sqlite3_bind_text(self.st, i, t.as_ptr() as *const c_char, t.len() as c_int, transient()),
                ValueRef::Blob(b) if b.is_empty() => sqlite3_bind_zeroblob(self.st, i, 0),
                ValueRef::Blob(b) => sqlite3_bind_blob(self.st, i, b.as_ptr() as *const c_void, b.len() as c_int, transient()),
            }
        };
        if r != OK {
            return Err(self.conn.err());
        }
        Ok(())
    }
    fn bind_name(&mut self, n: &str, v: &(impl ToSql + ?Sized)) -> Result<()> {
        let c = CString::new(n).map_err(|_| Error::InvalidParameterName(n.into()))?;
        let i = unsafe { sqlite3_bind_parameter_index(self.st, c.as_ptr()) };
        if i == 0 {
            return Err(Error::InvalidParameterName(n.into()));
        }
        self.bind(i as usize, v)
    }
    fn start<P: Params>(&mut self, p: P) -> Result<()> {
        unsafe {
            sqlite3_reset(self.st);
            sqlite3_clear_bindings(self.st);
        }
        p.bind_in(self)?;
        self.point()
    }
    pub fn execute<P: Params>(&mut self, p: P) -> Result<usize> {
        self.start(p)?;
        let r = unsafe { sqlite3_step(self.st) };
        let out = match r {
            DONE => {
                // statements other than INSERT/UPDATE/DELETE leave sqlite3_changes untouched, like rusqlite
                Ok(self.conn.changes() as usize)
            }
            ROW => Err(Error::ExecuteReturnedResults),
            _ => Err(self.conn.err()),
        };
        unsafe { sqlite3_reset(self.st) };
        out
    }
    pub fn insert<P: Params>(&mut self, p: P) -> Result<i64> {
        let n = self.execute(p)?;
        if n == 1 {
            Ok(self.conn.last_insert_rowid())
        } else {
            Err(Error::StatementChangedRows(n))
        }
    }
    pub fn query<P: Params>(&mut self, p: P) -> Result<Rows<'_>> {
        self.start(p)?;
        Ok(Rows { st: Some(StRef { st: self.st, conn: self.conn.db, names: self.column_names_owned() }), row: None, _p: PhantomData })
    }
    pub fn query_map<T, P: Params, F: FnMut(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<MappedRows<'_, F>> {
        Ok(MappedRows { rows: self.query(p)?, f })
    }
    pub fn query_and_then<T, E: From<Error>, P: Params, F: FnMut(&Row<'_>) -> std::result::Result<T, E>>(&mut self, p: P, f: F) -> Result<AndThenRows<'_, F>> {
        Ok(AndThenRows { rows: self.query(p)?, f })
    }
    pub fn query_row<T, P: Params, F: FnOnce(&Row<'_>) -> Result<T>>(&mut self, p: P, f: F) -> Result<T> {
        let mut rows = self.query(p)?;
        match rows.next()? {
            Some(r) => f(r),
            None => Err(Error::QueryReturnedNoRows),
        }
    }
    pub fn exists<P: Params>(&mut self, p: P) -> Result<bool> {
        let mut rows = self.query(p)?;
        Ok(rows.next()?.is_some())
    }
    fn column_names_owned(&self) -> Vec<String> {
        unsafe {
            (0..sqlite3_column_count(self.st))
                .map(|i| CStr::from_ptr(sqlite3_column_name(self.st, i)).to_string_lossy().into_owned())
                .collect()
        }
    }
    pub fn column_names(&self) -> Vec<String> {
        self.column_names_owned()
    }
    pub fn column_count(&self) -> usize {
        unsafe { sqlite3_column_count(self.st) as usize }
    }
}
struct StRef {
    st: *mut sqlite3_stmt,
    conn: *mut sqlite3,
    names: Vec<String>,
}
pub struct Row<'s> {
    st: *mut sqlite3_stmt,
    names: Vec<String>,
    _p: PhantomData<&'s ()>,
}
pub struct Rows<'s> {
    st: Option<StRef>,
    row: Option<Row<'s>>,
    _p: PhantomData<&'s ()>,
}
impl<'s> Rows<'s> {
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> Result<Option<&Row<'s>>> {
        let Some(st) = &self.st else { return Ok(None) };
        match unsafe { sqlite3_step(st.st) } {
            ROW => {
                if self.row.is_none() {
                    self.row = Some(Row { st: st.st, names: st.names.clone(), _p: PhantomData });
                }
                Ok(self.row.as_ref())
            }
            DONE => {
                unsafe { sqlite3_reset(st.st) };
                self.st = None;
                self.row = None;
                Ok(None)
            }
            _ => {
                let e = unsafe {
                    let c = sqlite3_extended_errcode(st.conn);
                    Error::SqliteFailure(ffi::Error::new(c), Some(CStr::from_ptr(sqlite3_errmsg(st.conn)).to_string_lossy().into_owned()))
                };
                unsafe { sqlite3_reset(st.st) };
                self.st = None;
                Err(e)
            }
        }
    }
    pub fn mapped<F, T>(self, f: F) -> MappedRows<'s, F>
    where
        F: FnMut(&Row<'_>) -> Result<T>,
    {
        MappedRows { rows: self, f }
    }
}
impl Drop for Rows<'_> {
    fn drop(&mut self) {
        if let Some(s) = &self.st {
            unsafe { sqlite3_reset(s.st) };
        }
    }
}
pub struct MappedRows<'s, F> {
    rows: Rows<'s>,
    f: F,
}
impl<T, F: FnMut(&Row<'_>) -> Result<T>> Iterator for MappedRows<'_, F> {
    type Item = Result<T>;
    fn next(&mut self) -> Option<Result<T>> {
        match self.rows.next() {
            Ok(Some(r)) => Some((self.f)(r)),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        }
    }
}
pub struct AndThenRows<'s, F> {
    rows: Rows<'s>,
    f: F,
}
impl<T, E: From<Error>, F: FnMut(&Row<'_>) -> std::result::Result<T, E>> Iterator for AndThenRows<'_, F> {
    type Item = std::result::Result<T, E>;
    fn next(&mut self) -> Option<Self::Item> {
        match self.rows.next() {
            Ok(Some(r)) => Some((self.f)(r)),
            Ok(None) => None,
            Err(e) => Some(Err(e.into())),
        }
    }
}
pub trait RowIndex {
    fn idx(&self, names: &[String]) -> Result<usize>;
}
impl RowIndex for usize {
    fn idx(&self, names: &[String]) -> Result<usize> {
        if *self < names.len() {
            Ok(*self)
        } else {
            Err(Error::InvalidColumnIndex(*self))
        }
    }
}
impl RowIndex for &'_ str {
    fn idx(&self, names: &[String]) -> Result<usize> {
        names.iter().position(|n| n.eq_ignore_ascii_case(self)).ok_or_else(|| Error::InvalidColumnName(self.to_string()))
    }
}
impl Row<'_> {
    pub fn get_ref<I: RowIndex>(&self, i: I) -> Result<ValueRef<'_>> {
        let i = i.idx(&self.names)? as c_int;
        unsafe {
            Ok(match sqlite3_column_type(self.st, i) {
                1 => ValueRef::Integer(sqlite3_column_int64(self.st, i)),
                2 => ValueRef::Real(sqlite3_column_double(self.st, i)),
                3 => {
                    let p = sqlite3_column_text(self.st, i);
                    let n = sqlite3_column_bytes(self.st, i) as usize;
                    ValueRef::Text(std::slice::from_raw_parts(p, n))
                }
                4 => {
                    let p = sqlite3_column_blob(self.st, i) as *const u8;
                    let n = sqlite3_column_bytes(self.st, i) as usize;
                    ValueRef::Blob(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) })
                }
                _ => ValueRef::Null,
            })
        }
    }
    pub fn get<I: RowIndex, T: FromSql>(&self, i: I) -> Result<T> {
        let idx = i.idx(&self.names)?;
        let v = self.get_ref(idx)?;
        T::column_result(v).map_err(|e| match e {
            FromSqlError::InvalidType => Error::InvalidColumnType(idx, self.names[idx].clone(), v.data_type()),
            FromSqlError::OutOfRange(i) => Error::IntegralValueOutOfRange(idx, i),
            FromSqlError::Other(e) => Error::FromSqlConversionFailure(idx, v.data_type(), e),
            e @ FromSqlError::InvalidBlobSize { .. } => Error::FromSqlConversionFailure(idx, v.data_type(), Box::new(e)),
        })
    }
    pub fn get_unwrap<I: RowIndex, T: FromSql>(&self, i: I) -> T {
        self.get(i).unwrap()
    }
}
pub trait OptionalExtension<T> {
    fn optional(self) -> Result<Option<T>>;
}
impl<T> OptionalExtension<T> for Result<T> {
    fn optional(self) -> Result<Option<T>> {
        match self {
            Ok(v) => Ok(Some(v)),
            Err(Error::QueryReturnedNoRows) => Ok(None),
            Err(e) => Err(e),
        }
    }
}
