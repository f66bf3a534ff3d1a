use crate::merkle::safe_arith::{ArithError, SafeArith, SafeArithIter};
use std::fmt::Debug;
use vc::{check, check_eq, fail, Ch, Ctx, Res};

trait Int: SafeArith + Debug + PartialEq + Copy + Sync + Send + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const MIN: i128;
    const MAX: i128;
    fn of(v: i128) -> Self;
    fn wide(self) -> i128;
    fn shl(self, n: u32) -> Self;
    fn shr(self, n: u32) -> Self;
}
macro_rules! int {
    ($($t:ident),*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = $t::BITS;
            const MIN: i128 = $t::MIN as i128;
            const MAX: i128 = $t::MAX as i128;
            fn of(v: i128) -> Self { v as $t }
            fn wide(self) -> i128 { self as i128 }
            fn shl(self, n: u32) -> Self { self << n }
            fn shr(self, n: u32) -> Self { self >> n }
        }
    )*};
}
int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

/// Result expected from the checked operation: the value, or an error that may have to be of one kind.
enum Want {
    Val(i128),
    Err(Option<ArithError>),
}

fn fit<T: Int>(v: Option<i128>) -> Want {
    match v {
        Some(v) if (T::MIN..=T::MAX).contains(&v) => Want::Val(v),
        _ => Want::Err(Some(ArithError::Overflow)),
    }
}

fn compare<T: Int>(what: &str, a: T, b: &dyn Debug, got: Result<T, ArithError>, assigned: (Result<(), ArithError>, T), want: Want, ch: &mut Ch) -> Res {
    ch.eval();
    let name = T::NAME;
    match (&got, &want) {
        (Ok(g), Want::Val(w)) => check!(g.wide() == *w, "{name}: {a:?} {what} {b:?} gives {g:?}, expected {w}"),
        (Ok(g), Want::Err(_)) => fail!("{name}: {a:?} {what} {b:?} gives {g:?}, expected an error"),
        (Err(e), Want::Val(w)) => fail!("{name}: {a:?} {what} {b:?} fails with {e:?}, expected {w}"),
        (Err(e), Want::Err(Some(k))) => check!(e == k, "{name}: {a:?} {what} {b:?} fails with {e:?}, expected {k:?}"),
        (Err(_), Want::Err(None)) => {}
    }
    check_eq!(assigned.0, got.map(|_| ()), "{name}: result of assigning {a:?} {what} {b:?}");
    let target = got.unwrap_or(a);
    check_eq!(assigned.1, target, "{name}: target after assigning {a:?} {what} {b:?}");
    ch.outcome(&(name, what, got.ok().map(|g| g.wide())));
    Ok(())
}

macro_rules! op {
    ($what:expr, $f:ident, $g:ident, $a:expr, $b:expr, $want:expr, $ch:expr) => {{
        let mut t = $a;
        let r = t.$g($b);
        compare($what, $a, &$b, $a.$f($b), (r, t), $want, $ch)?;
    }};
}

fn pair<T: Int>(a: T, b: T, ch: &mut Ch) -> Res {
    let (x, y) = (a.wide(), b.wide());
    ch.note(|| format!("{} {x} {y}", T::NAME));
    op!("+", safe_add, safe_add_assign, a, b, fit::<T>(x.checked_add(y)), ch);
    op!("-", safe_sub, safe_sub_assign, a, b, fit::<T>(x.checked_sub(y)), ch);
    op!("*", safe_mul, safe_mul_assign, a, b, fit::<T>(x.checked_mul(y)), ch);
    let zero = || Want::Err(Some(ArithError::DivisionByZero));
    let special = x == T::MIN && T::MIN < 0 && y == -1;
    let div = if y == 0 { zero() } else if special { Want::Err(None) } else { Want::Val(x / y) };
    op!("/", safe_div, safe_div_assign, a, b, div, ch);
    let rem = if y == 0 { zero() } else if special { Want::Err(None) } else { Want::Val(x % y) };
    op!("%", safe_rem, safe_rem_assign, a, b, rem, ch);
    Ok(())
}

fn shifts<T: Int>(a: T, ch: &mut Ch) -> Res {
    ch.note(|| format!("{} shifts of {a:?}", T::NAME));
    let extra = [255, 256, 257, 1 << 16, u32::MAX - 1, u32::MAX, 1 << 31];
    for n in (0..T::BITS * 2 + 2).chain(extra) {
        let (l, r) = if n < T::BITS {
            (Want::Val(a.shl(n).wide()), Want::Val(a.shr(n).wide()))
        } else {
            (Want::Err(Some(ArithError::Overflow)), Want::Err(Some(ArithError::Overflow)))
        };
        op!("<<", safe_shl, safe_shl_assign, a, n, l, ch);
        op!(">>", safe_shr, safe_shr_assign, a, n, r, ch);
    }
    Ok(())
}

fn boundary<T: Int>(extra: bool) -> Vec<T> {
    let mut v: Vec<i128> = vec![];
    let near = if extra { 6 } else { 3 };
    for d in -near..=near {
        v.extend([d, T::MIN + d, T::MAX + d, T::MAX / 2 + d, T::MIN / 2 + d]);
        for b in 0..T::BITS {
            if extra || b % 8 == 0 || b % 8 == 7 || b == T::BITS / 2 - 1 {
                v.extend([(1i128 << b) + d, -(1i128 << b) + d]);
            }
        }
        // around the square root of the limits
        let s = (T::MAX as f64).sqrt() as i128;
        v.extend([s + d, -s + d, T::MAX / 3 + d, T::MAX / 10 + d]);
    }
    v.retain(|x| (T::MIN..=T::MAX).contains(x));
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(T::of).collect()
}

fn typ<T: Int>(ctx: &Ctx) {
    ctx.once(&format!("{} constants", T::NAME), |_| {
        check_eq!(T::ZERO.wide(), 0, "{} ZERO", T::NAME);
        check_eq!(T::ONE.wide(), 1, "{} ONE", T::NAME);
        Ok(())
    });
    let vals: Vec<T> = if T::BITS == 8 || (T::BITS == 16 && ctx.tier == vc::Tier::Thorough) {
        (T::MIN..=T::MAX).map(T::of).collect()
    } else {
        boundary::<T>(ctx.tier == vc::Tier::Thorough)
    };
    let n = vals.len() as u64;
    let v = &vals;
    if T::BITS == 16 && n > 60_000 {
        let b = boundary::<T>(true);
        let m = b.len() as u64;
        ctx.range(&format!("{} all values against boundary values", T::NAME), n * m, |i, ch| {
            pair(v[(i % n) as usize], b[(i / n) as usize], ch)?;
            pair(b[(i / n) as usize], v[(i % n) as usize], ch)
        });
    } else {
        ctx.range(&format!("{} pairs", T::NAME), n * n, |i, ch| {
            pair(v[(i % n) as usize], v[(i / n) as usize], ch)
        });
    }
    ctx.range(&format!("{} shifts", T::NAME), n, |i, ch| shifts(v[i as usize], ch));
    // sums
    let s: Vec<T> = [0, 1, -1, T::MAX, T::MIN, T::MAX / 2, T::MAX / 2 + 1, T::MIN / 2, 7]
        .into_iter()
        .filter(|x| (T::MIN..=T::MAX).contains(x))
        .map(T::of)
        .collect();
    ctx.explore(&format!("{} sums", T::NAME), |ch| {
        let len = ch.pick(ctx.b(5, 6));
        let list: Vec<T> = (0..len).map(|_| *ch.choose(&s)).collect();
        ch.note(|| format!("{} sum of {list:?}", T::NAME));
        ch.eval();
        let mut total = Some(0i128);
        for x in &list {
            total = total.map(|t| t + x.wide()).filter(|t| (T::MIN..=T::MAX).contains(t));
        }
        let got = list.iter().copied().safe_sum().map(|v| v.wide());
        check_eq!(got, total.ok_or(ArithError::Overflow), "{} sum of {list:?}", T::NAME);
        Ok(())
    });
}

pub fn a01(ctx: &Ctx) {
    typ::<u8>(ctx);
    typ::<i8>(ctx);
    typ::<u16>(ctx);
    typ::<i16>(ctx);
    typ::<u32>(ctx);
    typ::<i32>(ctx);
    typ::<u64>(ctx);
    typ::<i64>(ctx);
    typ::<usize>(ctx);
    typ::<isize>(ctx);
}
