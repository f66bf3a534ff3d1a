//! Plain secp256k1 arithmetic, enough to decompress keys and verify the signatures of real node
//! records (e.g. the bootnode lists).
use ruint::Uint;
type U = Uint<256, 4>;

fn p() -> U {
    U::from_str_radix("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16).unwrap()
}
fn n() -> U {
    U::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}
fn g() -> (U, U) {
    (
        U::from_str_radix("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16).unwrap(),
        U::from_str_radix("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16).unwrap(),
    )
}

fn sub(a: U, b: U, m: U) -> U {
    a.add_mod(m - b.reduce_mod(m), m)
}

fn inv(a: U, m: U) -> U {
    a.inv_mod(m).unwrap_or(U::ZERO)
}

#[derive(Clone, Copy)]
struct J(U, U, U);

fn dbl(a: J) -> J {
    let m = p();
    if a.2.is_zero() || a.1.is_zero() {
        return J(U::ZERO, U::ZERO, U::ZERO);
    }
    let y2 = a.1.mul_mod(a.1, m);
    let s = a.0.mul_mod(y2, m).mul_mod(U::from(4), m);
    let mm = a.0.mul_mod(a.0, m).mul_mod(U::from(3), m);
    let x = sub(mm.mul_mod(mm, m), s.mul_mod(U::from(2), m), m);
    let y = sub(
        mm.mul_mod(sub(s, x, m), m),
        y2.mul_mod(y2, m).mul_mod(U::from(8), m),
        m,
    );
    let z = a.1.mul_mod(a.2, m).mul_mod(U::from(2), m);
    J(x, y, z)
}

fn add(a: J, b: J) -> J {
    let m = p();
    if a.2.is_zero() {
        return b;
    }
    if b.2.is_zero() {
        return a;
    }
    let z1 = a.2.mul_mod(a.2, m);
    let z2 = b.2.mul_mod(b.2, m);
    let u1 = a.0.mul_mod(z2, m);
    let u2 = b.0.mul_mod(z1, m);
    let s1 = a.1.mul_mod(z2, m).mul_mod(b.2, m);
    let s2 = b.1.mul_mod(z1, m).mul_mod(a.2, m);
    if u1 == u2 {
        return if s1 == s2 { dbl(a) } else { J(U::ZERO, U::ZERO, U::ZERO) };
    }
    let h = sub(u2, u1, m);
    let r = sub(s2, s1, m);
    let h2 = h.mul_mod(h, m);
    let h3 = h2.mul_mod(h, m);
    let u1h2 = u1.mul_mod(h2, m);
    let x = sub(sub(r.mul_mod(r, m), h3, m), u1h2.mul_mod(U::from(2), m), m);
    let y = sub(r.mul_mod(sub(u1h2, x, m), m), s1.mul_mod(h3, m), m);
    let z = h.mul_mod(a.2, m).mul_mod(b.2, m);
    J(x, y, z)
}

fn mul(k: U, pt: (U, U)) -> J {
    let base = J(pt.0, pt.1, U::from(1));
    let mut acc = J(U::ZERO, U::ZERO, U::ZERO);
    for i in (0..256).rev() {
        acc = dbl(acc);
        if k.bit(i) {
            acc = add(acc, base);
        }
    }
    acc
}

fn affine(a: J) -> (U, U) {
    let m = p();
    let zi = inv(a.2, m);
    let zi2 = zi.mul_mod(zi, m);
    (a.0.mul_mod(zi2, m), a.1.mul_mod(zi2, m).mul_mod(zi, m))
}

pub fn decompress(key: &[u8]) -> Option<(U, U)> {
    if key.len() != 33 || (key[0] != 2 && key[0] != 3) {
        return None;
    }
    let m = p();
    let x = U::from_be_slice(&key[1..]);
    if x >= m {
        return None;
    }
    let rhs = x.mul_mod(x, m).mul_mod(x, m).add_mod(U::from(7), m);
    let y = rhs.pow_mod((m >> 2) + U::from(1), m);
    if y.mul_mod(y, m) != rhs {
        return None;
    }
    let odd = y.bit(0);
    let y = if odd == (key[0] == 3) { y } else { m - y };
    Some((x, y))
}

pub fn verify(key: &[u8], digest: &[u8; 32], sig: &[u8]) -> bool {
    let Some(q) = decompress(key) else { return false };
    if sig.len() != 64 {
        return false;
    }
    let m = n();
    let r = U::from_be_slice(&sig[..32]);
    let s = U::from_be_slice(&sig[32..]);
    if r.is_zero() || s.is_zero() || r >= m || s >= m {
        return false;
    }
    let z = U::from_be_slice(digest).reduce_mod(m);
    let w = inv(s, m);
    let pt = add(mul(z.mul_mod(w, m), g()), mul(r.mul_mod(w, m), q));
    if pt.2.is_zero() {
        return false;
    }
    affine(pt).0.reduce_mod(m) == r
}
