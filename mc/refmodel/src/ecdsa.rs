//! Textbook ECDSA.
use crate::ec::{mul_g, Pt};
use crate::num::{N, P, U256};
use crate::sha::Rfc6979;

/// (r, s, recovery id) for a given nonce, None when s = 0 (r = 0 cannot be met).
pub fn sign_with_nonce(d: &U256, m: &U256, k: &U256) -> Option<(U256, U256, u8)> {
    let rp = mul_g(k);
    sign_with_point(d, m, k, &rp)
}
pub fn sign_with_point(d: &U256, m: &U256, k: &U256, rp: &Pt) -> Option<(U256, U256, u8)> {
    let r = N.red(&rp.x());
    if r.is_zero() { return None; }
    let s = N.mul(&N.inv(k), &N.add(m, &N.mul(&r, d)));
    if s.is_zero() { return None; }
    let mut id = (if rp.x() >= N.m { 2 } else { 0 }) | rp.y().is_odd() as u8;
    if s > N.half() { id ^= 1; Some((r, N.neg(&s), id)) } else { Some((r, s, id)) }
}
/// Deterministic signature; also how many candidates were drawn.
pub fn sign(d: &U256, m: &U256) -> ((U256, U256, u8), usize) {
    let mut g = Rfc6979::new(&d.be(), &m.be());
    for i in 1.. {
        let k = U256::from_be(&g.next());
        if k.is_zero() || k >= N.m { continue; }
        if let Some(x) = sign_with_nonce(d, m, &k) { return (x, i); }
    }
    unreachable!()
}
pub fn verify(m: &U256, r: &U256, s: &U256, q: &Pt) -> bool {
    if r.is_zero() || s.is_zero() { return false; }
    let w = N.inv(s);
    let rp = mul_g(&N.mul(m, &w)).add(&q.mul(&N.mul(r, &w)));
    match rp { Pt::Inf => false, Pt::Aff(x, _) => N.red(&x) == *r }
}
pub fn recover(m: &U256, r: &U256, s: &U256, id: u8) -> Option<Pt> {
    if r.is_zero() || s.is_zero() { return None; }
    let x = if id & 2 != 0 { let (x, c) = r.add_c(&N.m); if c { return None; } x } else { *r };
    if x >= P.m { return None; }
    let rp = Pt::lift(&x, id & 1 == 1, 7)?;
    let w = N.inv(r);
    let q = rp.mul(&N.mul(s, &w)).sub(&mul_g(&N.mul(m, &w)));
    if q.is_inf() { None } else { Some(q) }
}
