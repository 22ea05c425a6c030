//! Conversions between library objects and the reference model, and the alphabets.
use libsecp256k1::curve::{Affine, Field, Jacobian, Scalar};
use libsecp256k1::{Message, PublicKey, SecretKey};
pub use refmodel::ec::{gi, mul_g, G};
pub use refmodel::num::{N, P, U256};
pub use refmodel::{sha::sha256, Pt};

pub fn sc(v: &U256) -> Scalar { assert!(*v < N.m); Scalar(v.u32s()) }
pub fn us(s: &Scalar) -> U256 { U256::from_u32s(s.0) }
pub fn sk(v: &U256) -> SecretKey { SecretKey::parse(&v.be()).expect("valid secret key rejected") }
pub fn usk(k: &SecretKey) -> U256 { U256::from_be(&k.serialize()) }
pub fn msg(v: &U256) -> Message { Message(sc(v)) }
pub fn fe(v: &U256) -> Field {
    let mut f = Field::default();
    assert!(f.set_b32(&v.be()), "canonical field element rejected");
    f
}
/// Value of a field element (any magnitude up to 32).
pub fn uf(f: &Field) -> U256 { let mut g = *f; g.normalize(); U256::from_be(&g.b32()) }
/// 26-bit limbs of a 256-bit value.
pub fn limbs(v: &U256) -> [u32; 10] {
    let mut o = [0u32; 10];
    for i in 0..10 { for b in 0..26 { if v.bit(26 * i + b) { o[i] |= 1 << b; } } }
    o
}
pub fn raw(l: &[u32; 10]) -> Field { Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0]) }
/// Value mod p of a limb vector (each limb any u32).
pub fn limb_val(l: &[u32; 10]) -> U256 {
    let mut r = U256::ZERO;
    for i in (0..10).rev() {
        for _ in 0..26 { r = P.add(&r, &r); }
        r = P.add(&r, &U256::from(l[i] as u64));
    }
    r
}
/// Number of coordinate representations offered by `fe_repr`.
pub const REPRS: usize = 4;
/// A field element in one of several representations of magnitude at most `2`:
/// canonical; value+p in loose limbs; denormalised limbs; negated negation (magnitude 3 -> weak).
pub fn fe_repr(v: &U256, k: usize) -> Field {
    match k {
        0 => fe(v),
        1 => { let (a, b) = (limbs(v), limbs(&P.m)); let mut l = [0; 10]; for i in 0..10 { l[i] = a[i] + b[i]; } raw(&l) }
        2 => { // borrow from each limb to the one below where possible
            let mut l = limbs(v);
            for i in (1..10).rev() { if l[i] > 0 && l[i - 1] < 0x3ffffff { l[i] -= 1; l[i - 1] += 1 << 26; } }
            raw(&l)
        }
        _ => fe(&P.neg(v)).neg(1),
    }
}
pub fn aff(p: &Pt) -> Affine { aff_repr(p, 0, 0) }
pub fn aff_repr(p: &Pt, kx: usize, ky: usize) -> Affine {
    match p {
        Pt::Inf => libsecp256k1::util::AFFINE_INFINITY,
        Pt::Aff(x, y) => Affine { x: fe_repr(x, kx), y: fe_repr(y, ky), infinity: false },
    }
}
pub fn pk(p: &Pt) -> PublicKey { PublicKey::parse(&p.ser65()).expect("valid public key rejected") }
pub fn upk(k: &PublicKey) -> Pt { uaff(&(*k).into()) }
pub fn uaff(a: &Affine) -> Pt { if a.is_infinity() { Pt::Inf } else { Pt::Aff(uf(&a.x), uf(&a.y)) } }
/// Jacobian with a given z.
pub fn jac(p: &Pt, z: &U256, kx: usize, ky: usize, kz: usize) -> Jacobian {
    match p {
        Pt::Inf => libsecp256k1::util::JACOBIAN_INFINITY,
        Pt::Aff(x, y) => {
            let z2 = P.sqr(z);
            Jacobian { x: fe_repr(&P.mul(x, &z2), kx), y: fe_repr(&P.mul(y, &P.mul(&z2, z)), ky), z: fe_repr(z, kz), infinity: false }
        }
    }
}
pub fn ujac(a: &Jacobian) -> Pt {
    if a.infinity { return Pt::Inf; }
    let z = uf(&a.z);
    let zi = P.inv(&z);
    let z2 = P.sqr(&zi);
    Pt::Aff(P.mul(&uf(&a.x), &z2), P.mul(&uf(&a.y), &P.mul(&z2, &zi)))
}
pub fn pts(p: &Pt) -> String {
    match p { Pt::Inf => "infinity".into(), Pt::Aff(x, y) => format!("({:?},{:?})", x, y) }
}
pub use refmodel::alpha::*;
