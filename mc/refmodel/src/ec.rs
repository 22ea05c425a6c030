//! The curve group (and any other curve y^2 = x^3 + b over the same field).
use crate::num::{P, U256};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pt { Inf, Aff(U256, U256) }

pub const GX: U256 = U256([0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC]);
pub const GY: U256 = U256([0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465]);
pub const G: Pt = Pt::Aff(GX, GY);

#[derive(Clone, Copy)]
struct J { x: U256, y: U256, z: U256 }

impl Pt {
    pub fn neg(&self) -> Pt { match self { Pt::Inf => Pt::Inf, Pt::Aff(x, y) => Pt::Aff(*x, P.neg(y)) } }
    pub fn x(&self) -> U256 { match self { Pt::Aff(x, _) => *x, _ => panic!("x of infinity") } }
    pub fn y(&self) -> U256 { match self { Pt::Aff(_, y) => *y, _ => panic!("y of infinity") } }
    pub fn is_inf(&self) -> bool { *self == Pt::Inf }
    /// Chord and tangent, affine.
    pub fn add(&self, o: &Pt) -> Pt {
        let (x1, y1) = match self { Pt::Inf => return *o, Pt::Aff(x, y) => (*x, *y) };
        let (x2, y2) = match o { Pt::Inf => return *self, Pt::Aff(x, y) => (*x, *y) };
        let l = if x1 == x2 {
            if y1 != y2 || y1.is_zero() { return Pt::Inf; }
            let xx = P.sqr(&x1);
            P.mul(&P.add(&xx, &P.add(&xx, &xx)), &P.inv(&P.add(&y1, &y1)))
        } else {
            P.mul(&P.sub(&y2, &y1), &P.inv(&P.sub(&x2, &x1)))
        };
        let x3 = P.sub(&P.sub(&P.sqr(&l), &x1), &x2);
        Pt::Aff(x3, P.sub(&P.mul(&l, &P.sub(&x1, &x3)), &y1))
    }
    pub fn sub(&self, o: &Pt) -> Pt { self.add(&o.neg()) }
    pub fn dbl(&self) -> Pt { self.add(self) }
    /// Multiple by an integer (not reduced), projective inside for speed.
    pub fn mul(&self, k: &U256) -> Pt {
        let (x, y) = match self { Pt::Inf => return Pt::Inf, Pt::Aff(x, y) => (*x, *y) };
        let base = J { x, y, z: U256::ONE };
        let mut r: Option<J> = None;
        for i in (0..k.bits()).rev() {
            r = r.and_then(|r| r.dbl());
            if k.bit(i) { r = match r { None => Some(base), Some(r) => r.add(&base) }; }
        }
        J::affine(r)
    }
    /// Same by affine additions only; validates `mul`.
    pub fn mul_slow(&self, k: &U256) -> Pt {
        let mut r = Pt::Inf;
        for i in (0..k.bits()).rev() { r = r.dbl(); if k.bit(i) { r = r.add(self); } }
        r
    }
    pub fn on_curve(&self, b: u64) -> bool {
        match self {
            Pt::Inf => true,
            Pt::Aff(x, y) => P.sqr(y) == P.add(&P.mul(x, &P.sqr(x)), &U256::from(b)),
        }
    }
    pub fn lift(x: &U256, odd: bool, b: u64) -> Option<Pt> {
        let y = P.sqrt(&P.add(&P.mul(x, &P.sqr(x)), &U256::from(b)))?;
        Some(Pt::Aff(*x, if y.is_odd() == odd { y } else { P.neg(&y) }))
    }
    pub fn ser65(&self) -> [u8; 65] {
        let mut o = [4u8; 65];
        o[1..33].copy_from_slice(&self.x().be());
        o[33..].copy_from_slice(&self.y().be());
        o
    }
    pub fn ser33(&self) -> [u8; 33] {
        let mut o = [if self.y().is_odd() { 3u8 } else { 2 }; 33];
        o[1..].copy_from_slice(&self.x().be());
        o
    }
}

impl J {
    fn dbl(&self) -> Option<J> {
        if self.y.is_zero() { return None; }
        let yy = P.sqr(&self.y);
        let t = P.mul(&self.x, &yy);
        let s = P.add(&P.add(&t, &t), &P.add(&t, &t));
        let xx = P.sqr(&self.x);
        let m = P.add(&xx, &P.add(&xx, &xx));
        let x = P.sub(&P.sqr(&m), &P.add(&s, &s));
        let y4 = P.sqr(&yy);
        let y8 = { let a = P.add(&y4, &y4); let b = P.add(&a, &a); P.add(&b, &b) };
        let y = P.sub(&P.mul(&m, &P.sub(&s, &x)), &y8);
        let yz = P.mul(&self.y, &self.z);
        Some(J { x, y, z: P.add(&yz, &yz) })
    }
    fn add(&self, o: &J) -> Option<J> {
        let z1z1 = P.sqr(&self.z);
        let z2z2 = P.sqr(&o.z);
        let u1 = P.mul(&self.x, &z2z2);
        let u2 = P.mul(&o.x, &z1z1);
        let s1 = P.mul(&self.y, &P.mul(&o.z, &z2z2));
        let s2 = P.mul(&o.y, &P.mul(&self.z, &z1z1));
        if u1 == u2 { return if s1 == s2 { self.dbl() } else { None }; }
        let h = P.sub(&u2, &u1);
        let r = P.sub(&s2, &s1);
        let hh = P.sqr(&h);
        let hhh = P.mul(&h, &hh);
        let v = P.mul(&u1, &hh);
        let x = P.sub(&P.sub(&P.sqr(&r), &hhh), &P.add(&v, &v));
        let y = P.sub(&P.mul(&r, &P.sub(&v, &x)), &P.mul(&s1, &hhh));
        Some(J { x, y, z: P.mul(&h, &P.mul(&self.z, &o.z)) })
    }
    fn affine(a: Option<J>) -> Pt {
        match a {
            None => Pt::Inf,
            Some(a) => {
                let zi = P.inv(&a.z);
                let z2 = P.sqr(&zi);
                Pt::Aff(P.mul(&a.x, &z2), P.mul(&a.y, &P.mul(&zi, &z2)))
            }
        }
    }
}

/// Fixed-base window table for multiples of G.
pub struct EC { win: Vec<[Pt; 16]> }
impl EC {
    pub fn get() -> &'static EC {
        static E: std::sync::OnceLock<EC> = std::sync::OnceLock::new();
        E.get_or_init(|| {
            let mut base = G;
            let mut win = vec![];
            for _ in 0..64 {
                let mut row = [Pt::Inf; 16];
                for i in 1..16 { row[i] = row[i - 1].add(&base); }
                base = row[15].add(&base);
                win.push(row);
            }
            EC { win }
        })
    }
    pub fn mul_g(&self, k: &U256) -> Pt {
        let mut r: Option<J> = None;
        for j in 0..64 {
            let w = (k.0[j / 16] >> (4 * (j % 16))) as usize & 15;
            if let Pt::Aff(x, y) = self.win[j][w] {
                let b = J { x, y, z: U256::ONE };
                r = match r { None => Some(b), Some(r) => r.add(&b) };
            }
        }
        J::affine(r)
    }
}
pub fn mul_g(k: &U256) -> Pt { EC::get().mul_g(k) }
/// G times a small signed integer.
pub fn gi(k: i64) -> Pt { let p = G.mul(&U256::from(k.unsigned_abs())); if k < 0 { p.neg() } else { p } }
