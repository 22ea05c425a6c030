//! 256-bit integers and arithmetic modulo p and n.
use std::cmp::Ordering;
use std::fmt;

/// Little-endian 64-bit limbs.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]);

impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:016x}{:016x}{:016x}{:016x}", self.0[3], self.0[2], self.0[1], self.0[0])
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {} x => return x }
        }
        Ordering::Equal
    }
}
impl From<u64> for U256 { fn from(v: u64) -> Self { U256([v, 0, 0, 0]) } }

impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const ONE: U256 = U256([1, 0, 0, 0]);
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn from_be(b: &[u8]) -> U256 {
        assert!(b.len() <= 32);
        let mut r = U256::ZERO;
        for (k, x) in b.iter().rev().enumerate() { r.0[k / 8] |= (*x as u64) << (8 * (k % 8)); }
        r
    }
    pub fn be(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for k in 0..32 { o[31 - k] = (self.0[k / 8] >> (8 * (k % 8))) as u8; }
        o
    }
    pub fn hex(s: &str) -> U256 {
        let s: String = s.chars().filter(|c| c.is_ascii_hexdigit()).collect();
        let s = format!("{:0>64}", s);
        let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        U256::from_be(&b)
    }
    pub fn to_u32s(&self) -> [u32; 8] {
        let mut r = [0u32; 8];
        for i in 0..8 { r[i] = (self.0[i / 2] >> (32 * (i % 2))) as u32; }
        r
    }
    pub fn from_u32s(l: [u32; 8]) -> U256 {
        let mut r = U256::ZERO;
        for i in 0..8 { r.0[i / 2] |= (l[i] as u64) << (32 * (i % 2)); }
        r
    }
    pub fn u32s(&self) -> [u32; 8] {
        let mut o = [0u32; 8];
        for i in 0..8 { o[i] = (self.0[i / 2] >> (32 * (i % 2))) as u32; }
        o
    }
    pub fn pow2(k: usize) -> U256 { let mut r = U256::ZERO; r.0[k / 64] = 1 << (k % 64); r }
    pub fn is_zero(&self) -> bool { *self == U256::ZERO }
    pub fn is_odd(&self) -> bool { self.0[0] & 1 == 1 }
    pub fn bit(&self, k: usize) -> bool { k < 256 && (self.0[k / 64] >> (k % 64)) & 1 == 1 }
    pub fn bits(&self) -> usize {
        (0..256).rev().find(|k| self.bit(*k)).map_or(0, |k| k + 1)
    }
    pub fn add_c(&self, o: &U256) -> (U256, bool) {
        let mut r = U256::ZERO;
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r.0[i] = c as u64;
            c >>= 64;
        }
        (r, c != 0)
    }
    pub fn sub_b(&self, o: &U256) -> (U256, bool) {
        let mut r = U256::ZERO;
        let mut b = false;
        for i in 0..4 {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (y, b2) = x.overflowing_sub(b as u64);
            r.0[i] = y;
            b = b1 | b2;
        }
        (r, b)
    }
    /// Wrapping.
    pub fn add(&self, o: &U256) -> U256 { self.add_c(o).0 }
    /// Wrapping.
    pub fn sub(&self, o: &U256) -> U256 { self.sub_b(o).0 }
    pub fn addi(&self, v: i64) -> U256 {
        if v >= 0 { self.add(&U256::from(v as u64)) } else { self.sub(&U256::from(v.unsigned_abs())) }
    }
    pub fn not(&self) -> U256 { U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) }
    pub fn shr(&self, k: usize) -> U256 {
        let mut r = U256::ZERO;
        for i in 0..256 - k.min(256) { if self.bit(i + k) { r.0[i / 64] |= 1 << (i % 64); } }
        r
    }
    pub fn shl(&self, k: usize) -> U256 {
        let mut r = U256::ZERO;
        for i in k.min(256)..256 { if self.bit(i - k) { r.0[i / 64] |= 1 << (i % 64); } }
        r
    }
    pub fn mul_wide(&self, o: &U256) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += (self.0[i] as u128) * (o.0[j] as u128) + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + 4] = c as u64;
        }
        r
    }
    /// Low 256 bits of the product.
    pub fn mul_lo(&self, o: &U256) -> U256 { let w = self.mul_wide(o); U256([w[0], w[1], w[2], w[3]]) }
    pub fn mul_hi(&self, o: &U256) -> U256 { let w = self.mul_wide(o); U256([w[4], w[5], w[6], w[7]]) }
    /// Inverse mod 2^256 of an odd number (Newton).
    pub fn inv_2_256(&self) -> U256 {
        assert!(self.is_odd());
        let two = U256::from(2);
        let mut x = U256::ONE;
        for _ in 0..9 { x = x.mul_lo(&two.sub(&self.mul_lo(&x))); }
        x
    }
    /// Quotient of (hi*2^256 + lo) / d by long division; hi < d required.
    pub fn div_wide(hi: &U256, lo: &U256, d: &U256) -> (U256, U256) {
        assert!(hi < d);
        let mut rem = *hi;
        let mut q = U256::ZERO;
        for k in (0..256).rev() {
            let top = rem.bit(255);
            rem = rem.shl1();
            if lo.bit(k) { rem.0[0] |= 1; }
            if top || rem >= *d { rem = rem.sub(d); q.0[k / 64] |= 1 << (k % 64); }
        }
        (q, rem)
    }
    fn shl1(&self) -> U256 {
        U256([self.0[0] << 1, (self.0[1] << 1) | (self.0[0] >> 63), (self.0[2] << 1) | (self.0[1] >> 63), (self.0[3] << 1) | (self.0[2] >> 63)])
    }
}

/// Arithmetic modulo m, 2^255 < m < 2^256, with c = 2^256 - m.
#[derive(Clone, Copy)]
pub struct Mod { pub m: U256, pub c: U256 }

pub const P: Mod = Mod {
    m: U256([0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX]),
    c: U256([0x1000003D1, 0, 0, 0]),
};
pub const N: Mod = Mod {
    m: U256([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX]),
    c: U256([0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0]),
};

impl Mod {
    pub fn red(&self, a: &U256) -> U256 { if *a >= self.m { a.sub(&self.m) } else { *a } }
    pub fn red_wide(&self, w: &[u64; 8]) -> U256 {
        let mut hi = U256([w[4], w[5], w[6], w[7]]);
        let mut lo = U256([w[0], w[1], w[2], w[3]]);
        while !hi.is_zero() {
            // hi * 2^256 + lo  ==  hi * c + lo (mod m)
            let w = hi.mul_wide(&self.c);
            let (l, carry) = U256([w[0], w[1], w[2], w[3]]).add_c(&lo);
            lo = l;
            hi = U256([w[4], w[5], w[6], w[7]]);
            if carry { hi = hi.add(&U256::ONE); }
        }
        self.red(&lo)
    }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let (r, c) = a.add_c(b);
        if c || r >= self.m { r.sub(&self.m) } else { r }
    }
    pub fn sub(&self, a: &U256, b: &U256) -> U256 {
        let (r, b) = a.sub_b(b);
        if b { r.add(&self.m) } else { r }
    }
    pub fn neg(&self, a: &U256) -> U256 { if a.is_zero() { *a } else { self.m.sub(a) } }
    pub fn mul(&self, a: &U256, b: &U256) -> U256 { self.red_wide(&a.mul_wide(b)) }
    pub fn sqr(&self, a: &U256) -> U256 { self.mul(a, a) }
    pub fn pow(&self, a: &U256, e: &U256) -> U256 {
        let mut r = U256::ONE;
        for k in (0..e.bits()).rev() {
            r = self.sqr(&r);
            if e.bit(k) { r = self.mul(&r, a); }
        }
        r
    }
    /// Inverse; 0 for 0.
    pub fn inv(&self, a: &U256) -> U256 { self.pow(a, &self.m.addi(-2)) }
    pub fn half(&self) -> U256 { self.m.shr(1) }
    /// Square root for m = 3 mod 4.
    pub fn sqrt(&self, a: &U256) -> Option<U256> {
        let e = self.m.addi(1).shr(2);
        let r = self.pow(a, &e);
        if self.sqr(&r) == *a { Some(r) } else { None }
    }
    pub fn i(&self, v: i64) -> U256 {
        if v >= 0 { U256::from(v as u64) } else { self.m.sub(&U256::from(v.unsigned_abs())) }
    }
    /// Bit-by-bit multiplication, used only to validate `mul`.
    pub fn mul_slow(&self, a: &U256, b: &U256) -> U256 {
        let mut r = U256::ZERO;
        let a = self.red(a);
        for k in (0..256).rev() {
            r = self.add(&r, &r);
            if b.bit(k) { r = self.add(&r, &a); }
        }
        r
    }
}
