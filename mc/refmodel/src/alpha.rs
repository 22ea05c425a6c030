//! Alphabets of values.
use crate::ec::{gi, mul_g, Pt};
use crate::num::{N, P, U256};
use crate::sha::sha256;
use std::collections::HashSet;
pub fn dedup(v: Vec<U256>) -> Vec<U256> { let mut s = HashSet::new(); v.into_iter().filter(|x| s.insert(*x)).collect() }
pub fn below(v: Vec<U256>, m: &U256) -> Vec<U256> { dedup(v.into_iter().filter(|x| x < m).collect()) }
pub fn nonzero(v: Vec<U256>) -> Vec<U256> { v.into_iter().filter(|x| !x.is_zero()).collect() }
/// Fixed full-width representatives ("generic" values).
pub fn generic(tag: &str, k: usize) -> Vec<U256> {
    (0..k).map(|i| N.red(&U256::from_be(&sha256(format!("{} {}", tag, i).as_bytes())))).collect()
}
/// All 8-limb vectors over per-limb choices.
pub fn limb_products(choices: &[Vec<u32>; 8]) -> Vec<U256> {
    let mut out = vec![[0u32; 8]];
    for i in (0..8).rev() {
        out = out.iter().flat_map(|l| choices[i].iter().map(move |c| { let mut m = *l; m[i] = *c; m })).collect();
    }
    out.into_iter().map(U256::from_u32s).collect()
}
pub fn patterns(words: &[u32]) -> Vec<U256> { limb_products(&std::array::from_fn(|_| words.to_vec())) }
/// All vectors whose limbs are those of `m` shifted by -1, 0, +1 (comparison boundaries).
pub fn around_limbs(m: &U256) -> Vec<U256> {
    let l = m.u32s();
    limb_products(&std::array::from_fn(|i| { let mut v = vec![l[i], l[i].wrapping_sub(1), l[i].wrapping_add(1)]; v.dedup(); v }))
}
pub fn near(c: &U256, r: i64) -> Vec<U256> {
    let mut v = vec![*c];
    for i in 1..=r { v.push(c.addi(i)); v.push(c.addi(-i)); }
    v
}
pub fn half_n() -> U256 { N.half() }
/// Scalars below n, about 25: the corners.
pub fn scalars_tiny() -> Vec<U256> {
    let h = half_n();
    let mut v = vec![U256::ZERO, U256::ONE, U256::from(2), U256::from(3), N.m.addi(-1), N.m.addi(-2), N.m.addi(-3), h, h.addi(1), h.addi(-1), h.addi(2)];
    v.extend([U256::pow2(31), U256::pow2(32), U256::pow2(128), U256::pow2(128).addi(-1), U256::pow2(255), U256::pow2(255).addi(-1), N.c, N.m.sub(&U256::pow2(128))]);
    v.extend(generic("scalar", 3));
    below(v, &N.m)
}
/// Scalars below n, about 150.
pub fn scalars_mid() -> Vec<U256> {
    let mut v = scalars_tiny();
    for i in 0..18i64 { v.push(U256::from(i as u64)); v.push(N.m.addi(-i - 1)); }
    v.extend(near(&half_n(), 5));
    for k in (32..256).step_by(32) { v.extend([U256::pow2(k), U256::pow2(k).addi(-1), U256::pow2(k).addi(1), N.m.sub(&U256::pow2(k)), half_n().addi(0).add(&U256::pow2(k - 1)), half_n().sub(&U256::pow2(k - 1))]); }
    for k in [26, 52, 64, 127, 129, 192, 254] { v.extend([U256::pow2(k), N.m.sub(&U256::pow2(k))]); }
    v.extend(generic("scalar", 8));
    below(v, &N.m)
}
/// Scalars below n: every power of two and its neighbours, offsets of n and n/2, limb patterns.
pub fn scalars_big() -> Vec<U256> {
    let mut v = scalars_mid();
    let h = half_n();
    for i in 0..300i64 { v.push(U256::from(i as u64)); v.push(N.m.addi(-i - 1)); }
    v.extend(near(&h, 40));
    for k in 0..256 {
        let t = U256::pow2(k);
        v.extend([t, t.addi(1), t.addi(-1), N.m.sub(&t), N.m.sub(&t).addi(1), N.m.sub(&t).addi(-1), h.add(&t), h.sub(&t), h.add(&t).addi(1), N.m.addi(-1).shr(k), U256::MAX.shr(k)]);
    }
    v.extend(patterns(&[0, 0xffffffff]));
    v.extend(around_limbs(&N.m).into_iter().step_by(7));
    v.extend(around_limbs(&h).into_iter().step_by(7));
    v.extend(generic("scalar", 40));
    below(v, &N.m)
}
/// The scalar the generator contexts blind with; used only to aim, never to predict a result.
pub fn gen_blind() -> U256 { U256::from_u32s([2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480]) }
/// The scalars whose sum with the blinding scalar is in the list.
pub fn blinded(v: &[U256]) -> Vec<U256> { v.iter().map(|x| N.sub(&N.red(x), &gen_blind())).collect() }
/// Arbitrary 256-bit values, with everything near n, p, 2^256 and limb boundaries.
pub fn raw_values() -> Vec<U256> {
    let mut v = scalars_mid();
    for c in [N.m, P.m, half_n(), P.half(), P.m.sub(&N.m), N.c, P.c, U256::ZERO] { v.extend(near(&c, 12)); }
    for k in 0..256 {
        let t = U256::pow2(k);
        for b in [N.m, P.m, half_n(), U256::ZERO] { v.extend([b.add(&t), b.sub(&t), b.add(&t).addi(-1), b.sub(&t).addi(-1)]); }
    }
    v.extend(patterns(&[0, 0xffffffff]));
    v.extend(around_limbs(&N.m));
    dedup(v)
}
/// Every (position, byte value) single-byte modification of a base string.
pub fn byte_variants(base: &[u8], i: u64) -> Vec<u8> {
    let mut b = base.to_vec();
    let p = (i / 256) as usize;
    b[p] = i as u8;
    b
}

/// Differences that agree with zero in most limbs, whatever the limb width: +-2^k, single full limbs
/// of 26 and 32 bits, all limbs but one, and values just above or below a multiple of p in raw form.
pub fn residuals() -> Vec<U256> {
    let mut v = vec![];
    for k in 0..256 { v.extend([U256::pow2(k), P.m.sub(&U256::pow2(k))]); }
    let g = generic("residual", 1)[0];
    for (w, top) in [(26usize, 10usize), (32, 8)] {
        for j in 0..top {
            let mask = U256::pow2(w).addi(-1);
            for u in [mask, U256::from_u32s(g.u32s()).shr(7)] {
                let l = U256([u.0[0] & mask.0[0], 0, 0, 0]).shl(w * j);
                let rest = g.sub(&U256([g.shr(w * j).0[0] & mask.0[0], 0, 0, 0]).shl(w * j));
                v.extend([P.red(&l), P.neg(&P.red(&l)), P.red(&rest), P.neg(&P.red(&rest))]);
            }
        }
    }
    v.extend(near(&U256::from(0x1000003d1), 3));
    v.extend(patterns(&[0, 0xffffffff]).into_iter().step_by(3));
    nonzero(below(v, &P.m))
}

/// Cube root mod p (p = 7 mod 9).
pub fn cbrt(a: &U256) -> Option<U256> {
    let e = U256::div_wide(&U256::ZERO, &P.m.addi(2), &U256::from(9)).0;
    let r = P.pow(a, &e);
    if P.mul(&r, &P.sqr(&r)) == *a { Some(r) } else { None }
}
/// beta with beta^3 = 1: (beta x, y) is on the curve whenever (x, y) is.
pub fn beta() -> U256 { U256::hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee") }
/// Points with unusual coordinates: tiny x or y (whose aliases x+p, y+p fit in 256 bits),
/// x or y just below p, x in [n, p).
pub fn special_points(per: usize) -> Vec<Pt> {
    let mut v = vec![];
    let take_x = |v: &mut Vec<Pt>, xs: &mut dyn Iterator<Item = U256>| {
        let mut c = 0;
        for x in xs { if let Some(p) = Pt::lift(&x, false, 7) { v.push(p); v.push(p.neg()); c += 1; if c >= per { break; } } }
    };
    take_x(&mut v, &mut (0..).map(U256::from));
    take_x(&mut v, &mut (1i64..).map(|i| P.m.addi(-i)));
    take_x(&mut v, &mut (0i64..).map(|i| N.m.addi(i)));
    take_x(&mut v, &mut (1i64..).map(|i| N.m.addi(-i)));
    take_x(&mut v, &mut (0i64..).map(|i| U256::from(0x1000003d0 - i as u64)));
    take_x(&mut v, &mut (0i64..).map(|i| U256::from(0x1000003d1 + i as u64)));
    let take_y = |v: &mut Vec<Pt>, ys: &mut dyn Iterator<Item = U256>| {
        let mut c = 0;
        for y in ys { if let Some(x) = cbrt(&P.sub(&P.sqr(&y), &U256::from(7))) { v.push(Pt::Aff(x, y)); v.push(Pt::Aff(x, P.neg(&y))); c += 1; if c >= per { break; } } }
    };
    take_y(&mut v, &mut (1..).map(U256::from));
    take_y(&mut v, &mut (0i64..).map(|i| U256::from(0x1000003d0 - i as u64)));
    take_y(&mut v, &mut (0i64..).map(|i| P.half().addi(-i)));
    debug_assert!(v.iter().all(|p| p.on_curve(7)));
    v
}
/// +-kG for k in 1..=k, then cube-root partners of G and 2G, generic points, special points.
pub fn points(k: i64, gen: usize, per: usize) -> Vec<Pt> {
    let mut v = vec![];
    for i in 1..=k { v.push(gi(i)); v.push(gi(-i)); }
    for i in 1..=2 { let p = gi(i); v.push(Pt::Aff(P.mul(&p.x(), &beta()), p.y())); v.push(Pt::Aff(P.mul(&p.x(), &beta()), P.neg(&p.y()))); }
    for d in generic("point", gen) { v.push(mul_g(&d)); }
    if per > 0 { v.extend(special_points(per)); }
    v
}

/// For every byte value: points whose x starts with it (also after a byte that is a tag), and points whose y starts with it.
pub fn leading() -> Vec<Pt> {
    let g = generic("leading", 1)[0].be();
    let mut o = vec![];
    let search = |head: &[u8], of_y: bool, o: &mut Vec<Pt>| {
        for k in 0..255u8 {
            let mut b = g;
            b[..head.len()].copy_from_slice(head);
            b[31] = k;
            let v = P.red(&U256::from_be(&b));
            let p = if of_y { cbrt(&P.sub(&P.sqr(&v), &U256::from(7))).map(|x| Pt::Aff(x, v)) } else { Pt::lift(&v, k % 2 == 0, 7) };
            if let Some(p) = p { o.push(p); return; }
        }
    };
    for b in 0..=255u8 {
        search(&[b], false, &mut o);
        search(&[b], true, &mut o);
        if [2, 3, 4, 6, 7].contains(&b) { for c in [0u8, 2, 3, 4, 6, 7, 0xff] { search(&[b, c], false, &mut o); } }
    }
    o
}
