//! C14: scalar arithmetic.
use common::*;
use engine::*;
use libsecp256k1::curve::Scalar;
use refmodel::num::Mod;
use subtle::Choice;

fn ok(tr: &mut Tr, got: &Scalar, want: &U256, what: &str) -> Result<(), String> {
    same!(tr, us(got), *want, what);
    Ok(())
}
/// Bits offset..offset+count of v.
fn field(v: &U256, o: usize, c: usize) -> u32 { (0..c).map(|i| (v.bit(o + i) as u32) << i).sum() }

fn unary(v: &U256, tr: &mut Tr) -> Res {
    let n = N;
    let s = sc(v);
    tr.note(|| format!("v={:?}", v));
    same!(tr, s.b32(), v.be(), "b32");
    let mut b = [0xaau8; 32];
    s.fill_b32(&mut b);
    same!(tr, b, v.be(), "fill_b32");
    same!(tr, s.is_zero(), v.is_zero(), "is_zero");
    same!(tr, s.is_one(), *v == U256::ONE, "is_one");
    same!(tr, s.is_even(), !v.is_odd(), "is_even");
    same!(tr, s.is_high(), *v > n.half(), "is_high");
    let neg = n.neg(v);
    ok(tr, &-s, &neg, "neg")?;
    ok(tr, &-&s, &neg, "neg of reference")?;
    let mut t = s;
    t.cond_neg_assign(Choice::from(0));
    ok(tr, &t, v, "cond_neg_assign(0)")?;
    t.cond_neg_assign(Choice::from(1));
    ok(tr, &t, &neg, "cond_neg_assign(1)")?;
    t += s;
    ok(tr, &t, &U256::ZERO, "v + (-v)")?;
    let sq = n.sqr(v);
    ok(tr, &s.sqr(), &sq, "sqr")?;
    let mut t = Scalar(U256::MAX.u32s());
    t.sqr_in_place(&s);
    ok(tr, &t, &sq, "sqr_in_place")?;
    ok(tr, &(s * s), &sq, "v * v")?;
    ok(tr, &(s + s), &n.add(v, v), "v + v")?;
    if *v < U256::pow2(255) && v.u32s()[1..].iter().all(|x| *x == 0) {
        ok(tr, &Scalar::from_int(v.u32s()[0]), v, "from_int")?;
        let mut t = Scalar([7; 8]);
        t.set_int(v.u32s()[0]);
        ok(tr, &t, v, "set_int")?;
    }
    Ok(if v.is_zero() { "zero" } else if *v > n.half() { "high" } else { "low" })
}
fn inverses(v: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("v={:?}", v));
    let s = sc(v);
    let want = N.inv(v);
    ok(tr, &s.inv(), &want, "inv")?;
    ok(tr, &s.inv_var(), &want, "inv_var")?;
    let mut t = Scalar([9; 8]);
    t.inv_in_place(&s);
    ok(tr, &t, &want, "inv_in_place")?;
    ok(tr, &(t * s), &(if v.is_zero() { U256::ZERO } else { U256::ONE }), "v * inv(v)")?;
    ok(tr, &t.inv(), v, "inv(inv(v))")?;
    Ok(if v.is_zero() { "zero" } else { "inverted" })
}
fn bits(v: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("v={:?}", v));
    let s = sc(v);
    for o in 0..256 {
        for c in 1..32 {
            if o + c > 256 { break; }
            let w = field(v, o, c);
            if (o + c - 1) / 32 == o / 32 { same!(tr, s.bits(o, c), w, format!("bits({}, {})", o, c)); }
            same!(tr, s.bits_var(o, c), w, format!("bits_var({}, {})", o, c));
        }
    }
    for k in 1..16 {
        let mut t = s;
        same!(tr, t.shr_int(k), field(v, 0, k), format!("shr_int({}) low bits", k));
        ok(tr, &t, &v.shr(k), "shr_int")?;
    }
    for bit in 0..256 {
        let (sum, c) = v.add_c(&U256::pow2(bit));
        if c || sum >= N.m { continue; }
        let mut t = s;
        t.cadd_bit(bit, false);
        ok(tr, &t, v, "cadd_bit(false)")?;
        t.cadd_bit(bit, true);
        ok(tr, &t, &sum, "cadd_bit(true)")?;
    }
    Ok("bits agree")
}
fn from_bytes(v: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("bytes of {:?}", v));
    for init in [0u32, 0xffffffff] {
        let mut s = Scalar([init; 8]);
        let o: bool = s.set_b32(&v.be()).into();
        same!(tr, o, *v >= N.m, "overflow");
        ok(tr, &s, &N.red(v), "set_b32")?;
    }
    Ok(if *v >= N.m { "overflow" } else { "in range" })
}
fn add_pair(a: &U256, b: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("a={:?} b={:?}", a, b));
    let (x, y) = (sc(a), sc(b));
    let w = N.add(a, b);
    ok(tr, &(x + y), &w, "a + b")?;
    ok(tr, &(&x + &y), &w, "&a + &b")?;
    let mut t = x;
    t += y;
    ok(tr, &t, &w, "a += b")?;
    let mut t = x;
    t += &y;
    ok(tr, &t, &w, "a += &b")?;
    let (s, c) = a.add_c(b);
    Ok(if c { "carry out of 2^256" } else if s >= N.m { "reduced" } else { "not reduced" })
}
fn mul_pair(a: &U256, b: &U256, forms: bool, tr: &mut Tr) -> Res {
    tr.note(|| format!("a={:?} b={:?}", a, b));
    let (x, y) = (sc(a), sc(b));
    let w = N.mul(a, b);
    ok(tr, &(x * y), &w, "a * b")?;
    if forms {
        ok(tr, &(&x * &y), &w, "&a * &b")?;
        let mut t = x;
        t *= y;
        ok(tr, &t, &w, "a *= b")?;
        let mut t = x;
        t *= &y;
        ok(tr, &t, &w, "a *= &b")?;
        let mut t = Scalar([0xffffffff; 8]);
        t.mul_in_place(&x, &y);
        ok(tr, &t, &w, "mul_in_place")?;
        let mut t = y;
        let z = t;
        t.mul_in_place(&x, &z);
        ok(tr, &t, &w, "mul_in_place over an operand")?;
    }
    Ok(if w.is_zero() { "zero product" } else { "product" })
}

/// High halves of a 512-bit product that bring one column of the reduction next to a multiple of 2^64.
///
/// Column k adds nc[j] * n[k-j] for j = 0..4 and then n[k-4]; with three of the four limbs full, the
/// fourth is solved for so that the sum of the products is within a few steps of 2^64. A second family
/// does the same one stage later: it solves for the high half whose image (high half) * nc / 2^256,
/// the operand of the second stage, has such limbs.
fn carry_highs(width: i64) -> Vec<U256> {
    let c = N.c.to_u32s();
    let full = 0xffff_ffffu32;
    let sum: u128 = (0..4).map(|j| c[j] as u128 * full as u128).sum();
    let excess = sum.saturating_sub(1u128 << 64);
    let mut out = vec![];
    let mut stage2 = vec![];
    for k in 3..8usize {
        for j in 0..4usize {
            for d in -width..=width {
                let cut = (excess / c[j] as u128) as i64 + d;
                if cut < 0 || cut > full as i64 { continue; }
                for last in [full, full - 1, 0x8000_0000, 0x1000_0000, 0] {
                    for rest in 0..3u32 {
                        let mut l = [match rest { 0 => 0, 1 => full, _ => 0x7fff_ffff }; 8];
                        for i in 0..4 { l[k - i] = full; }
                        l[k - j] = full - cut as u32;
                        if k >= 4 { l[k - 4] = last; }
                        out.push(U256::from_u32s(l));
                    }
                    if k == 3 {
                        for top in 0..2u32 {
                            let mut l = [0u32; 8];
                            for i in 0..4 { l[i] = full; }
                            l[3 - j] = full - cut as u32;
                            l[4] = top;
                            stage2.push(U256::from_u32s(l));
                        }
                    }
                }
            }
        }
    }
    // t * 2^256 / nc, where nc has 129 bits: scaled by 2^127 so that the divisor has its top bit set
    let nc = N.c.shl(127);
    for t in dedup(stage2) {
        let hi = t.shl(127);
        if hi >= nc || t.shr(129) != U256::ZERO { continue; }
        let h = U256::div_wide(&hi, &U256::ZERO, &nc).0;
        for d in -2..=2 { out.push(h.addi(d)); }
    }
    dedup(out)
}

pub fn c14(run: &Run) {
    let n: Mod = N;
    let mid = scalars_mid();
    let big = scalars_big();
    let mut ext = big.clone();
    if run.thorough() {
        ext.extend(patterns(&[0, 1, 0xffffffff]).into_iter().chain(patterns(&[0, 0x80000000, 0x7fffffff])));
        ext.extend(around_limbs(&n.m));
        ext.extend(around_limbs(&n.half()));
        ext = below(ext, &n.m);
    }
    let pats = below(patterns(&[0, 1, 0x80000000, 0xffffffff]), &n.m);
    run.sweep("unary", ext.len() as u64, |i, tr| unary(&ext[i as usize], tr));
    run.sweep("unary-patterns", pats.len() as u64, |i, tr| unary(&pats[i as usize], tr));
    let invs = if run.thorough() { &ext } else { &big };
    run.sweep("inverses", invs.len() as u64, |i, tr| inverses(&invs[i as usize], tr));
    let bv = run.q(mid.clone(), big.clone());
    run.sweep("bits-shift-caddbit", bv.len() as u64, |i, tr| bits(&bv[i as usize], tr));
    let mut raws = raw_values();
    raws.extend(patterns(&[0, 1, 0x80000000, 0xffffffff]));
    raws.extend(around_limbs(&n.half()));
    let raws = dedup(raws);
    run.sweep("from-bytes", raws.len() as u64, |i, tr| from_bytes(&raws[i as usize], tr));

    // sums
    run.sweep("add-pairs", (big.len() * big.len()) as u64, |i, tr| { let mut x = Ix(i); add_pair(x.of(&big), x.of(&big), tr) });
    let edge: Vec<U256> = (-40..40).flat_map(|d| [U256::ZERO, n.m, n.half(), U256::pow2(255), N.c].map(|b| b.addi(d))).chain(around_limbs(&n.m).into_iter().step_by(run.q(27, 3))).chain(patterns(&[0, 0xffffffff])).collect();
    let edge = dedup(edge);
    run.sweep("add-chosen-sum", (edge.len() * mid.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (t, a) = (*x.of(&edge), *x.of(&mid));
        let b = t.sub(&a); // wraps: a + b is t or t + 2^256
        if b >= n.m { return Ok("-"); }
        add_pair(&a, &b, tr)
    });

    // products
    let ml = below(big.iter().cloned().step_by(run.q(4, 1)).chain(mid.clone()).collect(), &n.m);
    run.sweep("mul-pairs", (ml.len() * big.len()) as u64, |i, tr| { let mut x = Ix(i); let (a, b) = (x.of(&ml), x.of(&big)); mul_pair(a, b, true, tr) });
    let p2 = below(patterns(&[0, 0xffffffff]), &n.m);
    run.sweep("mul-full-limb-patterns", (p2.len() * p2.len()) as u64, |i, tr| { let mut x = Ix(i); mul_pair(x.of(&p2), x.of(&p2), false, tr) });
    let p3 = below(patterns(&[1, 0xffffffff]).into_iter().chain(patterns(&[0x80000000, 0x7fffffff])).collect(), &n.m);
    run.sweep("mul-mixed-limb-patterns", (p3.len() * p2.len()) as u64, |i, tr| { let mut x = Ix(i); mul_pair(x.of(&p3), x.of(&p2), false, tr) });
    let step = run.q(5, 1);
    let ps: Vec<U256> = pats.iter().cloned().step_by(step).collect();
    let heavy: Vec<U256> = [U256::MAX.shr(1), n.m.addi(-1), n.half(), n.m.sub(&U256::pow2(128)), U256::from_u32s([0xffffffff, 0, 0xffffffff, 0, 0xffffffff, 0, 0xffffffff, 0]), U256::from_u32s([0, 0xffffffff, 0, 0xffffffff, 0, 0xffffffff, 0, 0x7fffffff])].into_iter().chain(generic("heavy", 10)).collect();
    run.sweep("mul-wide-limb-patterns", (ps.len() * heavy.len()) as u64, |i, tr| { let mut x = Ix(i); mul_pair(x.of(&ps), x.of(&heavy), false, tr) });
    let odd: Vec<U256> = run.q(&mid, &big).iter().filter(|v| v.is_odd()).cloned().collect();
    let targets = dedup(patterns(&[0, 0xffffffff]).into_iter().chain(around_limbs(&n.m).into_iter().step_by(run.q(5, 1))).chain(near(&U256::ZERO, 8)).chain(near(&n.m, 8)).collect());
    run.sweep("mul-chosen-low-half", (odd.len() * targets.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (a, t) = (*x.of(&odd), *x.of(&targets));
        let b = t.mul_lo(&a.inv_2_256());
        if b >= n.m { return Ok("-"); }
        if a.mul_lo(&b) != t { return Err("reference inverse mod 2^256 is wrong".into()); }
        mul_pair(&a, &b, false, tr)
    });
    let fac: Vec<U256> = nonzero(run.q(mid.clone(), big.clone()));
    run.sweep("mul-chosen-high-half", (fac.len() * targets.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (a, t) = (*x.of(&fac), *x.of(&targets));
        if t >= a { return Ok("-"); }
        let b = U256::div_wide(&t, &U256::MAX, &a).0;
        if b >= n.m { return Ok("-"); }
        mul_pair(&a, &b, false, tr)
    });
    // carries inside the reduction: the middle columns of (high half) * (2^256 - n) are sums of four
    // products plus a limb, and can pass 2^64 only there, by the last term, in a window 2^32 wide
    let hs = carry_highs(run.q(6, 40));
    let pick: Vec<U256> = nonzero(run.q(vec![n.m.addi(-1), n.m.addi(-2), n.m.addi(-0x10001), U256::MAX.sub(&N.c).sub(&U256::pow2(130))], (1..40).map(|d| n.m.addi(-d * d)).collect()));
    run.sweep("mul-reduction-carries", (hs.len() * pick.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (h, a) = (*x.of(&hs), *x.of(&pick));
        if h >= a { return Ok("-"); }
        let b = U256::div_wide(&h, &U256::MAX, &a).0;
        if b >= n.m { return Ok("-"); }
        mul_pair(&a, &b, false, tr)
    });
    let results: Vec<U256> = below((0..run.q(60, 600)).flat_map(|d| [U256::from(d as u64), n.m.addi(-1 - d as i64), N.c.addi(d as i64 - 20), U256::pow2(128).addi(d as i64 - 20), n.half().addi(d as i64 - 20)]).chain(patterns(&[0, 0xffffffff]).into_iter().step_by(run.q(3, 1))).collect(), &n.m);
    let nz = nonzero(run.q(mid.clone(), big.clone()));
    let ainv: Vec<U256> = nz.iter().map(|a| n.inv(a)).collect();
    run.sweep("mul-chosen-result", (nz.len() * results.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let k = x.take(nz.len());
        let r = x.of(&results);
        mul_pair(&nz[k], &n.mul(r, &ainv[k]), false, tr)
    });
    // values close to multiples of n before reduction: a*b = k*n + d over the integers
    let ks: Vec<U256> = dedup(vec![1u64, 2, 3, 5, 1 << 32, u64::MAX].into_iter().map(U256::from).chain([U256::pow2(128), U256::pow2(200), U256::pow2(254), n.half(), n.m.addi(-2), n.m.addi(-3), n.m.addi(-100)]).chain(generic("k", 8)).collect());
    run.sweep("mul-near-multiples-of-n", (ks.len() * fac.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (k, a) = (*x.of(&ks), *x.of(&fac));
        let w = k.mul_wide(&n.m);
        let (hi, lo) = (U256([w[4], w[5], w[6], w[7]]), U256([w[0], w[1], w[2], w[3]]));
        if hi >= a { return Ok("-"); }
        let q = U256::div_wide(&hi, &lo, &a).0;
        let mut last = "-";
        for d in -2..=2 { let b = q.addi(d); if b < n.m { last = mul_pair(&a, &b, false, tr)?; } }
        Ok(last)
    });

    // operation sequences on one accumulator
    let gens: Vec<U256> = vec![U256::ONE, U256::from(2), n.m.addi(-1), n.half(), N.c];
    run.bfs("sequences", vec![[0u64; 4], N.half().0, U256::from(5).0], run.q(5, 7), run.q(400_000, 6_000_000), |st, tr| {
        let v = U256(*st);
        let mut out = vec![];
        let mut push = |tr: &mut Tr, l: String, s: Scalar, w: U256| -> Result<(), String> { same!(tr, us(&s), w, l); out.push((l, w.0)); Ok(()) };
        for g in &gens {
            let mut s = sc(&v);
            s += sc(g);
            push(tr, format!("+{:?}", g), s, n.add(&v, g))?;
            let mut s = sc(&v);
            s *= sc(g);
            push(tr, format!("*{:?}", g), s, n.mul(&v, g))?;
        }
        push(tr, "neg".into(), -sc(&v), n.neg(&v))?;
        push(tr, "sqr".into(), sc(&v).sqr(), n.sqr(&v))?;
        push(tr, "inv".into(), sc(&v).inv(), n.inv(&v))?;
        let mut s = sc(&v);
        s.shr_int(5);
        push(tr, "shr 5".into(), s, v.shr(5))?;
        Ok(out)
    });
}
