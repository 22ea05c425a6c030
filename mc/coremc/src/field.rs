//! C15: field arithmetic in every permitted representation.
use common::*;
use engine::*;
use libsecp256k1::curve::{Field, FieldStorage};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const LM: u64 = 0x3ffffff;
const TM: u64 = 0x3fffff;

/// A field element with the given limbs at magnitude m (a sum of m raw elements).
pub fn build(l: &[u64; 10], m: u32) -> Option<Field> {
    let mut f: Option<Field> = None;
    for i in 0..m as u64 {
        let mut part = [0u32; 10];
        for k in 0..10 {
            let mm = m as u64;
            let v = l[k] / mm + if i < l[k] % mm { 1 } else { 0 };
            if v > 2 * if k == 9 { TM } else { LM } { return None; }
            part[k] = v as u32;
        }
        let r = raw(&part);
        match &mut f { None => f = Some(r), Some(x) => *x += &r }
    }
    f
}
fn val(l: &[u64; 10]) -> U256 {
    let mut o = [0u32; 10];
    for i in 0..10 { o[i] = l[i] as u32; }
    limb_val(&o)
}
fn b32n(f: &Field) -> U256 { U256::from_be(&f.b32()) }
fn stor(f: &Field) -> U256 { let s: FieldStorage = (*f).into(); U256::from_u32s(s.0) }

/// Everything that depends on one representation only.
fn unary(f: &Field, m: u32, v: &U256, full: bool, tr: &mut Tr) -> Res {
    let mut t = *f;
    t.normalize();
    same!(tr, b32n(&t), *v, "normalize");
    let nf = t;
    let mut t = *f;
    t.normalize_var();
    same!(tr, b32n(&t), *v, "normalize_var");
    let mut t = *f;
    t.normalize_weak();
    same!(tr, uf(&t), *v, "normalize_weak");
    let weak = t;
    same!(tr, f.normalizes_to_zero(), v.is_zero(), "normalizes_to_zero");
    same!(tr, f.normalizes_to_zero_var(), v.is_zero(), "normalizes_to_zero_var");
    same!(tr, weak.normalizes_to_zero(), v.is_zero(), "normalizes_to_zero after weak");
    same!(tr, weak.normalizes_to_zero_var(), v.is_zero(), "normalizes_to_zero_var after weak");
    let neg = P.neg(v);
    if m <= 31 {
        let g = f.neg(m);
        same!(tr, uf(&g), neg, "neg");
        if 2 * m + 1 <= 32 { same!(tr, *f == *f, true, "v == v"); }
        if full {
            same!(tr, g.normalizes_to_zero(), v.is_zero(), "-v normalizes_to_zero");
            same!(tr, g.normalizes_to_zero_var(), v.is_zero(), "-v normalizes_to_zero_var");
            let mut h = Field::from_int(5);
            h.neg_in_place(f, m);
            same!(tr, uf(&h), neg, "neg_in_place");
            if m + 1 + m <= 32 {
                let s = g + *f;
                same!(tr, s.normalizes_to_zero(), true, "v + -v normalizes_to_zero");
                same!(tr, s.normalizes_to_zero_var(), true, "v + -v normalizes_to_zero_var");
            }
            if m < 30 { same!(tr, uf(&g.neg(m + 1)), *v, "--v"); }
        }
    }
    same!(tr, weak.eq_var(&nf), true, "eq_var of weak and normalized");
    same!(tr, nf.eq_var(&weak), true, "eq_var of normalized and weak");
    if m <= 30 {
        same!(tr, nf == *f, true, "== of normalized and loose");
        same!(tr, *f == nf, true, "== of loose and normalized");
        same!(tr, nf.eq_var(f), true, "eq_var of normalized and loose");
    }
    if full {
        same!(tr, nf.is_zero(), v.is_zero(), "is_zero");
        same!(tr, nf.is_odd(), v.is_odd(), "is_odd");
        let mut b = [0x55; 32];
        nf.fill_b32(&mut b);
        same!(tr, b, v.be(), "fill_b32");
        same!(tr, stor(&nf), *v, "to storage");
        // Limbs up to 2 m (2^26 - 1) stay within 32 bits up to magnitude 31. Magnitude 32 is only
        // permitted up to 2 m times the limbs of p, which is what the operations produce (see sequences).
        let mut k = 2;
        while k * m <= 31 && k <= 8 {
            let mut t = *f;
            t.mul_int(k);
            same!(tr, uf(&t), P.mul(v, &U256::from(k as u64)), format!("mul_int({})", k));
            k += 1;
        }
        let mut t = *f;
        t.mul_int(1);
        same!(tr, uf(&t), *v, "mul_int(1)");
        if m <= 8 {
            let sq = P.sqr(v);
            same!(tr, uf(&f.sqr()), sq, "sqr");
            same!(tr, uf(&(*f * *f)), sq, "v * v");
            let mut t = Field::from_int(3);
            t.sqr_in_place(f);
            same!(tr, uf(&t), sq, "sqr_in_place");
            same!(tr, uf(&(*f * nf)), sq, "v * normalized v");
            if m <= 7 { same!(tr, uf(&(f.neg(m) * nf)), P.neg(&sq), "-v * v"); }
        }
        let o = Field::from_int(9);
        let mut t = o;
        t.cmov(f, false);
        same!(tr, uf(&t), U256::from(9), "cmov(false)");
        t.cmov(f, true);
        same!(tr, uf(&t), *v, "cmov(true)");
        t.cmov(&o, true);
        same!(tr, uf(&t), U256::from(9), "cmov back");
    }
    Ok(if v.is_zero() { "zero" } else { "non-zero" })
}
fn roots(f: &Field, v: &U256, tr: &mut Tr) -> Res {
    let (r, ok) = f.sqrt();
    let root = P.sqrt(v);
    same!(tr, ok, root.is_some(), "sqrt success");
    let w = uf(&r);
    same!(tr, P.sqr(&w), if ok { *v } else { P.neg(v) }, "square of the root");
    same!(tr, P.sqrt(&w).is_some(), true, "the root is itself a square");
    same!(tr, f.is_quad_var(), root.is_some(), "is_quad_var");
    let i = P.inv(v);
    same!(tr, uf(&f.inv()), i, "inv");
    same!(tr, uf(&f.inv_var()), i, "inv_var");
    Ok(if v.is_zero() { "zero" } else if ok { "square" } else { "non-square" })
}
fn pair(a: &Field, b: &Field, va: &U256, vb: &U256, ma: u32, mb: u32, tr: &mut Tr) -> Res {
    if ma + mb <= 32 {
        let w = P.add(va, vb);
        let s = *a + *b;
        same!(tr, uf(&s), w, "a + b");
        same!(tr, uf(&(a + b)), w, "&a + &b");
        let mut t = *a;
        t += *b;
        same!(tr, uf(&t), w, "a += b");
        let mut t = *a;
        t += b;
        same!(tr, uf(&t), w, "a += &b");
        same!(tr, s.normalizes_to_zero(), w.is_zero(), "a + b normalizes_to_zero");
        same!(tr, s.normalizes_to_zero_var(), w.is_zero(), "a + b normalizes_to_zero_var");
    }
    if ma + mb + 1 <= 32 {
        same!(tr, *a == *b, va == vb, "a == b");
        if ma <= 1 { same!(tr, a.eq_var(b), va == vb, "a.eq_var(b)"); }
        if mb <= 1 { same!(tr, b.eq_var(a), va == vb, "b.eq_var(a)"); }
    }
    if ma <= 8 && mb <= 8 {
        let w = P.mul(va, vb);
        same!(tr, uf(&(*a * *b)), w, "a * b");
        same!(tr, uf(&(a * b)), w, "&a * &b");
        let mut t = *a;
        t *= *b;
        same!(tr, uf(&t), w, "a *= b");
        let mut t = *a;
        t *= b;
        same!(tr, uf(&t), w, "a *= &b");
        let mut t = Field::from_int(3);
        t.mul_in_place(a, b);
        same!(tr, uf(&t), w, "mul_in_place");
    }
    let (mut na, mut nb) = (*a, *b);
    na.normalize();
    nb.normalize_var();
    let c = va.cmp(vb);
    same!(tr, na.cmp_var(&nb), c, "cmp_var");
    same!(tr, na.cmp(&nb), c, "cmp");
    same!(tr, na.partial_cmp(&nb), Some(c), "partial_cmp");
    same!(tr, na < nb, c == Ordering::Less, "<");
    let (mut x, y): (FieldStorage, FieldStorage) = (na.into(), nb.into());
    x.cmov(&y, false);
    same!(tr, U256::from_u32s(x.0), *va, "storage cmov(false)");
    x.cmov(&y, true);
    same!(tr, U256::from_u32s(x.0), *vb, "storage cmov(true)");
    Ok(match c { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" })
}

/// k*p + d written in limbs, then moved between neighbouring limbs as `borrow` says.
fn shifted(k: u64, d: i64, pos: usize, borrow: u64, amount: u64) -> Option<[u64; 10]> {
    let pl = limbs(&P.m);
    let mut l = [0i64; 10];
    for i in 0..10 { l[i] = pl[i] as i64 * k as i64; }
    l[pos] += d;
    for i in 0..9 { // canonical carries, top limb open
        let c = l[i] >> 26;
        l[i] -= c << 26;
        l[i + 1] += c;
    }
    if l[9] < 0 { return None; }
    for i in (0..9).rev() {
        if borrow >> i & 1 == 1 {
            let a = (amount as i64).min(l[i + 1]);
            if a == 0 { return None; }
            l[i + 1] -= a;
            l[i] += a << 26;
        }
    }
    let mut o = [0u64; 10];
    for i in 0..10 { o[i] = l[i] as u64; }
    Some(o)
}
fn magnitude(l: &[u64; 10]) -> u32 {
    (0..10).map(|i| l[i].div_ceil(2 * if i == 9 { TM } else { LM })).max().unwrap().max(1) as u32
}

/// Values in a handful of representations each.
fn reps(v: &U256) -> Vec<(Field, u32)> {
    let mut out = vec![(fe(v), 1), (fe_repr(v, 1), 1), (fe_repr(v, 2), 1), (fe_repr(v, 3), 2)];
    let mut h = fe(v);
    for _ in 0..7 { h += &fe_repr(&U256::ZERO, 1); h += &Field::default(); }
    out.push((h, 8));
    let mut l = [0u64; 10];
    let (a, p) = (limbs(v), limbs(&P.m));
    for i in 0..10 { l[i] = a[i] as u64 + 14 * p[i] as u64; }
    if let Some(f) = build(&l, 8) { out.push((f, 8)); }
    out
}

#[derive(Clone, Debug)]
struct St { f: Field, v: U256, m: u32, key: String }
impl PartialEq for St { fn eq(&self, o: &St) -> bool { self.key == o.key && self.v == o.v && self.m == o.m } }
impl Eq for St {}
impl Hash for St { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h); self.v.hash(h); self.m.hash(h) } }
fn st(f: Field, v: U256, m: u32) -> St { St { key: format!("{:?}", f), f, v, m } }

pub fn c15(run: &Run) {
    // every limb at one of four extreme values, magnitude 1..32
    let alpha = |m: u64, top: bool| { let x = if top { TM } else { LM }; [0, 1, x * m, 2 * x * m] };
    let vec4 = move |i: u64, m: u64| { let mut l = [0u64; 10]; for k in 0..10 { l[k] = alpha(m, k == 9)[(i >> (2 * k)) as usize & 3]; } l };
    let mags: Vec<u32> = run.q(vec![1, 31], vec![1, 2, 8, 16, 31]);
    for m in mags {
        run.sweep(&format!("limb-extremes-magnitude-{}", m), 1 << 20, |i, tr| {
            let l = vec4(i, m as u64);
            tr.note(|| format!("limbs {:x?} magnitude {}", l, m));
            let f = match build(&l, m) { Some(f) => f, None => return Err("harness: limbs do not fit".into()) };
            unary(&f, m, &val(&l), run.thorough(), tr)
        });
    }
    // limbs of p, one off, and doubled
    let pl = limbs(&P.m);
    run.sweep("limbs-around-p", run.q(1 << 20, 1 << 20), |i, tr| {
        let mut l = [0u64; 10];
        for k in 0..10 { let p = pl[k] as u64; l[k] = [p, p - 1, (p + 1).min(2 * p), 2 * p][(i >> (2 * k)) as usize & 3]; }
        tr.note(|| format!("limbs {:x?}", l));
        let m = magnitude(&l);
        let f = build(&l, m).ok_or("harness")?;
        unary(&f, m, &val(&l), true, tr)
    });
    // zero and near-zero tests: k*p + d with carries moved down in every combination
    let ds: Vec<(i64, usize)> = run.q(vec![(0, 0), (1, 0), (-1, 0), (1, 1), (-1, 9)], [0i64, 1, -1, 2, -2, 0x3d1, -0x3d1].iter().flat_map(|d| (0..10).map(move |p| (*d, p))).collect());
    let kmax = 62usize;
    let amounts = run.q(vec![1u64, 3], vec![1u64, 2, 3, 15, 60]);
    run.sweep("multiples-of-p-borrowed-limbs", (ds.len() * kmax * amounts.len() * 512) as u64, |i, tr| {
        let mut x = Ix(i);
        let borrow = x.take(512) as u64;
        let (d, pos) = *x.of(&ds);
        let k = x.take(kmax) as u64;
        let amount = *x.of(&amounts);
        let l = match shifted(k, d, pos, borrow, amount) { Some(l) => l, None => return Ok("-") };
        let m = magnitude(&l);
        if m > 31 { return Ok("-"); }
        tr.note(|| format!("{} p + {} at limb {}: limbs {:x?} magnitude {}", k, d, pos, l, m));
        let f = build(&l, m).ok_or("harness")?;
        let r = unary(&f, m, &val(&l), false, tr)?;
        if d == 0 && r != "zero" { return Err("harness: not a multiple of p".into()); }
        Ok(r)
    });
    // integers by value in all representations
    let mut vals: Vec<U256> = raw_values().into_iter().map(|v| P.red(&v)).collect();
    vals.extend(near(&P.m, 40).into_iter().map(|v| P.red(&v)));
    vals.extend(around_limbs(&P.m).into_iter().step_by(3).map(|v| P.red(&v)));
    let vals = dedup(vals);
    run.sweep("values-all-representations", vals.len() as u64, |i, tr| {
        let v = &vals[i as usize];
        tr.note(|| format!("v={:?}", v));
        let mut last = "";
        for (f, m) in reps(v) { last = unary(&f, m, v, true, tr)?; }
        if v.bits() <= 26 {
            let k = v.0[0] as u32;
            same!(tr, b32n(&Field::from_int(k)), *v, "from_int");
            let mut t = fe(&P.m.addi(-1));
            t.set_int(k);
            same!(tr, b32n(&t), *v, "set_int");
        }
        let l = v.u32s();
        same!(tr, b32n(&Field::new(l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])), *v, "Field::new");
        let f: Field = FieldStorage::new(l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0]).into();
        same!(tr, b32n(&f), *v, "from storage");
        same!(tr, stor(&f), *v, "storage round trip");
        Ok(last)
    });
    let mut bytes = raw_values();
    bytes.extend(patterns(&[0, 1, 0xffffffff]));
    bytes.extend(patterns(&[0, 0x80000000, 0x55555555]));
    bytes.extend(around_limbs(&P.m));
    for i in 0..256 { for b in 0..32 { let mut x = [0u8; 32]; x[b] = i as u8; bytes.push(U256::from_be(&x)); bytes.push(U256::from_be(&x).not()); } }
    for l in 0..1u64 << 10 { // 26-bit limb patterns
        let mut v = U256::ZERO;
        for k in 0..10 { if l >> k & 1 == 1 { v = v.add(&U256::from(if k == 9 { TM } else { LM }).shl(26 * k)); } }
        for d in [0, -1, 1, -0x3d0, -0x3d1, -0x3d2] { bytes.push(v.addi(d)); bytes.push(v.sub(&U256::pow2(32)).addi(d)); }
    }
    let bytes = dedup(bytes);
    run.sweep("from-bytes", bytes.len() as u64, |i, tr| {
        let v = &bytes[i as usize];
        tr.note(|| format!("bytes {:?}", v));
        let mut f = Field::from_int(77);
        let ok = f.set_b32(&v.be());
        same!(tr, ok, *v < P.m, "set_b32 accepts");
        if !ok { return Ok("rejected"); }
        same!(tr, f.b32(), v.be(), "b32");
        same!(tr, stor(&f), *v, "storage");
        let g: Field = FieldStorage(v.u32s()).into();
        same!(tr, g.b32(), v.be(), "storage to field to bytes");
        same!(tr, f.is_odd(), v.is_odd(), "is_odd");
        same!(tr, f.is_zero(), v.is_zero(), "is_zero");
        same!(tr, f.normalizes_to_zero_var(), v.is_zero(), "normalizes_to_zero_var");
        Ok("accepted")
    });
    let rv: Vec<U256> = run.q(vals.iter().cloned().step_by(4).collect(), vals.clone());
    let small: Vec<U256> = dedup(rv.into_iter().chain((0..run.q(300u64, 4000)).flat_map(|i| [U256::from(i), P.m.addi(-1 - i as i64)])).collect());
    run.sweep("roots-and-inverses", small.len() as u64, |i, tr| {
        let v = &small[i as usize];
        tr.note(|| format!("v={:?}", v));
        let mut last = "";
        let rs = reps(v);
        for (k, (f, _)) in rs.iter().enumerate() { if run.thorough() || k == i as usize % rs.len() { last = roots(f, v, tr)?; } }
        Ok(last)
    });
    run.sweep("roots-of-squares", small.len() as u64, |i, tr| {
        let w = P.sqr(&small[i as usize]);
        let v = if i % 2 == 0 { w } else { P.neg(&w) };
        tr.note(|| format!("v={:?}", v));
        let rs = reps(&v);
        roots(&rs[i as usize / 2 % rs.len()].0, &v, tr)
    });

    // pairs
    let pv: Vec<U256> = {
        let mut v: Vec<U256> = near(&U256::ZERO, 3).into_iter().map(|x| P.red(&x)).collect();
        v.extend(near(&P.half(), 2));
        v.extend((1..6).map(|i| P.m.addi(-i)));
        v.extend([U256::pow2(255), U256::from(0x1000003d0), U256::from(0x1000003d1), U256::from(0x3d1), P.m.sub(&U256::pow2(32)), U256::pow2(26).addi(-1), U256::pow2(26), U256::pow2(234).addi(-1), U256::pow2(234), N.m, beta()]);
        v.extend((1..10).map(|k| U256::pow2(26 * k).addi(-1)));
        v.extend(generic("field", run.q(6, 30)));
        dedup(v.into_iter().map(|x| P.red(&x)).collect())
    };
    let nr = reps(&U256::ONE).len();
    let rr: Vec<Vec<(Field, u32)>> = pv.iter().map(reps).collect();
    run.sweep("pairs-all-representations", (pv.len() * pv.len() * nr * nr) as u64, |i, tr| {
        let mut x = Ix(i);
        let (ka, kb) = (x.take(nr), x.take(nr));
        let (a, b) = (x.take(pv.len()), x.take(pv.len()));
        if ka >= rr[a].len() || kb >= rr[b].len() { return Ok("-"); }
        tr.note(|| format!("a={:?} representation {}, b={:?} representation {}", pv[a], ka, pv[b], kb));
        pair(&rr[a][ka].0, &rr[b][kb].0, &pv[a], &pv[b], rr[a][ka].1, rr[b][kb].1, tr)
    });
    let bigv: Vec<U256> = vals.iter().cloned().step_by(run.q(2, 1)).collect();
    run.sweep("mul-value-pairs", (bigv.len() * bigv.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (a, b) = (x.of(&bigv), x.of(&bigv));
        tr.note(|| format!("a={:?} b={:?}", a, b));
        same!(tr, uf(&(fe(a) * fe(b))), P.mul(a, b), "a * b");
        Ok("product")
    });
    // full-limb patterns at the multiplication limit
    let two = move |i: u64, m: u64| { let mut l = [0u64; 10]; for k in 0..10 { if i >> k & 1 == 1 { l[k] = 2 * m * if k == 9 { TM } else { LM }; } } l };
    for (ma, mb) in run.q(vec![(8u32, 8u32), (1, 8)], vec![(8, 8), (1, 8), (8, 1), (1, 1), (4, 7)]) {
        let fa: Vec<(Field, U256)> = (0..1024).map(|i| { let l = two(i, ma as u64); (build(&l, ma).unwrap(), val(&l)) }).collect();
        let fb: Vec<(Field, U256)> = (0..1024).map(|i| { let l = two(i, mb as u64); (build(&l, mb).unwrap(), val(&l)) }).collect();
        run.sweep(&format!("mul-full-limbs-{}-{}", ma, mb), 1 << 20, |i, tr| {
            let mut x = Ix(i);
            let (a, b) = (x.of(&fa), x.of(&fb));
            tr.note(|| format!("a={:?} b={:?}", a.0, b.0));
            let r = a.0 * b.0;
            same!(tr, uf(&r), P.mul(&a.1, &b.1), "a * b");
            same!(tr, r.normalizes_to_zero_var(), a.1.is_zero() || b.1.is_zero(), "zero test of a * b");
            Ok("product")
        });
    }
    run.sweep("sqr-limb-extremes-magnitude-8", 1 << 20, |i, tr| {
        let l = vec4(i, 8);
        tr.note(|| format!("limbs {:x?}", l));
        let v = val(&l);
        let f = build(&l, 8).ok_or("harness")?;
        let r = f.sqr();
        same!(tr, uf(&r), P.sqr(&v), "sqr");
        same!(tr, r.normalizes_to_zero(), v.is_zero(), "zero test of the square");
        Ok("square")
    });
    run.sweep("sqr-limb-extremes-magnitude-1", 1 << 20, |i, tr| {
        let l = vec4(i, 1);
        let v = val(&l);
        same!(tr, uf(&build(&l, 1).ok_or("harness")?.sqr()), P.sqr(&v), "sqr");
        Ok("square")
    });
    // chosen products and squares
    let mut targets: Vec<U256> = vec![];
    for l in 0..1u64 << 10 {
        let mut v = U256::ZERO;
        for k in 0..10 { if l >> k & 1 == 1 { v = v.add(&U256::from(if k == 9 { TM } else { LM }).shl(26 * k)); } }
        targets.push(P.red(&v));
    }
    for d in 0..run.q(80i64, 2000) { for c in [U256::ZERO, P.c, U256::pow2(32), U256::from(0x3d1), P.half(), P.m.sub(&P.c)] { targets.push(P.red(&c.addi(d))); targets.push(P.red(&P.sub(&c, &U256::from(d as u64)))); } }
    let targets = dedup(targets);
    let fac = nonzero(pv.clone());
    let finv: Vec<U256> = fac.iter().map(|a| P.inv(a)).collect();
    run.sweep("mul-chosen-result", (targets.len() * fac.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let t = x.of(&targets);
        let k = x.take(fac.len());
        let b = P.mul(t, &finv[k]);
        tr.note(|| format!("a={:?} b={:?}", fac[k], b));
        let (ra, rb) = (reps(&fac[k]), reps(&b));
        for j in 0..ra.len().min(rb.len()) {
            let r = ra[j].0 * rb[(j + i as usize) % rb.len()].0;
            same!(tr, uf(&r), *t, "a * b");
            same!(tr, r.normalizes_to_zero_var(), t.is_zero(), "zero test of a * b");
            let mut w = r;
            w.normalize_weak();
            same!(tr, w.eq_var(&fe(t)), true, "a * b eq_var result");
        }
        Ok("product")
    });
    run.sweep("sqr-chosen-result", targets.len() as u64, |i, tr| {
        let t = &targets[i as usize];
        let r = match P.sqrt(t) { Some(r) => r, None => return Ok("-") };
        tr.note(|| format!("v={:?}", r));
        for v in [r, P.neg(&r)] { for (f, _) in reps(&v) { same!(tr, uf(&f.sqr()), *t, "sqr"); same!(tr, uf(&(f * f)), *t, "v * v"); } }
        Ok("square")
    });

    // operation sequences without intermediate normalisation
    let gens: Vec<(Field, U256, u32)> = vec![(Field::from_int(1), U256::ONE, 1), (fe(&P.m.addi(-1)), P.m.addi(-1), 1), (fe_repr(&P.c, 1), P.c, 1), (fe_repr(&P.half(), 3), P.half(), 2)];
    let inits: Vec<St> = vec![st(Field::default(), U256::ZERO, 0), st(fe(&P.m.addi(-1)), P.m.addi(-1), 1), st(fe_repr(&U256::ZERO, 1), U256::ZERO, 1), st(fe(&generic("bfs", 1)[0]), generic("bfs", 1)[0], 1)];
    run.bfs("sequences", inits, run.q(5, 6), run.q(400_000, 4_000_000), |s, tr| {
        let mut out: Vec<(String, St)> = vec![];
        let mut push = |tr: &mut Tr, l: String, f: Field, v: U256, m: u32| -> Result<(), String> {
            same!(tr, uf(&f), v, l);
            same!(tr, f.normalizes_to_zero(), v.is_zero(), format!("{} then normalizes_to_zero", l));
            same!(tr, f.normalizes_to_zero_var(), v.is_zero(), format!("{} then normalizes_to_zero_var", l));
            out.push((l, st(f, v, m)));
            Ok(())
        };
        let (f, v, m) = (s.f, s.v, s.m);
        for (k, how) in ["normalize", "normalize_var", "normalize_weak"].iter().enumerate() {
            let mut t = f;
            match k { 0 => t.normalize(), 1 => t.normalize_var(), _ => t.normalize_weak() }
            if k < 2 { same!(tr, b32n(&t), v, how); }
            push(tr, how.to_string(), t, v, 1)?;
        }
        if m <= 31 { push(tr, format!("neg({})", m), f.neg(m), P.neg(&v), m + 1)?; }
        for k in [2, 3, 5, 8] { if k * m <= 32 { let mut t = f; t.mul_int(k); push(tr, format!("mul_int({})", k), t, P.mul(&v, &U256::from(k as u64)), k * m)?; } }
        if 2 * m <= 32 { push(tr, "v + v".into(), f + f, P.add(&v, &v), 2 * m)?; }
        for (g, gv, gm) in &gens {
            if m + gm <= 32 { let mut t = f; t += g; push(tr, format!("+{:?}", gv), t, P.add(&v, gv), m + gm)?; }
            if m <= 8 { let mut t = f; t *= g; push(tr, format!("*{:?}", gv), t, P.mul(&v, gv), 1)?; }
        }
        if m <= 8 {
            push(tr, "sqr".into(), f.sqr(), P.sqr(&v), 1)?;
            push(tr, "v * v".into(), f * f, P.sqr(&v), 1)?;
        }
        Ok(out)
    });
}
