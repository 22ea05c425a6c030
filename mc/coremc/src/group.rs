//! C16: the group law in every formula, scaling and representation.
use common::*;
use engine::*;
use libsecp256k1::curve::{Affine, AffineStorage, Field, Jacobian};
use libsecp256k1::util::{globalz_set_table_gej, odd_multiples_table, set_table_gej_var, AFFINE_INFINITY, JACOBIAN_INFINITY};
use std::hash::{Hash, Hasher};

/// Representations 0..6 of a coordinate; 4 and 5 have magnitude 8.
pub const CR: usize = 6;
pub fn coord(v: &U256, k: usize) -> Field {
    match k {
        0..=3 => fe_repr(v, k),
        4 => { let mut f = fe(v); for _ in 0..7 { f += &fe_repr(&U256::ZERO, 1); } f } // v + 7p
        _ => fe(&P.neg(v)).neg(7), // 16p - (p - v)
    }
}
/// Six uniform and six mixed representations of a coordinate triple.
pub fn reps3(k: usize) -> (usize, usize, usize) { let r = k % CR; if k < CR { (r, r, r) } else { (r, (r + 2) % CR, (r + 3) % CR) } }
pub const R3: usize = 2 * CR;
pub fn jrep(p: &Pt, z: &U256, k: usize) -> Jacobian {
    let (kx, ky, kz) = reps3(k);
    match p {
        Pt::Inf => JACOBIAN_INFINITY,
        Pt::Aff(x, y) => { let z2 = P.sqr(z); Jacobian { x: coord(&P.mul(x, &z2), kx), y: coord(&P.mul(y, &P.mul(&z2, z)), ky), z: coord(z, kz), infinity: false } }
    }
}
pub fn arep(p: &Pt, k: usize) -> Affine {
    let (kx, ky, _) = reps3(k);
    match p { Pt::Inf => AFFINE_INFINITY, Pt::Aff(x, y) => Affine { x: coord(x, kx), y: coord(y, ky), infinity: false } }
}
/// Compares a Jacobian result with a reference point (cross-multiplied, no inversion).
pub fn jis(tr: &mut Tr, r: &Jacobian, want: &Pt, what: &str) -> Result<(), String> {
    tr.step();
    let good = match want {
        Pt::Inf => r.is_infinity(),
        Pt::Aff(x, y) => !r.is_infinity() && {
            let z = uf(&r.z);
            let z2 = P.sqr(&z);
            !z.is_zero() && uf(&r.x) == P.mul(x, &z2) && uf(&r.y) == P.mul(y, &P.mul(&z2, &z))
        },
    };
    if good { Ok(()) } else { Err(format!("{}: library gives {} (Jacobian {:?}), reference model {}", what, if r.is_infinity() { "infinity".into() } else { pts(&ujac(r)) }, r, pts(want))) }
}
fn ais(tr: &mut Tr, r: &Affine, want: &Pt, what: &str) -> Result<(), String> {
    tr.step();
    let good = match want { Pt::Inf => r.is_infinity(), Pt::Aff(x, y) => !r.is_infinity() && uf(&r.x) == *x && uf(&r.y) == *y };
    if good { Ok(()) } else { Err(format!("{}: library gives {}, reference model {}", what, pts(&uaff(r)), pts(want))) }
}
/// r.z = a.z * rzr, an infinite result counting as z = 0.
fn ratio(tr: &mut Tr, r: &Jacobian, a: &Jacobian, rzr: &Field, what: &str) -> Result<(), String> {
    tr.step();
    if a.is_infinity() { return Ok(()); }
    let z = if r.is_infinity() { U256::ZERO } else { uf(&r.z) };
    let w = P.mul(&uf(&a.z), &uf(rzr));
    if z == w { Ok(()) } else { Err(format!("{}: z ratio wrong, r.z = {:?}, a.z * rzr = {:?}", what, z, w)) }
}
/// A destination that holds something else before an in-place operation.
fn junk(i: u64) -> Jacobian {
    static J: std::sync::OnceLock<Jacobian> = std::sync::OnceLock::new();
    if i & 1 == 0 { *J.get_or_init(|| jrep(&gi(9), &U256::from(3), 7)) } else { JACOBIAN_INFINITY }
}

fn add_case(pa: &Pt, a: &Jacobian, b: &Jacobian, ba: &Affine, bscaled: &Affine, bzinv: &Field, want: &Pt, i: u64, tr: &mut Tr) -> Result<(), String> {
    let rz = || Field::from_int(77);
    jis(tr, &a.add_var(b, None), want, "add_var")?;
    jis(tr, &b.add_var(a, None), want, "add_var, swapped")?;
    let mut r = junk(i);
    r.add_var_in_place(a, b, None);
    jis(tr, &r, want, "add_var_in_place")?;
    jis(tr, &a.add_ge_var(ba, None), want, "add_ge_var")?;
    let mut r = junk(i);
    r.add_ge_var_in_place(a, ba, None);
    jis(tr, &r, want, "add_ge_var_in_place")?;
    if !a.is_infinity() {
        let mut q = rz();
        let r = a.add_var(b, Some(&mut q));
        jis(tr, &r, want, "add_var with ratio")?;
        ratio(tr, &r, a, &q, "add_var")?;
        let mut q = rz();
        let mut r = junk(i);
        r.add_var_in_place(a, b, Some(&mut q));
        ratio(tr, &r, a, &q, "add_var_in_place")?;
        let mut q = rz();
        let r = a.add_ge_var(ba, Some(&mut q));
        jis(tr, &r, want, "add_ge_var with ratio")?;
        ratio(tr, &r, a, &q, "add_ge_var")?;
        let mut q = rz();
        let mut r = junk(i);
        r.add_ge_var_in_place(a, ba, Some(&mut q));
        jis(tr, &r, want, "add_ge_var_in_place with ratio")?;
        ratio(tr, &r, a, &q, "add_ge_var_in_place")?;
    }
    if !ba.is_infinity() {
        let r = a.add_ge(ba);
        jis(tr, &r, want, "add_ge")?;
        let mut q = junk(i);
        q.add_ge_in_place(a, ba);
        jis(tr, &q, want, "add_ge_in_place")?;
    }
    let mut aa = *a;
    jis(tr, &aa.add_zinv_var(bscaled, bzinv), want, "add_zinv_var")?;
    jis(tr, &aa, pa, "the argument of add_zinv_var afterwards")?;
    let mut r = junk(i);
    r.add_zinv_var_in_place(a, bscaled, bzinv);
    jis(tr, &r, want, "add_zinv_var_in_place")?;
    Ok(())
}

fn unary(p: &Pt, z: &U256, a: &Jacobian, ga: &Affine, dbl: &Pt, xs: &[U256], ss: &[U256], i: u64, tr: &mut Tr) -> Res {
    same!(tr, a.is_infinity(), p.is_inf(), "is_infinity");
    same!(tr, ga.is_infinity(), p.is_inf(), "affine is_infinity");
    jis(tr, &a.double_var(None), dbl, "double_var")?;
    let mut q = Field::from_int(5);
    let r = a.double_var(Some(&mut q));
    jis(tr, &r, dbl, "double_var with ratio")?;
    if p.is_inf() { same!(tr, uf(&q), U256::ONE, "ratio of infinity"); } else { ratio(tr, &r, a, &q, "double_var")?; }
    let mut r = junk(i);
    r.double_var_in_place(a, None);
    jis(tr, &r, dbl, "double_var_in_place")?;
    if !p.is_inf() {
        let mut r = junk(i);
        let mut q = Field::from_int(5);
        r.double_nonzero_in_place(a, Some(&mut q));
        jis(tr, &r, dbl, "double_nonzero_in_place")?;
        ratio(tr, &r, a, &q, "double_nonzero_in_place")?;
    }
    jis(tr, &a.neg(), &p.neg(), "neg")?;
    let mut r = junk(i);
    r.neg_in_place(a);
    jis(tr, &r, &p.neg(), "neg_in_place")?;
    jis(tr, &a.neg().neg(), p, "neg neg")?;
    jis(tr, &a.add_var(&a.neg(), None), &Pt::Inf, "a + -a")?;
    jis(tr, &a.add_var(&a.double_var(None), None), &p.add(dbl), "a + 2a")?;
    ais(tr, &ga.neg(), &p.neg(), "affine neg")?;
    let mut g = AFFINE_INFINITY;
    g.neg_in_place(ga);
    ais(tr, &g, &p.neg(), "affine neg_in_place")?;
    ais(tr, &Affine::from_gej(a), p, "from_gej")?;
    let mut g = Affine::default();
    g.set_gej(a);
    ais(tr, &g, p, "set_gej")?;
    let mut g = arep(&gi(4), 1);
    g.set_gej_var(a);
    ais(tr, &g, p, "set_gej_var")?;
    if !p.is_inf() {
        let mut g = AFFINE_INFINITY;
        g.set_gej_zinv(a, &coord(&P.inv(z), i as usize % CR));
        ais(tr, &g, p, "set_gej_zinv")?;
    }
    jis(tr, &Jacobian::from_ge(ga), p, "from_ge")?;
    let mut r = junk(i);
    r.set_ge(ga);
    jis(tr, &r, p, "set_ge")?;
    let mut r = *a;
    r.set_infinity();
    same!(tr, r.is_infinity(), true, "set_infinity");
    same!(tr, ga.is_valid_var(), !p.is_inf(), "is_valid_var");
    if let Pt::Aff(x, y) = p {
        let mut g = AFFINE_INFINITY;
        g.set_xy(&ga.x, &ga.y);
        ais(tr, &g, p, "set_xy")?;
        jis(tr, &Jacobian::new(ga.x, ga.y), p, "Jacobian::new")?;
        ais(tr, &Affine::new(ga.x, ga.y), p, "Affine::new")?;
        for (k, s) in ss.iter().enumerate() {
            let mut r = *a;
            r.rescale(&if k % 2 == 0 { fe(s) } else { let mut f = coord(s, 4); f.normalize(); f });
            jis(tr, &r, p, "rescale")?;
            same!(tr, uf(&r.z), P.mul(z, s), "z after rescale");
        }
        for (k, c) in xs.iter().enumerate() { same!(tr, a.eq_x_var(&coord(c, (k + i as usize) % CR)), c == x, "eq_x_var"); }
        same!(tr, a.has_quad_y_var(), P.sqrt(y).is_some(), "has_quad_y_var");
        let st: AffineStorage = (*ga).into();
        let back: Affine = st.into();
        ais(tr, &back, p, "storage round trip")?;
        let mut other: AffineStorage = arep(&gi(5), 0).into();
        other.cmov(&st, false);
        ais(tr, &other.into(), &gi(5), "storage cmov(false)")?;
        other.cmov(&st, true);
        ais(tr, &other.into(), p, "storage cmov(true)")?;
        // a point that shares a coordinate
        for q in [p.neg(), Pt::Aff(P.mul(x, &beta()), *y), Pt::Aff(P.mul(x, &beta()), P.neg(y))] {
            let mut other: AffineStorage = arep(&q, 0).into();
            other.cmov(&st, false);
            ais(tr, &other.into(), &q, "storage cmov(false)")?;
            other.cmov(&st, true);
            ais(tr, &other.into(), p, "storage cmov(true)")?;
        }
        // off-curve neighbours
        for (dx, dy) in [(1i64, 0i64), (0, 1), (-1, 0), (0, -1), (1, 1)] {
            let (x2, y2) = (P.add(x, &P.i(dx)), P.add(y, &P.i(dy)));
            let q = Pt::Aff(x2, y2);
            same!(tr, arep(&q, i as usize % R3).is_valid_var(), q.on_curve(7), "is_valid_var off the curve");
        }
    } else {
        same!(tr, a.has_quad_y_var(), false, "has_quad_y_var of infinity");
    }
    Ok(if p.is_inf() { "infinity" } else { "finite" })
}

#[derive(Clone, Debug)]
struct St { j: Jacobian, k: i64, key: String }
impl PartialEq for St { fn eq(&self, o: &St) -> bool { self.key == o.key && self.k == o.k } }
impl Eq for St {}
impl Hash for St { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h); self.k.hash(h) } }
fn st(j: Jacobian, k: i64) -> St { St { key: format!("{:?}", j), j, k } }

pub fn zs(k: usize) -> Vec<U256> {
    let mut v = vec![U256::ONE, P.m.addi(-1), U256::from(2), beta()];
    v.extend(generic("z", k));
    v
}

pub fn c16(run: &Run) {
    let mut al: Vec<Pt> = vec![Pt::Inf];
    al.extend(points(run.q(4, 8), run.q(2, 5), run.q(0, 1)));
    if !run.thorough() { al.extend(special_points(1).into_iter().step_by(3)); }
    let mut s = std::collections::HashSet::new();
    al.retain(|p| s.insert(*p));
    // second cube-root partner: equal y on three x, and negated
    let b2 = P.sqr(&beta());
    let extra: Vec<Pt> = al.iter().take(4).filter(|p| !p.is_inf()).flat_map(|p| [Pt::Aff(P.mul(&p.x(), &b2), p.y()), Pt::Aff(P.mul(&p.x(), &b2), P.neg(&p.y()))]).collect();
    al.extend(extra);
    let mut s = std::collections::HashSet::new();
    al.retain(|p| s.insert(*p));
    let np = al.len();
    let sums: Vec<Pt> = (0..np * np).map(|i| al[i % np].add(&al[i / np])).collect();
    let dbls: Vec<Pt> = al.iter().map(|p| p.dbl()).collect();
    let zv = zs(run.q(1, 2));
    let nz = zv.len();
    let zinv: Vec<U256> = zv.iter().map(|z| P.inv(z)).collect();
    let r3 = R3;
    run.sweep("add-all-pairs", (np * np * nz * nz * r3) as u64, |i, tr| {
        let mut x = Ix(i);
        let rb = x.take(r3);
        let (za, zb) = (x.take(nz), x.take(nz));
        let (ia, ib) = (x.take(np), x.take(np));
        let (a, b) = (al[ia], al[ib]);
        tr.note(|| format!("a={} z={:?}, b={} z={:?}, representations {}..", pts(&a), zv[za], pts(&b), zv[zb], rb));
        let want = sums[ib * np + ia];
        let bj = jrep(&b, &zv[zb], rb);
        let ba = arep(&b, rb);
        let sc = match jrep(&b, &zv[zb], rb) { j if j.infinity => AFFINE_INFINITY, j => Affine { x: j.x, y: j.y, infinity: false } };
        let rs: Vec<usize> = if run.thorough() { (0..r3).collect() } else { vec![rb, (rb * 5 + ia + 1) % r3, (rb * 7 + ib + za) % r3] };
        for ra in rs {
            let aj = jrep(&a, &zv[za], ra);
            add_case(&a, &aj, &bj, &ba, &sc, &coord(&zinv[zb], (ra + rb) % CR), &want, i, tr)?;
        }
        Ok(match (&a, &b) {
            (Pt::Inf, _) | (_, Pt::Inf) => "with infinity",
            _ if a == b => "equal",
            _ if a == b.neg() => "opposite",
            _ if a.y() == b.y() => "equal y",
            _ if a.y() == P.neg(&b.y()) => "negated y",
            _ => "different",
        })
    });
    let xs: Vec<U256> = al.iter().filter(|p| !p.is_inf()).map(|p| p.x()).collect();
    let ss = nonzero(vec![U256::ONE, P.m.addi(-1), U256::from(2), U256::from(0x1000003d1u64), generic("s", 1)[0]]);
    run.sweep("unary-and-conversions", (np * nz * r3) as u64, |i, tr| {
        let mut x = Ix(i);
        let r = x.take(r3);
        let z = x.take(nz);
        let k = x.take(np);
        tr.note(|| format!("p={} z={:?} representation {}", pts(&al[k]), zv[z], r));
        unary(&al[k], &zv[z], &jrep(&al[k], &zv[z], r), &arep(&al[k], r), &dbls[k], &xs, &ss, i, tr)
    });
    // lifting x
    let mut lx: Vec<U256> = raw_values().into_iter().map(|v| P.red(&v)).step_by(run.q(6, 1)).collect();
    lx.extend((0..run.q(600u64, 5000)).map(U256::from));
    lx.extend(near(&P.half(), 20));
    lx.extend((1..60).map(|i| P.m.addi(-i)));
    let lx = dedup(lx);
    run.sweep("lift-x", lx.len() as u64, |i, tr| {
        let v = &lx[i as usize];
        tr.note(|| format!("x={:?}", v));
        let f = coord(v, i as usize % CR);
        let want = Pt::lift(v, false, 7);
        let mut g = if i % 2 == 0 { AFFINE_INFINITY } else { arep(&gi(3), 2) };
        same!(tr, g.set_xquad(&f), want.is_some(), "set_xquad");
        if let Some(w) = want {
            let y = if P.sqrt(&w.y()).is_some() { w } else { w.neg() };
            ais(tr, &g, &y, "set_xquad")?;
            same!(tr, g.is_valid_var(), true, "is_valid_var");
        }
        for odd in [false, true] {
            let mut g = if i % 2 == 1 { AFFINE_INFINITY } else { arep(&gi(3), 2) };
            same!(tr, g.set_xo_var(&f, odd), want.is_some(), "set_xo_var");
            if want.is_some() { ais(tr, &g, &Pt::lift(v, odd, 7).unwrap(), "set_xo_var")?; }
        }
        Ok(if want.is_some() { "on the curve" } else { "no such point" })
    });
    // curve membership of coordinate pairs
    let cv: Vec<U256> = dedup(xs.iter().cloned().chain(al.iter().filter(|p| !p.is_inf()).map(|p| p.y())).chain((0..8).map(U256::from)).chain((1..4).map(|i| P.m.addi(-i))).collect());
    run.sweep("membership-of-pairs", (cv.len() * cv.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let p = Pt::Aff(*x.of(&cv), *x.of(&cv));
        tr.note(|| pts(&p));
        let w = p.on_curve(7);
        for r in 0..r3 { same!(tr, arep(&p, r).is_valid_var(), w, "is_valid_var"); }
        Ok(if w { "on the curve" } else { "off the curve" })
    });
    // batch conversions over chains z_i = z_(i-1) * zr_i
    let ratios = [U256::ONE, U256::from(3), P.m.addi(-1), generic("ratio", 1)[0]];
    let lens = run.q(6, 9);
    let fin: Vec<Pt> = al.iter().filter(|p| !p.is_inf()).cloned().collect();
    run.sweep("table-conversions", (1..=lens).map(|l| 4u64.pow(l)).sum::<u64>() * 3, |i, tr| {
        let mut x = Ix(i);
        let rep = x.take(3);
        let (mut c, mut l) = (x.0, 1u32);
        while c >= 4u64.pow(l) { c -= 4u64.pow(l); l += 1; }
        let l = l as usize;
        let zr: Vec<U256> = (0..l).map(|k| ratios[(c >> (2 * k)) as usize & 3]).collect();
        tr.note(|| format!("ratios {:?} representation {}", zr, rep));
        let mut z = if c % 3 == 0 { U256::ONE } else { zv[zv.len() - 1] };
        let mut a = vec![];
        for k in 0..l { z = P.mul(&z, &zr[k]); a.push(jrep(&fin[(k * 5 + c as usize) % fin.len()], &z, (rep * 5 + k) % r3)); }
        let want: Vec<Pt> = (0..l).map(|k| fin[(k * 5 + c as usize) % fin.len()]).collect();
        // ratios carry representations of their own; the first one is not used by the conversion
        let zf: Vec<Field> = (0..l).map(|k| coord(&if k == 0 { U256::from(99) } else { zr[k] }, (k + rep * 2) % CR)).collect();
        let mut r = vec![AFFINE_INFINITY; l];
        set_table_gej_var(&mut r, &a, &zf);
        for k in 0..l { ais(tr, &r[k], &want[k], "set_table_gej_var")?; }
        let mut r = vec![AFFINE_INFINITY; l];
        let mut gz = Field::from_int(1);
        globalz_set_table_gej(&mut r, &mut gz, &a, &zf);
        for k in 0..l {
            same!(tr, r[k].is_infinity(), false, "globalz table infinity");
            jis(tr, &Jacobian { x: r[k].x, y: r[k].y, z: gz, infinity: false }, &want[k], "globalz_set_table_gej")?;
        }
        Ok("converted")
    });
    let om = run.q(17usize, 40);
    run.sweep("odd-multiples-table", (fin.len() * nz * r3 * om) as u64, |i, tr| {
        let mut x = Ix(i);
        let l = x.take(om) + 1;
        let r = x.take(r3);
        let z = x.take(nz);
        let p = *x.of(&fin);
        tr.note(|| format!("p={} z={:?} representation {} length {}", pts(&p), zv[z], r, l));
        if !run.thorough() && (l + r + z) % 3 != 0 && l != 8 { return Ok("-"); }
        let a = jrep(&p, &zv[z], r);
        let mut prej = vec![Jacobian::default(); l];
        let mut zr = vec![Field::default(); l];
        odd_multiples_table(&mut prej, &mut zr, &a);
        let mut t1 = vec![Affine::default(); l];
        set_table_gej_var(&mut t1, &prej, &zr);
        let mut t2 = vec![Affine::default(); l];
        let mut gz = Field::default();
        globalz_set_table_gej(&mut t2, &mut gz, &prej, &zr);
        let d = p.dbl();
        let mut w = p;
        for k in 0..l {
            ais(tr, &t1[k], &w, "odd multiple (affine table)")?;
            jis(tr, &Jacobian { x: t2[k].x, y: t2[k].y, z: gz, infinity: false }, &w, "odd multiple (global z table)")?;
            if k + 1 < l { w = w.add(&d); }
        }
        Ok("table")
    });
    #[cfg(libsecp256k1_mc)]
    {
        use libsecp256k1::mc_hooks::{inv_all_var, set_all_gej_var};
        let items: Vec<(Pt, U256)> = vec![(Pt::Inf, U256::ONE), (gi(1), U256::ONE), (gi(-2), zv[nz - 1]), (gi(5), beta())];
        let ll = run.q(6, 9);
        run.sweep("batch-to-affine-lists", (0..=ll).map(|l| 4u64.pow(l)).sum::<u64>(), |i, tr| {
            let (mut c, mut l) = (i, 0u32);
            while c >= 4u64.pow(l) { c -= 4u64.pow(l); l += 1; }
            let ix: Vec<usize> = (0..l).map(|k| (c >> (2 * k)) as usize & 3).collect();
            tr.note(|| format!("items {:?}", ix));
            let a: Vec<Jacobian> = ix.iter().enumerate().map(|(k, j)| jrep(&items[*j].0, &items[*j].1, k % r3)).collect();
            let r = set_all_gej_var(&a);
            same!(tr, r.len(), a.len(), "length");
            for k in 0..r.len() { ais(tr, &r[k], &items[ix[k]].0, "set_all_gej_var")?; }
            let vals: Vec<U256> = ix.iter().enumerate().map(|(k, j)| U256::from((*j * 7 + k + 1) as u64)).collect();
            let f: Vec<Field> = vals.iter().enumerate().map(|(k, v)| coord(v, k % CR)).collect();
            let r = inv_all_var(&f);
            same!(tr, r.len(), f.len(), "length");
            for k in 0..r.len() { same!(tr, P.mul(&uf(&r[k]), &vals[k]), U256::ONE, "inv_all_var"); }
            Ok(if ix.contains(&0) { "with infinity" } else { "all finite" })
        });
    }
    // sequences of additions without intermediate normalisation
    let lim = 70i64;
    let tab: Vec<Pt> = (-lim..=lim).map(|k| { let p = gi(k.abs()); if k < 0 { p.neg() } else { p } }).collect();
    let at = |k: i64| tab[(k + lim) as usize];
    let z2 = zv[nz - 1];
    let gens: Vec<(i64, Jacobian, Affine, Affine, Field)> = [1i64, -1, 2, -3].iter().map(|k| {
        let p = at(*k);
        let j = jrep(&p, &z2, (*k + 5) as usize);
        (*k, j, arep(&p, (*k + 4) as usize), Affine { x: j.x, y: j.y, infinity: false }, fe(&P.inv(&z2)))
    }).collect();
    let inits = vec![st(JACOBIAN_INFINITY, 0), st(jrep(&at(1), &U256::ONE, 0), 1), st(jrep(&at(-3), &z2, 5), -3)];
    run.bfs("sequences", inits, run.q(4, 6), run.q(200_000, 2_000_000), |s, tr| {
        let mut out = vec![];
        let mut push = |tr: &mut Tr, l: String, j: Jacobian, k: i64| -> Result<(), String> { if k.abs() <= lim { jis(tr, &j, &at(k), &l)?; out.push((l, st(j, k))); } Ok(()) };
        let (j, k) = (s.j, s.k);
        push(tr, "double_var".into(), j.double_var(None), 2 * k)?;
        push(tr, "add_var(itself)".into(), j.add_var(&j, None), 2 * k)?;
        push(tr, "neg".into(), j.neg(), -k)?;
        for (g, gj, ga, gs, gz) in &gens {
            push(tr, format!("add_var {}", g), j.add_var(gj, None), k + g)?;
            push(tr, format!("{} add_var", g), gj.add_var(&j, None), k + g)?;
            push(tr, format!("add_ge {}", g), j.add_ge(ga), k + g)?;
            push(tr, format!("add_ge_var {}", g), j.add_ge_var(ga, None), k + g)?;
            let mut t = j;
            push(tr, format!("add_zinv_var {}", g), t.add_zinv_var(gs, gz), k + g)?;
        }
        if !j.is_infinity() {
            let mut t = j;
            t.rescale(&Field::from_int(3));
            push(tr, "rescale".into(), t, k)?;
            push(tr, "to affine and back".into(), Jacobian::from_ge(&Affine::from_gej(&j)), k)?;
        }
        Ok(out)
    });
}
