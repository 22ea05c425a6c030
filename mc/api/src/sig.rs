//! C04 signing, C05 verification, C06 recovery, C11 normalisation.
use common::*;
use engine::*;
use libsecp256k1::curve::{AffineStorage, ECMultGenContext, Jacobian, Scalar};
use libsecp256k1::*;
use refmodel::ecdsa;
use refmodel::sha::Rfc6979;

fn rid(i: u8) -> RecoveryId { RecoveryId::parse(i).unwrap() }
fn signature(r: &U256, s: &U256) -> Signature { Signature { r: sc(r), s: sc(s) } }

fn sign_case(d: &U256, m: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("d={:?} m={:?}", d, m));
    let ((r, s, id), _) = ecdsa::sign(d, m);
    let key = sk(d);
    let mm = msg(m);
    let (sig, rec) = sign(&mm, &key);
    same!(tr, (us(&sig.r), us(&sig.s), rec.serialize()), (r, s, id), "signature");
    ensure!(us(&sig.s) <= half_n(), "s is high");
    let q = mul_g(d);
    let pubk = pk(&q);
    ensure!(verify(&mm, &sig, &pubk), "own signature does not verify");
    let rq = recover(&mm, &sig, &rec).map_err(|e| format!("own signature does not recover: {:?}", e))?;
    same!(tr, pts(&upk(&rq)), pts(&q), "recovered key");
    let (sig2, rec2) = sign(&mm, &key);
    ensure!(sig2 == sig && rec2 == rec, "second signing of the same input differs");
    tr.steps(2);
    Ok(match id { 0 => "id 0", 1 => "id 1", 2 => "id 2", _ => "id 3" })
}

/// A generator context computing k -> T for every nonce whose lowest window digit is not
/// `stop`, and k -> F for the others. (Table rows other than row 0 are constant in the digit.)
fn scripted_context(t: &Pt, f: &Pt, stop: usize, blind_initial: &(Pt,)) -> Option<Box<ECMultGenContext>> {
    // sum of all rows = T - initial; rows 1..63 get 2^j * U with U of no special relation
    let u = Pt::lift(&U256::from_be(b"The scalar for this x is unknown"), false, 7)?;
    let mut rows = vec![];
    let mut acc = Pt::Inf;
    let mut v = u;
    for _ in 1..64 { rows.push(v); acc = acc.add(&v); v = v.dbl(); }
    let row0_t = t.sub(&blind_initial.0).sub(&acc);
    let row0_f = f.sub(&blind_initial.0).sub(&acc);
    if row0_t.is_inf() || row0_f.is_inf() { return None; }
    let st = |p: &Pt| -> AffineStorage { aff(p).into() };
    let mut prec = vec![[AffineStorage::default(); 16]; 64];
    for i in 0..16 { prec[0][i] = st(if i == stop { &row0_f } else { &row0_t }); }
    for j in 1..64 { for i in 0..16 { prec[j][i] = st(&rows[j - 1]); } }
    let arr: Box<[[AffineStorage; 16]; 64]> = prec.into_boxed_slice().try_into().ok()?;
    Some(Box::new(unsafe { ECMultGenContext::new_from_raw(*arr) }))
}
fn gen_point(ctx: &ECMultGenContext, k: &U256) -> Pt {
    let mut r = Jacobian::default();
    ctx.ecmult_gen(&mut r, &sc(k));
    ujac(&r)
}
/// Runs `f` on a context with all rows constant to learn the constant offset, and on 16
/// contexts with one marked entry to learn which digit a scalar has in row 0.
fn probe_offset() -> Option<Pt> {
    let one: AffineStorage = aff(&G).into();
    let two: AffineStorage = aff(&gi(2)).into();
    let mut prec = vec![[one; 16]; 64];
    // alternate rows so that no intermediate sum is special
    for j in (0..64).step_by(2) { prec[j] = [two; 16]; }
    let arr: Box<[[AffineStorage; 16]; 64]> = prec.into_boxed_slice().try_into().ok()?;
    let ctx = Box::new(unsafe { ECMultGenContext::new_from_raw(*arr) });
    let a = gen_point(&ctx, &U256::ONE);
    if a != gen_point(&ctx, &generic("probe", 1)[0]) { return None; }
    Some(a.sub(&gi(96)))
}
fn probe_digit(k: &U256, offset: &Pt) -> Option<usize> {
    let (t, f) = (gi(5), gi(11));
    for i in 0..16 {
        let c = scripted_context(&t, &f, i, &(*offset,))?;
        let p = gen_point(&c, k);
        if p == f { return Some(i); }
        if p != t { return None; }
    }
    None
}

pub fn c04(run: &Run) {
    let ks = nonzero(run.q(scalars_mid(), { let mut v = scalars_mid(); v.extend(generic("more", 200)); v }));
    let ms = scalars_mid();
    run.sweep("keys-x-messages", (ks.len() * ms.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, m) = (ix.of(&ks), ix.of(&ms));
        sign_case(d, m, tr)
    });
    let big = scalars_big();
    run.sweep("big-keys", big.len() as u64, |i, tr| { let d = &big[i as usize]; if d.is_zero() { return Ok("not a key"); } sign_case(d, &generic("msg", 1)[0], tr) });
    run.sweep("big-messages", big.len() as u64, |i, tr| sign_case(&generic("key", 1)[0], &big[i as usize], tr));
    let (kb, mb) = (generic("key", 2)[1].be(), generic("msg", 2)[1].be());
    run.sweep("single-byte", 16384, |i, tr| {
        let (k, m) = if i < 8192 { (byte_variants(&kb, i), mb.to_vec()) } else { (kb.to_vec(), byte_variants(&mb, i - 8192)) };
        let (d, m) = (U256::from_be(&k), N.red(&U256::from_be(&m)));
        if d.is_zero() || d >= N.m { return Ok("not a key"); }
        sign_case(&d, &m, tr)
    });
    // message bytes >= n are reduced before use
    let rv = raw_values();
    let rv: Vec<U256> = rv.into_iter().filter(|v| *v >= N.m).collect();
    run.sweep("overflowing-messages", rv.len() as u64, |i, tr| {
        let v = rv[i as usize];
        tr.note(|| format!("message bytes {:?}", v));
        let m = N.red(&v);
        let d = generic("key", 1)[0];
        let ((r, s, id), _) = ecdsa::sign(&d, &m);
        let (sig, rec) = sign(&Message::parse(&v.be()), &sk(&d));
        same!(tr, (us(&sig.r), us(&sig.s), rec.serialize()), (r, s, id), "signature");
        Ok("reduced")
    });
    // sign_raw: nonce and s chosen so that s hits every interesting value exactly
    let targets: Vec<U256> = nonzero(dedup([scalars_big(), below(around_limbs(&half_n()), &N.m)].concat()));
    let kd: Vec<(U256, U256)> = vec![
        (U256::ONE, U256::ONE), (generic("nonce", 1)[0], generic("key", 1)[0]), (N.m.addi(-1), N.m.addi(-2)),
        (half_n(), generic("key", 2)[1]), (generic("nonce", 2)[1], half_n().addi(1)),
    ];
    run.sweep("raw-s-targets", (targets.len() * kd.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (k, d) = ix.of(&kd);
        let s = ix.of(&targets);
        let rp = mul_g(k);
        let r = N.red(&rp.x());
        let m = N.sub(&N.mul(s, k), &N.mul(&r, d));
        tr.note(|| format!("d={:?} m={:?} nonce={:?} giving s={:?} before negation", d, m, k, s));
        let want = ecdsa::sign_with_point(d, &m, k, &rp).unwrap();
        let got = ECMULT_GEN_CONTEXT.sign_raw(&sc(d), &sc(&m), &sc(k)).map_err(|e| format!("sign_raw fails: {:?}", e))?;
        same!(tr, (us(&got.0), us(&got.1), got.2), want, "sign_raw");
        Ok(if *s > half_n() { "negated" } else { "kept" })
    });
    // key, message, nonce and r equal, opposite or inverse to one another
    let kr = nonzero(dedup([scalars_tiny(), generic("nonce", 2)].concat()));
    run.sweep("raw-related", kr.len() as u64 * 16 * 20, |i, tr| {
        let mut ix = Ix(i);
        let (a, b, k) = (ix.take(16), ix.take(20), *ix.of(&kr));
        let rp = mul_g(&k);
        let r = N.red(&rp.x());
        let (ki, ri) = (N.inv(&k), N.inv(&r));
        let one = U256::ONE;
        let g = generic("key", 1)[0];
        let d = [k, N.neg(&k), ki, N.neg(&ki), r, N.neg(&r), ri, N.neg(&ri), N.mul(&k, &ri), N.neg(&N.mul(&k, &ri)), N.mul(&ki, &ri), N.mul(&k, &r), one, N.neg(&one), U256::from(2), g][a];
        let rd = N.mul(&r, &d);
        let m = [U256::ZERO, one, N.neg(&one), k, N.neg(&k), r, N.neg(&r), d, N.neg(&d), rd, N.sub(&k, &rd), N.sub(&N.neg(&k), &rd), ki, ri, N.inv(&d), N.sub(&N.mul(&k, &r), &rd), N.sub(&N.mul(&k, &d), &rd), N.sub(&N.neg(&N.mul(&k, &r)), &rd), N.sub(&one, &rd), N.neg(&rd)][b];
        tr.note(|| format!("d={:?} m={:?} nonce={:?}", d, m, k));
        match ecdsa::sign_with_point(&d, &m, &k, &rp) {
            None => { tr.step(); ensure!(ECMULT_GEN_CONTEXT.sign_raw(&sc(&d), &sc(&m), &sc(&k)).is_err(), "signature with s = 0 returned"); Ok("no signature") }
            Some(want) => {
                let got = ECMULT_GEN_CONTEXT.sign_raw(&sc(&d), &sc(&m), &sc(&k)).map_err(|e| format!("sign_raw fails: {:?}", e))?;
                same!(tr, (us(&got.0), us(&got.1), got.2), want, "sign_raw");
                Ok("signature")
            }
        }
    });
    run.sweep("related", ks.len() as u64 * 6, |i, tr| {
        let mut ix = Ix(i);
        let (a, d) = (ix.take(6), *ix.of(&ks));
        let x = N.red(&mul_g(&d).x());
        sign_case(&d, &[d, N.neg(&d), N.inv(&d), N.sqr(&d), x, N.neg(&x)][a], tr)
    });
    // sign_raw over nonces, plain and with the blinding scalar taken off
    let nonces = nonzero(dedup([scalars_big(), blinded(&scalars_big())].concat()));
    let dm: Vec<(U256, U256)> = vec![(generic("key", 3)[2], generic("msg", 3)[2]), (U256::ONE, U256::ZERO)];
    run.sweep("raw-nonces", (nonces.len() * dm.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, m) = ix.of(&dm);
        let k = ix.of(&nonces);
        tr.note(|| format!("d={:?} m={:?} nonce={:?}", d, m, k));
        let want = ecdsa::sign_with_point(d, m, k, &mul_g(k)).unwrap();
        let got = ECMULT_GEN_CONTEXT.sign_raw(&sc(d), &sc(m), &sc(k)).map_err(|e| format!("sign_raw fails: {:?}", e))?;
        same!(tr, (us(&got.0), us(&got.1), got.2), want, "sign_raw");
        Ok(if got.2 & 1 == 0 { "id 0" } else { "id 1" })
    });
    // nonce points nobody knows the nonce of, given by a context that maps every nonce to them:
    // x beyond n (recovery ids 2 and 3), small x, small y. A debug assertion calls the first impossible.
    let special: Vec<Pt> = special_points(run.q(6, 40)).into_iter().filter(|t| t.x() < N.m || !cfg!(debug_assertions)).collect();
    let sd = nonzero(scalars_tiny());
    run.sweep("raw-special-points", special.len() as u64, |i, tr| {
        let t = &special[i as usize];
        let Some(off) = probe_offset() else { return Ok("context layout not scriptable: not explored") };
        let Some(ctx) = scripted_context(t, t, 0, &(off,)) else { return Ok("context layout not scriptable: not explored") };
        let k = generic("nonce", 3)[2];
        if gen_point(&ctx, &k) != *t { return Ok("context layout not scriptable: not explored"); }
        for d in &sd {
            for m in &sd {
                tr.note(|| format!("d={:?} m={:?} nonce={:?}, nonce point {:?}", d, m, k, t));
                let Some(want) = ecdsa::sign_with_point(d, m, &k, t) else { continue };
                let got = ctx.sign_raw(&sc(d), &sc(m), &sc(&k)).map_err(|e| format!("sign_raw fails: {:?}", e))?;
                same!(tr, (us(&got.0), us(&got.1), got.2), want, "sign_raw");
                let (sig, rec) = sign_with_context(&msg(m), &sk(d), &ctx);
                same!(tr, us(&sig.r), want.0, "r of sign");
                ensure!(rec.serialize() & 2 == want.2 & 2, "id bit 1 of sign");
                ensure!(us(&sig.s) <= half_n(), "s is high");
            }
        }
        Ok(if t.x() >= N.m { "x >= n" } else { "x < n" })
    });
    run.sweep("raw-s-zero", (ks.len() * kd.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (k, _) = ix.of(&kd);
        let d = ix.of(&ks);
        let m = N.neg(&N.mul(&N.red(&mul_g(k).x()), d));
        tr.note(|| format!("d={:?} m={:?} nonce={:?}", d, m, k));
        ensure!(ECMULT_GEN_CONTEXT.sign_raw(&sc(d), &sc(&m), &sc(k)).is_err(), "signature with s = 0 returned");
        tr.step();
        Ok("refused")
    });
    // nonce answers that are rejected 0..=R times because s would be zero
    let retries = run.q(3u64, 6);
    let seeds = run.q(6u64, 24);
    run.sweep("retry-sequences", seeds * (retries + 1), |i, tr| {
        let mut ix = Ix(i);
        let n = ix.take(retries as usize + 1);
        let seed = ix.0;
        let Some(off) = probe_offset() else { return Ok("context layout not scriptable: not explored") };
        // search deterministically for an input whose first n row-0 digits differ from the (n+1)th
        for j in 0..200u64 {
            let d = generic(&format!("retry key {}", seed), 1)[0];
            let m = generic(&format!("retry msg {} {}", seed, j), 1)[0];
            let r = N.neg(&N.mul(&m, &N.inv(&d)));
            let Some(t) = Pt::lift(&r, seed % 2 == 1, 7) else { continue };
            let mut g = Rfc6979::new(&d.be(), &m.be());
            let nonces: Vec<U256> = (0..=n).map(|_| U256::from_be(&g.next())).collect();
            let mut digits = vec![];
            for k in &nonces { match probe_digit(k, &off) { Some(x) => digits.push(x), None => return Ok("context layout not scriptable: not explored") } }
            if digits[..n].contains(&digits[n]) { continue; }
            let f = mul_g(&generic(&format!("final {}", seed), 1)[0]);
            let Some(ctx) = scripted_context(&t, &f, digits[n], &(off,)) else { continue };
            for (x, k) in nonces.iter().enumerate() { if gen_point(&ctx, k) != if x < n { t } else { f } { return Ok("context layout not scriptable: not explored"); } }
            tr.note(|| format!("d={:?} m={:?}: the first {} nonces give s=0", d, m, n));
            let want = ecdsa::sign_with_point(&d, &m, &nonces[n], &f).unwrap();
            let (sig, rec) = sign_with_context(&msg(&m), &sk(&d), &ctx);
            same!(tr, (us(&sig.r), us(&sig.s), rec.serialize()), want, "signature after retries");
            return Ok(["no retry", "1 retry", "2 retries", "3 retries", "4 retries", "5 retries", "6 retries"][n]);
        }
        Ok("no input found")
    });
}

/// Compares verification (and optionally recovery by all ids) with the model.
fn verify_case(m: &U256, r: &U256, s: &U256, q: &Pt, want: Option<bool>, tr: &mut Tr) -> Res {
    tr.note(|| format!("m={:?} r={:?} s={:?} Q={}", m, r, s, pts(q)));
    let want = want.unwrap_or_else(|| ecdsa::verify(m, r, s, q));
    let got = verify(&msg(m), &signature(r, s), &pk(q));
    same!(tr, got, want, "verify");
    Ok(if want { "accept" } else { "reject" })
}
/// The key for which R = (m/s)G + (r/s)Q, given any point R and r.
/// 0, +-1, +-2, +-1/2 and one without structure.
fn related_coefficients() -> Vec<U256> {
    let h = N.inv(&U256::from(2));
    vec![U256::ZERO, U256::ONE, N.neg(&U256::ONE), U256::from(2), N.neg(&U256::from(2)), h, N.neg(&h), generic("coefficient", 1)[0]]
}
fn key_for(rp: &Pt, m: &U256, r: &U256, s: &U256) -> Pt {
    let ri = N.inv(r);
    rp.mul(&N.mul(s, &ri)).sub(&mul_g(&N.mul(m, &ri)))
}

pub fn c05(run: &Run) {
    let t = scalars_tiny();
    let qs = if run.thorough() { points(8, 2, 1) } else { let mut v = points(1, 1, 0); v.truncate(4); v.push(mul_g(&generic("point", 1)[0])); v };
    run.sweep("corner-product", (t.len() * t.len() * t.len() * qs.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (m, r, s, q) = (ix.of(&t), ix.of(&t), ix.of(&t), ix.of(&qs));
        verify_case(m, r, s, q, None, tr)
    });
    run.sweep("raw-entry-point", (t.len() * t.len() * 3 * qs.len() * 4 * 2) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (good, kx) = (ix.take(2) == 1, ix.take(4));
        let ky = [2, 3, 1, 0][kx];
        let (m, s, k, q) = (ix.of(&t), ix.of(&t), [U256::ONE, generic("nonce", 1)[0], N.m.addi(-2)][ix.take(3)], ix.of(&qs));
        // a point R of which (r, s) may be the signature for the key, or the key is given
        let r = N.red(&mul_g(&k).x());
        let q = if good && !s.is_zero() { key_for(&mul_g(&k), m, &r, s) } else { *q };
        if q.is_inf() { return Ok("-"); }
        tr.note(|| format!("m={:?} r={:?} s={:?} Q={} representation {} {}", m, r, s, pts(&q), kx, ky));
        let want = ecdsa::verify(m, &r, s, &q);
        same!(tr, ECMULT_CONTEXT.verify_raw(&sc(&r), &sc(s), &aff_repr(&q, kx, ky), &sc(m)), want, "verify_raw");
        Ok(if want { "accept" } else { "reject" })
    });
    // u1*G + u2*(kG) for small u1, u2, k: tables of G and Q collide, sums double or cancel
    let w = run.q(12i64, 40);
    let kk = run.q(12i64, 24);
    let side = (2 * w + 1) as usize;
    run.sweep("small-multiples", (side * side * 2 * kk as usize) as u64 * 2, |i, tr| {
        let mut ix = Ix(i);
        let neg_s = ix.take(2) == 1;
        let (a, b) = (ix.take(side) as i64 - w, ix.take(side) as i64 - w);
        let k = { let k = ix.take(2 * kk as usize) as i64; if k < kk { k + 1 } else { -(k - kk + 1) } };
        if b == 0 { return Ok("u2 = 0 has no signature"); }
        let (u1, u2) = (N.i(a), N.i(b));
        let q = gi(k);
        let e = a + b * k;
        let rp = if e == 0 { Pt::Inf } else { gi(e) };
        let r = if e == 0 { generic("r", 1)[0] } else { N.red(&rp.x()) };
        let mut s = N.mul(&r, &N.inv(&u2));
        let m = N.mul(&u1, &s);
        if neg_s { s = N.neg(&s); return verify_case(&m, &r, &s, &q, Some(e != 0), tr); }
        verify_case(&m, &r, &s, &q, Some(e != 0), tr)
    });
    // chosen R: x in [n,p), near n, near p, tiny x (r+n-p forgeries), coordinates at limits
    let rs = [special_points(run.q(12, 100)), points(3, 3, 0)].concat();
    let mut ss: Vec<U256> = nonzero(t.clone());
    if !run.thorough() { ss = [vec![U256::ONE, half_n(), half_n().addi(1), N.m.addi(-1)], generic("scalar", 2)].concat(); }
    let ms = vec![U256::ZERO, U256::ONE, generic("msg", 1)[0], N.m.addi(-1)];
    let variants = 10u64;
    run.sweep("chosen-R", (rs.len() * ss.len() * ms.len()) as u64 * variants, |i, tr| {
        let mut ix = Ix(i);
        let v = ix.take(variants as usize);
        let (rp, s, m) = (ix.of(&rs), ix.of(&ss), ix.of(&ms));
        let x = rp.x();
        let c = P.m.sub(&N.m); // p - n
        let r = match v {
            0 => N.red(&x),
            1 => x.add(&c),                 // x = r + n - p: only equal after wrapping mod p
            2 => N.red(&x).addi(1),
            3 => N.red(&x).addi(-1),
            4 => N.neg(&N.red(&x)),
            5 => N.red(&x).add(&U256::pow2(26)),
            6 => N.red(&x).add(&U256::pow2(32)),
            7 => P.neg(&x),
            8 => N.red(&x.add(&U256::from(0x1000003d1))),
            _ => P.mul(&x, &beta()),
        };
        if r.is_zero() || r >= N.m { return Ok("r not representable"); }
        let q = key_for(rp, m, &r, s);
        if q.is_inf() { return Ok("key at infinity"); }
        verify_case(m, &r, s, &q, Some(N.red(&x) == r), tr)
    });
    // chosen R and chosen coefficients: message, r and s equal, opposite or zero
    let us_ = related_coefficients();
    let u2s: Vec<U256> = nonzero(us_.clone());
    run.sweep("chosen-R-and-coefficients", (rs.len() * us_.len() * u2s.len() * 2) as u64, |i, tr| {
        let mut ix = Ix(i);
        let neg = ix.take(2) == 1;
        let (rp, u1, u2) = (ix.of(&rs), ix.of(&us_), ix.of(&u2s));
        let r = N.red(&rp.x());
        if r.is_zero() { return Ok("r not representable"); }
        let s = N.mul(&r, &N.inv(u2));
        let m = N.mul(u1, &s);
        let q = rp.sub(&mul_g(u1)).mul(&N.inv(u2));
        if q.is_inf() { return Ok("key at infinity"); }
        verify_case(&m, &r, &if neg { N.neg(&s) } else { s }, &q, if neg { None } else { Some(true) }, tr)
    });
    // r whose cross-multiplied difference from the x coordinate has few non-zero limbs. The internal
    // z of R is taken from the library's own multiplication: it only aims, the model decides.
    let res = residuals();
    let combos = run.q(4u64, 20);
    run.sweep("near-equal-x", res.len() as u64 * combos * 2, |i, tr| {
        let mut ix = Ix(i);
        let e = *ix.of(&res);
        let second = ix.take(2) == 1;
        let g = generic(&format!("near {}", ix.0), 3);
        let (u1, u2, q) = (g[0], g[1], mul_g(&g[2]));
        let mut pj = Jacobian::default();
        ECMULT_CONTEXT.ecmult(&mut pj, &Jacobian::from_ge(&aff(&q)), &sc(&u2), &sc(&u1));
        let (x, z) = (uf(&pj.x), uf(&pj.z));
        let xr = P.mul(&P.add(&x, &e), &P.inv(&P.sqr(&z)));
        let r = if second { P.sub(&xr, &P.red(&N.m)) } else { xr };
        if r.is_zero() || r >= N.m { return Ok("r not representable"); }
        let s = N.mul(&r, &N.inv(&u2));
        verify_case(&N.mul(&u1, &s), &r, &s, &q, None, tr)
    });
    // every single-bit change of a valid tuple
    let nb = run.q(3u64, 12);
    run.sweep("bit-flips", nb * 2 * 5 * 256, |i, tr| {
        let mut ix = Ix(i);
        let (bit, which, high, b) = (ix.take(256), ix.take(5), ix.take(2), ix.0);
        let g = generic(&format!("tuple {}", b), 3);
        let (d, k, mut m) = (g[0], g[1], g[2]);
        let rp = mul_g(&k);
        let mut r = N.red(&rp.x());
        let mut s = N.mul(&N.inv(&k), &N.add(&m, &N.mul(&r, &d)));
        if high == 1 { s = N.neg(&s); }
        let mut q = mul_g(&d);
        let f = |v: &U256| { let mut v = *v; v.0[bit / 64] ^= 1 << (bit % 64); v };
        match which {
            0 => { if bit > 0 { return Ok("base"); } return verify_case(&m, &r, &s, &q, Some(true), tr); }
            1 => m = f(&m), 2 => r = f(&r), 3 => s = f(&s),
            _ => match Pt::lift(&f(&q.x()), bit % 2 == 0, 7) { Some(p) => q = p, None => return Ok("no such key") },
        }
        if m >= N.m || r >= N.m || s >= N.m { return Ok("not a scalar"); }
        verify_case(&m, &r, &s, &q, None, tr)
    });
    // u1 and u2 with every window digit at every position, accepting
    let us_ = nonzero(scalars_big());
    let others = [U256::ONE, generic("u", 1)[0], half_n(), N.m.addi(-1)];
    run.sweep("recoding", (us_.len() * 2 * others.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let swap = ix.take(2) == 1;
        let (mut u1, mut u2) = (*ix.of(&us_), *ix.of(&others));
        if swap { std::mem::swap(&mut u1, &mut u2); }
        let d = generic("key", 3)[2];
        let rp = mul_g(&N.add(&u1, &N.mul(&u2, &d)));
        if rp.is_inf() { return Ok("infinity"); }
        let r = N.red(&rp.x());
        let s = N.mul(&r, &N.inv(&u2));
        verify_case(&N.mul(&u1, &s), &r, &s, &mul_g(&d), Some(true), tr)
    });
    // R at infinity with genuine-looking r
    let ds = nonzero(scalars_mid());
    run.sweep("R-infinity", (ds.len() * ss.len() * 3) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, s) = (ix.of(&ds), ix.of(&ss));
        let r = [U256::ONE, generic("r", 1)[0], N.red(&G.x())][ix.take(3)];
        verify_case(&N.neg(&N.mul(&r, d)), &r, s, &mul_g(d), Some(false), tr)
    });
    run.sweep("zero-components", (ds.len() * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let k = ix.take(4);
        let v = ix.of(&ds);
        let z = U256::ZERO;
        let (m, r, s) = match k { 0 => (*v, z, *v), 1 => (*v, *v, z), 2 => (z, z, z), _ => (*v, z, U256::ONE) };
        verify_case(&m, &r, &s, &mul_g(v), Some(false), tr)
    });
}

fn recover_case(m: &U256, r: &U256, s: &U256, id: u8, want: Option<Option<Pt>>, tr: &mut Tr) -> Res {
    tr.note(|| format!("m={:?} r={:?} s={:?} id={}", m, r, s, id));
    let want = want.unwrap_or_else(|| ecdsa::recover(m, r, s, id));
    let sig = signature(r, s);
    let got = recover(&msg(m), &sig, &rid(id));
    tr.step();
    match (got, want) {
        (Err(_), None) => Ok("error"),
        (Ok(p), None) => Err(format!("recovers {} where there is no key", pts(&upk(&p)))),
        (Err(e), Some(w)) => Err(format!("fails with {:?} instead of recovering {}", e, pts(&w))),
        (Ok(p), Some(w)) => {
            same!(tr, pts(&upk(&p)), pts(&w), "recovered key");
            ensure!(verify(&msg(m), &sig, &p), "the recovered key does not verify the signature");
            ensure!(PublicKey::parse(&p.serialize()) == Ok(p), "recovered key does not round trip");
            Ok(if id & 2 != 0 { "key, overflowed r" } else { "key" })
        }
    }
}

pub fn c06(run: &Run) {
    let t = scalars_tiny();
    let rt = dedup([scalars_tiny(), (1..20).map(U256::from).collect()].concat());
    run.sweep("raw-entry-point", (rt.len() * t.len() * 4 * 2) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (m, id) = ([U256::ZERO, generic("msg", 1)[0]][ix.take(2)], ix.take(4) as u8);
        let (s, r) = (ix.of(&t), ix.of(&rt));
        tr.note(|| format!("m={:?} r={:?} s={:?} id={}", m, r, s, id));
        let got = ECMULT_CONTEXT.recover_raw(&sc(r), &sc(s), id, &sc(&m));
        same!(tr, got.ok().map(|a| pts(&uaff(&a))), ecdsa::recover(&m, r, s, id).map(|p| pts(&p)), "recovered point");
        Ok(if got.is_ok() { "point" } else { "error" })
    });
    run.sweep("corner-product", (t.len() * t.len() * t.len() * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let id = ix.take(4) as u8;
        let (m, r, s) = (ix.of(&t), ix.of(&t), ix.of(&t));
        recover_case(m, r, s, id, None, tr)
    });
    let mut rv = scalars_big();
    let c = P.m.sub(&N.m);
    rv.extend(near(&c, run.q(60, 1000)));
    rv.extend((0..run.q(200, 4000)).map(U256::from));
    let rv = below(rv, &N.m);
    let sm = [(generic("s", 1)[0], generic("msg", 1)[0]), (U256::ONE, U256::ZERO), (N.m.addi(-1), half_n())];
    run.sweep("all-r", (rv.len() * 4 * sm.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let id = ix.take(4) as u8;
        let (s, m) = ix.of(&sm);
        recover_case(m, ix.of(&rv), s, id, None, tr)
    });
    // x whose right-hand side is a given small or sparse square or non-square
    let res = residuals();
    run.sweep("chosen-square", res.len() as u64 * 8, |i, tr| {
        let mut ix = Ix(i);
        let (id, neg) = (ix.take(4) as u8, ix.take(2) == 1);
        let mut a = *ix.of(&res);
        if neg { a = P.neg(&a); }
        a = P.mul(&a, &P.inv(&U256::from(2)));
        let Some(x) = cbrt(&P.sub(&a, &U256::from(7))) else { return Ok("no such x") };
        let r = if id & 2 == 2 { if x < N.m { return Ok("x < n"); } x.sub(&N.m) } else { x };
        if r.is_zero() || r >= N.m { return Ok("r not representable"); }
        recover_case(&sm[0].1, &r, &sm[0].0, id, None, tr)
    });
    // R = kG for small k: cancelling and doubling combinations, infinity when s*k = m
    let w = run.q(14i64, 40);
    let side = (2 * w + 1) as usize;
    run.sweep("small-multiples", (side * side) as u64 * 10 * 4, |i, tr| {
        let mut ix = Ix(i);
        let id = ix.take(4) as u8;
        let (a, b) = (ix.take(side) as i64 - w, ix.take(side) as i64 - w);
        let k = ix.0 as i64 + 1;
        // u2 = s/r = b, u1 = -m/r = a
        let r = N.red(&gi(k).x());
        let (s, m) = (N.mul(&N.i(b), &r), N.mul(&N.i(-a), &r));
        recover_case(&m, &r, &s, id, None, tr)
    });
    // completeness: exactly the id of R recovers Q, for chosen R including x in [n, p)
    let rs = [special_points(run.q(12, 60)), points(4, 4, 0)].concat();
    let ss: Vec<U256> = nonzero(scalars_tiny());
    let ms = vec![U256::ZERO, generic("msg", 1)[0], N.m.addi(-1)];
    let us_ = related_coefficients();
    run.sweep("chosen-R-and-coefficients", (rs.len() * us_.len() * us_.len() * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let id = ix.take(4) as u8;
        let (rp, u1, u2) = (ix.of(&rs), ix.of(&us_), ix.of(&us_));
        let r = N.red(&rp.x());
        if r.is_zero() { return Ok("r not representable"); }
        recover_case(&N.mul(u1, &r), &r, &N.mul(u2, &r), id, None, tr)
    });
    run.sweep("chosen-R", (rs.len() * ss.len() * ms.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (rp, s, m) = (ix.of(&rs), ix.of(&ss), ix.of(&ms));
        let r = N.red(&rp.x());
        if r.is_zero() { return Ok("r = 0"); }
        let q = key_for(rp, m, &r, s);
        if q.is_inf() { return Ok("key at infinity"); }
        let right = (if rp.x() >= N.m { 2 } else { 0 }) | rp.y().is_odd() as u8;
        for id in 0..4u8 {
            recover_case(m, &r, s, id, if id == right { Some(Some(q)) } else { None }, tr)?;
            if id != right {
                if let Ok(p) = recover(&msg(m), &signature(&r, s), &rid(id)) { ensure!(upk(&p) != q, "id {} also recovers the key of id {}", id, right); }
            }
        }
        ensure!(verify(&msg(m), &signature(&r, s), &pk(&q)), "signature does not verify");
        Ok(if right & 2 != 0 { "x >= n" } else { "x < n" })
    });
    let us_ = scalars_big();
    let others = [U256::ZERO, U256::ONE, generic("u", 1)[0], N.m.addi(-1)];
    run.sweep("recoding", (us_.len() * 2 * others.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let swap = ix.take(2) == 1;
        let (mut u1, mut u2) = (*ix.of(&us_), *ix.of(&others));
        if swap { std::mem::swap(&mut u1, &mut u2); }
        let k = generic("nonce", 3)[2];
        let rp = mul_g(&k);
        let r = N.red(&rp.x());
        let q = mul_g(&N.add(&u1, &N.mul(&u2, &k)));
        let want = if u2.is_zero() || q.is_inf() { None } else { Some(q) };
        recover_case(&N.neg(&N.mul(&u1, &r)), &r, &N.mul(&u2, &r), rp.y().is_odd() as u8, Some(want), tr)
    });
    run.sweep("single-byte", 3 * 8192, |i, tr| {
        let g = generic("tuple r", 3);
        let (r, s, m) = (N.red(&mul_g(&g[0]).x()), g[1], g[2]);
        let b = |v: &U256| N.red(&U256::from_be(&byte_variants(&v.be(), i % 8192)));
        match i / 8192 {
            0 => recover_case(&m, &b(&r), &s, (i % 2) as u8, None, tr),
            1 => recover_case(&m, &r, &b(&s), (i % 2) as u8, None, tr),
            _ => recover_case(&b(&m), &r, &s, (i % 2) as u8, None, tr),
        }
    });
}

pub fn c11(run: &Run) {
    let mut v = scalars_big();
    v.extend(around_limbs(&half_n()));
    v.extend(around_limbs(&half_n().addi(1)));
    v.extend(around_limbs(&N.m));
    v.extend(patterns(&[0, 1, 0xffffffff]));
    v.extend(near(&half_n(), 3000));
    for k in 0..256 { for d in [-1i64, 0, 1] { v.push(half_n().add(&U256::pow2(k)).addi(d)); v.push(half_n().sub(&U256::pow2(k)).addi(d)); } }
    let v = below(v, &N.m);
    let rr = [U256::ZERO, U256::ONE, generic("r", 1)[0], N.m.addi(-1), half_n().addi(1)];
    run.sweep("values", (v.len() * rr.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let r = ix.of(&rr);
        let s = ix.of(&v);
        tr.note(|| format!("r={:?} s={:?}", r, s));
        let high = *s > half_n();
        let want = if high { N.neg(s) } else { *s };
        let mut g = signature(r, s);
        same!(tr, Scalar::is_high(&g.s), high, "is_high");
        g.normalize_s();
        same!(tr, us(&g.s), want, "normalised s");
        same!(tr, us(&g.r), *r, "r after normalising");
        let once = g;
        g.normalize_s();
        ensure!(g == once, "normalising twice differs from once");
        Ok(if high { "negated" } else { "kept" })
    });
    let few = nonzero(scalars_mid());
    run.sweep("verification-invariant", few.len() as u64 * 4, |i, tr| {
        let mut ix = Ix(i);
        let variant = ix.take(4);
        let s = ix.of(&few);
        let g = generic("tuple", 2);
        let (k, d) = (g[0], g[1]);
        let r = N.red(&mul_g(&k).x());
        let mut m = N.sub(&N.mul(s, &k), &N.mul(&r, &d));
        if variant & 1 == 1 { m = N.add(&m, &U256::ONE); }
        let s = if variant & 2 == 2 { N.neg(s) } else { *s };
        tr.note(|| format!("m={:?} r={:?} s={:?}", m, r, s));
        let q = pk(&mul_g(&d));
        let mut sig = signature(&r, &s);
        let want = variant & 1 == 0;
        same!(tr, verify(&msg(&m), &sig, &q), want, "verify before");
        sig.normalize_s();
        same!(tr, verify(&msg(&m), &sig, &q), want, "verify after");
        Ok(if want { "valid" } else { "invalid" })
    });
}
