//! C01, C02, C03.
use common::*;
use engine::*;
use libsecp256k1::curve::{Affine, Scalar};
use libsecp256k1::{Error, PublicKey, PublicKeyFormat, SecretKey};
use std::convert::TryFrom;

fn sk_case(b: &[u8; 32], tr: &mut Tr) -> Res {
    tr.note(|| format!("secret key bytes {}", hex(b)));
    let v = U256::from_be(b);
    let valid = !v.is_zero() && v < N.m;
    for (what, got) in [("parse", SecretKey::parse(b)), ("parse_slice", SecretKey::parse_slice(&b[..]))] {
        tr.step();
        match got {
            Ok(k) => {
                ensure!(valid, "{} accepts {:?}", what, v);
                same!(tr, k.serialize(), *b, "serialize");
                ensure!(!k.is_zero(), "is_zero on a valid key");
                let s: Scalar = k.into();
                same!(tr, us(&s), v, "Scalar from SecretKey");
                let k2 = SecretKey::try_from(s).map_err(|e| format!("TryFrom<Scalar> rejects {:?}: {:?}", v, e))?;
                ensure!(k2 == k, "round trip through Scalar differs");
            }
            Err(e) => {
                ensure!(!valid, "{} rejects the valid key {:?}", what, v);
                same!(tr, e, Error::InvalidSecretKey, "error kind");
            }
        }
    }
    if v < N.m {
        let r = SecretKey::try_from(sc(&v));
        same!(tr, r.is_ok(), !v.is_zero(), "TryFrom<Scalar> accepts");
        if let Err(e) = r { same!(tr, e, Error::InvalidSecretKey, "TryFrom error kind"); }
    }
    Ok(if valid { "accepted" } else if v.is_zero() { "rejected zero" } else { "rejected >= n" })
}

pub fn c01(run: &Run) {
    let vals = raw_values();
    run.sweep("values", vals.len() as u64, |i, tr| sk_case(&vals[i as usize].be(), tr));
    let pats = patterns(&[0, 1, 0xffffffff]);
    run.sweep("limb-patterns", pats.len() as u64, |i, tr| sk_case(&pats[i as usize].be(), tr));
    let bases = [N.m.be(), N.m.addi(-1).be(), generic("key", 1)[0].be(), [0; 32], [0xff; 32]];
    run.sweep("single-byte", bases.len() as u64 * 8192, |i, tr| {
        let b = byte_variants(&bases[(i / 8192) as usize], i % 8192);
        sk_case(&<[u8; 32]>::try_from(&b[..]).unwrap(), tr)
    });
    let pairs: Vec<usize> = if run.thorough() { (0..31).collect() } else { vec![0, 3, 14, 15, 16, 19, 23, 27, 30] };
    run.sweep("byte-pairs-of-n", pairs.len() as u64 * 65536, |i, tr| {
        let mut b = N.m.be();
        let p = pairs[(i >> 16) as usize];
        b[p] = (i >> 8) as u8;
        b[p + 1] = i as u8;
        sk_case(&b, tr)
    });
    let fills: [u8; 4] = [0, 1, 0x7f, 0xff];
    run.sweep("lengths", 301 * 4, |i, tr| {
        let mut ix = Ix(i);
        let f = *ix.of(&fills);
        let len = ix.take(301);
        let b = vec![f; len];
        tr.note(|| format!("slice of {} bytes {:02x}", len, f));
        let r = SecretKey::parse_slice(&b);
        if len == 32 { let a = [f; 32]; return sk_case(&a, tr); }
        match r { Err(Error::InvalidInputLength) => { tr.step(); Ok("length rejected") }, x => Err(format!("wrong length gives {:?}", x.map(|k| k.serialize()))) }
    });
    run.sweep("default", 1, |_, tr| { let k = SecretKey::default(); same!(tr, usk(&k), U256::ONE, "default key"); Ok("one") });
}

fn pub_case(d: &U256, tr: &mut Tr) -> Res {
    tr.note(|| format!("d={:?}", d));
    let want = mul_g(d);
    let k = sk(d);
    let p = PublicKey::from_secret_key(&k);
    let a: Affine = p.into();
    ensure!(!a.is_infinity(), "public key is infinity");
    same!(tr, pts(&uaff(&a)), pts(&want), "public point");
    same!(tr, p.serialize().to_vec(), want.ser65().to_vec(), "serialize");
    same!(tr, p.serialize_compressed().to_vec(), want.ser33().to_vec(), "serialize_compressed");
    ensure!(p == pk(&want), "not equal to the parsed point");
    Ok(if want.y().is_odd() { "odd y" } else { "even y" })
}

pub fn c02(run: &Run) {
    let ks = nonzero(scalars_big());
    run.sweep("scalars", ks.len() as u64, |i, tr| pub_case(&ks[i as usize], tr));
    let bl = nonzero(blinded(&scalars_big()));
    run.sweep("blinded-scalars", bl.len() as u64, |i, tr| pub_case(&bl[i as usize], tr));
    let base = generic("key", 1)[0].be();
    run.sweep("single-byte", 8192, |i, tr| {
        let v = U256::from_be(&byte_variants(&base, i));
        if v.is_zero() || v >= N.m { return Ok("not a key"); }
        pub_case(&v, tr)
    });
    run.sweep("windows", 64 * 16 * 5, |i, tr| {
        let mut ix = Ix(i);
        let (w, j, b) = (ix.take(16), ix.take(64), ix.take(5));
        let v = U256::from(w as u64).shl(4 * j);
        let v = match b { 0 => v, 1 => N.m.sub(&v), 2 => N.add(&N.red(&v), &half_n()), 3 => N.sub(&N.red(&v), &gen_blind()), _ => N.sub(&generic("win", 1)[0], &N.red(&v)) };
        if v.is_zero() || v >= N.m { return Ok("not a key"); }
        pub_case(&v, tr)
    });
    let span = run.q(2000u64, 40000);
    run.sweep("consecutive", span * 2, |i, tr| {
        let v = U256::from(i / 2 + 1);
        pub_case(&if i % 2 == 0 { v } else { N.neg(&v) }, tr)
    });
    run.sweep("negation", ks.len() as u64, |i, tr| {
        let d = &ks[i as usize];
        let (a, b) = (PublicKey::from_secret_key(&sk(d)), PublicKey::from_secret_key(&sk(&N.neg(d))));
        tr.note(|| format!("d={:?}", d));
        same!(tr, pts(&upk(&b)), pts(&upk(&a).neg()), "key of n-d is the negated point");
        ensure!(a != b, "keys of d and n-d are equal");
        Ok("negated")
    });
    if run.thorough() {
        let pats = nonzero(below(patterns(&[0, 1, 0xffffffff]), &N.m));
        run.sweep("limb-patterns", pats.len() as u64, |i, tr| pub_case(&pats[i as usize], tr));
        let around = nonzero(below([around_limbs(&N.m), around_limbs(&half_n())].concat(), &N.m));
        run.sweep("around-limbs", around.len() as u64, |i, tr| pub_case(&around[i as usize], tr));
    }
}

/// What the encoding rules say a byte string denotes.
pub fn decode_pub(b: &[u8]) -> Option<Pt> {
    let coord = |s: &[u8]| { let v = U256::from_be(s); if v < P.m { Some(v) } else { None } };
    match b.len() {
        33 if b[0] == 2 || b[0] == 3 => Pt::lift(&coord(&b[1..])?, b[0] == 3, 7),
        64 => decode_pub(&[&[4u8][..], b].concat()),
        65 => {
            let p = Pt::Aff(coord(&b[1..33])?, coord(&b[33..])?);
            let ok = match b[0] { 4 => true, 6 => !p.y().is_odd(), 7 => p.y().is_odd(), _ => false };
            if ok && p.on_curve(7) { Some(p) } else { None }
        }
        _ => None,
    }
}
fn fmt(k: usize) -> Option<PublicKeyFormat> {
    match k { 0 => None, 1 => Some(PublicKeyFormat::Compressed), 2 => Some(PublicKeyFormat::Raw), _ => Some(PublicKeyFormat::Full) }
}
/// Feeds a byte string to every parser and compares with the model.
pub fn parse_case(b: &[u8], tr: &mut Tr) -> Res {
    tr.note(|| format!("public key bytes {}", hex(b)));
    let want = decode_pub(b);
    for k in 0..4 {
        let allowed = match k { 0 => true, 1 => b.len() == 33, 2 => b.len() == 64, _ => b.len() == 65 };
        let w = if allowed { want } else { None };
        check_parsed(PublicKey::parse_slice(b, fmt(k)), w, "parse_slice", tr)?;
    }
    if b.len() == 65 { check_parsed(PublicKey::parse(b.try_into().unwrap()), want, "parse", tr)?; }
    if b.len() == 33 { check_parsed(PublicKey::parse_compressed(b.try_into().unwrap()), want, "parse_compressed", tr)?; }
    Ok(if want.is_some() { "accepted" } else { "rejected" })
}
fn check_parsed(got: Result<PublicKey, Error>, want: Option<Pt>, what: &str, tr: &mut Tr) -> Result<(), String> {
    tr.step();
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(p), None) => Err(format!("{} accepts an invalid encoding, as {}", what, pts(&upk(&p)))),
        (Err(e), Some(w)) => Err(format!("{} rejects a valid encoding of {}: {:?}", what, pts(&w), e)),
        (Ok(p), Some(w)) => {
            same!(tr, pts(&upk(&p)), pts(&w), what);
            same!(tr, p.serialize().to_vec(), w.ser65().to_vec(), "serialize");
            same!(tr, p.serialize_compressed().to_vec(), w.ser33().to_vec(), "serialize_compressed");
            Ok(())
        }
    }
}

pub fn c03(run: &Run) {
    let pv = points(run.q(40, 400), run.q(40, 400), run.q(6, 40));
    run.sweep("valid-points-all-tags", pv.len() as u64 * 256, |i, tr| {
        let mut ix = Ix(i);
        let t = ix.take(256) as u8;
        let p = ix.of(&pv);
        let mut a = p.ser65();
        a[0] = t;
        let r = parse_case(&a, tr)?;
        let mut a = p.ser33();
        a[0] = t;
        parse_case(&a, tr)?;
        if t == 0 { parse_case(&p.ser65()[1..], tr)?; }
        Ok(r)
    });
    // every leading and every second byte of x and of y: what looks like a tag or a prefix
    let lead = leading();
    run.sweep("leading-bytes", lead.len() as u64, |i, tr| {
        let p = &lead[i as usize];
        for b in [&p.ser65()[..], &p.ser65()[1..], &p.ser33()[..]] { parse_case(b, tr)?; }
        Ok("parsed")
    });
    let mut xs = raw_values();
    xs.extend((0..2000).map(U256::from));
    xs.extend((0..2000i64).map(|i| U256::ZERO.addi(-i - 1)));
    let xs = dedup(xs);
    run.sweep("compressed-x", xs.len() as u64 * 2, |i, tr| {
        let mut ix = Ix(i);
        let t = 2 + ix.take(2) as u8;
        let x = ix.of(&xs);
        let b = [&[t][..], &x.be()].concat();
        let c33: &[u8; 33] = b[..].try_into().unwrap();
        tr.note(|| hex(c33));
        let want = decode_pub(c33);
        check_parsed(PublicKey::parse_compressed(c33), want, "parse_compressed", tr)?;
        Ok(if want.is_some() { "on curve" } else if *x >= P.m { "x >= p" } else { "no root" })
    });
    // x or y replaced by its alias modulo p, shifted, or bit-flipped, in every 65/64-byte form
    let base: Vec<Pt> = [points(2, 2, 0), special_points(2)].concat();
    let nmod = 8 + 512u64;
    run.sweep("near-miss", base.len() as u64 * nmod, |i, tr| {
        let p = base[(i / nmod) as usize];
        let (mut x, mut y) = (p.x(), p.y());
        match i % nmod {
            0 => x = x.add(&P.m),
            1 => y = y.add(&P.m),
            2 => { x = x.add(&P.m); y = y.add(&P.m); }
            3 => y = P.neg(&y),
            4 => x = x.addi(1),
            5 => y = y.addi(1),
            6 => y = y.addi(-1),
            7 => x = P.mul(&x, &beta()),
            k if k < 8 + 256 => { let k = k as usize - 8; x.0[k / 64] ^= 1 << (k % 64); }
            k => { let k = k as usize - 264; y.0[k / 64] ^= 1 << (k % 64); }
        }
        let mut o = "rejected";
        for t in [4u8, 6, 7] {
            let b = [&[t][..], &x.be(), &y.be()].concat();
            if parse_case(&b, tr)? == "accepted" { o = "accepted"; }
        }
        let b = [x.be(), y.be()].concat();
        parse_case(&b, tr)?;
        Ok(o)
    });
    // points of curves y^2 = x^3 + b for other b, and degenerate coordinates
    let small: Vec<U256> = dedup([(0..30).map(U256::from).collect::<Vec<_>>(), near(&P.m, 6), near(&U256::ZERO, 6), near(&P.half(), 3)].concat());
    run.sweep("other-curves", 24 * small.len() as u64 * 2, |i, tr| {
        let mut ix = Ix(i);
        let odd = ix.take(2) == 1;
        let b = ix.take(24) as u64;
        let x = ix.of(&small);
        let Some(q) = Pt::lift(&P.red(x), odd, b) else { return Ok("no such point") };
        let e = [&[4u8][..], &x.be(), &q.y().be()].concat();
        parse_case(&e, tr)
    });
    // coordinates that miss the curve equation by a difference with few non-zero limbs, and x whose
    // right-hand side is so close to a square's negation
    let res = residuals();
    let rx = [gi(1).x(), gi(5).x(), U256::ONE, generic("x", 1)[0], generic("x", 2)[1], P.m.addi(-3)];
    run.sweep("chosen-residual", (res.len() * rx.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (e, x) = (ix.of(&res), ix.of(&rx));
        let rhs = P.add(&P.mul(x, &P.sqr(x)), &P.add(&U256::from(7), e));
        let Some(y) = P.sqrt(&rhs) else { return Ok("no such point") };
        let b = [&[4u8][..], &x.be(), &y.be()].concat();
        tr.note(|| format!("y^2 - x^3 - 7 = {:?}", e));
        parse_case(&b, tr)?;
        let q = Pt::Aff(*x, y);
        let r = PublicKey::try_from(aff(&q));
        ensure!(r.is_ok() == q.on_curve(7), "TryFrom<Affine> of {}", pts(&q));
        Ok("off the curve")
    });
    run.sweep("chosen-square", res.len() as u64 * 4, |i, tr| {
        let mut ix = Ix(i);
        let (neg, half) = (ix.take(2) == 1, ix.take(2) == 1);
        let mut a = *ix.of(&res);
        if half { a = P.mul(&a, &P.inv(&U256::from(2))); }
        if neg { a = P.neg(&a); }
        let Some(x) = cbrt(&P.sub(&a, &U256::from(7))) else { return Ok("no such x") };
        let mut o = "rejected";
        for t in [2u8, 3] { if parse_case(&[&[t][..], &x.be()].concat(), tr)? == "accepted" { o = "accepted"; } }
        Ok(o)
    });
    run.sweep("small-coordinates", (small.len() * small.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (x, y) = (ix.of(&small), ix.of(&small));
        let e = [&[4u8][..], &x.be(), &y.be()].concat();
        parse_case(&e, tr)
    });
    run.sweep("lengths", 200 * 7 * 2, |i, tr| {
        let mut ix = Ix(i);
        let t = *ix.of(&[2u8, 3, 4, 6, 7, 0, 5]);
        let len = ix.take(200);
        let fill = [0u8, 0xff][ix.take(2)];
        let p = gi(3);
        let mut b = p.ser65().to_vec();
        b.resize(len, fill);
        if len > 0 { b[0] = t; }
        parse_case(&b, tr)
    });
    run.sweep("single-byte", 3 * 98 * 256, |i, tr| {
        let mut ix = Ix(i);
        let p = [gi(1), gi(7).neg(), generic("point", 1).iter().map(mul_g).next().unwrap()][ix.take(3)];
        let k = ix.0;
        if k < 65 * 256 { parse_case(&byte_variants(&p.ser65(), k), tr) } else { parse_case(&byte_variants(&p.ser33(), k - 65 * 256), tr) }
    });
    // every way to obtain the same point gives equal keys with equal encodings
    let few: Vec<Pt> = [points(3, 2, 0), special_points(1)].concat();
    let nrep = (REPRS * REPRS) as u64;
    run.sweep("representations", few.len() as u64 * nrep, |i, tr| {
        let mut ix = Ix(i);
        let (kx, ky) = (ix.take(REPRS), ix.take(REPRS));
        let p = ix.of(&few);
        tr.note(|| format!("{} coordinates in representations {} {}", pts(p), kx, ky));
        let k = PublicKey::try_from(aff_repr(p, kx, ky)).map_err(|e| format!("TryFrom<Affine> rejects a valid point: {:?}", e))?;
        check_parsed(Ok(k), Some(*p), "TryFrom<Affine>", tr)?;
        let forms = [p.ser65().to_vec(), p.ser65()[1..].to_vec(), p.ser33().to_vec(), { let mut h = p.ser65(); h[0] = 6 + p.y().is_odd() as u8; h.to_vec() }];
        for f in forms {
            let q = PublicKey::parse_slice(&f, None).map_err(|e| format!("{:?}", e))?;
            ensure!(q == k && k == q, "keys for the same point differ");
            let again = PublicKey::parse_slice(&q.serialize(), None).map_err(|e| format!("{:?}", e))?;
            ensure!(again == k, "round trip differs");
            let again = PublicKey::parse_slice(&q.serialize_compressed(), None).map_err(|e| format!("{:?}", e))?;
            ensure!(again == k, "compressed round trip differs");
            tr.steps(3);
        }
        for o in &few { if o != p { ensure!(pk(o) != k, "keys of different points {} are equal", pts(o)); tr.step(); } }
        Ok("equal")
    });
    run.sweep("try-from-affine", base.len() as u64 * 520 + 1, |i, tr| {
        if i == 0 { tr.note(|| "infinity".into()); ensure!(PublicKey::try_from(aff(&Pt::Inf)) == Err(Error::InvalidAffine), "TryFrom accepts infinity"); tr.step(); return Ok("rejected"); }
        let i = i - 1;
        let p = base[(i / 520) as usize];
        let (mut x, mut y) = (p.x(), p.y());
        match i % 520 {
            0 => {}
            k if k < 260 => { let k = (k - 1) as usize % 256; x.0[k / 64] ^= 1 << (k % 64); }
            k => { let k = (k - 260) as usize % 256; y.0[k / 64] ^= 1 << (k % 64); }
        }
        if x >= P.m || y >= P.m { return Ok("not a field element"); }
        let q = Pt::Aff(x, y);
        tr.note(|| pts(&q));
        let r = PublicKey::try_from(aff(&q));
        same!(tr, r.is_ok(), q.on_curve(7), "TryFrom<Affine> accepts");
        match r { Ok(k) => { same!(tr, upk(&k), q, "point"); Ok("accepted") } Err(e) => { same!(tr, e, Error::InvalidAffine, "error kind"); Ok("rejected") } }
    });
}
