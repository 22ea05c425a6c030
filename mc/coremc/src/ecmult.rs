//! C17: scalar multiplication; C18: precomputed contexts.
use crate::group::{arep, coord, jis, jrep, zs, CR, R3};
use common::*;
use engine::*;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Jacobian, Scalar};
use libsecp256k1::util::JACOBIAN_INFINITY;
use libsecp256k1::{Message, PublicKey, RecoveryId, SecretKey, SharedSecret, Signature, ECMULT_CONTEXT, ECMULT_GEN_CONTEXT};
use std::sync::OnceLock;

fn lambda() -> U256 {
    // the cube root of unity mod n that goes with beta
    let l = U256::hex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72");
    let g = mul_g(&l);
    assert!(g == Pt::Aff(P.mul(&G.x(), &beta()), G.y()));
    l
}
fn junk(i: u64) -> Jacobian {
    static J: OnceLock<Jacobian> = OnceLock::new();
    if i & 1 == 0 { *J.get_or_init(|| jrep(&gi(9), &U256::from(3), 7)) } else { JACOBIAN_INFINITY }
}
/// Points with known discrete logarithms.
#[derive(Clone, Copy, Debug)]
struct Base { d: U256, p: Pt }
fn base(d: U256) -> Base { Base { d, p: mul_g(&d) } }
fn small(k: i64) -> U256 { N.i(k) }

fn double_mul(b: &Base, z: &U256, rep: usize, na: &U256, ng: &U256, i: u64, tr: &mut Tr) -> Res {
    tr.note(|| format!("A = {:?} G, z={:?} representation {}, na={:?} ng={:?}", b.d, z, rep, na, ng));
    let want = mul_g(&N.add(&N.mul(na, &b.d), ng));
    let mut r = junk(i);
    ECMULT_CONTEXT.ecmult(&mut r, &jrep(&b.p, z, rep), &sc(na), &sc(ng));
    jis(tr, &r, &want, "ecmult")?;
    Ok(if want.is_inf() { "infinity" } else { "finite" })
}
fn const_mul(b: &Base, rep: usize, s: &U256, i: u64, tr: &mut Tr) -> Res {
    tr.note(|| format!("A = {:?} G, representation {}, s={:?}", b.d, rep, s));
    let want = mul_g(&N.mul(s, &b.d));
    let mut r = junk(i);
    ECMULT_CONTEXT.ecmult_const(&mut r, &arep(&b.p, rep), &sc(s));
    jis(tr, &r, &want, "ecmult_const")?;
    Ok("finite")
}
fn gen_mul(s: &U256, i: u64, tr: &mut Tr) -> Res {
    tr.note(|| format!("s={:?}", s));
    let want = mul_g(s);
    let mut r = junk(i);
    ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, &sc(s));
    jis(tr, &r, &want, "ecmult_gen")?;
    Ok(if want.is_inf() { "infinity" } else { "finite" })
}

pub fn c17(run: &Run) {
    let l = lambda();
    let l2 = N.mul(&l, &l);
    let z = zs(1);
    let tiny = scalars_tiny();
    let mid = scalars_mid();
    let big = scalars_big();
    let gb: Vec<Base> = vec![base(generic("base", 1)[0]), base(U256::ONE), base(small(-7))];

    // small bases, small scalars: every collision and cancellation inside the loop
    let kb = run.q(9i64, 24);
    let mut bases: Vec<Base> = vec![];
    for k in 1..=kb { bases.push(base(small(k))); bases.push(base(small(-k))); }
    for m in [l, l2] { for k in [1i64, -1, 2] { bases.push(base(N.mul(&m, &small(k)))); } }
    bases.push(base(N.inv(&U256::from(2))));
    bases.push(base(N.inv(&U256::from(3))));
    let ks = run.q(17i64, 34);
    let w = (2 * ks + 1) as usize;
    run.sweep("ecmult-small-cube", (bases.len() * w * w) as u64, |i, tr| {
        let mut x = Ix(i);
        let (a, g) = (x.take(w) as i64 - ks, x.take(w) as i64 - ks);
        let b = x.take(bases.len());
        double_mul(&bases[b], &z[(a + g).rem_euclid(z.len() as i64) as usize], (i % R3 as u64) as usize, &small(a), &small(g), i, tr)
    });
    // one odd digit at every position, for A
    run.sweep("ecmult-digits-of-na", (16 * 256 * gb.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (d, k) = (x.take(16), x.take(256));
        let b = x.of(&gb);
        let v = N.mul(&small(2 * d as i64 - 15), &N.pow(&U256::from(2), &U256::from(k as u64)));
        double_mul(b, &z[d % z.len()], (d + k) % R3, &v, &U256::ZERO, i, tr)
    });
    // every table entry of G, at several positions (thorough: all)
    let pos: Vec<usize> = run.q(vec![0, 1, 97, 240], (0..256).collect());
    run.sweep("ecmult-digits-of-ng", (16384 * 2 * pos.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (s, d, k) = (x.take(2), x.take(16384), *x.of(&pos));
        let v = N.mul(&small(if s == 0 { 2 * d as i64 + 1 } else { -(2 * d as i64) - 1 }), &N.pow(&U256::from(2), &U256::from(k as u64)));
        let na = if d % 5 == 0 { small(3) } else { U256::ZERO };
        double_mul(&gb[d % 3], &z[d % z.len()], d % R3, &na, &v, i, tr)
    });
    // digits of both at every pair of positions
    let pp: Vec<usize> = (0..256).step_by(run.q(5, 1)).collect();
    run.sweep("ecmult-digit-positions", (pp.len() * pp.len() * 2) as u64, |i, tr| {
        let mut x = Ix(i);
        let neg = x.take(2);
        let (ka, kg) = (*x.of(&pp), *x.of(&pp));
        let e = |k: usize, m: i64| N.mul(&small(m), &N.pow(&U256::from(2), &U256::from(k as u64)));
        double_mul(&gb[(ka + kg) % 3], &z[ka % z.len()], kg % R3, &e(ka, if neg == 1 { -5 } else { 13 }), &e(kg, if neg == 0 { 12345 } else { -32767 }), i, tr)
    });
    run.sweep("ecmult-corner-scalars", (mid.len() * mid.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (a, g) = (x.of(&mid), x.of(&mid));
        double_mul(&gb[i as usize % 3], &z[i as usize % z.len()], i as usize % R3, a, g, i, tr)
    });
    let cs: Vec<U256> = big.iter().cloned().step_by(run.q(2, 1)).collect();
    run.sweep("ecmult-scalars-and-cancelling-partner", (cs.len() * 5 * gb.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let d = x.take(5) as i64 - 2;
        let b = x.of(&gb);
        let a = x.of(&cs);
        let g = N.add(&N.neg(&N.mul(a, &b.d)), &small(d)); // result d*G, infinity for 0
        double_mul(b, &z[i as usize % z.len()], i as usize % R3, a, &g, i, tr)
    });

    // constant-time multiplication
    let czb: Vec<Base> = bases.iter().cloned().step_by(run.q(3, 1)).chain(gb.iter().cloned()).collect();
    run.sweep("ecmult-const-digits", (30 * 64 * gb.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (d, j) = (x.take(30) as i64 - 15, x.take(64));
        let b = x.of(&gb);
        let s = N.mul(&small(if d >= 0 { d + 1 } else { d }), &U256::pow2(4 * j));
        if s.is_zero() { return Ok("-"); }
        const_mul(b, (i as usize) % R3, &s, i, tr)
    });
    let cms = nonzero(run.q(mid.clone(), big.clone()));
    run.sweep("ecmult-const-corner-scalars", (cms.len() * czb.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let b = x.of(&czb);
        const_mul(b, (i as usize) % R3, x.of(&cms), i, tr)
    });
    let nzb = nonzero(big.clone());
    run.sweep("ecmult-const-scalars", nzb.len() as u64, |i, tr| const_mul(&gb[i as usize % 3], i as usize % R3, &nzb[i as usize], i, tr));
    let cc = run.q(3000i64, 60000);
    run.sweep("ecmult-const-small-scalars", cc as u64 * 2, |i, tr| {
        let k = i as i64 / 2 + 1;
        const_mul(&gb[i as usize % 3], i as usize % R3, &small(if i % 2 == 0 { k } else { -k }), i, tr)
    });

    // generator multiplication
    run.sweep("ecmult-gen-digits", 16 * 64 * 2, |i, tr| {
        let mut x = Ix(i);
        let (d, j) = (x.take(16) as u64, x.take(64));
        let v = N.mul(&U256::from(d), &U256::pow2(4 * j));
        gen_mul(&if x.take(2) == 0 { v } else { N.sub(&v, &gen_blind()) }, i, tr)
    });
    let mut gs = big.clone();
    gs.extend(big.iter().map(|v| N.sub(v, &gen_blind())));
    for n in 0..16u64 { let mut v = U256::ZERO; for j in 0..64 { v = v.add(&U256::from(n).shl(4 * j)); } gs.push(N.red(&v)); gs.push(N.sub(&N.red(&v), &gen_blind())); }
    let gs = dedup(gs);
    run.sweep("ecmult-gen-scalars", gs.len() as u64, |i, tr| gen_mul(&gs[i as usize], i, tr));
    run.sweep("ecmult-gen-small-scalars", run.q(10_000, 300_000), |i, tr| { let k = (i / 2) as i64; gen_mul(&small(if i % 2 == 0 { k } else { -k }), i, tr) });

    // the two recodings themselves
    #[cfg(libsecp256k1_mc)]
    {
        use libsecp256k1::mc_hooks::{ecmult_wnaf, ecmult_wnaf_const};
        let mut ws = big.clone();
        for k in 0..256 { for d in [3u64, 5, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10001] { let v = U256::from(d).shl(k); ws.push(N.red(&v)); ws.push(N.neg(&N.red(&v))); } }
        ws.extend(below(patterns(&[0x55555555, 0xffffffff]), &N.m));
        ws.extend((0..run.q(2000, 70000)).map(U256::from));
        let ws = dedup(ws);
        // windows the crate uses: 5 for points, 16 for the generator
        run.sweep("wnaf-recoding", (ws.len() * 2) as u64, |i, tr| {
            let mut x = Ix(i);
            let w = [5usize, 16][x.take(2)];
            let s = x.of(&ws);
            tr.note(|| format!("s={:?} window {}", s, w));
            let mut d = [0x7777i32; 256];
            let n = ecmult_wnaf(&mut d, &sc(s), w);
            ensure!((0..=256).contains(&n), "number of digits {}", n);
            let mut sum = U256::ZERO;
            for k in (0..n as usize).rev() {
                sum = N.add(&sum, &sum);
                if d[k] != 0 {
                    ensure!(d[k] % 2 != 0 && (d[k].unsigned_abs() as u64) < 1 << (w - 1), "digit {} at position {} outside window {}", d[k], k, w);
                    sum = N.add(&sum, &small(d[k] as i64));
                }
            }
            same!(tr, sum, *s, "value of the digits");
            Ok(if s.is_zero() { "zero" } else if s.bit(255) { "negated" } else { "plain" })
        });
        let wc = nonzero(ws.clone());
        run.sweep("wnaf-const-recoding", wc.len() as u64, |i, tr| {
            let s = &wc[i as usize];
            tr.note(|| format!("s={:?}", s));
            for w in [4usize] {
                let mut d = vec![0x7777i32; 1 + 256 / w];
                let skew = ecmult_wnaf_const(&mut d, &sc(s), w);
                ensure!(skew == 1 || skew == 2, "skew {}", skew);
                let mut sum = U256::ZERO;
                for k in (0..d.len()).rev() {
                    for _ in 0..w { sum = N.add(&sum, &sum); }
                    ensure!(d[k] % 2 != 0 && (d[k].unsigned_abs() as u64) < 1 << w, "digit {} at position {} outside the window", d[k], k);
                    sum = N.add(&sum, &small(d[k] as i64));
                }
                same!(tr, sum, N.add(s, &U256::from(skew as u64)), "value of the digits");
            }
            Ok("recoded")
        });
    }
    let _ = (tiny, CR, coord as fn(&U256, usize) -> _);
}

struct Ctxs { v: Vec<(&'static str, Box<ECMultContext>)>, g: Vec<(&'static str, Box<ECMultGenContext>)> }
fn contexts() -> &'static Ctxs {
    static C: OnceLock<Ctxs> = OnceLock::new();
    C.get_or_init(|| {
        std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
            let v1 = ECMultContext::new_boxed();
            let v2 = Box::new(unsafe { ECMultContext::new_from_raw(*ECMULT_CONTEXT.inspect_raw()) });
            let v3 = Box::new(unsafe { ECMultContext::new_from_raw(*v1.inspect_raw()) });
            let g1 = ECMultGenContext::new_boxed();
            let g2 = Box::new(unsafe { ECMultGenContext::new_from_raw(*ECMULT_GEN_CONTEXT.inspect_raw()) });
            let g3 = Box::new(unsafe { ECMultGenContext::new_from_raw(*g1.inspect_raw()) });
            Ctxs { v: vec![("built at run time", v1), ("rebuilt from the static entries", v2), ("rebuilt from the run-time entries", v3)], g: vec![("built at run time", g1), ("rebuilt from the static entries", g2), ("rebuilt from the run-time entries", g3)] }
        }).unwrap().join().unwrap()
    })
}
fn entry(a: &libsecp256k1::curve::AffineStorage) -> Pt { let g: Affine = (*a).into(); uaff(&g) }

pub fn c18(run: &Run) {
    let all_v: Vec<(&str, &ECMultContext)> = std::iter::once(("static", &ECMULT_CONTEXT)).chain(contexts().v.iter().map(|(n, c)| (*n, &**c))).collect();
    let all_g: Vec<(&str, &ECMultGenContext)> = std::iter::once(("static", &ECMULT_GEN_CONTEXT)).chain(contexts().g.iter().map(|(n, c)| (*n, &**c))).collect();
    run.sweep("entries-of-the-verification-table", (all_v.len() * 16384) as u64, |i, tr| {
        let mut x = Ix(i);
        let (n, c) = all_v[x.take(all_v.len())];
        let k = x.take(16384);
        tr.note(|| format!("{} context, entry {}", n, k));
        same!(tr, c.inspect_raw().len(), 16384, "number of entries");
        same!(tr, entry(&c.inspect_raw()[k]), mul_g(&U256::from(2 * k as u64 + 1)), format!("entry {}", k));
        Ok("(2k+1)G")
    });
    run.sweep("entries-of-the-signing-table", (all_g.len() * 64 * 16) as u64, |i, tr| {
        let mut x = Ix(i);
        let (n, c) = all_g[x.take(all_g.len())];
        let (k, j) = (x.take(16), x.take(64));
        tr.note(|| format!("{} context, window {} entry {}", n, j, k));
        let t = c.inspect_raw();
        same!(tr, (t.len(), t[j].len()), (64, 16), "table shape");
        let (e, e0) = (entry(&t[j][k]), entry(&t[j][0]));
        same!(tr, e.on_curve(7) && e0.on_curve(7), true, "entry on the curve");
        same!(tr, e.sub(&e0), mul_g(&N.mul(&U256::from(k as u64), &U256::pow2(4 * j))), "entry minus offset");
        same!(tr, entry(&all_g[0].1.inspect_raw()[j][k]), e, "same entry of the static context");
        Ok("k 16^j G + offset")
    });
    run.sweep("offsets-cancel", all_g.len() as u64, |i, tr| {
        let (n, c) = all_g[i as usize];
        tr.note(|| n.to_string());
        let mut s = Pt::Inf;
        for j in 0..64 { s = s.add(&entry(&c.inspect_raw()[j][0])); }
        same!(tr, s, Pt::Inf, "sum of the window offsets");
        Ok("cancel")
    });
    // any number of contexts, one after the other and at the same time
    let n = run.q(6u64, 40);
    run.sweep("created-again", n, |i, tr| {
        let keep: Vec<_> = (0..i % 3).map(|_| ECMultContext::new_boxed()).collect();
        let c = ECMultContext::new_boxed();
        let g = ECMultGenContext::new_boxed();
        drop(keep);
        tr.steps(2);
        ensure!(c.inspect_raw()[..] == all_v[0].1.inspect_raw()[..], "verification context number {} differs from the static one", i);
        ensure!(g.inspect_raw()[..] == all_g[0].1.inspect_raw()[..], "signing context number {} differs from the static one", i);
        let s = sc(&generic("c18", 1)[0]);
        let mut r = junk(0);
        g.ecmult_gen(&mut r, &s);
        jis(tr, &r, &mul_g(&us(&s)), "ecmult_gen")?;
        Ok("same contents")
    });
    // every operation with every context
    let ks = nonzero(run.q(scalars_tiny(), scalars_mid()));
    let keys: Vec<(U256, Pt)> = ks.iter().map(|d| (*d, mul_g(d))).collect();
    let ms = run.q(scalars_tiny().into_iter().step_by(2).collect::<Vec<_>>(), scalars_tiny());
    run.sweep("operations-with-every-context", (keys.len() * ms.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let m = x.of(&ms);
        let (d, p) = x.of(&keys);
        tr.note(|| format!("key {:?} message/tweak {:?}", d, m));
        let k = SecretKey::parse(&d.be()).map_err(|e| format!("{:?}", e))?;
        let (mm, q) = (Message(sc(m)), pk(p));
        let (s0, r0) = libsecp256k1::sign(&mm, &k);
        let bad = { let mut s = s0; s.s = &s.s + &Scalar::from_int(1); s };
        for (n, c) in &all_g {
            same!(tr, PublicKey::from_secret_key_with_context(&k, c), q, format!("public key, {}", n));
            same!(tr, libsecp256k1::sign_with_context(&mm, &k, c), (s0, r0), format!("signature, {}", n));
            let mut r = junk(i);
            c.ecmult_gen(&mut r, &sc(m));
            jis(tr, &r, &mul_g(m), n)?;
        }
        for (n, c) in &all_v {
            same!(tr, libsecp256k1::verify_with_context(&mm, &s0, &q, c), true, format!("verify, {}", n));
            same!(tr, libsecp256k1::verify_with_context(&mm, &bad, &q, c), libsecp256k1::verify(&mm, &bad, &q), format!("verify of a wrong signature, {}", n));
            for id in 0..4 {
                let id = RecoveryId::parse(id).unwrap();
                same!(tr, libsecp256k1::recover_with_context(&mm, &s0, &id, c), libsecp256k1::recover(&mm, &s0, &id), format!("recover, {}", n));
            }
            same!(tr, libsecp256k1::recover_with_context(&mm, &s0, &r0, c), Ok(q), format!("recover, {}", n));
            let a = SharedSecret::<sha2::Sha256>::new_with_context(&q, &k, c).map(|s| s.as_ref().to_vec());
            same!(tr, a, SharedSecret::<sha2::Sha256>::new(&q, &k).map(|s| s.as_ref().to_vec()), format!("shared secret, {}", n));
            if !m.is_zero() {
                let t = SecretKey::parse(&m.be()).unwrap();
                let (mut q1, mut q2) = (q, q);
                let (e1, e2) = (q1.tweak_add_assign_with_context(&t, c), q2.tweak_add_assign(&t));
                same!(tr, (e1, q1), (e2, q2), format!("tweak add, {}", n));
                let (mut q1, mut q2) = (q, q);
                let (e1, e2) = (q1.tweak_mul_assign_with_context(&t, c), q2.tweak_mul_assign(&t));
                same!(tr, (e1, q1), (e2, q2), format!("tweak mul, {}", n));
                let mut r = junk(i);
                c.ecmult_const(&mut r, &aff(p), &sc(m));
                jis(tr, &r, &mul_g(&N.mul(m, d)), n)?;
            }
            let mut r = junk(i);
            c.ecmult(&mut r, &jrep(p, &U256::from(5), 1), &sc(m), &sc(d));
            jis(tr, &r, &mul_g(&N.add(&N.mul(m, d), d)), n)?;
        }
        Ok("all contexts agree")
    });
    let digits: Vec<(usize, usize)> = (0..64).flat_map(|j| (0..16).map(move |k| (j, k))).collect();
    run.sweep("generator-digits-with-every-context", (digits.len() * all_g.len()) as u64, |i, tr| {
        let mut x = Ix(i);
        let (j, k) = *x.of(&digits);
        let (n, c) = all_g[x.take(all_g.len())];
        let s = N.sub(&N.mul(&U256::from(k as u64), &U256::pow2(4 * j)), &gen_blind());
        tr.note(|| format!("{} context s={:?}", n, s));
        let mut r = junk(i);
        c.ecmult_gen(&mut r, &sc(&s));
        jis(tr, &r, &mul_g(&s), n)?;
        Ok("multiple of G")
    });
    let _ = Signature::parse_standard(&[1; 64]);
}
