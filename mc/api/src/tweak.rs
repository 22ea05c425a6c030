//! C12 secret-key tweaks, C13 public-key tweaks and combination.
use common::*;
use engine::*;
use libsecp256k1::curve::{Affine, Scalar};
use libsecp256k1::{PublicKey, PublicKeyFormat, SecretKey};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

/// A secret key object of any value below n, zero (a cleared key) included.
fn key(v: &U256) -> SecretKey {
    if v.is_zero() { let mut k = SecretKey::default(); k.clear(); k } else { sk(v) }
}
fn raw(k: &SecretKey) -> U256 { let s: Scalar = (*k).into(); us(&s) }

fn add_case(d: &U256, t: &U256, tr: &mut Tr) -> Result<(U256, bool), String> {
    let (mut k, tk) = (key(d), key(t));
    let r = k.tweak_add_assign(&tk);
    let w = N.add(d, t);
    same!(tr, r.is_ok(), !w.is_zero(), format!("tweak_add({:?}) on {:?} succeeds", t, d));
    let want = if w.is_zero() { *d } else { w };
    same!(tr, raw(&k), want, format!("key after tweak_add({:?}) on {:?}", t, d));
    ensure!(raw(&tk) == *t, "tweak changed");
    Ok((want, r.is_ok()))
}
fn mul_case(d: &U256, t: &U256, tr: &mut Tr) -> Result<(U256, bool), String> {
    let (mut k, tk) = (key(d), key(t));
    let r = k.tweak_mul_assign(&tk);
    same!(tr, r.is_ok(), !t.is_zero(), format!("tweak_mul({:?}) on {:?} succeeds", t, d));
    let want = if t.is_zero() { *d } else { N.mul(d, t) };
    same!(tr, raw(&k), want, format!("key after tweak_mul({:?}) on {:?}", t, d));
    ensure!(raw(&tk) == *t, "tweak changed");
    Ok((want, r.is_ok()))
}
fn inv_case(d: &U256, tr: &mut Tr) -> Result<U256, String> {
    let k = sk(d);
    let i = k.inv();
    let w = N.inv(d);
    same!(tr, raw(&i), w, format!("inverse of {:?}", d));
    same!(tr, raw(&i.inv()), *d, "inverse of the inverse");
    let mut one = k;
    one.tweak_mul_assign(&i).map_err(|e| format!("key*inverse fails: {:?}", e))?;
    same!(tr, raw(&one), U256::ONE, "key*inverse");
    ensure!(raw(&k) == *d, "inv changed its argument");
    Ok(w)
}
/// Tweaks that depend on the key: cancelling, doubling, inverting and their neighbours.
fn dynamic(d: &U256) -> Vec<U256> {
    let mut v = vec![N.neg(d), *d, N.add(&N.neg(d), &U256::ONE), N.sub(&N.neg(d), &U256::ONE), N.half().sub(d), U256::MAX.sub(d)];
    v.retain(|x| *x < N.m);
    let i = N.inv(d);
    v.extend([i, N.neg(&i)]);
    for k in [32usize, 64, 96, 128, 160, 192, 224] { v.push(N.add(&N.neg(d), &U256::pow2(k))); v.push(N.sub(&N.neg(d), &U256::pow2(k))); }
    v
}

pub fn c12(run: &Run) {
    let mid = scalars_mid();
    let wide = if run.thorough() { scalars_big() } else { let mut v = scalars_mid(); v.extend(generic("tweak", 400)); v };
    run.sweep("add-products", (wide.len() * mid.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (t, d) = (ix.of(&mid), ix.of(&wide));
        tr.note(|| format!("key {:?} + tweak {:?}", d, t));
        Ok(if add_case(d, t, tr)?.1 { "added" } else { "refused" })
    });
    run.sweep("mul-products", (wide.len() * mid.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (t, d) = (ix.of(&mid), ix.of(&wide));
        tr.note(|| format!("key {:?} * tweak {:?}", d, t));
        Ok(if mul_case(d, t, tr)?.1 { "multiplied" } else { "refused" })
    });
    let mut big = scalars_big();
    big.extend(below([around_limbs(&N.m), around_limbs(&half_n()), patterns(&[0, 1, 0xffffffff])].concat(), &N.m));
    let big = dedup(big);
    run.sweep("dynamic-tweaks", big.len() as u64, |i, tr| {
        let d = &big[i as usize];
        tr.note(|| format!("key {:?} with tweaks near -key, key, 1/key", d));
        for t in dynamic(d) { add_case(d, &t, tr)?; mul_case(d, &t, tr)?; }
        add_case(d, &U256::ZERO, tr)?;
        mul_case(d, &U256::ZERO, tr)?;
        Ok("done")
    });
    let inv = nonzero(if run.thorough() { big.clone() } else { scalars_big() });
    run.sweep("inversion", inv.len() as u64, |i, tr| { tr.note(|| format!("key {:?}", inv[i as usize])); inv_case(&inv[i as usize], tr)?; Ok("inverted") });
    // every history of tweaks and inversions up to a depth, from corner keys
    let alpha = run.q(vec![U256::ONE, U256::from(2), N.m.addi(-1), half_n(), half_n().addi(1), U256::ZERO, generic("scalar", 1)[0]], scalars_tiny());
    run.bfs("histories", nonzero(scalars_tiny()), run.q(3, 4), run.q(150_000, 3_000_000), |d, tr| {
        let mut out = vec![];
        let mut ts = alpha.clone();
        if !d.is_zero() { ts.extend(dynamic(d).into_iter().take(4)); }
        for t in &ts {
            out.push((format!("add {:?}", t), add_case(d, t, tr)?.0));
            out.push((format!("mul {:?}", t), mul_case(d, t, tr)?.0));
        }
        if !d.is_zero() { out.push(("inv".into(), inv_case(d, tr)?)); }
        Ok(out)
    });
}

/// A public key object together with the secret it stands for.
#[derive(Clone, Debug)]
struct St { d: U256, k: PublicKey, repr: String }
impl St { fn new(d: U256, k: PublicKey) -> St { St { d, repr: format!("{:?}", k), k } } }
impl PartialEq for St { fn eq(&self, o: &St) -> bool { self.d == o.d && self.repr == o.repr } }
impl Eq for St {}
impl Hash for St { fn hash<H: Hasher>(&self, h: &mut H) { self.d.hash(h); self.repr.hash(h); } }

fn check_key(k: &PublicKey, want: &Pt, what: &str, tr: &mut Tr) -> Result<(), String> {
    same!(tr, pts(&upk(k)), pts(want), what);
    same!(tr, hex(&k.serialize()), hex(&want.ser65()), format!("{}: serialize", what));
    same!(tr, hex(&k.serialize_compressed()), hex(&want.ser33()), format!("{}: serialize_compressed", what));
    let p = pk(want);
    ensure!(*k == p && p == *k, "{}: not equal to the parsed key of the same point", what);
    let n = pk(&want.neg());
    ensure!(*k != n && n != *k, "{}: equal to its negation", what);
    Ok(())
}
fn add_t(s: &St, t: &U256, tr: &mut Tr) -> Result<St, String> {
    let mut k = s.k;
    let r = k.tweak_add_assign(&key(t));
    let w = N.add(&s.d, t);
    same!(tr, r.is_ok(), !w.is_zero(), format!("tweak_add({:?}) on {:?}*G succeeds", t, s.d));
    if w.is_zero() { ensure!(format!("{:?}", k) == s.repr, "failed tweak_add changed the key"); return Ok(s.clone()); }
    check_key(&k, &mul_g(&w), &format!("tweak_add({:?}) on {:?}*G", t, s.d), tr)?;
    Ok(St::new(w, k))
}
fn mul_t(s: &St, t: &U256, tr: &mut Tr) -> Result<St, String> {
    let mut k = s.k;
    let r = k.tweak_mul_assign(&key(t));
    same!(tr, r.is_ok(), !t.is_zero(), format!("tweak_mul({:?}) on {:?}*G succeeds", t, s.d));
    if t.is_zero() { ensure!(format!("{:?}", k) == s.repr, "failed tweak_mul changed the key"); return Ok(s.clone()); }
    let w = N.mul(&s.d, t);
    check_key(&k, &mul_g(&w), &format!("tweak_mul({:?}) on {:?}*G", t, s.d), tr)?;
    Ok(St::new(w, k))
}
fn combine_case(list: &[PublicKey], want: &Pt, tr: &mut Tr) -> Result<Option<PublicKey>, String> {
    let r = PublicKey::combine(list);
    same!(tr, r.is_ok(), !want.is_inf(), "combine succeeds");
    match r { Ok(k) => { check_key(&k, want, "combine", tr)?; Ok(Some(k)) } Err(_) => Ok(None) }
}

pub fn c13(run: &Run) {
    let mid = scalars_mid();
    let some = if run.thorough() { nonzero(scalars_mid()) } else { nonzero(scalars_tiny()) };
    for which in 0..2 {
        run.sweep(["add-products", "mul-products"][which], (mid.len() * some.len()) as u64, |i, tr| {
            let mut ix = Ix(i);
            let (t, d) = (ix.of(&mid), ix.of(&some));
            tr.note(|| format!("{:?}*G tweaked by {:?}", d, t));
            let s = St::new(*d, pk(&mul_g(d)));
            let n = if which == 0 { add_t(&s, t, tr)? } else { mul_t(&s, t, tr)? };
            // the secret-key operation gives the same key
            let mut k = sk(d);
            let ok = if which == 0 { k.tweak_add_assign(&key(t)) } else { k.tweak_mul_assign(&key(t)) }.is_ok();
            if ok { ensure!(PublicKey::from_secret_key(&k) == n.k, "secret and public tweaks differ"); }
            Ok(if ok { "tweaked" } else { "refused" })
        });
    }
    let big = nonzero(scalars_big());
    run.sweep("dynamic-tweaks", big.len() as u64, |i, tr| {
        let d = &big[i as usize];
        tr.note(|| format!("{:?}*G with tweaks near -d, d, 1/d", d));
        let s = St::new(*d, pk(&mul_g(d)));
        for t in dynamic(d).iter().take(8) { add_t(&s, t, tr)?; }
        for t in dynamic(d).iter().take(2) { mul_t(&s, t, tr)?; }
        mul_t(&s, &N.inv(d), tr)?;
        mul_t(&s, d, tr)?;
        Ok("done")
    });
    let base = mul_g(&generic("point", 1)[0]);
    run.sweep("big-tweaks", big.len() as u64, |i, tr| {
        let t = &big[i as usize];
        tr.note(|| format!("tweak {:?}", t));
        let s = St::new(generic("point", 1)[0], pk(&base));
        add_t(&s, t, tr)?;
        mul_t(&s, t, tr)?;
        let g = St::new(U256::ONE, pk(&G));
        add_t(&g, t, tr)?;
        mul_t(&g, t, tr)?;
        Ok("done")
    });
    // small multiples of G: every pair collides with a table entry, doubles or cancels
    let w = run.q(20i64, 60);
    run.sweep("small-multiples", ((2 * w + 1) * (2 * w + 1)) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, t) = (ix.take((2 * w + 1) as usize) as i64 - w, ix.take((2 * w + 1) as usize) as i64 - w);
        if d == 0 { return Ok("no key"); }
        tr.note(|| format!("{}*G tweaked by {}", d, t));
        let s = St::new(N.i(d), pk(&gi(d)));
        add_t(&s, &N.i(t), tr)?;
        mul_t(&s, &N.i(t), tr)?;
        Ok(if d + t == 0 { "cancels" } else if d == t { "doubles" } else { "other" })
    });
    // every list over colliding keys in several internal representations
    let q = mul_g(&generic("point", 2)[1]);
    let lam = Pt::Aff(P.mul(&G.x(), &beta()), G.y());
    let alpha: Vec<(PublicKey, Pt)> = {
        let mut a = vec![];
        for p in [G, G.neg(), gi(2), gi(-3), q, lam, lam.neg()] { a.push((pk(&p), p)); }
        for kx in [1, 3] { a.push((PublicKey::try_from(aff_repr(&q.neg(), kx, 4 - kx)).expect("denormalised coordinates rejected"), q.neg())); }
        a
    };
    let len = run.q(5usize, 6);
    let total: u64 = (0..=len as u32).map(|l| (alpha.len() as u64).pow(l)).sum();
    run.sweep("combine-lists", total, |i, tr| {
        let (mut l, mut i) = (0usize, i);
        while i >= (alpha.len() as u64).pow(l as u32) { i -= (alpha.len() as u64).pow(l as u32); l += 1; }
        let mut ix = Ix(i);
        let list: Vec<&(PublicKey, Pt)> = (0..l).map(|_| ix.of(&alpha)).collect();
        tr.note(|| format!("combine [{}]", list.iter().map(|x| pts(&x.1)).collect::<Vec<_>>().join(", ")));
        let ks: Vec<PublicKey> = list.iter().map(|x| x.0).collect();
        let want = list.iter().fold(Pt::Inf, |a, x| a.add(&x.1));
        Ok(if combine_case(&ks, &want, tr)?.is_some() { "sum" } else if l == 0 { "empty list refused" } else { "infinity refused" })
    });
    run.sweep("combine-long", run.q(300, 3000), |i, tr| {
        // i keys kG, -kG interleaved, then one more
        let n = i as i64;
        let mut ks = vec![];
        for k in 1..=n { ks.push(if k % 2 == 0 { -((k + 1) / 2) } else { (k + 1) / 2 }); }
        tr.note(|| format!("combine of {} multiples {:?}...", n, &ks[..ks.len().min(6)]));
        let sum: i64 = ks.iter().sum();
        let list: Vec<PublicKey> = ks.iter().map(|k| pk(&gi(*k))).collect();
        let want = if sum == 0 { Pt::Inf } else { gi(sum) };
        Ok(if combine_case(&list, &want, tr)?.is_some() { "sum" } else { "infinity refused" })
    });
    let pool: Vec<PublicKey> = (1..=17).map(|k| pk(&gi(k))).collect();
    let lens: Vec<usize> = [255usize, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000].into_iter().chain(run.q(vec![], vec![131_072, 262_145, 1_000_001])).collect();
    run.sweep("combine-very-long", lens.len() as u64 * 3, |i, tr| {
        let mut ix = Ix(i);
        let how = ix.take(3);
        let n = *ix.of(&lens);
        // ascending multiples; one key over and over; all but the last cancel in pairs
        let neg = pk(&gi(-4));
        let at = |j: usize| -> i64 { match how { 0 => (j % 17) as i64 + 1, 1 => 3, _ => if j + 1 == n { 5 } else if j % 2 == 0 { 4 } else { -4 } } };
        tr.note(|| format!("combine of {} keys, kind {}", n, how));
        let list: Vec<PublicKey> = (0..n).map(|j| { let k = at(j); if k < 0 { neg } else { pool[k as usize - 1] } }).collect();
        let sum: i64 = (0..n).map(at).sum();
        combine_case(&list, &if sum == 0 { Pt::Inf } else { gi(sum) }, tr)?;
        Ok("sum")
    });
    // every history of tweaks, combinations and re-encodings on one key object
    let ts: Vec<U256> = vec![U256::ONE, N.m.addi(-1), U256::from(2), N.m.addi(-2), half_n().addi(1), U256::ZERO, generic("scalar", 1)[0]];
    let partner = St::new(U256::from(3), { let mut k = pk(&G); k.tweak_mul_assign(&sk(&U256::from(3))).unwrap(); k });
    let init: Vec<St> = [1i64, -1, 2, 5].iter().map(|k| St::new(N.i(*k), PublicKey::from_secret_key(&sk(&N.i(*k)))))
        .chain([St::new(generic("point", 1)[0], pk(&base))]).collect();
    run.bfs("histories", init, run.q(3, 5), run.q(20_000, 400_000), |s, tr| {
        let mut out = vec![];
        let q = mul_g(&s.d);
        let mut all = ts.clone();
        all.push(N.neg(&s.d));
        all.push(s.d);
        for t in &all {
            out.push((format!("add {:?}", t), add_t(s, t, tr)?));
            out.push((format!("mul {:?}", t), mul_t(s, t, tr)?));
        }
        let mut neg = s.k;
        neg.tweak_mul_assign(&sk(&N.m.addi(-1))).map_err(|e| format!("negation fails: {:?}", e))?;
        let lists: Vec<(&str, Vec<PublicKey>, U256)> = vec![
            ("[Q]", vec![s.k], s.d), ("[Q,Q]", vec![s.k, s.k], N.add(&s.d, &s.d)), ("[Q,-Q]", vec![s.k, neg], U256::ZERO),
            ("[-Q,Q,Q]", vec![neg, s.k, s.k], s.d), ("[Q,3G]", vec![s.k, partner.k], N.add(&s.d, &partner.d)), ("[3G,Q]", vec![partner.k, s.k], N.add(&s.d, &partner.d)),
            ("[-Q,3G,Q]", vec![neg, partner.k, s.k], partner.d),
        ];
        for (name, l, d) in lists {
            if let Some(k) = combine_case(&l, &if d.is_zero() { Pt::Inf } else { mul_g(&d) }, tr)? { out.push((format!("combine {}", name), St::new(d, k))); }
        }
        for f in 0..4 {
            let k = match f {
                0 => PublicKey::parse(&s.k.serialize()),
                1 => PublicKey::parse_compressed(&s.k.serialize_compressed()),
                2 => PublicKey::parse_slice(&s.k.serialize()[1..], Some(PublicKeyFormat::Raw)),
                _ => PublicKey::try_from(Into::<Affine>::into(s.k)),
            }.map_err(|e| format!("re-encoding {} of {:?}*G fails: {:?}", f, s.d, e))?;
            check_key(&k, &q, "re-encoded key", tr)?;
            ensure!(k == s.k && s.k == k, "re-encoded key differs from the original");
            out.push((format!("re-encode {}", f), St::new(s.d, k)));
        }
        check_key(&s.k, &q, "key after being used by shared reference", tr)?;
        Ok(out)
    });
}
