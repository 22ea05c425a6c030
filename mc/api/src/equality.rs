//! C28: equality is equality of the value.
use common::*;
use digest::generic_array::GenericArray;
use digest::{FixedOutput, Reset, Update};
use engine::*;
use libsecp256k1::curve::{Affine, Field, Scalar};
use libsecp256k1::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::convert::TryFrom;

thread_local! { static ANSWER: RefCell<[u8; 32]> = RefCell::new([0; 32]); }
/// A digest whose output is chosen by the check.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
struct Chosen;
impl Update for Chosen { fn update(&mut self, _: impl AsRef<[u8]>) {} }
impl Reset for Chosen { fn reset(&mut self) {} }
impl FixedOutput for Chosen {
    type OutputSize = typenum::U32;
    fn finalize_into(self, out: &mut GenericArray<u8, typenum::U32>) { ANSWER.with(|a| out.copy_from_slice(&*a.borrow())); }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, typenum::U32>) { self.clone().finalize_into(out) }
}
fn secret(v: &U256) -> SharedSecret<Chosen> {
    ANSWER.with(|a| *a.borrow_mut() = v.be());
    SharedSecret::<Chosen>::new(&pk(&G), &sk(&U256::from(3))).expect("shared secret")
}
/// Every way two objects can be compared, in both orders.
fn both<T: PartialEq>(a: &T, b: &T, want: bool, what: &str, tr: &mut Tr) -> Result<(), String> {
    same!(tr, a == b, want, what);
    same!(tr, b == a, want, format!("{} the other way round", what));
    same!(tr, a != b, !want, format!("{} with !=", what));
    ensure!(a == a && b == b, "{}: not equal to itself", what);
    Ok(())
}
/// Values that differ from `a` in one place: each bit, each 32-bit limb, each byte, both halves.
fn neighbours(a: &U256) -> Vec<U256> {
    let mut v = vec![*a];
    for k in 0..256 { let mut x = *a; x.0[k / 64] ^= 1 << (k % 64); v.push(x); }
    for j in 0..8 {
        let l = a.u32s();
        for w in [0, 1, u32::MAX, !l[j], l[j].rotate_left(8)] { let mut m = l; m[j] = w; v.push(U256::from_u32s(m)); }
        let mut m = l; m.swap(j, (j + 1) % 8); v.push(U256::from_u32s(m));
        let mut m = [0; 8]; m[j] = l[j]; v.push(U256::from_u32s(m));
    }
    let l = a.u32s();
    v.push(U256::from_u32s([l[4], l[5], l[6], l[7], l[0], l[1], l[2], l[3]]));
    let mut r = l; r.reverse(); v.push(U256::from_u32s(r));
    let mut b = a.be(); b.reverse(); v.push(U256::from_be(&b));
    v.push(N.neg(&N.red(a)));
    dedup(v)
}
fn pairs(bases: &[U256]) -> Vec<(U256, U256)> { bases.iter().flat_map(|a| neighbours(a).into_iter().map(move |b| (*a, b))).collect() }

pub fn c28(run: &Run) {
    let bases: Vec<U256> = [scalars_tiny(), generic("equality", run.q(6, 60)), vec![N.m.addi(-1), U256::from_u32s([0x01020304; 8])]].concat();
    let ps = pairs(&below(bases, &N.m));
    run.sweep("thirty-two-bytes", ps.len() as u64, |i, tr| {
        let (a, b) = ps[i as usize];
        tr.note(|| format!("{:?} and {:?}", a, b));
        both(&secret(&a), &secret(&b), a == b, "shared secrets", tr)?;
        if a >= N.m || b >= N.m { return Ok("shared secrets only"); }
        both(&sc(&a), &sc(&b), a == b, "scalars", tr)?;
        both(&msg(&a), &msg(&b), a == b, "messages", tr)?;
        both(&Message::parse(&a.be()), &msg(&b), a == b, "messages, one parsed", tr)?;
        for (x, y) in [(&a, &b), (&b, &a)] {
            let g = U256::from(77);
            let s = |r: &U256, s: &U256| Signature { r: sc(r), s: sc(s) };
            both(&s(x, &g), &s(y, &g), a == b, "signatures that may differ in r", tr)?;
            both(&s(&g, x), &s(&g, y), a == b, "signatures that may differ in s", tr)?;
            both(&s(x, y), &s(y, x), a == b, "signatures with r and s exchanged", tr)?;
            both(&s(x, x), &s(y, y), a == b, "signatures that may differ in both", tr)?;
        }
        if a.is_zero() || b.is_zero() { return Ok("no keys"); }
        both(&sk(&a), &sk(&b), a == b, "secret keys", tr)?;
        // a copy is an object of its own
        let k = sk(&a);
        let mut c = k;
        c.clear();
        ensure!(usk(&k) == a && k == sk(&a) && c != k, "clearing a copy changes the original");
        let mut c = k;
        let _ = c.tweak_add_assign(&sk(&b));
        ensure!(k == sk(&a) && (c == k) == (usk(&c) == a), "tweaking a copy changes the original");
        Ok(if a == b { "equal" } else { "different" })
    });
    run.sweep("ids", 16, |i, tr| {
        let (a, b) = ((i / 4) as u8, (i % 4) as u8);
        both(&RecoveryId::parse(a).unwrap(), &RecoveryId::parse_rpc(27 + b).unwrap(), a == b, "recovery ids", tr)?;
        Ok(if a == b { "equal" } else { "different" })
    });
    // field elements in every representation, their order
    let fb: Vec<U256> = below([generic("field equality", run.q(4, 30)), vec![U256::ZERO, U256::ONE, P.m.addi(-1), U256::from(0x1000003d0), P.half(), N.m]].concat(), &P.m);
    let fp = pairs(&fb);
    let n = fp.len() as u64;
    run.sweep("field-elements", n * (REPRS * REPRS) as u64, |i, tr| {
        let (a, b) = fp[(i % n) as usize];
        let (ka, kb) = (((i / n) as usize) % REPRS, ((i / n) as usize) / REPRS);
        let b = P.red(&b);
        tr.note(|| format!("{:?} in representation {} and {:?} in representation {}", a, ka, b, kb));
        let (x, y) = (fe_repr(&a, ka), fe_repr(&b, kb));
        both(&x, &y, a == b, "field elements", tr)?;
        let want = if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater };
        if ka == 0 && kb == 0 {
            // the order is defined for normalised elements only
            same!(tr, x.cmp(&y), want, "order");
            same!(tr, y.partial_cmp(&x), Some(want.reverse()), "order the other way round");
            same!(tr, (x < y, x > y), (a < b, a > b), "comparison operators");
            let (p, q): (curve::FieldStorage, curve::FieldStorage) = (x.into(), y.into());
            both(&p, &q, a == b, "stored field elements", tr)?;
            let one = curve::FieldStorage::default();
            let st = |u: curve::FieldStorage, v: curve::FieldStorage| curve::AffineStorage { x: u, y: v };
            both(&st(p, one), &st(q, one), a == b, "stored points that may differ in x", tr)?;
            both(&st(one, p), &st(one, q), a == b, "stored points that may differ in y", tr)?;
        }
        let z = Field::from_int(9);
        both(&Affine::new(x, z), &Affine::new(y, z), a == b, "affine points that may differ in x", tr)?;
        both(&Affine::new(z, x), &Affine::new(z, y), a == b, "affine points that may differ in y", tr)?;
        Ok(match want { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" })
    });
    // public keys by every route, against each other and against keys that share a coordinate
    let mut pts_: Vec<Pt> = [points(run.q(4, 12), run.q(3, 12), 0), special_points(run.q(1, 4))].concat();
    for p in pts_.clone() { pts_.push(p.neg()); pts_.push(Pt::Aff(P.mul(&p.x(), &beta()), p.y())); }
    let mut u: Vec<Pt> = vec![];
    for p in pts_ { if !u.contains(&p) { u.push(p); } }
    // and points whose x differs from that of another in few limbs
    let res = residuals();
    let base = gi(1);
    let close: Vec<Pt> = res.iter().filter_map(|e| Pt::lift(&P.add(&base.x(), e), false, 7)).collect();
    let close: Vec<Pt> = close.into_iter().step_by(run.q(4, 1)).collect();
    let cheap = |p: &Pt, r: usize| -> Result<PublicKey, String> {
        Ok(match r {
            0 => pk(p),
            1 => PublicKey::parse_compressed(&p.ser33()).map_err(|e| format!("{:?}", e))?,
            2 => PublicKey::parse_slice(&p.ser65()[1..], None).map_err(|e| format!("{:?}", e))?,
            3 => { let mut h = p.ser65(); h[0] = 6 + p.y().is_odd() as u8; PublicKey::parse(&h).map_err(|e| format!("{:?}", e))? }
            r => PublicKey::try_from(aff_repr(p, (r - 4) % REPRS, (r - 4) / REPRS)).map_err(|e| format!("{:?}", e))?,
        })
    };
    let routes = 4 + REPRS * REPRS;
    let m = u.len() as u64;
    run.sweep("public-keys", m * m * run.q(routes, routes * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (a, b) = (*ix.of(&u), *ix.of(&u));
        let (ra, rb) = (ix.take(routes), (ix.0 as usize * 5 + i as usize) % routes);
        tr.note(|| format!("{} by route {} and {} by route {}", pts(&a), ra, pts(&b), rb));
        both(&cheap(&a, ra)?, &cheap(&b, rb)?, a == b, "public keys", tr)?;
        Ok(if a == b { "equal" } else if a.x() == b.x() { "opposite" } else if a.y() == b.y() { "same y" } else { "different" })
    });
    run.sweep("close-public-keys", close.len() as u64 * 4, |i, tr| {
        let mut ix = Ix(i);
        let (kx, ky) = (ix.take(2) * 3, ix.take(2) * 2);
        let p = *ix.of(&close);
        tr.note(|| format!("G and {}", pts(&p)));
        both(&PublicKey::try_from(aff_repr(&p, kx, ky)).map_err(|e| format!("{:?}", e))?, &pk(&base), p == base, "public keys", tr)?;
        // with the y of the other, as plain coordinates
        let (a, b) = (aff_repr(&Pt::Aff(p.x(), base.y()), kx, ky), aff(&base));
        both(&a, &b, p.x() == base.x(), "affine points with the same y", tr)?;
        let (a, b) = (aff_repr(&Pt::Aff(base.x(), p.y()), kx, ky), aff(&base));
        both(&a, &b, p.y() == base.y(), "affine points with the same x", tr)?;
        Ok("different")
    });
    // keys that are the results of operations
    let ds: Vec<U256> = nonzero(below([scalars_tiny(), generic("equality key", run.q(3, 20))].concat(), &N.m));
    let k = ds.len() as u64;
    run.sweep("results", k * k, |i, tr| {
        let (d, t) = (ds[(i / k) as usize], ds[(i % k) as usize]);
        tr.note(|| format!("keys {:?} and {:?}", d, t));
        let (q, s) = (PublicKey::from_secret_key(&sk(&d)), PublicKey::from_secret_key(&sk(&t)));
        both(&q, &s, d == t, "derived keys", tr)?;
        let sum = N.add(&d, &t);
        let mut a = q;
        let ok = a.tweak_add_assign(&sk(&t)).is_ok();
        same!(tr, ok, !sum.is_zero(), "tweak succeeds");
        both(&q, &PublicKey::from_secret_key(&sk(&d)), true, "the original of a tweaked copy", tr)?;
        if ok {
            let c = PublicKey::combine(&[q, s]).map_err(|e| format!("{:?}", e))?;
            both(&a, &c, true, "tweaked and combined key", tr)?;
            both(&a, &PublicKey::from_secret_key(&sk(&sum)), true, "tweaked and derived key", tr)?;
            both(&a, &q, false, "tweaked and original key", tr)?;
        }
        let mut a = q;
        a.tweak_mul_assign(&sk(&t)).map_err(|e| format!("{:?}", e))?;
        let mut b = s;
        b.tweak_mul_assign(&sk(&d)).map_err(|e| format!("{:?}", e))?;
        both(&a, &b, true, "products in both orders", tr)?;
        both(&a, &q, t == U256::ONE, "product and original", tr)?;
        let (x, y) = (SharedSecret::<sha2::Sha256>::new(&q, &sk(&t)), SharedSecret::<sha2::Sha256>::new(&s, &sk(&d)));
        both(&x.map_err(|e| format!("{:?}", e))?.as_ref().to_vec(), &y.map_err(|e| format!("{:?}", e))?.as_ref().to_vec(), true, "shared secrets of both sides", tr)?;
        let (x, y) = (sign(&msg(&d), &sk(&t)), sign(&msg(&t), &sk(&d)));
        both(&x.0, &y.0, d == t, "signatures", tr)?;
        both(&sign(&msg(&d), &sk(&t)).0, &x.0, true, "the same signature made twice", tr)?;
        let (d1, d2) = (x.0.serialize_der(), x.0.serialize());
        both(&Signature::parse_der(d1.as_ref()).map_err(|e| format!("{:?}", e))?, &Signature::parse_standard(&d2).map_err(|e| format!("{:?}", e))?, true, "a signature through both encodings", tr)?;
        Ok(if d == t { "same key" } else { "different keys" })
    });
    let _: Option<Scalar> = None;
}
