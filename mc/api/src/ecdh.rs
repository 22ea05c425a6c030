//! C07.
use common::*;
use digest::generic_array::GenericArray;
use digest::{Digest, FixedOutput, Reset, Update};
use engine::*;
use libsecp256k1::{Error, PublicKey, SecretKey, SharedSecret};

/// A digest that hands back what it was fed: output byte 0 is the number of bytes, the rest the
/// bytes themselves (so the test sees exactly what the library hashes, and in what order).
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Tap(Vec<u8>);
impl Update for Tap { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.extend_from_slice(d.as_ref()); } }
impl Reset for Tap { fn reset(&mut self) { self.0.clear(); } }
impl FixedOutput for Tap {
    type OutputSize = typenum::U60;
    fn finalize_into(self, out: &mut GenericArray<u8, typenum::U60>) {
        for b in out.iter_mut() { *b = 0xee; }
        out[0] = self.0.len().min(255) as u8;
        for (o, b) in out[1..].iter_mut().zip(&self.0) { *o = *b; }
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, typenum::U60>) { self.clone().finalize_into(out); Reset::reset(self); }
}
fn tapped(p: &Pt) -> Vec<u8> {
    let mut o = vec![0xee; 60];
    o[0] = 33;
    o[1..34].copy_from_slice(&p.ser33());
    o
}
fn shared<D: Digest + Default>(p: &PublicKey, k: &SecretKey) -> Result<Vec<u8>, String> {
    SharedSecret::<D>::new(p, k).map(|s| s.as_ref().to_vec()).map_err(|e| format!("SharedSecret::new fails: {:?}", e))
}
fn case(p: &Pt, d: &U256, want: &Pt, tr: &mut Tr) -> Res {
    tr.note(|| format!("P={} d={:?}", pts(p), d));
    let (q, k) = (pk(p), sk(d));
    same!(tr, hex(&shared::<Tap>(&q, &k)?), hex(&tapped(want)), "hashed bytes");
    same!(tr, hex(&shared::<sha2::Sha256>(&q, &k)?), hex(&sha256(&want.ser33())), "SHA-256 secret");
    Ok(if want.y().is_odd() { "odd y" } else { "even y" })
}

pub fn c07(run: &Run) {
    let small = points(run.q(2, 12), 2, run.q(1, 3));
    let mid = nonzero(scalars_mid());
    run.sweep("points-x-scalars", (small.len() * mid.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, p) = (ix.of(&mid), ix.of(&small));
        case(p, d, &p.mul(d), tr)
    });
    let big = nonzero(scalars_big());
    let p = mul_g(&generic("point", 1)[0]);
    run.sweep("big-scalars", big.len() as u64, |i, tr| case(&p, &big[i as usize], &p.mul(&big[i as usize]), tr));
    let sp = special_points(run.q(20, 300));
    let ds = [U256::ONE, U256::from(2), N.m.addi(-1), half_n(), generic("scalar", 1)[0]];
    run.sweep("special-points", (sp.len() * ds.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, p) = (ix.of(&ds), ix.of(&sp));
        case(p, d, &p.mul(d), tr)
    });
    // results with special coordinates: P = (1/d) R
    run.sweep("special-results", (sp.len() * ds.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, r) = (ix.of(&ds), ix.of(&sp));
        case(&r.mul(&N.inv(d)), d, r, tr)
    });
    // every 5-bit digit value at every bit position, both signs
    let step = run.q(2usize, 1);
    run.sweep("windows", 32 * (256 / step) as u64 * 2, |i, tr| {
        let mut ix = Ix(i);
        let (w, j, b) = (ix.take(32), ix.take(256 / step) * step, ix.take(2));
        let v = N.red(&U256::from(w as u64).shl(j));
        let d = if b == 0 { v } else { N.sub(&generic("win", 1)[0], &v) };
        if d.is_zero() { return Ok("not a key"); }
        case(&G, &d, &mul_g(&d), tr)
    });
    let t = nonzero(scalars_mid());
    let n = if run.thorough() { t.len() } else { 40 };
    run.sweep("symmetry", (n * n) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (a, b) = (&t[ix.take(n)], &t[ix.take(n)]);
        tr.note(|| format!("a={:?} b={:?}", a, b));
        let (ka, kb) = (sk(a), sk(b));
        let (qa, qb) = (PublicKey::from_secret_key(&ka), PublicKey::from_secret_key(&kb));
        let x = shared::<Tap>(&qb, &ka)?;
        let y = shared::<Tap>(&qa, &kb)?;
        ensure!(x == y, "parties disagree: {} and {}", hex(&x), hex(&y));
        same!(tr, hex(&x), hex(&tapped(&mul_g(&N.mul(a, b)))), "hashed bytes");
        ensure!(SharedSecret::<Tap>::new(&qb, &ka) == SharedSecret::<Tap>::new(&qa, &kb), "secrets differ");
        Ok("equal")
    });
    run.sweep("other-digests", (small.len() * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let d = generic("digest", 4)[ix.take(4)];
        let p = ix.of(&small);
        tr.note(|| format!("P={} d={:?}", pts(p), d));
        let w = p.mul(&d).ser33();
        let (q, k) = (pk(p), sk(&d));
        same!(tr, hex(&shared::<sha2::Sha512>(&q, &k)?), hex(&sha2::Sha512::digest(&w)), "SHA-512 secret");
        same!(tr, hex(&shared::<sha2::Sha224>(&q, &k)?), hex(&sha2::Sha224::digest(&w)), "SHA-224 secret");
        same!(tr, hex(&shared::<sha2::Sha384>(&q, &k)?), hex(&sha2::Sha384::digest(&w)), "SHA-384 secret");
        Ok("equal")
    });
    // the function below, with every representation of the point
    run.sweep("raw-entry-point", (small.len() * ds.len() * 16) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (kx, ky, d, p) = (ix.take(4), ix.take(4), ix.of(&ds), ix.of(&small));
        tr.note(|| format!("P={} d={:?} representation {} {}", pts(p), d, kx, ky));
        let got = libsecp256k1::ECMULT_CONTEXT.ecdh_raw::<Tap>(&aff_repr(p, kx, ky), &sc(d)).ok_or("no secret")?;
        same!(tr, hex(&got), hex(&tapped(&p.mul(d))), "hashed bytes");
        ensure!(libsecp256k1::ECMULT_CONTEXT.ecdh_raw::<Tap>(&aff_repr(p, kx, ky), &sc(&U256::ZERO)).is_none(), "secret for the zero scalar");
        Ok("equal")
    });
    let all = points(6, 4, 2);
    run.sweep("cleared-key", all.len() as u64, |i, tr| {
        let p = &all[i as usize];
        tr.note(|| format!("P={}", pts(p)));
        let mut k = sk(&generic("key", 1)[0]);
        k.clear();
        same!(tr, SharedSecret::<sha2::Sha256>::new(&pk(p), &k).err(), Some(Error::InvalidSecretKey), "ECDH with a cleared key");
        same!(tr, SharedSecret::<Tap>::new(&pk(p), &k).err(), Some(Error::InvalidSecretKey), "ECDH with a cleared key");
        Ok("refused")
    });
}
