//! C24: one transcript of every available operation over fixed enumerated inputs. Built once
//! per feature combination and profile; check.py compares the transcripts.
//!
//!     probe --out FILE               all sections
//!     probe --explain SECTION INDEX  one case in words
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Jacobian, Scalar};
use libsecp256k1::*;
use purity::*;
use refmodel::alpha::*;
use refmodel::ec::{gi, mul_g, Pt};
use refmodel::num::{N, P, U256};
use refmodel::sha::sha256;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

type F = Box<dyn Fn(u64, &mut Out, &Cx) + Send + Sync>;
struct Section { name: String, n: u64, f: F }

struct Ix(u64);
impl Ix {
    fn take(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize }
    fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.take(v.len())] }
}
fn sc(v: &U256) -> Scalar { Scalar(v.u32s()) }
/// A secret key built without validation by the library (zero included).
fn key(v: &U256) -> Option<SecretKey> { SecretKey::parse(&v.be()).ok() }

/// The two flavours: explicit contexts, and the built-in ones where they exist.
#[derive(Clone, Copy, PartialEq)]
enum Fl { Ctx, #[allow(dead_code)] Plain }
fn flavours() -> Vec<(&'static str, Fl)> {
    let mut v = vec![("ctx", Fl::Ctx)];
    if cfg!(feature = "static-context") { v.push(("plain", Fl::Plain)); }
    v
}
fn vc<'a>(c: &'a Cx, f: Fl) -> &'a ECMultContext { match f { Fl::Ctx => c.v.as_ref().unwrap(), #[cfg(feature = "static-context")] Fl::Plain => &ECMULT_CONTEXT, #[cfg(not(feature = "static-context"))] Fl::Plain => unreachable!() } }
fn gc<'a>(c: &'a Cx, f: Fl) -> &'a ECMultGenContext { match f { Fl::Ctx => c.g.as_ref().unwrap(), #[cfg(feature = "static-context")] Fl::Plain => &ECMULT_GEN_CONTEXT, #[cfg(not(feature = "static-context"))] Fl::Plain => unreachable!() } }

fn pubkey(k: &SecretKey, c: &Cx, f: Fl) -> PublicKey {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return PublicKey::from_secret_key(k); }
    PublicKey::from_secret_key_with_context(k, gc(c, f))
}
#[cfg(feature = "hmac")]
fn do_sign(m: &Message, k: &SecretKey, c: &Cx, f: Fl) -> (Signature, RecoveryId) {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return sign(m, k); }
    sign_with_context(m, k, gc(c, f))
}
fn do_verify(m: &Message, s: &Signature, q: &PublicKey, c: &Cx, f: Fl) -> bool {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return verify(m, s, q); }
    verify_with_context(m, s, q, vc(c, f))
}
fn do_recover(m: &Message, s: &Signature, i: &RecoveryId, c: &Cx, f: Fl) -> Result<PublicKey, Error> {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return recover(m, s, i); }
    recover_with_context(m, s, i, vc(c, f))
}
fn do_ecdh<D: digest_trait::D>(q: &PublicKey, k: &SecretKey, c: &Cx, f: Fl) -> Result<Vec<u8>, Error> {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return SharedSecret::<D>::new(q, k).map(|s| s.as_ref().to_vec()); }
    SharedSecret::<D>::new_with_context(q, k, vc(c, f)).map(|s| s.as_ref().to_vec())
}
mod digest_trait { pub trait D: sha2::Digest + Default {} impl<T: sha2::Digest + Default> D for T {} }
fn tw_add(q: &mut PublicKey, t: &SecretKey, c: &Cx, f: Fl) -> Result<(), Error> {
    let _ = f;
    // the built-in flavour has no feature gate of its own name
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return q.tweak_add_assign(t); }
    q.tweak_add_assign_with_context(t, vc(c, f))
}
fn tw_mul(q: &mut PublicKey, t: &SecretKey, c: &Cx, f: Fl) -> Result<(), Error> {
    #[cfg(feature = "static-context")]
    if f == Fl::Plain { return q.tweak_mul_assign(t); }
    q.tweak_mul_assign_with_context(t, vc(c, f))
}

fn sections() -> Vec<Section> {
    let mut v: Vec<Section> = vec![];
    macro_rules! sec { ($name:expr, $n:expr, $f:expr) => { v.push(Section { name: $name.to_string(), n: $n as u64, f: Box::new($f) }) } }
    let tiny = scalars_tiny();
    let deep = std::env::var("PROBE_DEEP").is_ok();
    let mid = if deep { scalars_big().into_iter().step_by(7).collect() } else { scalars_mid() };
    let big = scalars_big();
    let raws = raw_values();
    let pts = if deep { points(30, 20, 8) } else { points(12, 6, 3) };
    // ---- bytes in, objects out
    let r = raws.clone();
    sec!("secret-key-parse", r.len(), move |i, o, _| { let b = r[i as usize].be(); o.res(&SecretKey::parse(&b), |o, k| { o.b(&k.serialize()); o.n(k.is_zero() as u64); o.b(format!("{:x}", k).as_bytes()) }); o.b(&Message::parse(&b).serialize()); let mut f = Field::default(); o.n(f.set_b32(&b) as u64); o.fe(&f); });
    sec!("slices-of-every-length", 200 * 3, move |i, o, _| {
        let b = vec![[2u8, 4, 0x30][(i % 3) as usize]; (i / 3) as usize];
        o.res(&SecretKey::parse_slice(&b), |o, k| o.b(&k.serialize()));
        o.res(&Message::parse_slice(&b), |o, k| o.b(&k.serialize()));
        for f in [None, Some(PublicKeyFormat::Compressed), Some(PublicKeyFormat::Full), Some(PublicKeyFormat::Raw)] { o.res(&PublicKey::parse_slice(&b, f), |o, k| o.pk(k)); }
        o.res(&Signature::parse_standard_slice(&b), |o, k| o.sig(k));
        o.res(&Signature::parse_overflowing_slice(&b), |o, k| o.sig(k));
        o.res(&Signature::parse_der(&b), |o, k| o.sig(k));
        o.res(&Signature::parse_der_lax(&b), |o, k| o.sig(k));
    });
    sec!("recovery-id", 256, |i, o, _| { o.res(&RecoveryId::parse(i as u8), |o, r| o.n(r.serialize() as u64)); o.res(&RecoveryId::parse_rpc(i as u8), |o, r| o.n(r.serialize() as u64)); });
    let p = pts.clone();
    sec!("public-key-forms", p.len() * 256, move |i, o, _| {
        let q = &p[(i / 256) as usize];
        let t = i as u8;
        let mut b = q.ser65(); b[0] = t;
        o.res(&PublicKey::parse(&b), |o, k| o.pk(k));
        let mut b = q.ser33(); b[0] = t;
        o.res(&PublicKey::parse_compressed(&b), |o, k| o.b(&k.serialize_compressed()));
        let mut b = q.ser65(); b[64] ^= t; b[40] ^= t;
        o.res(&PublicKey::parse_slice(&b[1..], None), |o, k| o.pk(k));
    });
    let r = raws.clone();
    sec!("public-key-x", r.len() * 2, move |i, o, _| { let mut b = [2 + (i & 1) as u8; 33]; b[1..].copy_from_slice(&r[(i / 2) as usize].be()); o.res(&PublicKey::parse_compressed(&b), |o, k| { o.pk(k); let a: Affine = (*k).into(); o.n(a.is_valid_var() as u64) }); });
    let base: Vec<Vec<u8>> = { let (r, s) = (generic("probe r", 1)[0], generic("probe s", 1)[0]); vec![refmodel::der::encode(&r, &s), refmodel::der::encode(&U256::ONE, &N.m.addi(-1)), refmodel::der::encode(&U256::pow2(255), &U256::from(0x80))] };
    let lens: Vec<usize> = base.iter().map(|b| b.len()).collect();
    let tot: usize = lens.iter().sum::<usize>() * 256;
    sec!("der-single-byte-edits", tot, move |i, o, _| {
        let (mut j, mut k) = (i as usize, 0);
        while j >= lens[k] * 256 { j -= lens[k] * 256; k += 1; }
        let b = byte_variants(&base[k], j as u64);
        o.res(&Signature::parse_der(&b), |o, s| { o.sig(s); o.b(s.serialize_der().as_ref()) });
        o.res(&Signature::parse_der_lax(&b), |o, s| o.sig(s));
    });
    let al = [0u8, 1, 2, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xff];
    sec!("der-strings", al.len().pow(5), move |i, o, _| {
        let mut x = Ix(i);
        let t: Vec<u8> = (0..5).map(|_| *x.of(&al)).collect();
        for b in [[&[0x30, t[0], 2][..], &t[1..]].concat(), [&[0x30, 6, 2, 1][..], &t[..4]].concat(), [&[0x30, 8, 2, t[0]][..], &t[1..], &[2, 1, 1]].concat()] {
            o.res(&Signature::parse_der(&b), |o, s| o.sig(s));
            o.res(&Signature::parse_der_lax(&b), |o, s| o.sig(s));
        }
    });
    let r: Vec<U256> = raws.iter().cloned().step_by(if deep { 5 } else { 29 }).collect();
    let t = tiny.clone();
    sec!("signature-64", r.len() * t.len(), move |i, o, _| {
        let mut x = Ix(i);
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&x.of(&r).be()); b[32..].copy_from_slice(&x.of(&t).be());
        for k in 0..2 {
            o.res(&Signature::parse_standard(&b), |o, s| { o.sig(s); o.b(&s.serialize()); let mut u = *s; u.normalize_s(); o.sig(&u); });
            o.sig(&Signature::parse_overflowing(&b));
            if k == 0 { let mut c = b; c[..32].copy_from_slice(&b[32..]); c[32..].copy_from_slice(&b[..32]); b = c; }
        }
    });
    // ---- operations with contexts
    for (fl, f) in flavours() {
        let b = nonzero(mid.clone());
        sec!(format!("public-key-{}", fl), b.len(), move |i, o, c| o.pk(&pubkey(&key(&b[i as usize]).unwrap(), c, f)));
        #[cfg(feature = "hmac")]
        {
            let (k, m) = (nonzero(mid.clone()), mid.clone());
            sec!(format!("sign-{}", fl), k.len() * m.len().min(24), move |i, o, c| {
                let mut x = Ix(i);
                let k = x.of(&k);
                let j = x.0 as usize;
                let m = if j < 12 { m[j] } else { m[(j * 7 + 5) % m.len()] };
                let (s, r) = do_sign(&Message(sc(&m)), &key(k).unwrap(), c, f);
                o.sig(&s); o.n(r.serialize() as u64);
            });
        }
        let t = nonzero(tiny.clone());
        let m: Vec<U256> = tiny.iter().cloned().step_by(if deep { 1 } else { 3 }).collect();
        let sgn: Vec<U256> = tiny.iter().cloned().step_by(if deep { 1 } else { 3 }).collect();
        sec!(format!("verify-and-recover-{}", fl), t.len() * m.len() * sgn.len(), move |i, o, c| {
            let mut x = Ix(i);
            let (d, m, s) = (x.of(&t), x.of(&m), x.of(&sgn));
            // a signature valid for (d, m) when s is one of its multiples, and junk otherwise
            let (r0, s0, id0) = refmodel::ecdsa::sign(d, m).0;
            let q = PublicKey::parse(&mul_g(d).ser65());
            let mm = Message(sc(m));
            for sg in [Signature { r: sc(&r0), s: sc(&N.mul(&s0, s)) }, Signature { r: sc(&N.mul(&r0, s)), s: sc(&s0) }, Signature { r: sc(s), s: sc(m) }] {
                o.res(&q, |o, q| o.n(do_verify(&mm, &sg, q, c, f) as u64));
                for id in [id0, id0 ^ 1, id0 ^ 2] { o.res(&do_recover(&mm, &sg, &RecoveryId::parse(id).unwrap(), c, f), |o, q| o.pk(q)); }
            }
        });
        // a chosen nonce point with x >= n
        let xs: Vec<Pt> = (0..400).filter_map(|k| Pt::lift(&N.m.addi(k), false, 7)).take(4).collect();
        sec!(format!("large-x-{}", fl), xs.len() * 64, move |i, o, c| {
            let mut x = Ix(i);
            let (y, id, odd) = (x.take(16) as u64, x.take(4) as u8, 0);
            let _ = odd;
            let p = &xs[x.take(xs.len())];
            let r = N.red(&p.x());
            let (m, s) = (N.red(&U256::from(y * y + 3)), N.red(&U256::from(y + 2).mul_lo(&U256::pow2(200))));
            let sg = Signature { r: sc(&r), s: sc(&s) };
            let q = do_recover(&Message(sc(&m)), &sg, &RecoveryId::parse(id).unwrap(), c, f);
            o.res(&q, |o, q| { o.pk(q); o.n(do_verify(&Message(sc(&m)), &sg, q, c, f) as u64) });
        });
        let (pp, ks) = (pts.clone(), if deep { mid.clone() } else { tiny.clone() });
        sec!(format!("ecdh-{}", fl), pp.len() * ks.len(), move |i, o, c| {
            let mut x = Ix(i);
            let q = PublicKey::parse(&x.of(&pp).ser65()).unwrap();
            if let Some(k) = key(x.of(&ks)) {
                o.res(&do_ecdh::<sha2::Sha256>(&q, &k, c, f), |o, s| o.b(s));
                if i % 4 == 0 { o.res(&do_ecdh::<sha2::Sha512>(&q, &k, c, f), |o, s| o.b(s)); }
            } else {
                let mut k = SecretKey::default(); k.clear();
                o.res(&do_ecdh::<sha2::Sha256>(&q, &k, c, f), |o, s| o.b(s));
            }
        });
        let (pp, ks) = (points(6, 2, 1), nonzero(if deep { mid.clone() } else { mid.iter().cloned().step_by(3).collect() }));
        sec!(format!("public-tweaks-{}", fl), pp.len() * ks.len(), move |i, o, c| {
            let mut x = Ix(i);
            let b = x.of(&pp).ser65();
            let k = key(x.of(&ks)).unwrap();
            let mut q = PublicKey::parse(&b).unwrap();
            o.res(&tw_add(&mut q, &k, c, f), |_, _| ()); o.pk(&q);
            o.res(&tw_mul(&mut q, &k, c, f), |_, _| ()); o.pk(&q);
            let mut z = SecretKey::default(); z.clear();
            o.res(&tw_add(&mut q, &z, c, f), |_, _| ()); o.res(&tw_mul(&mut q, &z, c, f), |_, _| ()); o.pk(&q);
        });
        let (a, g) = (tiny.clone(), tiny.clone());
        sec!(format!("multiplication-{}", fl), a.len() * g.len() * 6, move |i, o, c| {
            let mut x = Ix(i);
            let (a, g, k) = (x.of(&a), x.of(&g), [1i64, -1, 2, 3, -7, 1000][x.take(6)]);
            let p = gi(k);
            let mut r = Jacobian::default();
            vc(c, f).ecmult(&mut r, &jacobian(&p, 3), &sc(a), &sc(g)); o.jac(&r);
            if !a.is_zero() { let mut r = Jacobian::default(); vc(c, f).ecmult_const(&mut r, &affine(&p), &sc(a)); o.jac(&r); }
            let mut r = Jacobian::default();
            gc(c, f).ecmult_gen(&mut r, &sc(g)); o.jac(&r);
        });
        let k = nonzero(tiny.clone());
        let m: Vec<U256> = tiny.iter().cloned().step_by(if deep { 1 } else { 3 }).collect();
        sec!(format!("raw-signing-{}", fl), k.len() * k.len() * m.len(), move |i, o, c| {
            let mut x = Ix(i);
            let (d, n, m) = (x.of(&k), x.of(&k), x.of(&m));
            let r = gc(c, f).sign_raw(&sc(d), &sc(m), &sc(n));
            o.res(&r, |o, (r, s, i)| { o.b(&r.b32()); o.b(&s.b32()); o.n(*i as u64) });
        });
    }
    // ---- context tables
    sec!("verification-table", 16384, |i, o, c| { let a: Affine = c.v.as_ref().unwrap().inspect_raw()[i as usize].into(); o.aff(&a); #[cfg(feature = "static-context")] { let b: Affine = ECMULT_CONTEXT.inspect_raw()[i as usize].into(); if uneq(&a, &b) { o.b(b"STATIC ENTRY DIFFERS") } } });
    sec!("signing-table", 1024, |i, o, c| { let (j, k) = (i as usize / 16, i as usize % 16); let a: Affine = c.g.as_ref().unwrap().inspect_raw()[j][k].into(); o.aff(&a); #[cfg(feature = "static-context")] { let b: Affine = ECMULT_GEN_CONTEXT.inspect_raw()[j][k].into(); if uneq(&a, &b) { o.b(b"STATIC ENTRY DIFFERS") } } });
    // ---- operations without contexts
    let ks = nonzero(mid.clone());
    sec!("secret-tweaks", ks.len() * ks.len(), move |i, o, _| {
        let mut x = Ix(i);
        let (mut k, t) = (key(x.of(&ks)).unwrap(), key(x.of(&ks)).unwrap());
        o.res(&k.tweak_add_assign(&t), |_, _| ()); o.b(&k.serialize());
        o.res(&k.tweak_mul_assign(&t), |_, _| ()); o.b(&k.serialize());
        if i % 16 == 0 { o.b(&k.inv().serialize()); }
    });
    let pp = if deep { points(8, 2, 1) } else { points(4, 1, 1) };
    let l = pp.len() + 1;
    sec!("combine", l * l * l, move |i, o, _| {
        let mut x = Ix(i);
        let ks: Vec<PublicKey> = (0..3).filter_map(|_| pp.get(x.take(l)).map(|p| PublicKey::parse(&p.ser65()).unwrap())).collect();
        o.res(&PublicKey::combine(&ks), |o, q| o.pk(q));
    });
    sec!("random", 343, |i, o, _| {
        let mut x = Ix(i);
        let bl: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], N.m.be().to_vec(), N.m.addi(-1).be().to_vec(), N.m.addi(1).be().to_vec(), U256::ONE.be().to_vec(), vec![0x55; 32]];
        let mut d: Vec<Vec<u8>> = (0..3).map(|_| x.of(&bl).clone()).collect();
        d.push(vec![0x11; 32]);
        let mut g = ListRng { d, i: 0 };
        o.b(&SecretKey::random(&mut g).serialize()); o.n(g.i as u64);
    });
    let b: Vec<U256> = big.iter().cloned().step_by(if deep { 3 } else { 7 }).collect();
    let m = mid.clone();
    sec!("scalars", b.len() * 30, move |i, o, _| {
        let mut x = Ix(i);
        let (a, j) = (x.of(&b), x.take(30));
        let (p, q) = (sc(a), sc(&m[j * (m.len() / 31)]));
        o.b(&(&p + &q).b32()); o.b(&(&p * &q).b32()); o.b(&(-&p).b32()); o.b(&p.sqr().b32());
        o.n(p.is_high() as u64); o.n(p.is_zero() as u64); o.n(p.bits(8 * j, 8) as u64);
        let mut c = p; c.cond_neg_assign((j as u8 & 1).into()); o.b(&c.b32());
        let mut c = p; o.n(c.shr_int(j % 15 + 1) as u64); o.b(&c.b32());
        if j == 0 { o.b(&p.inv().b32()); o.b(&p.inv_var().b32()); }
    });
    let fs: Vec<U256> = below(raws.iter().cloned().step_by(3).collect(), &P.m);
    sec!("fields", fs.len() * 8, move |i, o, _| {
        let mut x = Ix(i);
        let (a, j) = (x.of(&fs), x.take(8));
        let (f, mut g) = (fe(&a.be()), fe(&fs[j * 37].be()));
        o.fe(&(f + g)); o.fe(&(f * g)); o.fe(&f.sqr()); o.fe(&f.neg(1));
        let mut w = f.neg(1); w += f; w.mul_int(7); o.n(w.normalizes_to_zero() as u64); w += g; let mut u = w; u.normalize_weak(); o.fe(&u); w.normalize_var(); o.b(&w.b32());
        o.n(f.eq_var(&g) as u64); o.n(f.cmp_var(&g) as i64 as u64); o.n(f.is_odd() as u64);
        g.cmov(&f, j & 1 == 1); o.fe(&g);
        if j == 0 { o.fe(&f.inv()); let (s, k) = f.sqrt(); o.n(k as u64); if k { o.fe(&s); } }
    });
    let pp = points(5, 2, 2);
    sec!("group", pp.len() * pp.len() * 2, move |i, o, _| {
        let mut x = Ix(i);
        let (p, q, z) = (x.of(&pp), x.of(&pp), [1u64, 99][x.take(2)]);
        let (a, b, g) = (jacobian(p, z), jacobian(q, 13), affine(q));
        o.jac(&a.add_var(&b, None)); o.jac(&a.add_ge(&g)); o.jac(&a.add_ge_var(&g, None)); o.jac(&a.double_var(None)); o.jac(&a.neg()); o.n(a.has_quad_y_var() as u64); o.n(a.eq_x_var(&g.x) as u64);
    });
    // ---- the operations of the history check
    for op in history_ops() { let f = op.f; v.push(Section { name: format!("op {}", op.name), n: 1, f: Box::new(move |_, o, c| f(o, c)) }); }
    #[cfg(feature = "std")]
    {
        let pp = points(12, 4, 2);
        sec!("serde", pp.len(), move |i, o, _| {
            let q = PublicKey::parse(&pp[i as usize].ser65()).unwrap();
            let j = serde_json::to_string(&q).unwrap(); o.b(j.as_bytes());
            o.n((serde_json::from_str::<PublicKey>(&j).unwrap() == q) as u64);
            let w = bincode::serialize(&q).unwrap(); o.b(&w);
            o.n((bincode::deserialize::<PublicKey>(&w).unwrap() == q) as u64);
        });
    }
    v
}
#[allow(dead_code)]
fn uneq(a: &Affine, b: &Affine) -> bool { let (mut x, mut y) = (Out::default(), Out::default()); x.aff(a); y.aff(b); x != y }

fn case(s: &Section, i: u64, c: &Cx) -> Vec<u8> {
    let mut o = Out::default();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(i, &mut o, c))).is_err() { o.b(b"PANIC"); }
    o.0
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
fn work() {
    let a: Vec<String> = std::env::args().collect();
    let cx = Cx { v: Some(ECMultContext::new_boxed()), g: Some(ECMultGenContext::new_boxed()) };
    let secs = sections();
    if a[1] == "--explain" {
        let s = secs.iter().find(|s| s.name == a[2]).unwrap();
        let r = case(s, a[3].parse().unwrap(), &cx);
        println!("{}", r.iter().map(|b| format!("{:02x}", b)).collect::<String>());
        if r.ends_with(b"PANIC") { println!("(panics)"); }
        return;
    }
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(2);
    let mut out = vec![];
    for s in &secs {
        let t = std::time::Instant::now();
        let next = AtomicU64::new(0);
        let res: Mutex<Vec<(u64, [u8; 8])>> = Mutex::new(vec![]);
        std::thread::scope(|sc| for _ in 0..threads {
            sc.spawn(|| {
                let mut loc = vec![];
                loop {
                    let a = next.fetch_add(64, SeqCst);
                    if a >= s.n { break; }
                    for i in a..(a + 64).min(s.n) { loc.push((i, sha256(&case(s, i, &cx))[..8].try_into().unwrap())); }
                }
                res.lock().unwrap().extend(loc);
            });
        });
        let mut r = res.into_inner().unwrap();
        r.sort();
        if std::env::var("MC_VERBOSE").is_ok() { println!("{:<40} {:>8} {:.2}s", s.name, s.n, t.elapsed().as_secs_f64()); }
        out.extend((s.name.len() as u32).to_le_bytes());
        out.extend(s.name.as_bytes());
        out.extend(s.n.to_le_bytes());
        for x in r { out.extend(x.1); }
    }
    std::fs::write(&a[2], out).unwrap();
}
