//! Public operations as closed closures over plain bytes: each builds its arguments, calls
//! one library function (plus the conversions needed to observe it) and records the result.
//! Nothing here calls the library before the closure runs, so a process is pristine until then.
#![allow(dead_code, unused_variables)]
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Jacobian, Scalar};
use libsecp256k1::*;
use refmodel::ec::{mul_g, Pt};
use refmodel::num::{N, P, U256};
use refmodel::sha::sha256;

/// What an operation returned, byte for byte.
#[derive(Default, Clone, PartialEq, Eq)]
pub struct Out(pub Vec<u8>);
impl Out {
    pub fn b(&mut self, b: &[u8]) { self.0.push(b'='); self.0.extend_from_slice(b); }
    pub fn n(&mut self, v: u64) { self.0.push(b'#'); self.0.extend_from_slice(&v.to_le_bytes()); }
    pub fn res<T>(&mut self, r: &Result<T, Error>, f: impl FnOnce(&mut Out, &T)) -> bool {
        match r { Ok(v) => { f(self, v); true } Err(e) => { self.err(*e); false } }
    }
    pub fn err(&mut self, e: Error) {
        self.0.push(b'!');
        self.0.push(match e { Error::InvalidSignature => 1, Error::InvalidPublicKey => 2, Error::InvalidSecretKey => 3, Error::InvalidRecoveryId => 4, Error::InvalidMessage => 5, Error::InvalidInputLength => 6, Error::TweakOutOfRange => 7, Error::InvalidAffine => 8 });
    }
    pub fn pk(&mut self, p: &PublicKey) { self.b(&p.serialize()); }
    pub fn sig(&mut self, s: &Signature) { self.b(&s.r.b32()); self.b(&s.s.b32()); }
    pub fn fe(&mut self, f: &Field) { let mut g = *f; g.normalize(); self.b(&g.b32()); }
    pub fn aff(&mut self, a: &Affine) { if a.is_infinity() { self.n(99) } else { self.fe(&a.x); self.fe(&a.y); } }
    pub fn jac(&mut self, j: &Jacobian) { if j.is_infinity() { self.n(99) } else { self.aff(&Affine::from_gej(j)) } }
}
/// The bytes of an object in memory (padding included, which nothing rewrites).
pub fn bytes_of<T>(v: &T) -> Vec<u8> {
    let p = std::hint::black_box(v as *const T as *const u8);
    (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}
/// Records that an argument passed by shared reference still has the same bytes.
macro_rules! kept {
    ($o:expr, [$($v:expr),*], $e:expr) => {{
        let before = [$(bytes_of(&$v)),*];
        let r = $e;
        let after = [$(bytes_of(&$v)),*];
        if before != after { $o.b(b"ARGUMENT CHANGED"); }
        r
    }};
}

pub type Op = Box<dyn Fn(&mut Out, &Cx) + Send + Sync>;
pub struct Named { pub name: String, pub f: Op, /// builds whole tables
    pub slow: bool }
/// Contexts for the flavours that take one; `None` under hist (the static ones are used).
pub struct Cx { pub v: Option<Box<ECMultContext>>, pub g: Option<Box<ECMultGenContext>> }
impl Cx { pub fn empty() -> Cx { Cx { v: None, g: None } } }

pub struct ListRng { pub d: Vec<Vec<u8>>, pub i: usize }
impl rand::RngCore for ListRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, o: &mut [u8]) { let s = self.d[self.i % self.d.len()].clone(); self.i += 1; for (k, x) in o.iter_mut().enumerate() { *x = s[k % s.len()]; } }
    fn try_fill_bytes(&mut self, o: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(o); Ok(()) }
}

pub fn gen(tag: &str) -> U256 { N.red(&U256::from_be(&sha256(tag.as_bytes()))) }
/// A few related values: same low half, same high half, negation.
pub fn family(tag: &str) -> Vec<U256> {
    let d = gen(tag);
    let e = gen(&format!("{} other", tag));
    let (l, h) = (U256::pow2(128).addi(-1), 128);
    let and = |a: &U256, m: &U256| U256([a.0[0] & m.0[0], a.0[1] & m.0[1], a.0[2] & m.0[2], a.0[3] & m.0[3]]);
    vec![d, N.neg(&d), N.red(&e.shr(h).shl(h).add(&and(&d, &l))), N.red(&d.shr(h).shl(h).add(&and(&e, &l))), N.add(&d, &U256::ONE)]
}
fn sc(v: &U256) -> Scalar { Scalar(v.u32s()) }
pub fn fe(b: &[u8; 32]) -> Field { let mut f = Field::default(); let _ = f.set_b32(b); f }
pub fn affine(p: &Pt) -> Affine { let mut a = Affine::default(); a.set_xy(&fe(&p.x().be()), &fe(&p.y().be())); a }
pub fn jacobian(p: &Pt, z: u64) -> Jacobian {
    let z = U256::from(z);
    let z2 = P.sqr(&z);
    Jacobian { x: fe(&P.mul(&p.x(), &z2).be()), y: fe(&P.mul(&p.y(), &P.mul(&z2, &z)).be()), z: fe(&z.be()), infinity: false }
}
fn der(r: &U256, s: &U256) -> Vec<u8> { refmodel::der::encode(r, s) }

/// One representative call of every kind of operation, with related and failing variants.
pub fn history_ops() -> Vec<Named> {
    let mut v: Vec<Named> = vec![];
    let mut add = |name: String, f: Op| v.push(Named { name, f, slow: false });
    let ds = family("history key");
    let ms = family("history message");
    let ps: Vec<Pt> = ds.iter().map(mul_g).collect();
    let sign = |d: &U256, m: &U256| refmodel::ecdsa::sign(d, m).0;
    // parsing
    for (n, b) in [("sk-ok", ds[0].be()), ("sk-zero", [0; 32]), ("sk-n", N.m.be()), ("sk-max", [0xff; 32])] {
        add(n.into(), Box::new(move |o, _| { let r = kept!(o, [b], SecretKey::parse(&b)); o.res(&r, |o, k| o.b(&k.serialize())); }));
    }
    let (p0, p1) = (ps[0], ps[1]);
    let bad_x = (1u64..).map(U256::from).find(|x| Pt::lift(x, false, 7).is_none()).unwrap();
    let mut full_bad = p0.ser65(); full_bad[64] ^= 1;
    let mut full_neg = p0.ser65(); full_neg[33..].copy_from_slice(&p1.y().be());
    let mut tag_bad = p0.ser65(); tag_bad[0] = 5;
    let mut c_bad = p0.ser33(); c_bad[1..].copy_from_slice(&bad_x.be());
    for (n, b) in [("pk-full", p0.ser65().to_vec()), ("pk-full-neg", full_neg.to_vec()), ("pk-full-bad-y", full_bad.to_vec()), ("pk-full-bad-tag", tag_bad.to_vec()), ("pk-comp", p0.ser33().to_vec()), ("pk-comp-neg", p1.ser33().to_vec()), ("pk-comp-bad", c_bad.to_vec()), ("pk-raw", p0.ser65()[1..].to_vec()), ("pk-short", vec![2; 20])] {
        add(n.into(), Box::new(move |o, _| { let r = PublicKey::parse_slice(&b, None); o.res(&r, |o, k| { o.pk(k); o.b(&k.serialize_compressed()) }); }));
    }
    let (r0, s0, id0) = sign(&ds[0], &ms[0]);
    let cat = |r: &U256, s: &U256| { let mut b = [0u8; 64]; b[..32].copy_from_slice(&r.be()); b[32..].copy_from_slice(&s.be()); b };
    for (n, b) in [("sig-ok", cat(&r0, &s0)), ("sig-high", cat(&r0, &N.neg(&s0))), ("sig-overflow", cat(&N.m.addi(3), &s0))] {
        add(n.into(), Box::new(move |o, _| {
            let r = Signature::parse_standard(&b);
            o.res(&r, |o, s| { o.sig(s); { let t = kept!(o, [*s], s.serialize()); o.b(&t) }; { let t = kept!(o, [*s], s.serialize_der()); o.b(t.as_ref()) }; let mut t = *s; t.normalize_s(); o.sig(&t) });
            let s = Signature::parse_overflowing(&b);
            o.sig(&s);
        }));
    }
    let d_ok = der(&r0, &s0);
    let mut d_lax = vec![0x30, 0x81]; d_lax.extend_from_slice(&d_ok[1..]);
    for (n, b) in [("der-ok", d_ok.clone()), ("der-long", d_lax), ("der-cut", d_ok[..d_ok.len() - 1].to_vec()), ("der-junk", vec![0x30, 6, 2, 1, 0x81, 2, 1, 1])] {
        add(n.into(), Box::new(move |o, _| {
            let r = Signature::parse_der(&b);
            o.res(&r, |o, s| o.sig(s));
            let r = Signature::parse_der_lax(&b);
            o.res(&r, |o, s| o.sig(s));
        }));
    }
    for i in [0u8, 3, 4, 27, 31] { add(format!("recid-{}", i), Box::new(move |o, _| { o.res(&RecoveryId::parse(i), |o, r| o.n(r.serialize() as u64)); o.res(&RecoveryId::parse_rpc(i), |o, r| o.n(r.serialize() as u64)); })); }
    let (b1, b2) = (ms[0].be(), [0xffu8; 32]);
    add("message".into(), Box::new(move |o, _| { o.b(&Message::parse(&b1).serialize()); o.b(&Message::parse(&b2).serialize()); let r = Message::parse_slice(&b2[..31]); o.res(&r, |_, _| ()); }));
    // keys
    #[cfg(feature = "static-context")]
    for (i, d) in ds.iter().enumerate() {
        let d = d.be();
        add(format!("pubkey-{}", i), Box::new(move |o, _| { let k = SecretKey::parse(&d).unwrap(); let q = kept!(o, [k], PublicKey::from_secret_key(&k)); o.pk(&q); o.b(&q.serialize_compressed()); }));
    }
    #[cfg(all(feature = "static-context", feature = "hmac"))]
    for (i, j) in [(0usize, 0usize), (0, 2), (0, 3), (0, 1), (2, 0), (3, 0), (1, 0), (4, 4)] {
        let (d, m) = (ds[i].be(), ms[j].be());
        add(format!("sign-{}-{}", i, j), Box::new(move |o, _| {
            let (k, m) = (SecretKey::parse(&d).unwrap(), Message::parse(&m));
            let (s, r) = kept!(o, [k, m], libsecp256k1::sign(&m, &k));
            o.sig(&s); o.n(r.serialize() as u64);
        }));
    }
    let nr = (1u64..).map(U256::from).find(|x| Pt::lift(x, false, 7).is_none()).unwrap();
    #[cfg(feature = "static-context")]
    for (n, p, m, r, s) in [("good", p0, ms[0], r0, s0), ("high", p0, ms[0], r0, N.neg(&s0)), ("other-message", p0, ms[2], r0, s0), ("other-half", p0, ms[3], r0, s0), ("negated-key", p1, ms[0], r0, s0), ("other-r", p0, ms[0], N.add(&r0, &U256::ONE), s0), ("zero", p0, ms[0], r0, U256::ZERO),
        ("other-key", ps[2], ms[0], r0, s0), ("infinity", p0, N.neg(&N.mul(&r0, &ds[0])), r0, s0)] {
        let pb = p.ser65();
        add(format!("verify-{}", n), Box::new(move |o, _| {
            let (q, mm, sg) = (PublicKey::parse(&pb).unwrap(), Message(sc(&m)), Signature { r: sc(&r), s: sc(&s) });
            let x = kept!(o, [q, mm, sg], libsecp256k1::verify(&mm, &sg, &q));
            o.n(x as u64);
        }));
    }
    #[cfg(feature = "static-context")]
    for (n, m, r, s, id) in [("good", ms[0], r0, s0, id0), ("other-id", ms[0], r0, s0, id0 ^ 1), ("overflow-id", ms[0], r0, s0, id0 | 2), ("other-message", ms[2], r0, s0, id0), ("no-point", ms[0], nr, s0, 0), ("zero", ms[0], U256::ZERO, s0, 0), ("second-x", ms[0], U256::from(3), s0, 2)] {
        add(format!("recover-{}", n), Box::new(move |o, _| {
            let (mm, sg, id) = (Message(sc(&m)), Signature { r: sc(&r), s: sc(&s) }, RecoveryId::parse(id).unwrap());
            let x = kept!(o, [mm, sg, id], libsecp256k1::recover(&mm, &sg, &id));
            o.res(&x, |o, q| o.pk(q));
        }));
    }
    #[cfg(feature = "static-context")]
    for (i, j) in [(0usize, 2usize), (1, 2), (2, 0), (0, 3), (4, 4)] {
        let (p, d) = (ps[i].ser65(), ds[j].be());
        add(format!("ecdh-{}-{}", i, j), Box::new(move |o, _| {
            let (q, k) = (PublicKey::parse(&p).unwrap(), SecretKey::parse(&d).unwrap());
            let s = kept!(o, [q, k], SharedSecret::<sha2::Sha256>::new(&q, &k));
            o.res(&s, |o, s| o.b(s.as_ref()));
            let s = SharedSecret::<sha2::Sha512>::new(&q, &k);
            o.res(&s, |o, s| o.b(s.as_ref()));
        }));
    }
    // tweaks
    for (n, t) in [("one", U256::ONE), ("cancel", N.neg(&ds[0])), ("generic", ds[2])] {
        let (d, tb, p) = (ds[0].be(), t.be(), p0.ser65());
        add(format!("sk-tweak-{}", n), Box::new(move |o, _| {
            let t = SecretKey::parse(&tb).unwrap();
            let mut k = SecretKey::parse(&d).unwrap();
            let r = kept!(o, [t], k.tweak_add_assign(&t)); o.res(&r, |_, _| ()); o.b(&k.serialize());
            let r = kept!(o, [t], k.tweak_mul_assign(&t)); o.res(&r, |_, _| ()); o.b(&k.serialize());
            { let t = kept!(o, [k], k.inv()); o.b(&t.serialize()) };
            k.clear(); o.b(&k.serialize());
        }));
        #[cfg(feature = "static-context")]
        add(format!("pk-tweak-{}", n), Box::new(move |o, _| {
            let t = SecretKey::parse(&tb).unwrap();
            let mut q = PublicKey::parse(&p).unwrap();
            let r = kept!(o, [t], q.tweak_add_assign(&t)); o.res(&r, |_, _| ()); o.pk(&q);
            let r = kept!(o, [t], q.tweak_mul_assign(&t)); o.res(&r, |_, _| ()); o.pk(&q);
        }));
        let _ = p;
    }
    for (n, l) in [("pair", vec![0usize, 2]), ("double", vec![0, 0]), ("cancel", vec![0, 1]), ("middle", vec![0, 1, 4]), ("empty", vec![])] {
        let l: Vec<[u8; 65]> = l.iter().map(|i| ps[*i].ser65()).collect();
        add(format!("combine-{}", n), Box::new(move |o, _| { let k: Vec<PublicKey> = l.iter().map(|b| PublicKey::parse(b).unwrap()).collect(); let r = PublicKey::combine(&k); o.res(&r, |o, q| o.pk(q)); }));
    }
    for (n, l) in [("first", vec![ds[0].be().to_vec()]), ("third", vec![vec![0; 32], vec![0xff; 32], ds[2].be().to_vec()])] {
        add(format!("random-{}", n), Box::new(move |o, _| { let mut g = ListRng { d: l.clone(), i: 0 }; o.b(&SecretKey::random(&mut g).serialize()); o.n(g.i as u64); }));
    }
    #[cfg(feature = "std")]
    {
        let b = p0.ser65();
        add("serde".into(), Box::new(move |o, _| {
            let q = PublicKey::parse(&b).unwrap();
            let j = serde_json::to_string(&q).unwrap();
            o.b(j.as_bytes());
            o.n(serde_json::from_str::<PublicKey>(&j).ok() .map_or(0, |x| 1 + (x == q) as u64));
            o.n(serde_json::from_str::<PublicKey>("\"AAAA\"").is_ok() as u64);
            let w = bincode::serialize(&q).unwrap();
            o.b(&w);
            o.n(bincode::deserialize::<PublicKey>(&w).ok().map_or(0, |x| 1 + (x == q) as u64));
        }));
    }
    // rejected in every way it can be
    #[cfg(feature = "std")]
    for (n, len) in [("compressed", 33usize), ("raw", 64), ("full", 65), ("other", 40)] {
        let good: Vec<u8> = match len { 33 => p0.ser33().to_vec(), 64 => p0.ser65()[1..].to_vec(), 65 => p0.ser65().to_vec(), k => p0.ser65()[..k].to_vec() };
        for (why, at) in [("tag", 0usize), ("coordinates", 7)] {
            let (good, mut bad) = (good.clone(), good.clone());
            if at == 0 { bad[0] = 9; } else { for b in &mut bad[1..9] { *b = 0xff; } bad[9] ^= 1; }
            add(format!("serde-{}-{}", n, why), Box::new(move |o, _| {
                for b in [&good, &bad] {
                    let t = refmodel::b64::encode(b);
                    let res = |o: &mut Out, r: Option<PublicKey>| match r { Some(q) => { o.n(1); o.pk(&q) } None => o.n(0) };
                    res(o, serde_json::from_str::<PublicKey>(&format!("\"{}\"", t)).ok());
                    res(o, serde_json::from_str::<PublicKey>(&format!("\"{}*\"", t)).ok());
                    res(o, serde_json::from_value::<PublicKey>(serde_json::Value::String(t.clone())).ok());
                    res(o, serde_json::from_str::<PublicKey>(&format!("{:?}", b)).ok());
                    let mut w = (b.len() as u64).to_le_bytes().to_vec();
                    w.extend_from_slice(b);
                    res(o, bincode::deserialize::<PublicKey>(&w).ok());
                    res(o, bincode::deserialize::<PublicKey>(&w[..w.len() - 1]).ok());
                }
            }));
        }
    }
    // slices, conversions and formatting
    for (n, l) in [("right", 0usize), ("short", 1), ("long", 2)] {
        let pad = |b: &[u8]| { let mut v = b.to_vec(); if l == 1 { v.pop(); } if l == 2 { v.push(0); } v };
        let (a, b, c) = (pad(&ds[0].be()), pad(&ms[0].be()), pad(&cat(&r0, &s0)));
        add(format!("slices-{}", n), Box::new(move |o, _| {
            let r = SecretKey::parse_slice(&a); o.res(&r, |o, k| { let t = kept!(o, [*k], k.serialize()); o.b(&t) });
            let r = Message::parse_slice(&b); o.res(&r, |o, m| { let t = kept!(o, [*m], m.serialize()); o.b(&t) });
            let r = Signature::parse_standard_slice(&c); o.res(&r, |o, s| o.sig(s));
            let r = Signature::parse_overflowing_slice(&c); o.res(&r, |o, s| o.sig(s));
        }));
    }
    {
        let (d, p, s64) = (ds[0].be(), p0.ser65(), cat(&r0, &s0));
        add("conversions".into(), Box::new(move |o, _| {
            let k = SecretKey::parse(&d).unwrap();
            o.b(format!("{:x}", k).as_bytes());
            { let t = kept!(o, [k], k.is_zero()); o.n(t as u64) };
            let s: Scalar = k.into();
            o.b(format!("{:x}", s).as_bytes());
            o.res(&SecretKey::try_from(s), |o, k| o.b(&k.serialize()));
            o.res(&SecretKey::try_from(Scalar::from_int(0)), |o, k| o.b(&k.serialize()));
            o.b(&SecretKey::default().serialize());
            let q = PublicKey::parse(&p).unwrap();
            let a: Affine = q.into();
            o.aff(&a);
            o.res(&PublicKey::try_from(a), |o, q| o.pk(q));
            o.res(&PublicKey::try_from(Affine::default()), |o, q| o.pk(q));
            let mut wrong = a; wrong.y += Field::from_int(1); wrong.y.normalize();
            o.res(&PublicKey::try_from(wrong), |o, q| o.pk(q));
            for f in [PublicKeyFormat::Compressed, PublicKeyFormat::Full, PublicKeyFormat::Raw] { o.res(&PublicKey::parse_slice(&p, Some(f)), |o, q| o.pk(q)); }
            let i = RecoveryId::parse(2).unwrap();
            let (x, y): (u8, i32) = (i.into(), i.into());
            o.n(x as u64); o.n(y as u64);
            let mut sg = Signature::parse_standard(&s64).unwrap();
            sg.s = -sg.s; sg.normalize_s(); o.sig(&sg); sg.normalize_s(); o.sig(&sg);
        }));
        let mut text = vec![0x30, 0x82, 0x01, 0x00, 2, 1, 5, 2, 0x81, 1, 9];
        text.extend_from_slice(&[7; 9]);
        add("cursor".into(), Box::new(move |o, _| {
            let mut c = util::Decoder::new(&text);
            o.res(&c.read_constructed_sequence(), |_, _| ()); o.res(&c.read_seq_len_lax(), |o, n| o.n(*n as u64));
            o.res(&c.peek(3), |o, n| o.n(*n as u64)); o.res(&c.peek_slice(4), |o, b| o.b(b));
            o.res(&c.read_integer(), |o, s| o.b(&s.b32())); o.res(&c.read_integer_lax(), |o, s| o.b(&s.b32()));
            o.n(c.remaining_len() as u64); o.res(&c.skip(8), |_, _| ()); o.res(&c.skip(8), |_, _| ());
            o.res(&c.read_len(), |o, n| o.n(*n as u64)); o.res(&c.read_len_lax(), |o, n| o.n(*n as u64)); o.n(c.remaining_len() as u64);
        }));
    }
    #[cfg(feature = "static-context")]
    {
        let (d, m, p) = (ds[0], ms[0], p0.ser65());
        add("contexts".into(), Box::new(move |o, _| {
            let (k, mm, q) = (SecretKey::parse(&d.be()).unwrap(), Message(sc(&m)), PublicKey::parse(&p).unwrap());
            o.pk(&PublicKey::from_secret_key_with_context(&k, &ECMULT_GEN_CONTEXT));
            let sg = Signature { r: sc(&r0), s: sc(&s0) };
            o.n(verify_with_context(&mm, &sg, &q, &ECMULT_CONTEXT) as u64);
            o.res(&recover_with_context(&mm, &sg, &RecoveryId::parse(id0).unwrap(), &ECMULT_CONTEXT), |o, q| o.pk(q));
            o.n(ECMULT_CONTEXT.verify_raw(&sg.r, &sg.s, &q.into(), &mm.0) as u64);
            o.res(&ECMULT_CONTEXT.recover_raw(&sg.r, &sg.s, id0, &mm.0), |o, a| o.aff(a));
            o.res(&ECMULT_GEN_CONTEXT.sign_raw(&sc(&d), &mm.0, &sc(&gen("history nonce"))), |o, (r, s, i)| { o.b(&r.b32()); o.b(&s.b32()); o.n(*i as u64) });
            o.res(&SharedSecret::<sha2::Sha256>::new_with_context(&q, &k, &ECMULT_CONTEXT), |o, s| o.b(s.as_ref()));
            let mut t = q;
            o.res(&t.tweak_add_assign_with_context(&k, &ECMULT_CONTEXT), |_, _| ()); o.pk(&t);
            o.res(&t.tweak_mul_assign_with_context(&k, &ECMULT_CONTEXT), |_, _| ()); o.pk(&t);
            let mut r = Jacobian::default();
            ECMULT_CONTEXT.ecmult_const(&mut r, &q.into(), &sc(&m)); o.jac(&r);
        }));
        #[cfg(feature = "hmac")]
        add("sign-contexts".into(), Box::new(move |o, _| {
            let (k, mm) = (SecretKey::parse(&d.be()).unwrap(), Message(sc(&m)));
            let (s, i) = sign_with_context(&mm, &k, &ECMULT_GEN_CONTEXT);
            o.sig(&s);
            o.n(i.serialize() as u64);
        }));
    }
    // the curve interface
    {
        let (a, b, q) = (p0.x().be(), p1.y().be(), ps[2]);
        add("field-rest".into(), Box::new(move |o, _| {
            let (x, y) = (fe(&a), fe(&b));
            { let t = kept!(o, [x, y], x + y); o.fe(&t) }; { let t = kept!(o, [x, y], &x * &y); o.fe(&t) }; { let t = kept!(o, [x], x.neg(1)); o.fe(&t) };
            let mut t = x; t.mul_int(5); o.n(t.normalizes_to_zero() as u64); o.n(t.normalizes_to_zero_var() as u64);
            let mut w = t; w.normalize_weak(); o.fe(&w); t.normalize_var(); o.b(&t.b32());
            o.n(x.is_zero() as u64); o.n(x.is_odd() as u64); o.n(x.cmp_var(&y) as i8 as u8 as u64); o.n(x.eq_var(&y) as u64); o.n((x == y) as u64);
            let mut c = x; c.cmov(&y, true); o.fe(&c); c.cmov(&x, false); o.fe(&c);
            let s: curve::FieldStorage = x.into(); o.n(s.0[0] as u64); o.fe(&s.into());
            o.fe(&Field::from_int(77)); c.clear(); o.fe(&c); o.n(c.set_b32(&[0xff; 32]) as u64);
        }));
        let (d, m) = (ds[0], ds[1]);
        add("scalar-rest".into(), Box::new(move |o, _| {
            let x = sc(&d);
            { let t = kept!(o, [x], x.bits(37, 5)); o.n(t as u64) }; { let t = kept!(o, [x], x.bits_var(30, 7)); o.n(t as u64) }; o.n(x.is_zero() as u64); o.n(x.is_one() as u64);
            let mut t = x; o.n(t.shr_int(9) as u64); o.b(&t.b32()); t.cadd_bit(17, true); o.b(&t.b32()); t.cadd_bit(18, false); o.b(&t.b32());
            t.cond_neg_assign(1.into()); o.b(&t.b32()); t.cond_neg_assign(0.into()); o.b(&t.b32());
            t += sc(&m); o.b(&t.b32()); t *= &x; o.b(&t.b32()); o.n(bool::from(t.set_b32(&[0xff; 32])) as u64); o.b(&t.b32()); t.clear(); o.b(&t.b32());
        }));
        add("group-rest".into(), Box::new(move |o, _| {
            let (a, g) = (jacobian(&p0, 7), affine(&q));
            { let t = kept!(o, [a], a.eq_x_var(&fe(&p0.x().be()))); o.n(t as u64) }; { let t = kept!(o, [a], a.has_quad_y_var()); o.n(t as u64) }; { let t = kept!(o, [a], a.neg()); o.jac(&t) };
            let mut t = a; t.rescale(&Field::from_int(5)); o.jac(&t); let t2 = t; t.double_nonzero_in_place(&t2, None); o.jac(&t);
            let mut zr = Field::default(); let u = a.add_ge_var(&g, Some(&mut zr)); o.jac(&u); o.fe(&zr);
            let mut t = a; let v = t.add_zinv_var(&g, &Field::from_int(1)); o.jac(&v);
            let mut f = Affine::default(); f.set_gej_var(&a); o.aff(&f); f.set_gej_zinv(&a, &a.z.inv()); o.aff(&f); o.n(f.set_xquad(&fe(&p0.x().be())) as u64); o.aff(&f);
            let mut st: curve::AffineStorage = g.into(); o.aff(&st.into()); st.cmov(&f.into(), true); o.aff(&st.into());
            let mut t = a; t.set_infinity(); o.jac(&t); f.clear(); o.n(f.is_infinity() as u64);
        }));
    }
    for (n, a) in [("square", U256::from(9)), ("non-square", P.m.addi(-1)), ("generic", p0.x()), ("zero", U256::ZERO)] {
        let b = a.be();
        add(format!("field-{}", n), Box::new(move |o, _| {
            let f = fe(&b);
            let (s, ok) = kept!(o, [f], f.sqrt());
            o.n(ok as u64); if ok { o.fe(&s); }
            { let t = kept!(o, [f], f.inv()); o.fe(&t) }; { let t = kept!(o, [f], f.inv_var()); o.fe(&t) }; o.n(f.is_quad_var() as u64); { let t = kept!(o, [f], f.sqr()); o.fe(&t) };
            let mut a = Affine::default();
            for odd in [false, true] { if a.set_xo_var(&f, odd) { o.aff(&a); o.n(a.is_valid_var() as u64); } else { o.n(7) } }
        }));
    }
    for (n, a) in [("generic", ds[0]), ("high", ds[1]), ("one", U256::ONE), ("zero", U256::ZERO)] {
        let b = ds[2];
        add(format!("scalar-{}", n), Box::new(move |o, _| {
            let (x, y) = (sc(&a), sc(&b));
            { let t = kept!(o, [x, y], &x + &y); o.b(&t.b32()) }; { let t = kept!(o, [x, y], &x * &y); o.b(&t.b32()) }; { let t = kept!(o, [x], -x); o.b(&t.b32()) }; { let t = kept!(o, [x], x.sqr()); o.b(&t.b32()) };
            o.b(&x.inv().b32()); o.b(&x.inv_var().b32()); o.n(x.is_high() as u64); o.n(x.is_even() as u64);
        }));
    }
    for (n, p, q) in [("distinct", p0, ps[2]), ("equal", p0, p0), ("opposite", p0, p1)] {
        add(format!("group-{}", n), Box::new(move |o, _| {
            let (a, b, g) = (jacobian(&p, 7), jacobian(&q, 11), affine(&q));
            { let t = kept!(o, [a, b], a.add_var(&b, None)); o.jac(&t) }; { let t = kept!(o, [a, g], a.add_ge(&g)); o.jac(&t) }; { let t = kept!(o, [a, g], a.add_ge_var(&g, None)); o.jac(&t) }; o.jac(&a.double_var(None)); o.aff(&g.neg());
        }));
    }
    #[cfg(feature = "static-context")]
    for (n, x, y) in [("both", ds[0], ms[0]), ("g-only", U256::ZERO, ms[0]), ("p-only", ds[0], U256::ZERO), ("none", U256::ZERO, U256::ZERO), ("cancel", U256::ONE, N.neg(&ds[0]))] {
        add(format!("ecmult-{}", n), Box::new(move |o, _| {
            let (a, x, y) = (jacobian(&p0, 5), sc(&x), sc(&y));
            let mut r = Jacobian::default();
            kept!(o, [a, x, y], ECMULT_CONTEXT.ecmult(&mut r, &a, &x, &y));
            o.jac(&r);
            let mut r = Jacobian::default();
            kept!(o, [y], ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, &y));
            o.jac(&r);
        }));
    }
    v.push(Named { name: "new-verify-context".into(), slow: true, f: Box::new(move |o, _| {
        let c = ECMultContext::new_boxed();
        let mut r = Jacobian::default();
        c.ecmult(&mut r, &jacobian(&p0, 5), &sc(&U256::from(77)), &sc(&U256::from(99)));
        o.jac(&r); o.b(&sha256(&bytes_of(c.inspect_raw())));
    }) });
    let d = ds[0];
    v.push(Named { name: "new-signing-context".into(), slow: true, f: Box::new(move |o, _| {
        let c = ECMultGenContext::new_boxed();
        let mut r = Jacobian::default();
        c.ecmult_gen(&mut r, &sc(&d));
        o.jac(&r); o.b(&sha256(&bytes_of(c.inspect_raw())));
    }) });
    v
}
