//! C27: enumerated executions under an interpreter that reports every use of uninitialised memory,
//! every access outside an object and every other undefined behaviour (Miri). Prints a digest of
//! all results, which has to be the same in the compiled program. Arguments: the part to run; a second one for more of it.
use libsecp256k1::curve::*;
use libsecp256k1::*;
use std::convert::TryFrom;

/// FNV of everything observed.
struct H(u64, u64);
impl H {
    fn b(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } self.1 += 1; }
    fn n(&mut self, v: u64) { self.b(&v.to_le_bytes()) }
    fn r<T>(&mut self, r: Result<T, Error>, f: impl FnOnce(&mut H, T)) { match r { Ok(v) => f(self, v), Err(e) => self.n(1000 + e as u64) } }
    fn sg(&mut self, s: &Signature) { self.b(&s.serialize()) }
    fn pk(&mut self, q: &PublicKey) { self.b(&q.serialize()) }
    fn fe(&mut self, f: &Field) { let mut f = *f; f.normalize(); self.b(&f.b32()) }
    fn jac(&mut self, j: &Jacobian) { if j.is_infinity() { self.n(9) } else { let a = Affine::from_gej(j); self.fe(&a.x); self.fe(&a.y) } }
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
const Q: &str = "0462c0a046dacce86ddd0343c6d3c7c79c2208ba0d9c9cf24a6d046d21d21f90f76d83f6a6ff2df8664ec7b804ab1362cc95403e4374d1819e0840bd8a8817800d";
const S: &str = "4584a3b1b8038837488824b06dbd5e2273bfc61e766b7c207acae60fe37b85f95a11ed792887908da8f263ae526a0afdf530d09154c877acaaa2982e8f39ee4c";
fn key() -> PublicKey { PublicKey::parse_slice(&unhex(Q), None).unwrap() }
fn secret() -> SecretKey { SecretKey::parse(&[5; 32]).unwrap() }
fn message() -> Message { Message::parse(&[7; 32]) }
fn signature() -> Signature { Signature::parse_standard_slice(&unhex(S)).unwrap() }
/// Every string over `alphabet` of up to `len` symbols.
fn words(alphabet: &[u8], len: usize, f: &mut dyn FnMut(&[u8])) {
    let mut w = vec![];
    fn go(a: &[u8], left: usize, w: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
        f(w);
        if left == 0 { return; }
        for c in a { w.push(*c); go(a, left - 1, w, f); w.pop(); }
    }
    go(alphabet, len, &mut w, f)
}
fn scalars() -> Vec<Scalar> {
    let mut v = vec![];
    for p in [[0u32; 8], [1, 0, 0, 0, 0, 0, 0, 0], [u32::MAX, 0, 0, 0, u32::MAX, 0, 0, 0], [0xd0364140, 0xbfd25e8c, 0xaf48a03b, 0xbaaedce6, 0xfffffffe, u32::MAX, u32::MAX, u32::MAX], [0, 0, 0, 0, 0, 0, 0, 0x80000000], [0x89abcdef; 8], [0x76543210; 8]] { v.push(Scalar(p)); }
    v
}

fn main() {
    let part = std::env::args().nth(1).unwrap();
    let deep = std::env::args().nth(2).is_some();
    let mut h = H(0xcbf29ce484222325, 0);
    match part.as_str() {
        "slices" => {
            for n in 0..70 {
                for c in [0u8, 2, 4, 6, 0xff] {
                    let mut b = vec![c; n];
                    for k in 0..2 {
                        if k == 1 { if n == 0 { continue; } b[n - 1] ^= 1; }
                        h.r(SecretKey::parse_slice(&b), |h, k| h.b(&k.serialize()));
                        h.r(Message::parse_slice(&b), |h, k| h.b(&k.serialize()));
                        h.r(Signature::parse_standard_slice(&b), |h, k| h.sg(&k));
                        h.r(Signature::parse_overflowing_slice(&b), |h, k| h.sg(&k));
                        if ![33, 64, 65].contains(&n) { for f in [None, Some(PublicKeyFormat::Compressed), Some(PublicKeyFormat::Full), Some(PublicKeyFormat::Raw)] { h.r(PublicKey::parse_slice(&b, f), |h, k| h.pk(&k)); } }
                    }
                }
            }
            for i in 0..=255 { h.r(RecoveryId::parse(i), |h, k| h.n(k.serialize() as u64)); h.r(RecoveryId::parse_rpc(i), |h, k| { let x: u8 = k.into(); let y: i32 = k.into(); h.n(x as u64 + y as u64) }); }
            let q = unhex(Q);
            let mut c = [0u8; 33];
            c.copy_from_slice(&key().serialize_compressed());
            for t in [0u8, 2, 3, 4, 5, 6, 7] { let mut b = q.clone(); b[0] = t; h.r(PublicKey::parse_slice(&b, None), |h, k| h.pk(&k)); }
            for t in [2u8, 3, 4] { c[0] = t; h.r(PublicKey::parse_compressed(&c), |h, k| { h.pk(&k); h.b(&k.serialize_compressed()) }); }
            h.r(PublicKey::parse_slice(&q[1..], None), |h, k| h.pk(&k));
            let a: Affine = key().into();
            h.r(PublicKey::try_from(a), |h, k| h.pk(&k));
            h.r(PublicKey::try_from(Affine::default()), |h, k| h.pk(&k));
        }
        "der" => {
            words(&[0x30, 2, 0, 1, 0x80, 0x81, 0xff], 3, &mut |w| {
                for head in [&[][..], &[0x30], &[0x30, 6, 2, 1], &[0x30, 0x81]] {
                    let b: Vec<u8> = head.iter().chain(w).cloned().collect();
                    h.r(Signature::parse_der(&b), |h, s| h.sg(&s));
                    h.r(Signature::parse_der_lax(&b), |h, s| h.sg(&s));
                }
            });
            let good = signature().serialize_der();
            let mut s = signature();
            for v in scalars() { s.s = v; let d = s.serialize_der(); h.b(d.as_ref()); h.n(d.len() as u64); h.r(Signature::parse_der(d.as_ref()), |h, t| h.n((t == s) as u64)); }
            for n in 0..good.as_ref().len() { h.r(Signature::parse_der(&good.as_ref()[..n]), |h, s| h.sg(&s)); h.r(Signature::parse_der_lax(&good.as_ref()[..n]), |h, s| h.sg(&s)); }
            for v in [33usize, 34, 40, 127, 128, 200] { let mut b = vec![0x30, 0x80, 2, 0x81, v as u8]; b.resize(5 + v, 9); b.extend_from_slice(&[2, 1, 3]); h.r(Signature::parse_der_lax(&b), |h, s| h.sg(&s)); }
        }
        "cursor" => {
            words(if deep { &[0, 2, 0x81, 0xff] } else { &[2, 0x81, 0xff] }, if deep { 3 } else { 2 }, &mut |w| {
                for seq in 0..9 * 9 * 9u32 {
                    let mut c = util::Decoder::new(w);
                    let mut s = seq;
                    for _ in 0..3 {
                        match s % 9 {
                            0 => h.r(c.read(), |h, v| h.n(v as u64)), 1 => h.r(c.peek(1), |h, v| h.n(v as u64)), 2 => h.r(c.peek(usize::MAX), |h, v| h.n(v as u64)),
                            3 => h.r(c.peek_slice(2), |h, v| h.b(v)), 4 => h.r(c.peek_slice(usize::MAX), |h, v| h.b(v)), 5 => h.r(c.skip(2), |h, _| h.n(1)),
                            6 => h.r(c.read_len_lax(), |h, v| h.n(v as u64)), 7 => h.r(c.read_integer(), |h, v| h.b(&v.b32())), _ => h.r(c.read_integer_lax(), |h, v| h.b(&v.b32())),
                        }
                        h.n(c.remaining_len() as u64);
                        s /= 9;
                    }
                }
            });
        }
        "scalars" => {
            for a in scalars() {
                for b in scalars() {
                    let mut c = a; h.b(&(&a + &b).b32()); h.b(&(&a * &b).b32()); c += &b; c *= &b; h.b(&c.b32());
                }
                h.b(&(-a).b32()); h.b(&a.sqr().b32()); h.n(a.is_high() as u64 + 2 * a.is_even() as u64 + 4 * a.is_zero() as u64); h.n(a.bits(31 * 8, 8) as u64); h.n(a.bits_var(250, 6) as u64); h.n(a.bits_var(30, 6) as u64);
                let mut c = a; h.n(c.shr_int(3) as u64); c.cadd_bit(100, true); h.b(&c.b32()); h.b(format!("{:x}", a).as_bytes());
                let mut c = a; c.cond_neg_assign(subtle::Choice::from(1)); h.b(&c.b32()); c.clear(); h.b(&c.b32());
                h.r(SecretKey::try_from(a), |h, k| { h.b(format!("{:x}", k).as_bytes()); let mut t = secret(); h.r(t.tweak_add_assign(&k), |_, _| ()); h.r(t.tweak_mul_assign(&k), |_, _| ()); h.b(&t.serialize()); t.clear(); h.n(t.is_zero() as u64) });
            }
            h.b(&scalars()[5].inv().b32());
            h.b(&secret().inv().serialize());
            struct R(u8);
            impl rand::RngCore for R {
                fn next_u32(&mut self) -> u32 { 7 }
                fn next_u64(&mut self) -> u64 { 7 }
                fn fill_bytes(&mut self, b: &mut [u8]) { for x in b.iter_mut() { *x = if self.0 < 2 { 0xff } else { self.0 }; } self.0 += 1; }
                fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
            }
            h.b(&SecretKey::random(&mut R(0)).serialize());
            let mut s = signature(); s.s = -s.s; s.normalize_s(); h.sg(&s); s.normalize_s(); h.sg(&s);
        }
        "group" => {
            let q: Affine = key().into();
            let mut j = Jacobian::from_ge(&q);
            j.rescale(&Field::from_int(5));
            let mut nothing = j; nothing.set_infinity();
            let all = [j, j.neg(), Jacobian::from_ge(&AFFINE_G), nothing];
            for a in all.iter() {
                for b in all.iter() { h.jac(&a.add_var(b, None)); if !b.is_infinity() { let g = Affine::from_gej(b); h.jac(&a.add_ge(&g)); h.jac(&a.add_ge_var(&g, None)); let mut r = Jacobian::default(); r.add_zinv_var_in_place(a, &g, &Field::from_int(1)); h.jac(&r) } }
                h.jac(&a.double_var(None));
            }
            let (s, ok) = q.x.sqrt(); h.fe(&s); h.n(ok as u64); h.fe(&q.x.inv()); h.fe(&q.y.inv_var()); h.n(q.x.is_quad_var() as u64 + q.is_valid_var() as u64);
            let mut st: AffineStorage = q.into(); let g: AffineStorage = AFFINE_G.into(); for f in [false, true] { st.cmov(&g, f); let a: Affine = st.into(); h.fe(&a.x) }
            let mut f = q.x; f.cmov(&q.y, true); h.fe(&f); let mut t = [0u8; 32]; f.normalize(); f.fill_b32(&mut t); h.b(&t); h.n((f < q.x) as u64); f.clear(); h.fe(&f);
            let mut a = q; a.clear(); let mut b = j; b.clear(); h.n(a.is_infinity() as u64 + b.is_infinity() as u64);
            h.r(PublicKey::combine(&[key(), key(), PublicKey::parse_slice(&PublicKey::try_from(AFFINE_G).unwrap().serialize(), None).unwrap()]), |h, q| h.pk(&q));
            h.r(PublicKey::combine(&[]), |h, q| h.pk(&q));
        }
        "serde" => {
            let q = key();
            let j = serde_json::to_string(&q).unwrap();
            h.b(j.as_bytes());
            for t in [j.as_str(), "\"\"", "\"AAAA\"", "3", "\"AA=A\"", "[4]"] { h.n(serde_json::from_str::<PublicKey>(t).map_or(0, |x| 1 + (x == q) as u64)); }
            let w = bincode::serialize(&q).unwrap();
            for n in [w.len(), 8, 9, 40, 0] { h.n(bincode::deserialize::<PublicKey>(&w[..n]).map_or(0, |x| 1 + (x == q) as u64)); }
        }
        "public" => { h.pk(&PublicKey::from_secret_key(&secret())); let mut r = Jacobian::default(); ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, &Scalar::from_int(0)); h.jac(&r); ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, &scalars()[3]); h.jac(&r) }
        "sign" => { let (s, i) = sign(&message(), &secret()); h.sg(&s); h.n(i.serialize() as u64) }
        "verify" => { h.n(verify(&message(), &signature(), &key()) as u64); let mut s = signature(); s.r = Scalar::from_int(0); h.n(verify(&message(), &s, &key()) as u64); }
        "recover" => for i in 0..2 { h.r(recover(&message(), &signature(), &RecoveryId::parse(i).unwrap()), |h, q| h.pk(&q)); },
        "ecdh" => { h.r(SharedSecret::<sha2::Sha256>::new(&key(), &secret()), |h, s| h.b(s.as_ref())); let mut k = secret(); k.clear(); h.r(SharedSecret::<sha2::Sha256>::new(&key(), &k), |h, s| h.b(s.as_ref())); }
        "tweak" => { let mut q = key(); h.r(q.tweak_add_assign(&secret()), |_, _| ()); h.pk(&q); h.r(q.tweak_mul_assign(&secret()), |_, _| ()); h.pk(&q); }
        "multiply" => { let q: Affine = key().into(); let j = Jacobian::from_ge(&q); for (a, b) in [(0usize, 3usize), (3, 0), (5, 6)] { let mut r = Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r, &j, &scalars()[a], &scalars()[b]); h.jac(&r); } let mut r = Jacobian::default(); ECMULT_CONTEXT.ecmult_const(&mut r, &q, &scalars()[3]); h.jac(&r) }
        "generator-context" => { let c = ECMultGenContext::new_boxed(); h.b(&c.inspect_raw().iter().flatten().flat_map(|s| s.x.0.iter().chain(s.y.0.iter()).flat_map(|w| w.to_le_bytes())).collect::<Vec<u8>>()); }
        "verification-context" => { let c = ECMultContext::new_boxed(); h.b(&c.inspect_raw().iter().flat_map(|s| s.x.0.iter().chain(s.y.0.iter()).flat_map(|w| w.to_le_bytes())).collect::<Vec<u8>>()); }
        _ => panic!("no such part"),
    }
    println!("{} {:016x} {}", part, h.0, h.1);
}
