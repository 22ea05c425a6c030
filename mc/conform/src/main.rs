//! Holds the reference model against an implementation that is neither ours nor the one under
//! check: the C libsecp256k1. Same alphabets as the checks.
use engine::*;
use refmodel::alpha::*;
use refmodel::ec::{gi, mul_g};
use refmodel::*;
use secp256k1::ecdh::SharedSecret;
use secp256k1::recovery::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey, Signature};

fn msg(m: &U256) -> Message { Message::from_slice(&m.be()).unwrap() }
fn c64(r: &U256, s: &U256) -> [u8; 64] { let mut o = [0; 64]; o[..32].copy_from_slice(&r.be()); o[32..].copy_from_slice(&s.be()); o }
fn key(p: &Pt) -> PublicKey { PublicKey::from_slice(&p.ser65()).unwrap() }
fn at(v: &[U256], ix: &mut Ix) -> U256 { *ix.of(v) }

fn main() {
    let run = Run::from_args();
    let c = Secp256k1::new();
    let tiny = scalars_tiny();
    let big = scalars_big();
    let raw = raw_values();
    // arithmetic against bit-by-bit arithmetic
    let some: Vec<U256> = raw.iter().cloned().step_by(9).collect();
    run.sweep("modular-arithmetic", (some.len() * 60) as u64, |i, tr| {
        let mut ix = Ix(i);
        let a = at(&some, &mut ix);
        let b = some[(ix.take(60) * 131 + i as usize) % some.len()];
        for m in [&N, &P] {
            let (a, b) = (m.red(&a), m.red(&b));
            same!(tr, m.mul(&a, &b), m.mul_slow(&a, &b), "mul");
            let w = a.mul_wide(&b);
            let (q, r) = U256::div_wide(&U256([w[4], w[5], w[6], w[7]]), &U256([w[0], w[1], w[2], w[3]]), &m.m);
            same!(tr, r, m.mul(&a, &b), "remainder of the long division");
            same!(tr, q.mul_lo(&m.m).add(&r), U256([w[0], w[1], w[2], w[3]]), "quotient");
            if !a.is_zero() { same!(tr, m.mul(&m.inv(&a), &a), U256::ONE, "inv"); }
            same!(tr, m.add(&m.sub(&a, &b), &b), a, "sub then add");
        }
        Ok("same")
    });
    run.sweep("multiplication-by-additions", big.len() as u64, |i, tr| {
        let k = &big[i as usize];
        let p = gi(1 + i as i64 % 7);
        same!(tr, p.mul(k), p.mul_slow(k), "mul and mul_slow");
        same!(tr, mul_g(k), G().mul_slow(k), "mul_g and mul_slow");
        Ok("same")
    });
    run.sweep("secret-keys", raw.len() as u64, |i, tr| {
        let v = &raw[i as usize];
        tr.note(|| format!("{:?}", v));
        let ok = !v.is_zero() && *v < N.m;
        let k = SecretKey::from_slice(&v.be());
        same!(tr, k.is_ok(), ok, "accepted");
        if let Ok(k) = k {
            let q = PublicKey::from_secret_key(&c, &k);
            same!(tr, q.serialize_uncompressed().to_vec(), mul_g(v).ser65().to_vec(), "public key");
            same!(tr, q.serialize().to_vec(), mul_g(v).ser33().to_vec(), "compressed");
        }
        Ok(if ok { "accepted" } else { "rejected" })
    });
    let mut xs = raw.clone();
    xs.extend(points(20, 3, 4).iter().map(|p| p.x()));
    run.sweep("compressed-keys", xs.len() as u64 * 2, |i, tr| {
        let (x, odd) = (&xs[i as usize / 2], i % 2 == 1);
        let want = if *x < P.m { Pt::lift(x, odd, 7) } else { None };
        let mut b = [2 + odd as u8; 33];
        b[1..].copy_from_slice(&x.be());
        let got = PublicKey::from_slice(&b).ok().map(|k| k.serialize_uncompressed().to_vec());
        same!(tr, got, want.map(|p| p.ser65().to_vec()), "parsed key");
        Ok(if want.is_some() { "on curve" } else { "rejected" })
    });
    let pts = points(6, 3, 3);
    run.sweep("tags", (pts.len() * 256 * 3) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (tag, flip) = (ix.take(256) as u8, ix.take(3));
        let p = ix.of(&pts);
        let mut b = p.ser65();
        b[0] = tag;
        if flip == 1 { b[64] ^= 1 }
        if flip == 2 { b[33..].copy_from_slice(&P.neg(&p.y()).be()) }
        let q = Pt::Aff(U256::from_be(&b[1..33]), U256::from_be(&b[33..]));
        let ok = q.y() < P.m && q.on_curve(7) && (tag == 4 || tag == 6 + q.y().is_odd() as u8);
        same!(tr, PublicKey::from_slice(&b).is_ok(), ok, "accepted");
        Ok(if ok { "accepted" } else { "rejected" })
    });
    run.sweep("signing", (big.len() * 8) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (k, j) = (at(&big, &mut ix), ix.take(8));
        if k.is_zero() { return Ok("-"); }
        let m = raw[(i as usize * 37 + j * 911) % raw.len()];
        let sk = SecretKey::from_slice(&k.be()).unwrap();
        if m >= N.m { return Ok("-"); } // the C library seeds the nonce with the unreduced message
        let ((r, s, id), _) = ecdsa::sign(&k, &m);
        let g = c.sign_recoverable(&msg(&m), &sk);
        let (gid, gb) = g.serialize_compact();
        same!(tr, (gid.to_i32(), gb.to_vec()), (id as i32, c64(&r, &s).to_vec()), "signature");
        Ok("same")
    });
    // verification and recovery over corner products and small multiples
    let mut cases: Vec<(U256, U256, U256, Pt)> = vec![];
    let corner: Vec<U256> = tiny.clone();
    for r in &corner { for s in &corner { for m in corner.iter().step_by(3) { for q in [gi(1), gi(-1), gi(2), mul_g(&tiny[tiny.len() - 1])] { cases.push((*r, *s, *m, q)); } } } }
    for d in 1..15i64 { for k in 1..15i64 { for m in 0..15i64 {
        let (du, ku, mu) = (N.i(d), N.i(k), N.i(m));
        let r = N.red(&gi(k).x());
        let s = N.mul(&N.inv(&ku), &N.add(&mu, &N.mul(&r, &du)));
        cases.push((r, s, mu, gi(d)));
        cases.push((r, N.neg(&s), mu, gi(d)));
        cases.push((r, s, N.add(&mu, &U256::ONE), gi(d)));
    } } }
    for p in special_points(6) {
        let r = N.red(&p.x());
        for t in &tiny { for m in tiny.iter().step_by(5) {
            if r.is_zero() || t.is_zero() { continue; }
            let q = p.mul(&N.mul(t, &N.inv(&r))).sub(&mul_g(&N.mul(m, &N.inv(&r))));
            if !q.is_inf() { cases.push((r, *t, *m, q)); }
        } }
    }
    run.sweep("verification", cases.len() as u64, |i, tr| {
        let (r, s, m, q) = &cases[i as usize];
        tr.note(|| format!("r={:?} s={:?} m={:?} Q={:?}", r, s, m, q));
        let want = ecdsa::verify(m, r, s, q);
        let mut g = Signature::from_compact(&c64(r, s)).map_err(|e| format!("{:?}", e))?;
        g.normalize_s(); // the C library only takes low s
        same!(tr, c.verify(&msg(m), &g, &key(q)).is_ok(), want, "verifies");
        if *s <= N.half() { same!(tr, g.serialize_compact().to_vec(), c64(r, s).to_vec(), "kept"); } else { same!(tr, g.serialize_compact().to_vec(), c64(r, &N.neg(s)).to_vec(), "negated"); }
        Ok(if want { "accept" } else { "reject" })
    });
    run.sweep("recovery", cases.len() as u64 * 4, |i, tr| {
        let (r, s, m, _) = &cases[i as usize / 4];
        let id = (i % 4) as u8;
        let want = ecdsa::recover(m, r, s, id);
        let g = RecoverableSignature::from_compact(&c64(r, s), RecoveryId::from_i32(id as i32).unwrap()).map_err(|e| format!("{:?}", e))?;
        same!(tr, c.recover(&msg(m), &g).ok().map(|k| k.serialize_uncompressed().to_vec()), want.map(|p| p.ser65().to_vec()), "recovered key");
        Ok(if want.is_some() { "key" } else { "error" })
    });
    run.sweep("compact-range", (raw.len() * 2) as u64, |i, tr| {
        let v = &raw[i as usize / 2];
        let b = if i % 2 == 0 { c64(v, &U256::ONE) } else { c64(&U256::ONE, v) };
        same!(tr, Signature::from_compact(&b).is_ok(), *v < N.m, "in range");
        Ok(if *v < N.m { "in range" } else { "overflow" })
    });
    run.sweep("ecdh", (pts.len() * big.len()) as u64 / 5, |i, tr| {
        let mut ix = Ix(i * 5);
        let p = *ix.of(&pts);
        let k = at(&big, &mut ix);
        if k.is_zero() { return Ok("-"); }
        let w = sha::sha256(&p.mul(&k).ser33());
        same!(tr, SharedSecret::new(&key(&p), &SecretKey::from_slice(&k.be()).unwrap())[..].to_vec(), w.to_vec(), "shared secret");
        Ok("same")
    });
    run.sweep("tweaks", (tiny.len() * big.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (d, t) = (at(&tiny, &mut ix), at(&big, &mut ix));
        if d.is_zero() { return Ok("-"); }
        let k = SecretKey::from_slice(&d.be()).unwrap();
        let q = PublicKey::from_secret_key(&c, &k);
        let sum = N.add(&d, &t);
        let mut x = k;
        let r = x.add_assign(&t.be());
        same!(tr, r.is_ok(), !sum.is_zero(), "key + tweak succeeds");
        if r.is_ok() { same!(tr, x[..].to_vec(), sum.be().to_vec(), "key + tweak"); }
        let mut y = q;
        let r = y.add_exp_assign(&c, &t.be());
        same!(tr, r.is_ok(), !sum.is_zero(), "point + tweak succeeds");
        if r.is_ok() { same!(tr, y.serialize_uncompressed().to_vec(), mul_g(&d).add(&mul_g(&t)).ser65().to_vec(), "point + tweak"); }
        let mut x = k;
        let r = x.mul_assign(&t.be());
        same!(tr, r.is_ok(), !t.is_zero(), "key * tweak succeeds");
        if r.is_ok() { same!(tr, x[..].to_vec(), N.mul(&d, &t).be().to_vec(), "key * tweak"); }
        let mut y = q;
        let r = y.mul_assign(&c, &t.be());
        same!(tr, r.is_ok(), !t.is_zero(), "point * tweak succeeds");
        if r.is_ok() { same!(tr, y.serialize_uncompressed().to_vec(), mul_g(&d).mul(&t).ser65().to_vec(), "point * tweak"); }
        Ok("same")
    });
    let ap: Vec<Pt> = [1i64, -1, 2, -2, 3, -3].iter().map(|k| gi(*k)).chain(pts.iter().rev().take(4).cloned()).collect();
    run.sweep("combination", (ap.len() as u64).pow(4), |i, tr| {
        let mut ix = Ix(i);
        let l: Vec<Pt> = (0..4).map(|_| *ix.of(&ap)).collect();
        for n in 1..=4 {
            let w = l[..n].iter().fold(Pt::Inf, |a, b| a.add(b));
            let ks: Vec<PublicKey> = l[..n].iter().map(key).collect();
            let got = PublicKey::combine_keys(&ks.iter().collect::<Vec<_>>()).ok().map(|k| k.serialize_uncompressed().to_vec());
            same!(tr, got, if w.is_inf() { None } else { Some(w.ser65().to_vec()) }, "sum");
        }
        Ok("same")
    });
    // DER, strict and lax
    let der_case = |b: &[u8], tr: &mut Tr| -> Res {
        tr.note(|| hex(b));
        let pair = |g: Signature| { let x = g.serialize_compact(); (U256::from_be(&x[..32]), U256::from_be(&x[32..])) };
        let (s, l) = (der::strict(b), der::lax(b));
        // the C library reads a number that is negative or longer than 32 bytes as zero; this crate refuses it
        let z = der::strict_zeroing(b);
        same!(tr, if b.is_empty() { None } else { Signature::from_der(b).ok().map(pair) }, z, "strict");
        ensure!(s == z || s.is_none(), "the two readings of strict DER differ: {:?} {:?}", s, z);
        // the lax parser answers zeros when either number overflows
        let l2 = l.map(|(r, s)| if overflow(b) { (U256::ZERO, U256::ZERO) } else { (r, s) });
        same!(tr, if b.is_empty() { None } else { Signature::from_der_lax(b).ok().map(pair) }, l2, "lax");
        Ok(match (s, l) { (Some(_), _) => "strict", (_, Some(_)) => "lax", _ => "neither" })
    };
    for (name, alpha, depth, prefix) in [
        ("der-trie", vec![0x00u8, 0x01, 0x02, 0x03, 0x04, 0x06, 0x80, 0x81, 0xff], 6usize, vec![0x30u8]),
        ("der-two-ints", vec![0x00, 0x01, 0x02, 0x7f, 0x80], 9, vec![0x30]),
        ("der-integer", vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0xff], 6, vec![0x30, 0x06, 0x02]),
        ("der-body", vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0xff], 8, vec![0x30, 0x08]),
        ("der-bytes", (0..=255).collect(), 2, vec![]),
    ] {
        for l in (if name == "der-body" { depth } else { 0 })..=depth {
            run.sweep(&format!("{}-{}", name, l), (alpha.len() as u64).pow(l as u32), |i, tr| {
                let mut ix = Ix(i);
                let mut b = prefix.clone();
                for _ in 0..l { b.push(*ix.of(&alpha)); }
                der_case(&b, tr)
            });
        }
    }
    let bases: Vec<Vec<u8>> = big.iter().step_by(150).flat_map(|v| [der::encode(v, &U256::ONE), der::encode(&generic("x", 1)[0], v)]).collect();
    run.sweep("der-edits", bases.len() as u64 * 74 * 256 * 2, |i, tr| {
        let mut ix = Ix(i);
        let (v, ins, p) = (ix.take(256) as u8, ix.take(2), ix.take(74));
        let mut b = ix.of(&bases).clone();
        if p >= b.len() { return Ok("-"); }
        if ins == 1 { b.insert(p, v) } else { b[p] = v }
        der_case(&b, tr)
    });
    run.sweep("der-long", 6 * 400 * 3, |i, tr| {
        let mut ix = Ix(i);
        let (kind, l, which) = (ix.take(6), ix.take(400), ix.take(3));
        let body = |n: usize| -> Vec<u8> { match kind { 0 => vec![0; n], 1 => vec![1; n], 2 => vec![0xff; n], 3 => [vec![0; n / 2], vec![0x90; n - n / 2]].concat(), 4 => [vec![0; n.saturating_sub(32)], vec![0x33; n.min(32)]].concat(), _ => [vec![0; n.saturating_sub(32)], vec![0xff; n.min(32)]].concat() } };
        let len = |n: usize| -> Vec<u8> { if n < 128 { vec![n as u8] } else if n < 256 { vec![0x81, n as u8] } else { vec![0x82, (n >> 8) as u8, n as u8] } };
        let int = |c: Vec<u8>| [vec![2], len(c.len()), c].concat();
        let b = match which { 0 => [int(body(l)), int(vec![7])].concat(), 1 => [int(vec![7]), int(body(l))].concat(), _ => [int(body(l)), int(body(l / 2))].concat() };
        der_case(&[vec![0x30], len(b.len()), b].concat(), tr)
    });
    run.finish()
}
#[allow(non_snake_case)]
fn G() -> Pt { refmodel::ec::G }
/// Whether one of the two integers of a lax input has a value of n or more.
fn overflow(b: &[u8]) -> bool {
    fn int(b: &[u8]) -> Option<(bool, &[u8])> {
        let (_, b) = b.split_first()?;
        let (&l, mut b) = b.split_first()?;
        let len = if l < 0x80 { l as usize } else { let k = (l & 0x7f) as usize; let v = b[..k].iter().fold(0usize, |a, x| a << 8 | *x as usize); b = &b[k..]; v };
        let (c, rest) = b.split_at(len);
        let z = c.iter().take_while(|x| **x == 0).count();
        Some((c.len() - z > 32 || U256::from_be(&c[z..]) >= N.m, rest))
    }
    fn both(b: &[u8]) -> Option<bool> {
        let l = b[1];
        let b = &b[2 + if l & 0x80 != 0 { (l & 0x7f) as usize } else { 0 }..];
        let (x, b) = int(b)?;
        let (y, _) = int(b)?;
        Some(x || y)
    }
    both(b).unwrap_or(false)
}
