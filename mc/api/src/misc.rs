//! C20 random keys, C21 serde, C23 clearing and hex.
use common::*;
use engine::*;
use libsecp256k1::curve::{Affine, Field, Jacobian, Scalar};
use libsecp256k1::{PublicKey, PublicKeyFormat, SecretKey};
use rand::RngCore;
use serde::de::{self, Visitor};
use std::cell::Cell;
use std::convert::TryFrom;

/// Hands out a scripted byte stream.
struct Script<'a> { data: &'a [u8], at: usize, over: bool }
impl<'a> RngCore for Script<'a> {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d { if self.at >= self.data.len() { self.over = true; if self.at > self.data.len() + 100_000 { panic!("draws without end"); } *x = 1; } else { *x = self.data[self.at]; } self.at += 1; }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn random_case(blocks: &[[u8; 32]], tr: &mut Tr) -> Res {
    tr.note(|| format!("generator answers {}", blocks.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    let data: Vec<u8> = blocks.concat();
    let mut g = Script { data: &data, at: 0, over: false };
    let k = SecretKey::random(&mut g);
    let i = blocks.iter().position(|b| { let v = U256::from_be(b); !v.is_zero() && v < N.m }).expect("script has a valid block");
    same!(tr, hex(&k.serialize()), hex(&blocks[i]), "random key");
    same!(tr, g.at, 32 * (i + 1), "bytes drawn from the generator");
    Ok(["first draw", "second draw", "third draw", "fourth draw", "fifth draw", "sixth draw", "later draw"][i.min(6)])
}
pub fn c20(run: &Run) {
    let g = generic("draw", 1)[0];
    let alpha: Vec<[u8; 32]> = [U256::ZERO, N.m, N.m.addi(1), U256::MAX, P.m, N.m.add(&U256::pow2(128)), U256::ONE, N.m.addi(-1), g, N.m.sub(&U256::pow2(32)), U256::pow2(255)].iter().map(|v| v.be()).collect();
    let tail = generic("tail", 1)[0].be();
    let len = run.q(4usize, 6);
    run.sweep("answer-sequences", (alpha.len() as u64).pow(len as u32), |i, tr| {
        let mut ix = Ix(i);
        let mut b: Vec<[u8; 32]> = (0..len).map(|_| *ix.of(&alpha)).collect();
        b.push(tail);
        b.push([7; 32]);
        random_case(&b, tr)
    });
    let v = raw_values();
    run.sweep("values", v.len() as u64 * 2, |i, tr| {
        let x = v[(i / 2) as usize].be();
        if i % 2 == 0 { random_case(&[x, tail, [9; 32]], tr) } else { random_case(&[N.m.be(), x, tail, [9; 32]], tr) }
    });
    let bases = [N.m.be(), N.m.addi(-1).be(), g.be(), [0; 32], [0xff; 32]];
    run.sweep("single-byte", bases.len() as u64 * 8192, |i, tr| {
        let b = byte_variants(&bases[(i / 8192) as usize], i % 8192);
        random_case(&[<[u8; 32]>::try_from(&b[..]).unwrap(), tail, [9; 32]], tr)
    });
    run.sweep("rejection-runs", run.q(300, 2000), |i, tr| {
        let bad = [U256::ZERO.be(), N.m.be(), U256::MAX.be()];
        let mut b: Vec<[u8; 32]> = (0..i as usize).map(|j| bad[(j * (1 + i as usize % 3) + i as usize) % 3]).collect();
        b.push(tail);
        b.push([3; 32]);
        random_case(&b, tr)
    });
}

// ------------------------------------------------------------------ C21
#[derive(Debug)]
struct DeErr;
impl std::fmt::Display for DeErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("e") } }
impl std::error::Error for DeErr {}
impl de::Error for DeErr { fn custom<T: std::fmt::Display>(_: T) -> Self { DeErr } }

const ENTRIES: usize = 24;
/// A deserialiser that answers any request by calling visitor entry point `entry`.
struct Enter<'a> { human: bool, entry: usize, text: &'a str, bytes: &'a [u8] }
struct Bytes<'a>(&'a [u8], usize);
impl<'de> de::SeqAccess<'de> for Bytes<'de> {
    type Error = DeErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, DeErr> {
        if self.1 >= self.0.len() { return Ok(None); }
        self.1 += 1;
        s.deserialize(de::value::U8Deserializer::<DeErr>::new(self.0[self.1 - 1])).map(Some)
    }
}
impl<'de> de::MapAccess<'de> for Bytes<'de> {
    type Error = DeErr;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, DeErr> { de::SeqAccess::next_element_seed(self, s) }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, DeErr> { s.deserialize(de::value::U8Deserializer::<DeErr>::new(0)) }
}
use de::value::U8Deserializer;
impl<'de> de::Deserializer<'de> for Enter<'de> {
    type Error = DeErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeErr> {
        match self.entry {
            0 => v.visit_str(self.text),
            1 => v.visit_borrowed_str(self.text),
            2 => v.visit_string(self.text.to_string()),
            3 => v.visit_bytes(self.bytes),
            4 => v.visit_borrowed_bytes(self.bytes),
            5 => v.visit_byte_buf(self.bytes.to_vec()),
            6 => v.visit_bool(true),
            7 => v.visit_i8(4),
            8 => v.visit_i16(4),
            9 => v.visit_i32(4),
            10 => v.visit_i64(4),
            11 => v.visit_u8(4),
            12 => v.visit_u16(4),
            13 => v.visit_u32(4),
            14 => v.visit_u64(4),
            15 => v.visit_f64(4.0),
            16 => v.visit_char('A'),
            17 => v.visit_none(),
            18 => v.visit_unit(),
            19 => v.visit_seq(Bytes(self.bytes, 0)),
            20 => v.visit_map(Bytes(self.bytes, 0)),
            21 => v.visit_some(U8Deserializer::<DeErr>::new(4)),
            22 => v.visit_newtype_struct(U8Deserializer::<DeErr>::new(4)),
            _ => Err(DeErr),
        }
    }
    fn is_human_readable(&self) -> bool { self.human }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// What public key parsing of an encoding of any length says.
fn parsed(b: &[u8]) -> Option<PublicKey> {
    match b.len() {
        33 => PublicKey::parse_slice(b, Some(PublicKeyFormat::Compressed)).ok(),
        64 => PublicKey::parse_slice(b, Some(PublicKeyFormat::Raw)).ok(),
        65 => PublicKey::parse_slice(b, Some(PublicKeyFormat::Full)).ok(),
        _ => None,
    }
}
fn agree<E: std::fmt::Debug>(got: Result<PublicKey, E>, want: &Option<PublicKey>, what: &str, tr: &mut Tr) -> Result<(), String> {
    tr.step();
    match (got, want) {
        (Ok(k), Some(w)) => { ensure!(k == *w && k.serialize() == w.serialize(), "{}: gives {}, parsing gives {}", what, hex(&k.serialize()), hex(&w.serialize())); Ok(()) }
        (Err(_), None) => Ok(()),
        (Ok(k), None) => Err(format!("{}: accepted as {}", what, hex(&k.serialize()))),
        (Err(e), Some(w)) => Err(format!("{}: key {} rejected: {:?}", what, hex(&w.serialize()), e)),
    }
}
fn text_case(t: &str, tr: &mut Tr) -> Res {
    tr.note(|| format!("string {:?}", t));
    let want = refmodel::b64::decode(t).and_then(|b| parsed(&b));
    for e in 0..3 { agree(PublicKey::deserialize_from(Enter { human: true, entry: e, text: t, bytes: &[] }), &want, "string entry point", tr)?; }
    let j = serde_json::to_string(t).unwrap();
    agree(serde_json::from_str::<PublicKey>(&j), &want, "JSON from_str", tr)?;
    agree(serde_json::from_slice::<PublicKey>(j.as_bytes()), &want, "JSON from_slice", tr)?;
    agree(serde_json::from_reader::<_, PublicKey>(j.as_bytes()), &want, "JSON from_reader", tr)?;
    agree(serde_json::from_value::<PublicKey>(serde_json::Value::String(t.into())), &want, "JSON from_value", tr)?;
    Ok(if want.is_some() { "accepted" } else { "rejected" })
}
fn bytes_case(b: &[u8], tr: &mut Tr) -> Res {
    tr.note(|| format!("bytes {}", hex(b)));
    let want = parsed(b);
    for e in 3..6 { agree(PublicKey::deserialize_from(Enter { human: false, entry: e, text: "", bytes: b }), &want, "bytes entry point", tr)?; }
    let mut enc = (b.len() as u64).to_le_bytes().to_vec();
    enc.extend(b);
    agree(bincode::deserialize::<PublicKey>(&enc), &want, "bincode", tr)?;
    Ok(if want.is_some() { "accepted" } else { "rejected" })
}
trait From_ { fn deserialize_from(e: Enter<'_>) -> Result<PublicKey, DeErr>; }
impl From_ for PublicKey { fn deserialize_from(e: Enter<'_>) -> Result<PublicKey, DeErr> { <PublicKey as de::Deserialize>::deserialize(e) } }

/// Good and bad encodings of every kind.
fn encodings() -> Vec<Vec<u8>> {
    let mut o = vec![];
    let mut ps = points(3, 3, 3);
    ps.truncate(40);
    for p in &ps {
        o.push(p.ser33().to_vec());
        o.push(p.ser65().to_vec());
        o.push(p.ser65()[1..].to_vec());
        for tag in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x82, 0xff] {
            let mut b = p.ser65().to_vec(); b[0] = tag; o.push(b);
            let mut b = p.ser33().to_vec(); b[0] = tag; o.push(b);
        }
        let mut b = p.ser65().to_vec(); b[64] ^= 1; o.push(b.clone()); o.push(b[1..].to_vec());
        let mut b = p.ser33().to_vec(); b[32] ^= 1; o.push(b);
        // coordinates at or above p
        if p.x() < P.c { let mut b = p.ser65().to_vec(); b[1..33].copy_from_slice(&p.x().add(&P.m).be()); o.push(b.clone()); o.push(b[1..].to_vec()); o.push([&[2][..], &b[1..33]].concat()); }
        if p.y() < P.c { let mut b = p.ser65().to_vec(); b[33..].copy_from_slice(&p.y().add(&P.m).be()); o.push(b.clone()); o.push(b[1..].to_vec()); }
    }
    for p in leading() { o.extend([p.ser33().to_vec(), p.ser65().to_vec(), p.ser65()[1..].to_vec()]); }
    for f in [0u8, 2, 3, 4, 0xff] { for l in 0..140 { o.push(vec![f; l]); } }
    let p = ps[0].ser65();
    for l in 0..65 { o.push(p[..l].to_vec()); o.push([&p[..], &p[..l + 1]].concat()); }
    let mut s = std::collections::HashSet::new();
    o.retain(|x| s.insert(x.clone()));
    o
}

pub fn c21(run: &Run) {
    let ps = points(run.q(40, 400), 8, run.q(20, 100));
    run.sweep("round-trip", ps.len() as u64 * 4, |i, tr| {
        let mut ix = Ix(i);
        let r = ix.take(4);
        let p = ix.of(&ps);
        tr.note(|| format!("Q={} representation {}", pts(p), r));
        let k = PublicKey::try_from(aff_repr(p, r, (r + 1) % 4)).map_err(|e| format!("{:?}", e))?;
        let j = serde_json::to_string(&k).map_err(|e| e.to_string())?;
        same!(tr, j, format!("\"{}\"", refmodel::b64::encode(&p.ser65())), "JSON");
        agree(serde_json::from_str::<PublicKey>(&j), &Some(pk(p)), "JSON round trip", tr)?;
        let v = serde_json::to_value(&k).map_err(|e| e.to_string())?;
        same!(tr, v, serde_json::Value::String(refmodel::b64::encode(&p.ser65())), "JSON value");
        let b = bincode::serialize(&k).map_err(|e| e.to_string())?;
        let mut w = 65u64.to_le_bytes().to_vec();
        w.extend(p.ser65());
        same!(tr, hex(&b), hex(&w), "bincode");
        agree(bincode::deserialize::<PublicKey>(&b), &Some(pk(p)), "bincode round trip", tr)?;
        // inside containers
        let t = (k, vec![k, k], Some(k));
        let back: (PublicKey, Vec<PublicKey>, Option<PublicKey>) = serde_json::from_str(&serde_json::to_string(&t).unwrap()).map_err(|e| e.to_string())?;
        ensure!(back == t, "JSON container differs");
        let back: (PublicKey, Vec<PublicKey>, Option<PublicKey>) = bincode::deserialize(&bincode::serialize(&t).unwrap()).map_err(|e| e.to_string())?;
        ensure!(back == t, "bincode container differs");
        Ok("round trip")
    });
    let enc = encodings();
    run.sweep("encodings-as-bytes", enc.len() as u64, |i, tr| bytes_case(&enc[i as usize], tr));
    run.sweep("encodings-as-text", enc.len() as u64, |i, tr| text_case(&refmodel::b64::encode(&enc[i as usize]), tr));
    let q = mul_g(&generic("point", 1)[0]);
    let bb = [q.ser33().to_vec(), q.ser65()[1..].to_vec(), q.ser65().to_vec()];
    run.sweep("byte-edits-as-bytes", 3 * 65 * 256, |i, tr| {
        let mut ix = Ix(i);
        let (v, p) = (ix.take(256) as u8, ix.take(65));
        let mut b = ix.of(&bb).clone();
        if p >= b.len() { return Ok("-"); }
        b[p] = v;
        bytes_case(&b, tr)
    });
    let tt: Vec<String> = bb.iter().map(|b| refmodel::b64::encode(b)).collect();
    run.sweep("character-edits", 3 * 90 * 128 * 3, |i, tr| {
        let mut ix = Ix(i);
        let (c, p, kind) = (ix.take(128) as u8 as char, ix.take(90), ix.take(3));
        let mut t: Vec<char> = ix.of(&tt).chars().collect();
        match kind {
            0 => { if p >= t.len() { return Ok("-"); } t[p] = c; }
            1 => { if p > t.len() { return Ok("-"); } t.insert(p, c); }
            _ => { if p >= t.len() || c as u32 > 4 { return Ok("-"); } t.drain(p..(p + 1 + c as usize).min(t.len())); }
        }
        text_case(&t.into_iter().collect::<String>(), tr)
    });
    run.sweep("last-quantum", 3 * 65 * 65 * 4, |i, tr| {
        // every final two characters, with every amount of padding
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
        let mut ix = Ix(i);
        let (a, b, pad) = (A[ix.take(65)], A[ix.take(65)], ix.take(4));
        let mut t = ix.of(&tt).trim_end_matches('=').as_bytes().to_vec();
        let n = t.len();
        t[n - 2] = a;
        t[n - 1] = b;
        for _ in 0..pad { t.push(b'='); }
        text_case(std::str::from_utf8(&t).unwrap(), tr)
    });
    let odd = ["", " ", "=", "====", "A", "AA", "AA==", "AAA=", "AAAA", "\u{e9}", "AA\u{2028}==", "\0", "null"];
    run.sweep("odd-strings", (odd.len() * 4 * 3) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (o, k) = (*ix.of(&odd), ix.take(4));
        let t = ix.of(&tt);
        let s = match k { 0 => o.to_string(), 1 => format!("{}{}", o, t), 2 => format!("{}{}", t, o), _ => format!("{}{}{}", &t[..20], o, &t[20..]) };
        text_case(&s, tr)
    });
    run.sweep("url-safe", (ps.len() * 3) as u64, |i, tr| {
        let mut ix = Ix(i);
        let k = ix.take(3);
        let p = ix.of(&ps);
        let b = match k { 0 => p.ser33().to_vec(), 1 => p.ser65()[1..].to_vec(), _ => p.ser65().to_vec() };
        let t = refmodel::b64::encode(&b);
        text_case(&t.replace('+', "-").replace('/', "_"), tr)?;
        text_case(t.trim_end_matches('='), tr)
    });
    run.sweep("entry-points", (ENTRIES * 2 * enc.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (entry, human) = (ix.take(ENTRIES), ix.take(2) == 1);
        let b = ix.of(&enc);
        let t = refmodel::b64::encode(b);
        tr.note(|| format!("entry point {} human={} bytes {}", entry, human, hex(b)));
        let want = if (human && entry < 3) || (!human && (3..6).contains(&entry)) { parsed(b) } else { None };
        agree(PublicKey::deserialize_from(Enter { human, entry, text: &t, bytes: b }), &want, "entry point", tr)?;
        Ok(if want.is_some() { "accepted" } else { "rejected" })
    });
    let json = ["null", "true", "0", "4", "-1", "1.5", "[]", "[4]", "{}", "{\"a\":1}", "\"", "", "\"\\u0041\"", "[\"AAAA\"]", "nul", "\"\\ud800\""];
    run.sweep("json-values", json.len() as u64, |i, tr| {
        let j = json[i as usize];
        tr.note(|| format!("JSON {}", j));
        agree(serde_json::from_str::<PublicKey>(j), &None, "JSON value", tr)?;
        agree(serde_json::from_slice::<PublicKey>(j.as_bytes()), &None, "JSON value", tr)?;
        Ok("rejected")
    });
    run.sweep("json-arrays", enc.len() as u64, |i, tr| {
        let j = serde_json::to_string(&enc[i as usize]).unwrap();
        tr.note(|| format!("JSON {}", j));
        agree(serde_json::from_str::<PublicKey>(&j), &None, "JSON array of bytes", tr)?;
        Ok("rejected")
    });
    run.sweep("json-escapes", 3, |i, tr| {
        let t: String = tt[i as usize].chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
        tr.note(|| format!("JSON \"{}\"", t));
        agree(serde_json::from_str::<PublicKey>(&format!("\"{}\"", t)), &parsed(&bb[i as usize]), "escaped JSON", tr)?;
        Ok("accepted")
    });
    run.sweep("bincode-framing", 3 * 140, |i, tr| {
        // truncated input and wrong length prefixes
        let mut ix = Ix(i);
        let n = ix.take(140);
        let b = ix.of(&bb);
        tr.note(|| format!("bincode length {} before {} bytes", n, b.len()));
        let mut e = (n as u64).to_le_bytes().to_vec();
        e.extend(b);
        let want = if n <= b.len() { parsed(&b[..n]) } else { None };
        agree(bincode::deserialize::<PublicKey>(&e), &want, "bincode", tr)?;
        Ok(if want.is_some() { "accepted" } else { "rejected" })
    });
}

// ------------------------------------------------------------------ C23
thread_local! { static WATCH: Cell<Option<[u8; 32]>> = const { Cell::new(None) }; static LEAKED: Cell<bool> = const { Cell::new(false) }; }
/// Looks at every heap block this thread gives back while it watches for a secret.
pub struct Watcher;
unsafe impl std::alloc::GlobalAlloc for Watcher {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = WATCH.try_with(|w| if let Some(s) = w.get() {
            if l.size() == 32 {
                let m: [u8; 32] = std::array::from_fn(|i| std::ptr::read_volatile(p.add(i)));
                if (0..32).step_by(4).any(|i| m[i..i + 4] != [0; 4] && m[i..i + 4] == s[i..i + 4]) { LEAKED.with(|x| x.set(true)); }
            }
        });
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { std::alloc::System.realloc(p, l, n) }
}
/// Did the block holding `x` still contain its value when it was freed after `clear`?
fn freed_dirty<T: Copy>(x: T, clear: impl Fn(&mut T)) -> bool {
    let secret: [u8; 32] = unsafe { std::ptr::read(&x as *const T as *const [u8; 32]) };
    if secret == [0; 32] { return false; }
    let p = std::hint::black_box(Box::into_raw(Box::new(x)));
    LEAKED.with(|l| l.set(false));
    WATCH.with(|w| w.set(Some(secret)));
    unsafe {
        clear(&mut *p);
        drop(Box::from_raw(p));
    }
    WATCH.with(|w| w.set(None));
    LEAKED.with(|l| l.get())
}
fn memory<T>(x: &T) -> Vec<u8> { (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile((x as *const T as *const u8).add(i)) }).collect() }

pub fn c23(run: &Run) {
    let mut v = scalars_big();
    v.extend(below(around_limbs(&N.m), &N.m));
    v.extend(below(patterns(&[0, 1, 0xffffffff]), &N.m));
    let v = dedup(v);
    let ms = msg(&generic("msg", 1)[0]);
    let q = pk(&gi(7));
    run.sweep("secret-keys", v.len() as u64, |i, tr| {
        let d = &v[i as usize];
        tr.note(|| format!("value {:?}", d));
        let mut s = sc(d);
        same!(tr, format!("{:x}", s), hex(&d.be()), "hex of a scalar");
        s.clear();
        ensure!(memory(&s).iter().all(|b| *b == 0), "cleared scalar holds {}", hex(&memory(&s)));
        same!(tr, (s.is_zero(), us(&s)), (true, U256::ZERO), "cleared scalar");
        if d.is_zero() { return Ok("zero"); }
        let mut k = sk(d);
        same!(tr, format!("{:x}", k), hex(&d.be()), "hex of a secret key");
        same!(tr, format!("{:x}", k), hex(&k.serialize()), "hex of a secret key");
        ensure!(!k.is_zero(), "valid key reads as zero");
        k.clear();
        ensure!(memory(&k).iter().all(|b| *b == 0), "cleared key holds {}", hex(&memory(&k)));
        same!(tr, (k.is_zero(), hex(&k.serialize())), (true, hex(&[0; 32])), "cleared key");
        ensure!(!freed_dirty(sk(d), |k| k.clear()), "clearing a key that is dropped next leaves the secret in memory");
        ensure!(!freed_dirty(sc(d), |k| k.clear()), "clearing a scalar that is dropped next leaves the secret in memory");
        tr.steps(2);
        // a zero key is refused where it must be
        ensure!(SecretKey::try_from(Into::<Scalar>::into(k)).is_err(), "zero key accepted by TryFrom");
        ensure!(SecretKey::parse(&k.serialize()).is_err(), "zero key accepted by parse");
        let mut o = sk(&generic("key", 1)[0]);
        ensure!(o.tweak_mul_assign(&k).is_err(), "zero key accepted as a multiplicative tweak");
        let mut p = q;
        ensure!(p.tweak_mul_assign(&k).is_err() && p == q, "zero key accepted as a multiplicative tweak of a public key");
        ensure!(libsecp256k1::SharedSecret::<sha2::Sha256>::new(&q, &k).is_err(), "zero key accepted for ECDH");
        let _ = ms;
        Ok("cleared")
    });
    let base = generic("key", 2)[1].be();
    run.sweep("hex-bytes", 8192, |i, tr| {
        let d = U256::from_be(&byte_variants(&base, i));
        if d >= N.m || d.is_zero() { return Ok("not a key"); }
        tr.note(|| format!("value {:?}", d));
        same!(tr, format!("{:x}", sk(&d)), hex(&d.be()), "hex of a secret key");
        same!(tr, format!("{:x}", sc(&d)), hex(&d.be()), "hex of a scalar");
        Ok("formatted")
    });
    // what a cleared field element or point shows must not depend on what it held
    let fv = below([raw_values(), patterns(&[0, 0xffffffff])].concat(), &P.m);
    let f0 = { let mut f = Field::default(); f.clear(); format!("{:?}", f) };
    run.sweep("field-elements", fv.len() as u64 * 4, |i, tr| {
        let mut ix = Ix(i);
        let r = ix.take(REPRS);
        let x = ix.of(&fv);
        tr.note(|| format!("field element {:?} representation {}", x, r));
        let mut f = fe_repr(x, r);
        f.clear();
        same!(tr, format!("{:?}", f), f0, "cleared field element");
        same!(tr, (f.is_zero(), f.b32()), (true, [0u8; 32]), "cleared field element reads");
        Ok("cleared")
    });
    let ps = { let mut v = points(20, 20, 20); v.push(Pt::Inf); v };
    let (a0, j0) = { let mut a = Affine::default(); a.clear(); let mut j = Jacobian::default(); j.clear(); (format!("{:?}", a), format!("{:?}", j)) };
    let zs = [U256::ONE, U256::from(2), P.m.addi(-1), generic("z", 1)[0]];
    run.sweep("points", (ps.len() * zs.len() * 4) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (r, z) = (ix.take(REPRS), ix.of(&zs));
        let p = ix.of(&ps);
        tr.note(|| format!("point {} z={:?} representation {}", pts(p), z, r));
        let mut a = aff_repr(p, r, (r + 1) % 4);
        a.clear();
        same!(tr, format!("{:?}", a), a0, "cleared affine point");
        same!(tr, (a.x.is_zero(), a.y.is_zero(), a.is_infinity()), (true, true, false), "cleared affine point reads");
        let mut j = jac(p, z, r, r, r);
        j.clear();
        same!(tr, format!("{:?}", j), j0, "cleared Jacobian point");
        same!(tr, (j.x.is_zero(), j.y.is_zero(), j.z.is_zero(), j.is_infinity()), (true, true, true, false), "cleared Jacobian point reads");
        Ok("cleared")
    });
}
