//! C08 compact signatures, C09 strict DER, C10 lax DER, C22 messages and recovery ids.
use common::*;
use engine::*;
use libsecp256k1::{Error, Message, RecoveryId, Signature};
use refmodel::der;

fn vals(g: &Signature) -> (U256, U256) { (us(&g.r), us(&g.s)) }

fn compact_case(b: &[u8], tr: &mut Tr) -> Res {
    tr.note(|| format!("bytes {}", hex(b)));
    let a = <&[u8; 64]>::try_from(b).unwrap();
    let (r, s) = (U256::from_be(&b[..32]), U256::from_be(&b[32..]));
    let ok = r < N.m && s < N.m;
    for (what, got) in [("parse_standard", Signature::parse_standard(a)), ("parse_standard_slice", Signature::parse_standard_slice(b))] {
        match got {
            Ok(g) => {
                ensure!(ok, "{} accepts", what);
                same!(tr, vals(&g), (r, s), what);
                same!(tr, g.serialize().to_vec(), b.to_vec(), "serialize");
            }
            Err(e) => { ensure!(!ok, "{} rejects with {:?}", what, e); same!(tr, e, Error::InvalidSignature, "error kind"); }
        }
    }
    let want = (N.red(&r), N.red(&s));
    let g = Signature::parse_overflowing(a);
    same!(tr, vals(&g), want, "parse_overflowing");
    let g2 = Signature::parse_overflowing_slice(b).map_err(|e| format!("parse_overflowing_slice fails: {:?}", e))?;
    ensure!(g2 == g, "parse_overflowing_slice differs");
    let mut w = want.0.be().to_vec();
    w.extend(want.1.be());
    same!(tr, g.serialize().to_vec(), w, "serialize after overflowing parse");
    Ok(match (r < N.m, s < N.m) { (true, true) => "in range", (false, true) => "r overflows", (true, false) => "s overflows", _ => "both overflow" })
}

pub fn c08(run: &Run) {
    let mut v = raw_values();
    v.extend(patterns(&[0, 1, 0xffffffff]));
    let v = dedup(v);
    let others = [U256::ZERO, U256::ONE, N.m.addi(-1), N.m, U256::MAX, generic("sig", 1)[0]];
    run.sweep("values", (v.len() * others.len() * 2) as u64, |i, tr| {
        let mut ix = Ix(i);
        let side = ix.take(2);
        let (o, x) = (ix.of(&others), ix.of(&v));
        let (r, s) = if side == 0 { (x, o) } else { (o, x) };
        compact_case(&[r.be(), s.be()].concat(), tr)
    });
    let c = dedup([near(&N.m, 4), near(&U256::ZERO, 3), near(&P.m, 2), scalars_tiny()].concat());
    run.sweep("corner-pairs", (c.len() * c.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (r, s) = (ix.of(&c), ix.of(&c));
        compact_case(&[r.be(), s.be()].concat(), tr)
    });
    let g = generic("compact", 2);
    let bases = [[g[0].be(), g[1].be()].concat(), [N.m.be(), g[1].be()].concat(), [g[0].be(), N.m.be()].concat(), [N.m.addi(-1).be(), N.m.addi(-1).be()].concat()];
    run.sweep("single-byte", 4 * 64 * 256, |i, tr| compact_case(&byte_variants(&bases[(i >> 14) as usize], i & 16383), tr));
    let fills = [0u8, 1, 0x30, 0xff];
    run.sweep("lengths", 4 * 321, |i, tr| {
        let mut ix = Ix(i);
        let f = *ix.of(&fills);
        let b = vec![f; ix.take(321)];
        if b.len() == 64 { return compact_case(&b, tr); }
        tr.note(|| format!("slice of {} bytes {:02x}", b.len(), f));
        same!(tr, Signature::parse_standard_slice(&b).err(), Some(Error::InvalidInputLength), "parse_standard_slice");
        same!(tr, Signature::parse_overflowing_slice(&b).err(), Some(Error::InvalidInputLength), "parse_overflowing_slice");
        Ok("length rejected")
    });
    let t = scalars_tiny();
    run.sweep("lengths-of-valid", (t.len() * 129) as u64, |i, tr| {
        let mut ix = Ix(i);
        let x = ix.of(&t);
        let len = ix.take(129);
        let mut b = [x.be(), x.be(), x.be(), x.be()].concat();
        b.truncate(len);
        if len == 64 { return compact_case(&b, tr); }
        same!(tr, Signature::parse_standard_slice(&b).err(), Some(Error::InvalidInputLength), "parse_standard_slice");
        same!(tr, Signature::parse_overflowing_slice(&b).err(), Some(Error::InvalidInputLength), "parse_overflowing_slice");
        Ok("length rejected")
    });
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Strict, Lax }
fn der_case(mode: Mode, b: &[u8], tr: &mut Tr) -> Res {
    tr.note(|| format!("input {}", hex(b)));
    let (got, want, what) = match mode {
        Mode::Strict => (Signature::parse_der(b), der::strict(b), "parse_der"),
        Mode::Lax => (Signature::parse_der_lax(b), der::lax(b), "parse_der_lax"),
    };
    tr.step();
    match (&got, &want) {
        (Ok(g), Some(w)) => { let g = vals(g); ensure!(g == *w, "{}: library gives {:?}, reference {:?}", what, g, w); }
        (Err(e), None) => { ensure!(*e == Error::InvalidSignature, "{}: error {:?}", what, e); }
        (Ok(g), None) => return Err(format!("{} accepts as {:?}, the reference rejects", what, vals(g))),
        (Err(e), Some(w)) => return Err(format!("{} rejects with {:?}, the reference gives {:?}", what, e, w)),
    }
    if mode == Mode::Lax {
        if let Some(w) = der::strict(b) { ensure!(want == Some(w), "reference parsers disagree"); }
        if let Ok(g) = Signature::parse_der(b) {
            ensure!(got.as_ref().ok().map(vals) == Some(vals(&g)), "strict gives {:?}, lax gives {:?}", vals(&g), got.as_ref().map(vals));
        }
    }
    Ok(match want { Some((r, s)) => if r.is_zero() && s.is_zero() { "accepted, zeros" } else { "accepted" }, None => "rejected" })
}

/// Lengths in every form: (bytes, value).
fn length_forms(len: usize, lax: bool) -> Vec<Vec<u8>> {
    let be = |v: u128, k: usize| -> Vec<u8> { (0..k).rev().map(|i| if i < 16 { (v >> (8 * i)) as u8 } else { 0 }).collect() };
    let mut o: Vec<Vec<u8>> = vec![];
    let l = len as u128;
    let vals: Vec<u128> = [l, l + 1, l.wrapping_sub(1), 0, 1, l + 2, 127, 128, 255, 256].to_vec();
    for v in vals {
        if v > u64::MAX as u128 { continue; }
        if v < 128 { o.push(vec![v as u8]); }
        for k in [1usize, 2, 3, 4, 5, 7, 8, 9, 12, 16] { if v < (1u128 << (8 * k.min(15))) { let mut f = vec![0x80 | k as u8]; f.extend(be(v, k)); o.push(f); } }
    }
    o.extend([vec![0x80], vec![0xff], vec![0x81], vec![0x82, 1], vec![0xfe]]);
    for k in [1usize, 2, 4, 7, 8, 9, 16, 126, 127] {
        for top in [0xffu8, 0x80, 1] {
            // huge values whose low bytes look right: overflow of the accumulated length
            let mut f = vec![0x80 | k as u8, top];
            f.extend(be(l, k - 1));
            if k < 14 || lax { o.push(f); }
        }
        let mut f = vec![0x80 | k as u8];
        f.extend(vec![0xff; k]);
        o.push(f);
        if lax { let mut f = vec![0x80 | k as u8]; f.extend(be(l, k)); o.push(f); }
    }
    let mut s = std::collections::HashSet::new();
    o.retain(|x| s.insert(x.clone()));
    o
}
/// Integer contents: magnitudes of every length class with every leading byte class.
fn contents() -> Vec<Vec<u8>> {
    let mut o = vec![vec![]];
    for len in [1usize, 2, 3, 31, 32, 33, 34, 35, 40, 127, 128, 129] {
        for lead in [vec![0u8], vec![1], vec![0x7f], vec![0x80], vec![0xff], vec![0, 0], vec![0, 0x7f], vec![0, 0x80], vec![0, 0xff], vec![0xff, 0x7f], vec![0xff, 0x80], vec![0, 0, 0x80], vec![0, 0, 1], vec![0, 0, 0]] {
            if lead.len() > len { continue; }
            let mut c = lead.clone();
            while c.len() < len { c.push(0x55); }
            o.push(c);
        }
    }
    for v in near(&N.m, 2).into_iter().chain([U256::MAX, P.m, U256::pow2(255), U256::pow2(255).addi(-1), half_n(), half_n().addi(1)]) {
        o.push(v.be().to_vec());
        o.push([vec![0], v.be().to_vec()].concat());
        o.push([vec![0, 0], v.be().to_vec()].concat());
        o.push([vec![1], v.be().to_vec()].concat());
    }
    for z in [31usize, 32, 33, 100] { o.push(vec![0; z]); o.push([vec![0; z], vec![1]].concat()); }
    let mut s = std::collections::HashSet::new();
    o.retain(|x| s.insert(x.clone()));
    o
}
/// Shortest (strict) length bytes.
fn min_len(l: usize) -> Vec<u8> { if l < 128 { vec![l as u8] } else if l < 256 { vec![0x81, l as u8] } else { vec![0x82, (l >> 8) as u8, l as u8] } }
fn tlv(tag: u8, len: &[u8], c: &[u8]) -> Vec<u8> { [&[tag], len, c].concat() }
fn int(c: &[u8]) -> Vec<u8> { tlv(2, &min_len(c.len()), c) }
fn seq(body: &[u8]) -> Vec<u8> { tlv(0x30, &min_len(body.len()), body) }

/// A magnitude of every byte length, with the top bit clear and set, and the smallest of the length.
fn magnitudes() -> Vec<U256> {
    let mut v = vec![U256::ZERO, U256::ONE];
    for k in 0..256 { v.push(U256::pow2(k)); }
    for k in 1..32 { v.push(U256::pow2(8 * k).addi(-1)); v.push(U256::pow2(8 * k - 1).addi(-1)); }
    v.extend([N.m.addi(-1), N.m.addi(-2), half_n(), half_n().addi(1), U256::pow2(255).addi(-1)]);
    v.extend(generic("der", 2));
    below(v, &N.m)
}

fn der_common(run: &Run, mode: Mode) {
    // every string over a small alphabet after the sequence tag
    let trie: Vec<(&str, Vec<u8>, usize, Vec<u8>)> = vec![
        ("trie", vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x80, 0x81, 0xff], run.q(6, 8), vec![0x30]),
        ("trie-two-ints", vec![0x00, 0x01, 0x02, 0x7f, 0x80], run.q(9, 10), vec![0x30]),
        ("trie-integer", vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0xff], run.q(6, 8), vec![0x30, 0x06, 0x02]),
        ("trie-first", (0u8..=255).collect(), 2, vec![]),
    ];
    for (name, alpha, depth, prefix) in trie {
        let mut total = 0u64;
        let mut start = vec![];
        for l in 0..=depth { start.push(total); total += (alpha.len() as u64).pow(l as u32); }
        run.sweep(name, total, |i, tr| {
            let l = start.iter().rposition(|s| *s <= i).unwrap();
            let mut ix = Ix(i - start[l]);
            let mut b = prefix.clone();
            for _ in 0..l { b.push(*ix.of(&alpha)); }
            der_case(mode, &b, tr)
        });
    }
    // consistent outer length over every inner string
    let alpha: Vec<u8> = vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0xff];
    let depth = run.q(8usize, 9);
    let n: u64 = (alpha.len() as u64).pow(depth as u32);
    run.sweep("trie-body", n, |i, tr| {
        let mut ix = Ix(i);
        let body: Vec<u8> = (0..depth).map(|_| *ix.of(&alpha)).collect();
        der_case(mode, &seq(&body), tr)
    });
    // contents x contents, minimal lengths
    let cs = contents();
    run.sweep("contents", (cs.len() * cs.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (a, b) = (ix.of(&cs), ix.of(&cs));
        der_case(mode, &seq(&[int(a), int(b)].concat()), tr)
    });
    // length forms of each of the three lengths x contents x trailing bytes
    let few: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 0x80], vec![0x7f; 32], [vec![0], vec![0xfe; 32]].concat(), vec![1; 33], vec![0; 128], [vec![0; 100], vec![0x11; 28]].concat(), vec![3; 200]];
    let trail: Vec<Vec<u8>> = vec![vec![], vec![0], vec![2, 1, 1], vec![0xff; 5]];
    let lax = mode == Mode::Lax;
    let mut combos: Vec<(usize, usize, usize)> = vec![];
    for a in 0..few.len() { for b in 0..few.len() { for t in 0..trail.len() { combos.push((a, b, t)); } } }
    run.sweep("length-forms", combos.len() as u64 * 3 * 200, |i, tr| {
        let mut ix = Ix(i);
        let (form, which) = (ix.take(200), ix.take(3));
        let &(a, b, t) = ix.of(&combos);
        let (a, b, t) = (&few[a], &few[b], &trail[t]);
        let target = match which { 0 => int(a).len() + int(b).len(), 1 => a.len(), _ => b.len() };
        let forms = length_forms(target, lax);
        if form >= forms.len() { return Ok("-"); }
        let f = &forms[form];
        let ra = if which == 1 { tlv(2, f, a) } else { int(a) };
        let rb = if which == 2 { tlv(2, f, b) } else { int(b) };
        let body = [ra, rb].concat();
        let mut whole = if which == 0 { tlv(0x30, f, &body) } else { seq(&body) };
        whole.extend(t);
        der_case(mode, &whole, tr)
    });
    run.sweep("both-length-forms", (few.len() * few.len()) as u64 * 2500, |i, tr| {
        let mut ix = Ix(i);
        let (f1, f2) = (ix.take(50), ix.take(50));
        let (a, b) = (ix.of(&few), ix.of(&few));
        let (fa, fb) = (length_forms(a.len(), lax), length_forms(b.len(), lax));
        if f1 >= fa.len() || f2 >= fb.len() { return Ok("-"); }
        der_case(mode, &seq(&[tlv(2, &fa[f1], a), tlv(2, &fb[f2], b)].concat()), tr)
    });
    // tags
    run.sweep("tags", 3 * 256 * 4, |i, tr| {
        let mut ix = Ix(i);
        let (tag, which, shape) = (ix.take(256) as u8, ix.take(3), ix.take(4));
        let c: &[u8] = [&[5u8][..], &[0, 0x90], &[0x7f; 32], &[0x11; 31]][shape];
        let (ta, tb, ts) = match which { 0 => (tag, 2, 0x30), 1 => (2, tag, 0x30), _ => (2, 2, tag) };
        let body = [tlv(ta, &min_len(c.len()), c), tlv(tb, &min_len(c.len()), c)].concat();
        der_case(mode, &tlv(ts, &min_len(body.len()), &body), tr)
    });
    // every truncation, extension, deletion, insertion and byte replacement of good encodings
    let g = generic("der base", 4);
    let bases: Vec<Vec<u8>> = vec![
        der::encode(&g[0], &g[1]), der::encode(&N.m.addi(-1), &half_n()), der::encode(&U256::ONE, &U256::ZERO), der::encode(&U256::from(0x80), &U256::from(0x7fff)),
        der::encode(&U256::pow2(255), &g[2]), seq(&[int(&[&[0][..], &N.m.be()].concat()), int(&[3])].concat()), seq(&[int(&[1; 33]), int(&[1; 100])].concat()),
    ];
    run.sweep("truncations", bases.len() as u64 * 200, |i, tr| {
        let mut ix = Ix(i);
        let l = ix.take(200);
        let b = ix.of(&bases);
        if l > b.len() { return Ok("-"); }
        der_case(mode, &b[..l], tr)
    });
    run.sweep("byte-edits", bases.len() as u64 * 200 * 256 * 3, |i, tr| {
        let mut ix = Ix(i);
        let (v, kind, p) = (ix.take(256) as u8, ix.take(3), ix.take(200));
        let mut b = ix.of(&bases).clone();
        match kind {
            0 => { if p >= b.len() { return Ok("-"); } b[p] = v; }
            1 => { if p > b.len() { return Ok("-"); } b.insert(p, v); }
            _ => { if p >= b.len() || v > 3 { return Ok("-"); } b.drain(p..(p + 1 + v as usize).min(b.len())); }
        }
        der_case(mode, &b, tr)
    });
    run.sweep("inner-edits", bases.len() as u64 * 200 * 256, |i, tr| {
        // insertion and deletion with the outer length kept consistent
        let mut ix = Ix(i);
        let (v, p) = (ix.take(256) as u8, ix.take(200));
        let b = ix.of(&bases);
        let mut body = b[if b[1] < 0x80 { 2 } else { 3 }..].to_vec();
        if p > body.len() { return Ok("-"); }
        body.insert(p, v);
        der_case(mode, &seq(&body), tr)
    });
    // total lengths around 127/128, 255/256 and 65535/65536
    run.sweep("long-inputs", 4 * 3 * 700, |i, tr| {
        let mut ix = Ix(i);
        let (fill, split, l) = (ix.take(4), ix.take(3), ix.take(700));
        let l = if l < 400 { l } else { 65536 - 150 + (l - 400) };
        let c = |n: usize| -> Vec<u8> { match fill { 0 => vec![0; n], 1 => vec![1; n], 2 => [vec![0; n.saturating_sub(1)], vec![9; n.min(1)]].concat(), _ => [vec![0; n.saturating_sub(32)], vec![0x7e; n.min(32)]].concat() } };
        let (a, b) = match split { 0 => (c(l), vec![5]), 1 => (vec![5], c(l)), _ => (c(l / 2), c(l - l / 2)) };
        der_case(mode, &seq(&[int(&a), int(&b)].concat()), tr)
    });
}

pub fn c09(run: &Run) {
    let m = magnitudes();
    run.sweep("round-trip", (m.len() * m.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (r, s) = (ix.of(&m), ix.of(&m));
        tr.note(|| format!("r={:?} s={:?}", r, s));
        let g = Signature { r: sc(r), s: sc(s) };
        let e = g.serialize_der();
        let w = der::encode(r, s);
        same!(tr, hex(e.as_ref()), hex(&w), "serialize_der");
        same!(tr, (e.len(), e.is_empty()), (w.len(), false), "SignatureArray::len");
        ensure!(w.len() <= 72, "more than 72 bytes");
        same!(tr, Signature::parse_der(e.as_ref()).map(|g| vals(&g)), Ok((*r, *s)), "parse_der(serialize_der)");
        Ok("round trip")
    });
    let big = scalars_big();
    run.sweep("round-trip-values", big.len() as u64 * 2, |i, tr| {
        let v = &big[(i / 2) as usize];
        let (r, s) = if i % 2 == 0 { (*v, U256::ONE) } else { (generic("r", 1)[0], *v) };
        tr.note(|| format!("r={:?} s={:?}", r, s));
        let g = Signature { r: sc(&r), s: sc(&s) };
        same!(tr, hex(g.serialize_der().as_ref()), hex(&der::encode(&r, &s)), "serialize_der");
        same!(tr, Signature::parse_der(g.serialize_der().as_ref()).map(|g| vals(&g)), Ok((r, s)), "parse_der(serialize_der)");
        Ok("round trip")
    });
    der_common(run, Mode::Strict);
}

pub fn c10(run: &Run) {
    let m = magnitudes();
    run.sweep("strict-is-lax", (m.len() * m.len()) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (r, s) = (ix.of(&m), ix.of(&m));
        der_case(Mode::Lax, &der::encode(r, s), tr)
    });
    der_common(run, Mode::Lax);
    // sequence length bytes are skipped whatever they say
    run.sweep("sequence-length", 256 * 140, |i, tr| {
        let mut ix = Ix(i);
        let (l, extra) = (ix.take(256) as u8, ix.take(140));
        let mut b = vec![0x30, l];
        b.extend(vec![0xaa; extra]);
        b.extend(int(&[7]));
        b.extend(int(&[0, 0, 0x99]));
        der_case(Mode::Lax, &b, tr)
    });
    // long-form integer lengths with any number of leading zero bytes
    run.sweep("padded-lengths", 2 * 128 * 40 * 3, |i, tr| {
        let mut ix = Ix(i);
        let (which, k, l, short) = (ix.take(2), ix.take(128), ix.take(40), ix.take(3));
        let mut f = vec![0x80 | k as u8];
        f.extend((0..k).map(|j| if j + 1 == k { l as u8 } else { 0 }));
        let content = vec![0x21; l];
        let x = tlv(2, &f, &content);
        let y = int(&[0x44]);
        let mut b = seq(&if which == 0 { [x, y].concat() } else { [y, x].concat() });
        let n = b.len() - short.min(b.len());
        b.truncate(n);
        der_case(Mode::Lax, &b, tr)
    });
}

pub fn c22(run: &Run) {
    let mut v = raw_values();
    v.extend(patterns(&[0, 1, 0xffffffff]));
    let v = dedup(v);
    let case = |b: &[u8; 32], tr: &mut Tr| -> Res {
        tr.note(|| format!("message bytes {}", hex(b)));
        let x = U256::from_be(b);
        let w = N.red(&x);
        let m = Message::parse(b);
        same!(tr, us(&m.0), w, "Message::parse");
        same!(tr, m.serialize(), w.be(), "serialize");
        let m2 = Message::parse_slice(b).map_err(|e| format!("parse_slice fails: {:?}", e))?;
        ensure!(m2 == m, "parse_slice differs from parse");
        let m3 = Message::parse(&m.serialize());
        ensure!(m3 == m, "reparsing the serialised message differs");
        Ok(if x >= N.m { "reduced" } else { "kept" })
    };
    run.sweep("messages", v.len() as u64, |i, tr| case(&v[i as usize].be(), tr));
    let bases = [N.m.be(), N.m.addi(-1).be(), [0xff; 32], [0; 32], generic("msg", 1)[0].be()];
    run.sweep("message-bytes", bases.len() as u64 * 8192, |i, tr| case(&<[u8; 32]>::try_from(&byte_variants(&bases[(i / 8192) as usize], i % 8192)[..]).unwrap(), tr));
    let fills = [0u8, 1, 0x80, 0xff];
    run.sweep("message-lengths", 4 * 301, |i, tr| {
        let mut ix = Ix(i);
        let f = *ix.of(&fills);
        let b = vec![f; ix.take(301)];
        if b.len() == 32 { return case(&[f; 32], tr); }
        tr.note(|| format!("slice of {} bytes", b.len()));
        same!(tr, Message::parse_slice(&b).err(), Some(Error::InvalidInputLength), "parse_slice");
        Ok("length rejected")
    });
    run.sweep("recovery-ids", 256, |i, tr| {
        let p = i as u8;
        tr.note(|| format!("recovery id byte {}", p));
        let check = |got: Result<RecoveryId, Error>, want: Option<u8>, what: &str, tr: &mut Tr| -> Result<(), String> {
            match (got, want) {
                (Ok(id), Some(w)) => {
                    let (a, b): (u8, i32) = (id.into(), id.into());
                    same!(tr, (id.serialize(), a, b), (w, w, w as i32), what);
                    ensure!(RecoveryId::parse(w) == Ok(id), "{} not equal to the plain id", what);
                    Ok(())
                }
                (Err(e), None) => { same!(tr, e, Error::InvalidRecoveryId, what); Ok(()) }
                (g, w) => Err(format!("{}: library gives {:?}, reference {:?}", what, g, w)),
            }
        };
        check(RecoveryId::parse(p), if p < 4 { Some(p) } else { None }, "parse", tr)?;
        check(RecoveryId::parse_rpc(p), if (27..31).contains(&p) { Some(p - 27) } else { None }, "parse_rpc", tr)?;
        Ok(if p < 4 { "plain" } else if (27..31).contains(&p) { "rpc" } else { "neither" })
    });
}
