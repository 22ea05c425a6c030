//! The DER grammar for signatures (strict) and the historic lax parser.
use crate::num::{N, U256};

/// One strict TLV: (content, rest).
fn tlv(tag: u8, b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (&t, b) = b.split_first()?;
    if t != tag { return None; }
    let (&l, mut b) = b.split_first()?;
    let len: u128 = if l < 0x80 { l as u128 } else {
        let k = (l & 0x7f) as usize;
        if k == 0 || k > b.len() { return None; }
        let (lb, rest) = b.split_at(k);
        if lb[0] == 0 { return None; }
        if k > 15 { return None; } // longer than any input
        let v = lb.iter().fold(0u128, |a, x| (a << 8) | *x as u128);
        if v < 128 { return None; }
        b = rest;
        v
    };
    if len > b.len() as u128 { return None; }
    Some(b.split_at(len as usize))
}
fn strict_int(c: &[u8], zeroing: bool) -> Option<U256> {
    let (&first, tail) = c.split_first()?;
    // two's complement: the first nine bits are never all equal in a minimal encoding
    if let Some(x) = tail.first() { if (first == 0 && x & 0x80 == 0) || (first == 0xff && x & 0x80 != 0) { return None; } }
    let mag = if first == 0 { tail } else { c };
    if first & 0x80 != 0 || mag.len() > 32 { return if zeroing { Some(U256::ZERO) } else { None }; }
    let v = U256::from_be(mag);
    Some(if v >= N.m { U256::ZERO } else { v })
}
fn strict_either(b: &[u8], zeroing: bool) -> Option<(U256, U256)> {
    let (c, rest) = tlv(0x30, b)?;
    if !rest.is_empty() { return None; }
    let (r, c) = tlv(2, c)?;
    let r = strict_int(r, zeroing)?;
    let (s, c) = tlv(2, c)?;
    let s = strict_int(s, zeroing)?;
    if c.is_empty() { Some((r, s)) } else { None }
}
/// Strict DER; numbers that are negative or longer than 32 bytes are refused.
pub fn strict(b: &[u8]) -> Option<(U256, U256)> { strict_either(b, false) }
/// The same as the C library has it: such numbers are read as zero.
pub fn strict_zeroing(b: &[u8]) -> Option<(U256, U256)> { strict_either(b, true) }
pub fn encode_int(v: &U256) -> Vec<u8> {
    let b = v.be();
    let k = b.iter().position(|x| *x != 0).unwrap_or(31);
    let mut o = b[k..].to_vec();
    if o[0] & 0x80 != 0 { o.insert(0, 0); }
    o
}
pub fn encode(r: &U256, s: &U256) -> Vec<u8> {
    let (r, s) = (encode_int(r), encode_int(s));
    let mut o = vec![0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8];
    o.extend(&r);
    o.extend([2, s.len() as u8]);
    o.extend(&s);
    o
}
fn lax_int(b: &[u8]) -> Option<(U256, &[u8])> {
    let (&t, b) = b.split_first()?;
    if t != 2 { return None; }
    let (&l, mut b) = b.split_first()?;
    let len = if l & 0x80 == 0 { l as u64 } else {
        let k = (l & 0x7f) as usize;
        if k > b.len() { return None; }
        let (lb, rest) = b.split_at(k);
        b = rest;
        let z = lb.iter().take_while(|x| **x == 0).count();
        if k - z >= 8 { return None; }
        lb[z..].iter().fold(0u64, |a, x| (a << 8) | *x as u64)
    };
    if len > b.len() as u64 { return None; }
    let (c, rest) = b.split_at(len as usize);
    let z = c.iter().take_while(|x| **x == 0).count();
    let mag = &c[z..];
    let v = if mag.len() > 32 { U256::ZERO } else { U256::from_be(mag) };
    Some((if v >= N.m { U256::ZERO } else { v }, rest))
}
pub fn lax(b: &[u8]) -> Option<(U256, U256)> {
    let (&t, b) = b.split_first()?;
    if t != 0x30 { return None; }
    let (&l, mut b) = b.split_first()?;
    if l & 0x80 != 0 { b = b.get((l & 0x7f) as usize..)?; }
    let (r, b) = lax_int(b)?;
    let (s, _) = lax_int(b)?;
    Some((r, s))
}
