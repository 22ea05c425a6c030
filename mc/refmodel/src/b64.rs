//! Canonical standard base64 with padding.
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn encode(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() { o.push(A[(v >> (18 - 6 * i)) as usize & 63] as char); } else { o.push('='); }
        }
    }
    o
}
pub fn decode(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None; }
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 || (pad > 0 && b.is_empty()) { return None; }
    let mut o = vec![];
    let (mut acc, mut nb) = (0u32, 0);
    for c in &b[..b.len() - pad] {
        let v = A.iter().position(|x| x == c)? as u32;
        acc = (acc << 6) | v;
        nb += 6;
        if nb >= 8 { nb -= 8; o.push((acc >> nb) as u8); acc &= (1 << nb) - 1; }
    }
    if acc != 0 || (pad == 1 && nb != 2) || (pad == 2 && nb != 4) || (pad == 0 && nb != 0) { return None; }
    Some(o)
}
