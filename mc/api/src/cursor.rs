//! C26 the DER cursor (util::Decoder): every operation sequence against an abstract cursor.
use common::*;
use engine::*;
use libsecp256k1::curve::Scalar;
use libsecp256k1::util::Decoder;
use libsecp256k1::Error;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Read, Peek(usize), Slice(usize), Skip(usize), Seq, Len, Int, SeqLax, LenLax, IntLax }
use Op::*;
const M: usize = usize::MAX;
const OPS: [Op; 27] = [Read, Peek(0), Peek(1), Peek(2), Peek(M), Peek(M - 1), Peek(M - 2), Slice(0), Slice(1), Slice(2), Slice(M), Slice(M - 1), Slice(M - 2), Slice(M / 2 + 1),
    Skip(0), Skip(1), Skip(2), Skip(M), Skip(M - 1), Skip(M - 2), Skip(M / 2 + 1), Seq, Len, Int, SeqLax, LenLax, IntLax];

#[derive(Debug, PartialEq)]
enum Out { No, Unit, Byte(u8), Bytes(Vec<u8>), Num(usize), Val(U256) }

/// The abstract cursor: the outcome and, when the operation succeeds or may not move, the position.
struct Cur<'a> { b: &'a [u8], pos: usize }
impl Cur<'_> {
    fn rest(&self) -> &[u8] { &self.b[self.pos..] }
    fn strict_len(b: &[u8]) -> Option<(usize, usize)> {
        let f = *b.first()?;
        if f < 0x80 { return Some((f as usize, 1)); }
        let n = f as usize - 0x80;
        if n == 0 || n == 0x7f || n > b.len() - 1 || n > 8 || b[1] == 0 { return None; }
        let v = b[1..1 + n].iter().fold(0u64, |a, x| a << 8 | *x as u64) as usize;
        if v < 128 || v > b.len() - 1 - n { None } else { Some((v, 1 + n)) }
    }
    fn lax_len(b: &[u8]) -> Option<(usize, usize)> {
        let f = *b.first()?;
        let (v, used) = if f < 0x80 { (f as usize, 1) } else {
            let n = f as usize - 0x80;
            if n > b.len() - 1 { return None; }
            let o = &b[1..1 + n];
            let o = &o[o.iter().position(|x| *x != 0).unwrap_or(n)..];
            if o.len() >= 8 { return None; }
            (o.iter().fold(0usize, |a, x| a << 8 | *x as usize), 1 + n)
        };
        if v > b.len() - used { None } else { Some((v, used)) }
    }
    fn value(c: &[u8]) -> Option<U256> {
        let c = &c[c.iter().position(|x| *x != 0).unwrap_or(c.len())..];
        if c.len() > 32 { return None; }
        let mut w = [0u8; 32];
        w[32 - c.len()..].copy_from_slice(c);
        let v = U256::from_be(&w);
        Some(if v >= N.m { U256::ZERO } else { v })
    }
    /// (result, bytes consumed)
    fn run(&self, op: Op) -> (Out, usize) {
        let b = self.rest();
        let no = (Out::No, 0);
        match op {
            Read => b.first().map_or(no, |x| (Out::Byte(*x), 1)),
            Peek(k) => b.get(k).map_or(no, |x| (Out::Byte(*x), 0)),
            Slice(k) => if k <= b.len() { (Out::Bytes(b[..k].to_vec()), 0) } else { no },
            Skip(k) => if k <= b.len() { (Out::Unit, k) } else { no },
            Seq => if b.first() == Some(&0x30) { (Out::Unit, 1) } else { no },
            Len => Self::strict_len(b).map_or(no, |(v, u)| (Out::Num(v), u)),
            LenLax => Self::lax_len(b).map_or(no, |(v, u)| (Out::Num(v), u)),
            SeqLax => match b.first() { None => no, Some(f) if *f < 0x80 => (Out::Unit, 1), Some(f) => { let n = *f as usize - 0x80; if n > b.len() - 1 { no } else { (Out::Unit, 1 + n) } } },
            Int => {
                if b.first() != Some(&2) { return no; }
                let Some((l, u)) = Self::strict_len(&b[1..]) else { return no };
                if l == 0 || l > b.len() - 1 - u { return no; }
                let c = &b[1 + u..1 + u + l];
                if c[0] >= 0x80 || c[0] == 0 && l > 1 && c[1] < 0x80 { return no; }
                match Self::value(c) { None => no, Some(v) => (Out::Val(v), 1 + u + l) }
            }
            IntLax => {
                if b.first() != Some(&2) { return no; }
                let Some((l, u)) = Self::lax_len(&b[1..]) else { return no };
                (Out::Val(Self::value(&b[1 + u..1 + u + l]).unwrap_or(U256::ZERO)), 1 + u + l)
            }
        }
    }
}
fn real(d: &mut Decoder, op: Op) -> Out {
    let val = |r: Result<Scalar, Error>| r.map_or(Out::No, |v| Out::Val(us(&v)));
    let unit = |r: Result<(), Error>| r.map_or(Out::No, |_| Out::Unit);
    match op {
        Read => d.read().map_or(Out::No, Out::Byte),
        Peek(k) => d.peek(k).map_or(Out::No, Out::Byte),
        Slice(k) => d.peek_slice(k).map_or(Out::No, |s| Out::Bytes(s.to_vec())),
        Skip(k) => unit(d.skip(k)),
        Seq => unit(d.read_constructed_sequence()),
        Len => d.read_len().map_or(Out::No, Out::Num),
        Int => val(d.read_integer()),
        SeqLax => d.read_seq_len_lax().map_or(Out::No, |_| Out::Unit),
        LenLax => d.read_len_lax().map_or(Out::No, Out::Num),
        IntLax => val(d.read_integer_lax()),
    }
}
fn case(b: &[u8], ops: &[Op], tr: &mut Tr) -> Res {
    tr.note(|| format!("bytes {} operations {:?}", hex(b), ops));
    let mut d = Decoder::new(b);
    let mut m = Cur { b, pos: 0 };
    let mut label = "succeeds";
    for op in ops {
        let (want, used) = m.run(*op);
        let got = real(&mut d, *op);
        same!(tr, got, want, format!("{:?} at {}", op, m.pos));
        let rem = d.remaining_len();
        let old = m.rest().len();
        if want == Out::No {
            label = "refused";
            match op {
                // a failing compound operation may have consumed a prefix, never more than there is
                Seq | Len | Int | SeqLax | LenLax | IntLax => { ensure!(rem <= old, "{:?} leaves {} of {} bytes", op, rem, old); m.pos = b.len() - rem; }
                _ => ensure!(rem == old, "failing {:?} moves from {} to {} bytes left", op, old, rem),
            }
        } else {
            m.pos += used;
            ensure!(rem == old - used, "{:?} leaves {} bytes, not {}", op, rem, old - used);
        }
        ensure!(d.peek_slice(rem).ok() == Some(m.rest()), "bytes after {:?} differ", op);
    }
    Ok(label)
}

pub fn c26(run: &Run) {
    let alpha: [u8; 11] = [0, 1, 2, 3, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x88, 0xff];
    let n = OPS.len();
    let words = |l: usize| (alpha.len() as u64).pow(l as u32);
    let name = ["sequences-0", "sequences-1", "sequences-2", "sequences-3", "sequences-4", "sequences-5", "sequences-6"];
    for (l, depth) in run.q(vec![(0, 4), (1, 4), (2, 3), (3, 3), (4, 2), (5, 1)], vec![(0, 5), (1, 4), (2, 4), (3, 3), (4, 3), (5, 2), (6, 1)]) {
        run.sweep(name[l], words(l) * (n as u64).pow(depth), |i, tr| {
            let mut ix = Ix(i);
            let ops: Vec<Op> = (0..depth).map(|_| *ix.of(&OPS)).collect();
            let b: Vec<u8> = (0..l).map(|_| *ix.of(&alpha)).collect();
            case(&b, &ops, tr)
        });
    }
    // long length forms: 1..=10 length octets, values at limits, little or much content
    let edge = [0u8, 1, 0x7f, 0x80, 0x81, 0xff];
    let content = [0usize, 1, 2, 127, 128, 129, 254, 255, 256, 257, 511];
    run.sweep("long-lengths", (2 * 10 * 6 * 3 * 6 * content.len() * n) as u64, |i, tr| {
        let mut ix = Ix(i);
        let op = *ix.of(&OPS);
        let (tag, k) = (ix.take(2), ix.take(10) + 1);
        let (first, mid, last, c) = (*ix.of(&edge), [0u8, 1, 0xff][ix.take(3)], *ix.of(&edge), *ix.of(&content));
        let mut b = if tag == 1 { vec![2] } else { vec![] };
        b.push(0x80 + k as u8);
        let mut o = vec![mid; k];
        o[0] = first;
        *o.last_mut().unwrap() = last;
        b.extend(o);
        b.extend(std::iter::repeat(0x5a).take(c));
        case(&b, &[op, Read], tr)
    });
    let first: Vec<u8> = (0..=255).collect();
    run.sweep("first-byte", 256 * 3 * 4 * n as u64, |i, tr| {
        let mut ix = Ix(i);
        let op = *ix.of(&OPS);
        let (f, pre, c) = (*ix.of(&first), ix.take(3), [0usize, 1, 126, 300][ix.take(4)]);
        let mut b = [vec![], vec![2], vec![0x30]][pre].clone();
        b.push(f);
        b.extend(std::iter::repeat(1).take(c));
        case(&b, &[op, op], tr)
    });
    // integers of every size and boundary value, with paddings, followed by further bytes
    let vs = [near(&N.m, 2), near(&U256::ZERO, 2), vec![U256::MAX, U256::ONE.shl(255), U256::ONE.shl(255).addi(-1), U256::ONE.shl(247), U256::ONE.shl(248)]].concat();
    run.sweep("integers", (vs.len() * 5 * 4 * 3 * 2) as u64, |i, tr| {
        let mut ix = Ix(i);
        let (v, pad, strip, tail, lax) = (ix.of(&vs), ix.take(5), ix.take(4), ix.take(3), ix.take(2) == 1);
        let mut c = v.be().to_vec();
        match strip { 0 => (), 1 => { while c.first() == Some(&0) { c.remove(0); } } 2 => { c.remove(0); } _ => { c.push(1); } }
        for _ in 0..pad { c.insert(0, 0); }
        let mut b = vec![2, c.len() as u8];
        b.extend(c);
        b.extend(vec![2u8; tail]);
        case(&b, &[if lax { IntLax } else { Int }, Read], tr)
    });
}
