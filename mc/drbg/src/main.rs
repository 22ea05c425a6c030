//! Nonce redraws of signing (C04): the generator the crate draws its nonces from is replaced by one
//! whose draws are scripted, and every sequence of rejected draws up to a depth is enumerated,
//! followed by every accepted draw.
use common::*;
use engine::{same, Ix, Run};
use libsecp256k1::*;
use refmodel::alpha::generic;
use refmodel::ec::mul_g;
use refmodel::ecdsa;
use refmodel::num::{N, U256};

fn main() {
    let run = Run::from_args();
    // the stand-in is the generator of RFC 6979 while no script is set
    let ks = refmodel::alpha::nonzero(refmodel::alpha::scalars_mid());
    run.sweep("stand-in", ks.len() as u64, |i, tr| {
        let (d, m) = (&ks[i as usize], &ks[(i as usize * 7 + 3) % ks.len()]);
        tr.note(|| format!("d={:?} m={:?}", d, m));
        hmac_drbg::script(&[]);
        let (sig, rec) = sign(&msg(m), &sk(d));
        same!(tr, (us(&sig.r), us(&sig.s), rec.serialize()), ecdsa::sign(d, m).0, "signature");
        same!(tr, hmac_drbg::drawn(), 1, "number of draws");
        Ok("RFC 6979")
    });
    let n = N.m;
    let g = |t: &str| generic(t, 1)[0];
    let depth = run.q(4usize, 7);
    // (key, a nonce k0, the message for which k0 and -k0 give s = 0)
    let cases: Vec<(U256, U256, U256)> = [(g("drbg key"), g("drbg nonce")), (U256::ONE, U256::ONE), (n.addi(-1), N.half()), (g("drbg key 2"), n.addi(-2))]
        .iter().map(|(d, k)| (*d, *k, N.neg(&N.mul(&N.red(&mul_g(k).x()), d)))).collect();
    let cases = &cases[..run.q(3, 4)];
    let max = U256([u64::MAX; 4]);
    for len in 0..=depth {
        let words = 6u64.pow(len as u32);
        let accepted = 5usize;
        run.sweep(["redraws-0", "redraws-1", "redraws-2", "redraws-3", "redraws-4", "redraws-5", "redraws-6", "redraws-7"][len], words * (accepted * cases.len()) as u64, |i, tr| {
            let mut ix = Ix(i);
            let (d, k0, m) = ix.of(cases);
            let last = [U256::ONE, n.addi(-1), g("drbg nonce a"), U256::from(2).shl(128), g("drbg nonce b")][ix.take(accepted)];
            let mut draws = vec![];
            for _ in 0..len { draws.push([U256::ZERO, n, n.addi(1), max, *k0, N.neg(k0)][ix.take(6)]); }
            draws.push(last);
            tr.note(|| format!("d={:?} m={:?} draws {:?}", d, m, draws));
            let good = |k: &U256| if k.is_zero() || *k >= n { None } else { ecdsa::sign_with_nonce(d, m, k) };
            let Some(at) = draws.iter().position(|k| good(k).is_some()) else { return Ok("-") };
            let want = good(&draws[at]).unwrap();
            let bytes: Vec<[u8; 32]> = draws.iter().map(|k| k.be()).collect();
            hmac_drbg::script(&bytes);
            let (sig, rec) = sign(&msg(m), &sk(d));
            same!(tr, (us(&sig.r), us(&sig.s), rec.serialize()), want, "signature");
            same!(tr, hmac_drbg::drawn(), at + 1, "number of draws");
            Ok("first usable draw used")
        });
    }
    run.finish()
}
