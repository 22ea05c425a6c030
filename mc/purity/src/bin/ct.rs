//! Secret independence (C25): executes the secret-key operations of the optimised library under
//! valgrind's lackey for every key of a bounded set and compares the complete sequences of
//! executed instruction addresses and of data addresses, event by event, with those of a base key.
use engine::{ensure, hex, Run};
use libsecp256k1::*;
use refmodel::alpha;
use refmodel::num::{N, U256};
use std::collections::HashMap;
use std::hint::black_box;
use std::io::{BufRead, BufReader};
use std::os::fd::AsRawFd;
use std::sync::Mutex;
use std::process::{Command, Stdio};

/// Region boundaries are stores to this address.
const MARK: u64 = 0x7_0000_0000;
#[inline(never)]
fn mark(v: u64) { unsafe { std::ptr::write_volatile(MARK as *mut u64, v) } }

fn point(b: &[u8]) -> PublicKey { PublicKey::parse_slice(b, None).unwrap() }
/// The operations, each with its public inputs fixed.
const OPS: [&str; 15] = ["public-key", "sign-0", "sign-1", "ecdh-0", "ecdh-1", "parse", "serialize", "tweak-add", "tweak-mul", "inverse", "clear", "public-key-boxed", "sign-nonce", "generator-multiple", "scalar-negate"];
const BOXED: usize = 11;
struct Env { q: [PublicKey; 2], m: [Message; 2], t: SecretKey, d: curve::Scalar, gen: Option<Box<curve::ECMultGenContext>> }
#[inline(never)]
fn perform(op: usize, key: &[u8; 32], k: &SecretKey, e: &Env) {
    match op {
        0 => { black_box(PublicKey::from_secret_key(black_box(k))); }
        1 | 2 => { black_box(sign(&e.m[op - 1], black_box(k))); }
        3 | 4 => { let _ = black_box(SharedSecret::<sha2::Sha256>::new(&e.q[op - 3], black_box(k))); }
        5 => { let _ = black_box(SecretKey::parse(black_box(key))); }
        6 => { black_box(black_box(k).serialize()); }
        7 => { let mut x = *black_box(k); let _ = black_box(x.tweak_add_assign(&e.t)); black_box(x); }
        8 => { let mut x = *black_box(k); let _ = black_box(x.tweak_mul_assign(&e.t)); black_box(x); }
        9 => { black_box(black_box(k).inv()); }
        10 => { let mut x = *black_box(k); x.clear(); black_box(x); }
        12 => { let s: curve::Scalar = (*black_box(k)).into(); let _ = black_box(ECMULT_GEN_CONTEXT.sign_raw(&e.d, &e.m[0].0, &s)); }
        13 => { let s: curve::Scalar = (*black_box(k)).into(); let mut j = curve::Jacobian::default(); ECMULT_GEN_CONTEXT.ecmult_gen(&mut j, &s); black_box(j); }
        14 => { let s: curve::Scalar = (*black_box(k)).into(); black_box(-s); }
        _ => { black_box(PublicKey::from_secret_key_with_context(black_box(k), e.gen.as_ref().unwrap())); }
    }
}
fn traced(op: usize, file: &str) {
    let raw = std::fs::read(file).unwrap();
    let keys = &raw[130..];
    let t = SecretKey::parse(&[0x5a; 32]).unwrap();
    let e = Env { q: [point(&raw[..65]), point(&raw[65..130])], m: [Message::parse(&[7; 32]), Message::parse(&[0xff; 32])], t, d: t.into(), gen: if op == BOXED { Some(curve::ECMultGenContext::new_boxed()) } else { None } };
    unsafe {
        let m = libc::mmap(MARK as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
        assert!(m as u64 == MARK);
    }
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let exe = std::env::current_exe().unwrap();
    let base = maps.lines().filter(|l| l.ends_with(&*exe.to_string_lossy())).filter_map(|l| u64::from_str_radix(l.split('-').next()?, 16).ok()).min();
    let line = format!("BASE {:x}\n", base.unwrap_or(0));
    unsafe { libc::write(2, line.as_ptr() as *const _, line.len()); }
    let n = keys.len() / 32;
    for r in 0..n + 1 {
        let mut b = [0u8; 32];
        b.copy_from_slice(&keys[32 * r.saturating_sub(1)..][..32]);
        let k = SecretKey::parse(&b).unwrap();
        mark(1); // the first round only warms up
        perform(op, &b, &k, &e);
        mark(2);
    }
    unsafe { libc::_exit(0) }
}

/// What an operation publishes beyond its result's value: parity of the nonce point, low-s flip.
fn outcome(op: usize, k: &U256) -> u8 {
    let t = U256::from_be(&[0x5a; 32]);
    let (d, m, nonce) = match op {
        1 | 2 => {
            let m = N.red(&U256::from_be(&[[7; 32], [0xff; 32]][op - 1]));
            let mut g = refmodel::sha::Rfc6979::new(&k.be(), &m.be());
            (*k, m, U256::from_be(&g.next()))
        }
        12 => (t, U256::from_be(&[7; 32]), *k),
        _ => return 0,
    };
    let rp = refmodel::ec::mul_g(&nonce);
    let s = N.mul(&N.inv(&nonce), &N.add(&m, &N.mul(&N.red(&rp.x()), &d)));
    rp.y().is_odd() as u8 | ((s > N.half()) as u8) << 1
}

type Ev = (u8, u64);
fn symbol(exe: &std::path::Path, addr: u64, base: u64) -> String {
    let out = match Command::new("nm").args(["-nC", "--defined-only"]).arg(exe).output() { Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(), Err(_) => return String::new() };
    let syms: Vec<(u64, &str)> = out.lines().filter_map(|l| { let mut p = l.splitn(3, ' '); Some((u64::from_str_radix(p.next()?, 16).ok()?, p.nth(1)?)) }).collect();
    syms.iter().rev().find(|s| s.0 + base <= addr).map(|s| format!(" in {}+{:#x}", s.1, addr - s.0 - base)).unwrap_or_default()
}

/// Runs one traced process over base + keys; returns the number of events of the base trace.
fn compare(op: usize, base: &U256, keys: &[U256], uid: &str) -> Result<u64, String> {
    let exe = std::env::current_exe().unwrap();
    let file = std::env::temp_dir().join(format!("ct-{}-{:010}-{:0>24}", "k", std::process::id(), uid));
    let mut raw = vec![];
    for k in [9, 0x5a] {
        let mut b = [k; 32];
        if k == 9 { b[..31].fill(0); }
        raw.extend(PublicKey::from_secret_key(&SecretKey::parse(&b).unwrap()).serialize());
    }
    raw.extend(base.be());
    for k in keys { raw.extend(k.be()); }
    std::fs::write(&file, &raw).map_err(|e| e.to_string())?;
    let r = compare_file(op, base, keys, &exe, &file);
    let _ = std::fs::remove_file(&file);
    r
}
fn compare_file(op: usize, base: &U256, keys: &[U256], exe: &std::path::Path, file: &std::path::Path) -> Result<u64, String> {
    let mut c = Command::new("valgrind").args(["--tool=lackey", "--trace-mem=yes", "--basic-counts=no", "--quiet"]).arg(exe).arg("--traced").arg(OPS[op]).arg(file)
        .env_clear().env("PATH", std::env::var("PATH").unwrap_or_default())
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().map_err(|e| format!("SETUP valgrind: {}", e))?;
    let pipe = c.stderr.take().unwrap();
    unsafe { libc::fcntl(pipe.as_raw_fd(), libc::F_SETPIPE_SZ, 1 << 20); }
    let mut load = 0u64;
    let mut rd = BufReader::with_capacity(1 << 20, pipe);
    let mut reference: Vec<Ev> = vec![];
    let mut pos = 0usize;
    let (mut region, mut inside) = (0usize, false);
    let mut last_i: u64 = 0;
    let mut result: Result<u64, String> = Ok(0);
    let mut line = vec![];
    let mut tail = String::new();
    let rounds = keys.len() + 2;
    loop {
        line.clear();
        if rd.read_until(b'\n', &mut line).unwrap_or(0) == 0 { break; }
        if line.starts_with(b"BASE ") { load = u64::from_str_radix(String::from_utf8_lossy(&line[5..]).trim(), 16).unwrap_or(0); continue; }
        if line.len() < 5 || line.starts_with(b"==") || !(line[0] == b'I' || line[0] == b' ') { if tail.len() < 2000 { tail.push_str(&String::from_utf8_lossy(&line)); } continue; }
        let kind = if line[0] == b'I' { b'I' } else { line[1] };
        let mut a = 0u64;
        for &b in &line[3..] { match b { b'0'..=b'9' => a = a << 4 | (b - b'0') as u64, b'a'..=b'f' => a = a << 4 | (b - b'a' + 10) as u64, _ => break } }
        if kind == b'I' { last_i = a; }
        if kind == b'S' && a == MARK {
            if !inside { inside = true; pos = 0; } else {
                inside = false;
                if region >= 2 && pos != reference.len() && result.is_ok() {
                    result = Err(format!("the trace of key {} ends after {} events, that of {} has {}", hex(&keys[region - 2].be()), pos, hex(&base.be()), reference.len()));
                }
                region += 1;
            }
            continue;
        }
        if !inside { continue; }
        if region == 1 { reference.push((kind, a)); }
        else if region >= 2 && result.is_ok() {
            if reference.get(pos) != Some(&(kind, a)) {
                let w = reference.get(pos).map(|e| format!("{}{:x}", e.0 as char, e.1)).unwrap_or("end".into());
                result = Err(format!("{}: with key {} event {} is {}{:x}, with key {} it is {}; last instruction at {:x}{}", OPS[op], hex(&keys[region - 2].be()), pos, kind as char, a, hex(&base.be()), w, last_i, symbol(exe, last_i, load)));
            }
        }
        pos += 1;
    }
    let st = c.wait().map_err(|e| e.to_string())?;
    result.as_ref().map_err(|e| e.clone())?;
    if !st.success() || region != rounds { return Err(format!("SETUP traced process ended with {:?} after {} of {} regions: {}", st, region, rounds, tail)); }
    Ok(reference.len() as u64)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &s[..]) == Some("--traced") { traced(OPS.iter().position(|o| *o == a[2]).unwrap(), &a[3]); }
    engine::HANG_SECS.store(6 * 3600, std::sync::atomic::Ordering::SeqCst);
    let run = Run::from_args();
    let base = U256::from_be(&[0x3c; 32]);
    // every digit at every position of the 4-bit recoding, single digits, boundaries, generic keys
    let keys = |n: usize| -> Vec<U256> {
        let mut v = vec![base];
        for w in 0..16u8 { v.push(N.red(&U256::from_be(&[w * 17; 32]))); }
        v.extend([U256::from(1), N.m.addi(-1), N.half(), U256::from(1).shl(255), U256::from(0xffff).shl(128)]);
        v.extend(alpha::generic("ct", 4));
        v.extend(alpha::scalars_tiny());
        for k in 0..64 { v.push(N.red(&U256::from([1, 15, 8][k % 3]).shl(4 * k))); }
        v.extend(alpha::generic("ct2", 64));
        v.extend(alpha::scalars_mid());
        for k in 0..64 { for d in 1..16u64 { v.push(N.red(&U256::from(d).shl(4 * k))); } }
        v = alpha::nonzero(alpha::dedup(v));
        v.truncate(n);
        v
    };
    let mut cases: Vec<(usize, U256, Vec<U256>)> = vec![];
    for op in [3, 4, 1, 2, 12, 0, 13, BOXED, 9, 5, 6, 7, 8, 10, 14] {
        let (quick, thorough, per) = match op {
            0 => (26, 400, 9), 1 => (25, 400, 6), 2 => (13, 200, 6), 3 => (25, 400, 6), 4 => (11, 200, 5), 9 => (25, 1000, 8),
            BOXED => (0, 40, 20), 12 => (21, 400, 6), 13 => (21, 400, 10), _ => (1200, 4000, 400),
        };
        // operations that publish a parity or a low-s flip may depend on it: one base key for each such outcome
        let mut groups: Vec<(u8, Vec<U256>)> = vec![];
        for k in keys(run.q(quick, thorough)) {
            let c = outcome(op, &k);
            match groups.iter_mut().find(|g| g.0 == c) { Some(g) => g.1.push(k), None => groups.push((c, vec![k])) }
        }
        for (_, g) in groups { cases.extend(g[1..].chunks(per).map(|c| (op, g[0], c.to_vec()))); }
    }
    let memo: Mutex<HashMap<u64, Result<u64, String>>> = Default::default();
    run.sweep("traces", cases.len() as u64, |i, tr| {
        let (op, base, c) = &cases[i as usize];
        tr.note(|| format!("{}: {} keys {} compared with {}", OPS[*op], c.len(), c.iter().take(4).map(|k| hex(&k.be())).collect::<Vec<_>>().join(" "), hex(&base.be())));
        let had = memo.lock().unwrap().get(&i).cloned();
        let r = match had { Some(r) => r, None => compare(*op, base, c, &format!("{}-{}", op, i)) };
        if matches!(&r, Err(e) if e.starts_with("SETUP")) { eprintln!("{}", r.unwrap_err()); std::process::exit(3) }
        memo.lock().unwrap().insert(i, r.clone());
        let n = r?;
        ensure!(n > 10, "empty trace");
        tr.note(|| format!("{} instruction and data addresses each", n));
        tr.steps(c.len() as u64);
        Ok(OPS[*op])
    });
    run.finish()
}
