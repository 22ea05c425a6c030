//! C27: every answer of the memory allocator, and every block it hands out, for every operation.
//!
//! Each execution is a forked process whose allocations come from an arena of guarded pages: a
//! block ends (or starts) at a page that cannot be touched, a freed block becomes such a page, and
//! the enumerated answers of the allocator decide which requests fail.
use engine::*;
use purity::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::OnceLock;

// ------------------------------------------------------------------ the allocator
const ARENA: usize = 0x5000_0000_0000;
const ARENA_LEN: usize = 1 << 36;
const PAGE: usize = 4096;
const MAXB: usize = 1 << 17;
const FREED: u8 = 0x5a;
#[derive(Clone, Copy)]
struct Block { p: usize, size: usize, align: usize, base: usize, pages: usize, live: bool }
/// Used by a forked child only, which has one thread that allocates from the arena.
struct State {
    on: bool,
    fail_at: u64,      // the number of the first request that fails (1-based, 0: none)
    sticky: bool,      // and all later ones
    before: bool,      // guard page before the block instead of after it
    fill: u8,
    requests: u64,
    bytes: usize,      // asked for in total
    largest: usize,
    next: usize,
    n: usize,
    live: usize,
    out: i32,
    blocks: [Block; MAXB],
}
static mut ST: State = State { on: false, fail_at: 0, sticky: false, before: false, fill: 0, requests: 0, bytes: 0, largest: 0, next: ARENA, n: 0, live: 0, out: -1,
    blocks: [Block { p: 0, size: 0, align: 0, base: 0, pages: 0, live: false }; MAXB] };
unsafe fn st() -> &'static mut State { &mut *std::ptr::addr_of_mut!(ST) }

/// Reports from inside the allocator, where nothing may be allocated.
unsafe fn stop(what: &str, a: usize, b: usize) -> ! {
    let mut t = [0u8; 300];
    let mut n = 0;
    let mut put = |s: &[u8]| for c in s { if n < t.len() { t[n] = *c; n += 1; } };
    put(b"!");
    put(what.as_bytes());
    for v in [a, b] {
        put(b" ");
        let mut d = [0u8; 20];
        let (mut k, mut v) = (20, v);
        loop { k -= 1; d[k] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } }
        put(&d[k..]);
    }
    libc::write(st().out, t.as_ptr() as *const _, n);
    libc::_exit(0)
}
unsafe fn canary(b: &Block) -> bool {
    let end = b.base + b.pages * PAGE;
    (b.base..b.p).chain(b.p + b.size..end).all(|a| *(a as *const u8) == 0xc7)
}
/// Bytes held outside the arena.
static HELD: AtomicI64 = AtomicI64::new(0);
struct Guarded;
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if !s.on { HELD.fetch_add(l.size() as i64, Ordering::Relaxed); return System.alloc(l); }
        s.requests += 1;
        if s.fail_at != 0 && (s.requests == s.fail_at || s.sticky && s.requests > s.fail_at) { return std::ptr::null_mut(); }
        s.bytes += l.size();
        s.largest = s.largest.max(l.size());
        let pages = (l.size() + l.align() + PAGE - 1) / PAGE;
        let base = s.next + PAGE;
        s.next = base + pages * PAGE;
        if s.next + PAGE > ARENA + ARENA_LEN || s.n == MAXB { stop("harness: arena exhausted", s.n, l.size()); }
        if libc::mprotect(base as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 { stop("harness: mprotect", s.n, pages); }
        let p = if s.before { (base + l.align() - 1) & !(l.align() - 1) } else { (base + pages * PAGE - l.size()) & !(l.align() - 1) };
        std::ptr::write_bytes(base as *mut u8, 0xc7, pages * PAGE);
        std::ptr::write_bytes(p as *mut u8, s.fill, l.size());
        s.blocks[s.n] = Block { p, size: l.size(), align: l.align(), base, pages, live: true };
        s.n += 1;
        s.live += 1;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        let a = p as usize;
        if a < ARENA || a >= ARENA + ARENA_LEN { HELD.fetch_sub(l.size() as i64, Ordering::Relaxed); return System.dealloc(p, l); }
        let Some(i) = (0..s.n).rev().find(|i| s.blocks[*i].p == a) else { stop("gives back memory that is no block: offset, size", a - ARENA, l.size()) };
        let b = s.blocks[i];
        if !b.live { stop("gives back a block twice: number, size", i, b.size); }
        if b.size != l.size() { stop("gives back a block with another size: was, is", b.size, l.size()); }
        if b.align != l.align() { stop("gives back a block with another alignment: was, is", b.align, l.align()); }
        if !canary(&b) { stop("writes outside a block: number, size", i, b.size); }
        s.blocks[i].live = false;
        s.live -= 1;
        std::ptr::write_bytes(p, FREED, l.size());
        libc::mprotect(b.base as *mut _, b.pages * PAGE, libc::PROT_NONE);
        libc::madvise(b.base as *mut _, b.pages * PAGE, libc::MADV_DONTNEED);
    }
}
#[global_allocator]
static A: Guarded = Guarded;

unsafe fn arena() {
    let p = libc::mmap(ARENA as *mut _, ARENA_LEN, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
    if p as usize != ARENA { libc::_exit(9); }
}

// ------------------------------------------------------------------ executions
#[derive(Debug)]
enum End { Out(Vec<u8>), Handler, Died(String) }
/// Runs `f` in a forked child: what it returned (or reported), or how the process ended.
fn child(f: impl FnOnce(i32) -> Vec<u8>) -> End {
    unsafe {
        let (mut fds, mut err) = ([0i32; 2], [0i32; 2]);
        if libc::pipe(fds.as_mut_ptr()) != 0 || libc::pipe(err.as_mut_ptr()) != 0 { return End::Died("pipe".into()); }
        let pid = libc::fork();
        if pid < 0 { return End::Died("fork".into()); }
        if pid == 0 {
            libc::close(fds[0]);
            libc::dup2(err[1], 2);
            libc::alarm(100);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(fds[1]))).unwrap_or_else(|_| b"!harness panic".to_vec());
            let mut o = 0;
            while o < r.len() { let n = libc::write(fds[1], r[o..].as_ptr() as *const _, r.len() - o); if n <= 0 { break; } o += n as usize; }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        libc::close(err[1]);
        let drain = |fd: i32| { let mut v = vec![]; let mut b = [0u8; 4096]; loop { let n = libc::read(fd, b.as_mut_ptr() as *mut _, b.len()); if n <= 0 { break; } v.extend_from_slice(&b[..n as usize]); } libc::close(fd); v };
        let out = drain(fds[0]);
        let text = String::from_utf8_lossy(&drain(err[0])).into_owned();
        let mut s = 0;
        libc::waitpid(pid, &mut s, 0);
        if libc::WIFSIGNALED(s) {
            let sig = libc::WTERMSIG(s);
            if sig == libc::SIGABRT && text.contains("memory allocation of") { return End::Handler; }
            return End::Died(if sig == libc::SIGALRM { "does not terminate".into() } else { format!("killed by signal {} ({})", sig, text.trim().chars().take(200).collect::<String>()) });
        }
        if libc::WEXITSTATUS(s) != 0 { return End::Died(format!("exit status {}", libc::WEXITSTATUS(s))); }
        End::Out(out)
    }
}
static OPS: OnceLock<Vec<Named>> = OnceLock::new();
/// What an operation returns with the plain allocator, and the number of requests it makes.
static WANT: OnceLock<Vec<(Vec<u8>, u64)>> = OnceLock::new();
const ROOM: usize = 1 << 16;

/// The operation with its output, the panic marked.
fn exec(op: &Named, o: &mut Out) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(o, &Cx::empty())));
    if r.is_err() { o.b(b"PANIC"); }
}
struct Seen { out: Vec<u8>, requests: u64, bytes: usize, largest: usize, live: [usize; 3], damaged: bool }
/// The operation `times` times under the guarded allocator.
fn guarded_run(op: usize, times: usize, fill: u8, before: bool, fail_at: u64, sticky: bool) -> End {
    child(|fd| unsafe {
        arena();
        std::panic::set_hook(Box::new(|_| ()));
        let mut outs = vec![];
        let mut live = [0usize; 3];
        for _ in 0..times { outs.push(Out(Vec::with_capacity(ROOM))); }
        let s = st();
        s.out = fd; s.fill = fill; s.before = before; s.fail_at = fail_at; s.sticky = sticky;
        let op = &OPS.get().unwrap()[op];
        let cx = Cx::empty();
        let mut requests = 0;
        for k in 0..times {
            s.on = true;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(&mut outs[k], &cx)));
            s.on = false;
            if k == 0 { requests = s.requests; }
            if r.is_err() { outs[k].b(b"PANIC"); }
            drop(r);
            live[k] = s.live;
        }
        let damaged = (0..s.n).any(|i| s.blocks[i].live && !canary(&s.blocks[i]));
        let mut v = vec![b'k'];
        for x in [requests, s.bytes as u64 / times as u64, s.largest as u64, live[0] as u64, live[1] as u64, live[2] as u64, damaged as u64] { v.extend(x.to_le_bytes()); }
        for o in &outs { v.extend((o.0.len() as u64).to_le_bytes()); v.extend_from_slice(&o.0); }
        v
    })
}
/// Bytes held by the process after `a` and after `b` executions.
fn repeated(op: usize, a: usize, b: usize) -> Result<(i64, i64), String> {
    let e = child(|_| {
        std::panic::set_hook(Box::new(|_| ()));
        let op = &OPS.get().unwrap()[op];
        let cx = Cx::empty();
        let mut out = Out(Vec::with_capacity(ROOM));
        let mut at = [0i64; 2];
        for k in 1..=b {
            out.0.clear();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(&mut out, &cx)));
            drop(r);
            if k == a { at[0] = HELD.load(Ordering::Relaxed); }
        }
        at[1] = HELD.load(Ordering::Relaxed);
        at.iter().flat_map(|x| x.to_le_bytes()).collect()
    });
    match e {
        End::Out(v) if v.len() == 16 => Ok((i64::from_le_bytes(v[..8].try_into().unwrap()), i64::from_le_bytes(v[8..].try_into().unwrap()))),
        End::Out(v) => Err(String::from_utf8_lossy(&v).into_owned()),
        e => Err(format!("{:?}", e)),
    }
}
fn seen(e: End) -> Result<Vec<Seen>, String> {
    match e {
        End::Died(t) => Err(t),
        End::Handler => Err("the allocation-error handler is entered although no request failed".into()),
        End::Out(v) => {
            if v.first() != Some(&b'k') { return Err(String::from_utf8_lossy(&v[v.len().min(1)..]).into_owned()); }
            let w = |k: usize| u64::from_le_bytes(v[1 + 8 * k..9 + 8 * k].try_into().unwrap());
            let mut r = vec![];
            let mut o = 57;
            while o < v.len() {
                let n = u64::from_le_bytes(v[o..o + 8].try_into().unwrap()) as usize;
                r.push(Seen { out: v[o + 8..o + 8 + n].to_vec(), requests: w(0), bytes: w(1) as usize, largest: w(2) as usize, live: [w(3) as usize, w(4) as usize, w(5) as usize], damaged: w(6) != 0 });
                o += 8 + n;
            }
            Ok(r)
        }
    }
}

/// Operations on long inputs.
fn long_ops() -> Vec<Named> {
    use libsecp256k1::*;
    let mut v: Vec<Named> = vec![];
    let mut add = |name: String, f: Op| v.push(Named { name, f, slow: false });
    let key = refmodel::ec::mul_g(&gen("history key"));
    for n in [1000usize, 100_000] {
        for b in [0x00u8, 0x02, 0x04, 0x30, 0xff] {
            add(format!("slices of {} bytes {:02x}", n, b), Box::new(move |o, _| {
                let t = vec![b; n];
                o.res(&SecretKey::parse_slice(&t), |_, _| ()); o.res(&Message::parse_slice(&t), |_, _| ());
                o.res(&Signature::parse_standard_slice(&t), |_, _| ()); o.res(&Signature::parse_overflowing_slice(&t), |_, _| ());
                o.res(&Signature::parse_der(&t), |_, _| ()); o.res(&Signature::parse_der_lax(&t), |_, _| ());
                for f in [None, Some(PublicKeyFormat::Compressed), Some(PublicKeyFormat::Full), Some(PublicKeyFormat::Raw)] { o.res(&PublicKey::parse_slice(&t, f), |_, _| ()); }
            }));
        }
        // numbers written in the input that are far larger than it
        for len in [vec![0x84u8, 0xff, 0xff, 0xff, 0xff], vec![0x84, 0x10, 0, 0, 0], vec![0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0x88, 0, 0, 0, 0, 0x40, 0, 0, 0], vec![0x83, 0xff, 0xff, 0xff]] {
            for at in 0..2 {
                let len = len.clone();
                add(format!("der of {} bytes with length {} at {}", n, hex(&len), at), Box::new(move |o, _| {
                    let mut t = vec![0x30];
                    if at == 1 { t.extend_from_slice(&[0x20, 2]); }
                    t.extend_from_slice(&len);
                    t.resize(n, 2);
                    o.res(&Signature::parse_der(&t), |o, s| o.sig(s));
                    o.res(&Signature::parse_der_lax(&t), |o, s| o.sig(s));
                    let mut c = util::Decoder::new(&t[if at == 1 { 3 } else { 1 }..]);
                    o.res(&c.read_len_lax(), |o, n| o.n(*n as u64));
                }));
            }
        }
        for good in [true, false] {
            add(format!("serde of {} {}", n, if good { "well-formed" } else { "other characters" }), Box::new(move |o, _| {
                let mut j = String::with_capacity(n + 2);
                j.push('"');
                for _ in 0..n / 4 { j.push_str(if good { "AAAA" } else { "\u{e9}!" }); }
                j.push('"');
                o.n(serde_json::from_str::<PublicKey>(&j).is_ok() as u64);
                let mut w = (n as u64).to_le_bytes().to_vec();
                w.resize(n + 8, 2);
                o.n(bincode::deserialize::<PublicKey>(&w).is_ok() as u64);
            }));
        }
    }
    // a sequence whose announced length is far beyond its content
    for n in [u64::MAX, 1 << 40, 1 << 20, 66] {
        add(format!("bincode length {}", n), Box::new(move |o, _| {
            let mut w = n.to_le_bytes().to_vec();
            w.resize(73, 4);
            o.n(bincode::deserialize::<PublicKey>(&w).is_ok() as u64);
        }));
    }
    for n in [100usize, 3000] {
        let b = key.ser65();
        add(format!("combine of {}", n), Box::new(move |o, _| {
            let k = vec![PublicKey::parse(&b).unwrap(); n];
            o.res(&PublicKey::combine(&k), |o, q| o.pk(q));
        }));
        add(format!("random after {} refusals", n), Box::new(move |o, _| {
            let mut d = vec![vec![0xffu8]; n];
            d.push(vec![7]);
            let mut g = ListRng { d, i: 0 };
            o.b(&SecretKey::random(&mut g).serialize());
        }));
    }
    v
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0"); // the allocation-error handler would print one, with many allocations
    let run = Run::from_args();
    let mut ops = history_ops();
    ops.extend(long_ops());
    let n = ops.len() as u64;
    let _ = OPS.set(ops);
    let ops = OPS.get().unwrap();
    let name = |i: usize| ops[i].name.as_str();
    // reference: the plain allocator; and how many requests there are
    let mut want = vec![];
    for i in 0..ops.len() {
        let plain = match child(|_| { std::panic::set_hook(Box::new(|_| ())); let mut o = Out::default(); exec(&ops[i], &mut o); o.0 }) { End::Out(v) => v, e => format!("{:?}", e).into_bytes() };
        let requests = seen(guarded_run(i, 1, 0xa5, false, 0, false)).ok().and_then(|v| v.first().map(|s| s.requests)).unwrap_or(0);
        want.push((plain, requests));
    }
    let _ = WANT.set(want);
    let want = WANT.get().unwrap();

    let fills = run.q(vec![0x00u8, 0xff, 0xa5], vec![0x00, 0xff, 0xa5, 0x01, 0x80]);
    let per = fills.len() as u64 * 2;
    run.sweep("blocks", n * per, |i, tr| {
        let (op, k) = ((i / per) as usize, i % per);
        let (fill, before) = (fills[(k / 2) as usize], k % 2 == 1);
        tr.note(|| format!("{}, memory filled with {:02x}, guard {} each block", name(op), fill, if before { "before" } else { "after" }));
        tr.steps(3);
        let r = seen(guarded_run(op, 3, fill, before, 0, false))?;
        for (k, s) in r.iter().enumerate() {
            ensure!(s.out == want[op].0, "call {} returns {} with guarded memory and {} without", k + 1, hex(&s.out[..s.out.len().min(200)]), hex(&want[op].0[..want[op].0.len().min(200)]));
        }
        ensure!(!r[0].damaged, "writes outside a block that it keeps");
        ensure!(r[0].live[1] >= r[0].live[2], "holds {} blocks after two calls and {} after three", r[0].live[1], r[0].live[2]);
        Ok(if r[0].requests == 0 { "asks for no memory" } else { "blocks used correctly and given back" })
    });
    // growth that takes many repetitions to show
    run.sweep("repetitions", n, |i, tr| {
        let op = i as usize;
        let (a, b) = if ops[op].slow { (2, run.q(6, 40)) } else { (10, run.q(60, 2000)) };
        tr.note(|| format!("{}: {} and {} times", name(op), a, b));
        tr.steps(b as u64);
        let (x, y) = repeated(op, a, b)?;
        ensure!(y <= x, "holds {} bytes more after {} repetitions than after {}", y - x, b, a);
        Ok("holds no more")
    });
    // numbers in the input must not decide how much is asked for
    run.sweep("amounts", n, |i, tr| {
        let op = i as usize;
        let r = seen(guarded_run(op, 1, 0xa5, false, 0, false))?;
        let (b, l) = (r[0].bytes, r[0].largest);
        tr.note(|| format!("{}: {} bytes in {} requests, the largest {}", name(op), b, r[0].requests, l));
        tr.steps(1);
        let bound = if ops[op].slow { 64 << 20 } else { 8 << 20 };
        ensure!(b <= bound, "asks for {} bytes, more than {}", b, bound);
        Ok(if b == 0 { "none" } else if b < 4096 { "below 4 KiB" } else { "larger" })
    });
    // every request of every operation fails
    let mut cases: Vec<(usize, u64, bool)> = vec![];
    for op in 0..ops.len() { for k in 1..=want[op].1.min(run.q(60, 2000)) { for sticky in [false, true] { cases.push((op, k, sticky)); } } }
    run.sweep("failures", cases.len() as u64, |i, tr| {
        let (op, k, sticky) = cases[i as usize];
        tr.note(|| format!("{}: request {} of {} fails{}", name(op), k, want[op].1, if sticky { ", and all later ones" } else { "" }));
        tr.steps(1);
        match guarded_run(op, 1, 0xa5, false, k, sticky) {
            End::Handler => Ok("stops in the allocation-error handler"),
            End::Died(t) => Err(format!("after a failed allocation: {}", t)),
            e => {
                let s = seen(e)?;
                if s[0].out.ends_with(b"=PANIC") { return Ok("panics"); }
                ensure!(s[0].out == want[op].0, "goes on after a failed allocation and returns {}", hex(&s[0].out[..s[0].out.len().min(200)]));
                Ok("gives its result all the same")
            }
        }
    });
    // a small stack is enough
    let sizes: Vec<usize> = if std::env::var("MC_STACK").is_ok() { vec![16, 32, 48, 64, 96, 128, 192, 256, 512] } else { vec![64] };
    run.sweep("stack", n * sizes.len() as u64, |i, tr| {
        let (op, k) = ((i % n) as usize, sizes[(i / n) as usize]);
        tr.note(|| format!("{} on a stack of {} KiB", name(op), k));
        tr.steps(1);
        let r = child(|_| std::thread::Builder::new().stack_size(k << 10).spawn(move || {
            let mut o = Out(Vec::with_capacity(ROOM));
            (OPS.get().unwrap()[op].f)(&mut o, &Cx::empty());
            o.0
        }).unwrap().join().unwrap_or_else(|_| b"PANIC".to_vec()));
        match r {
            End::Out(v) => { ensure!(v == want[op].0, "another result on a stack of {} KiB", k); }
            End::Died(t) => return Err(format!("on a stack of {} KiB: {}", k, t)),
            End::Handler => return Err("allocation failure".into()),
        }
        Ok("is enough")
    });
    run.finish()
}
