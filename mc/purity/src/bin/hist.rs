//! C19: every history and every preemption, on the real process state.
//!
//! The state of the system is the whole process; `fork` takes a copy of it. The tree of all
//! operation sequences up to a depth is explored by forking at every node, so every sequence
//! runs from a process in which nothing of the library has ever run.
use engine::*;
use purity::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

/// Fresh and freed memory holds a pattern.
struct Poison;
static FILL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0xa5);
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, (*shm()).fill as u8, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::ptr::write_bytes(p, 0x5a, l.size()); System.dealloc(p, l) }
}
#[global_allocator]
static A: Poison = Poison;

// ------------------------------------------------------------------ memory shared with children
/// At a fixed address, so that using it touches no static of this program.
const SHM: usize = 0x6000_0000_0000;
const MSG: usize = 4000;
const MAXR: usize = 64;
#[repr(C)]
struct Shm {
    fill: u64,
    // controlled scheduling
    regions: [(usize, usize); MAXR],
    nregions: usize,
    armed: AtomicU64,       // 0: no protection
    count: [AtomicU64; 2],  // accesses made by thread 0/1 while protected
    stop_at: [AtomicU64; 2],// access number before which the thread pauses (1-based, 0 never)
    extra: [AtomicU64; 2],  // instructions to run after that access before pausing
    paused: [AtomicU64; 2],
    go: [AtomicU64; 2],
    tid: [AtomicU64; 2],
    stepping: [AtomicU64; 2],
    left: [AtomicU64; 2],
    done: [AtomicU64; 2],
    addr: AtomicU64,
}
fn shm() -> *mut Shm { SHM as *mut Shm }
/// One slot per worker: a message from the child.
fn map_fixed(at: usize, len: usize) {
    unsafe {
        let p = libc::mmap(at as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != at { libc::write(2, b"cannot map\n".as_ptr() as *const _, 11); libc::_exit(9); }
    }
}
#[used]
#[link_section = ".init_array"]
static EARLY: extern "C" fn() = { extern "C" fn f() { map_fixed(SHM, 1 << 16); unsafe { (*shm()).fill = 0xa5; } } f };

/// Runs `f` in a forked child; the bytes it returns, or how it died.
fn child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { return Err("pipe".into()); }
        let pid = libc::fork();
        if pid < 0 { return Err("fork".into()); }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(60);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| b"?harness panic".to_vec());
            let mut o = 0;
            while o < r.len() { let n = libc::write(fds[1], r[o..].as_ptr() as *const _, r.len() - o); if n <= 0 { break; } o += n as usize; }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut b = [0u8; 4096];
        loop { let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()); if n <= 0 { break; } out.extend_from_slice(&b[..n as usize]); }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) { return Err(if libc::WTERMSIG(st) == libc::SIGALRM { "does not terminate".into() } else { format!("killed by signal {}", libc::WTERMSIG(st)) }); }
        if libc::WEXITSTATUS(st) != 0 { return Err(format!("exit status {}", libc::WEXITSTATUS(st))); }
        Ok(out)
    }
}

static OPS: OnceLock<Vec<Named>> = OnceLock::new();
static WANT: OnceLock<Vec<Vec<u8>>> = OnceLock::new();

fn exec(op: &Named, cx: &Cx) -> Vec<u8> {
    let mut o = Out::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.f)(&mut o, cx)));
    if r.is_err() { o.b(b"PANIC"); }
    o.0
}
#[inline(never)]
fn dirty(pattern: u8) {
    let mut a = [0u8; 200_000];
    for x in a.iter_mut() { unsafe { std::ptr::write_volatile(x, pattern) } }
    std::hint::black_box(&a);
}
fn text(b: &[u8]) -> String { let s = hex(b); if s.len() > 300 { format!("{}..({} bytes)", &s[..300], b.len()) } else { s } }
/// Compares what operation `i` returned with what it returns in a fresh process.
fn judge(i: usize, got: &[u8], what: &str) -> Vec<u8> {
    let w = &WANT.get().unwrap()[i];
    if got == &w[..] { vec![b'k'] } else { format!("{}: {} returns {} here and {} as the first call of a process", what, OPS.get().unwrap()[i].name, text(got), text(w)).into_bytes() }
}
fn settle(r: Result<Vec<u8>, String>, what: String) -> Result<u64, String> {
    let v = r.map_err(|e| format!("{}: {}", what, e))?;
    if v.first() == Some(&b'k') { Ok(u64::from_le_bytes(v[1..].iter().cloned().chain([0; 8]).take(8).collect::<Vec<_>>().try_into().unwrap())) } else { Err(String::from_utf8_lossy(&v).into_owned()) }
}
fn ok_n(n: u64) -> Vec<u8> { let mut v = vec![b'k']; v.extend(n.to_le_bytes()); v }

/// All extensions of the current process state by the operations in `set`, to `depth` more
/// calls. `Ok(calls made)` or what went wrong. Runs inside a forked child.
fn explore(set: &[usize], depth: usize, path: &mut Vec<usize>) -> Result<u64, String> {
    let ops = OPS.get().unwrap();
    let names = |p: &[usize]| p.iter().map(|i| ops[*i].name.clone()).collect::<Vec<_>>().join(", ");
    let mut n = 0;
    for &i in set {
        path.push(i);
        let what = format!("after [{}]", names(&path[..path.len() - 1]));
        n += settle(child(|| {
            let v = judge(i, &exec(&ops[i], &Cx::empty()), &what);
            if v[0] != b'k' { return v; }
            if depth <= 1 { return ok_n(1); }
            match explore(set, depth - 1, path) { Ok(n) => ok_n(n + 1), Err(e) => e.into_bytes() }
        }), format!("{}: {}", what, ops[i].name))?;
        path.pop();
    }
    Ok(n)
}

// ------------------------------------------------------------------ controlled preemption
fn writable_regions() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").unwrap().to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut v: Vec<(usize, usize)> = vec![];
    let mut end_of_exe = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let mine = f.get(5).map_or(false, |p| *p == exe);
        // the part of .bss beyond the file follows the last mapping of the executable
        if (mine || (f.len() < 6 && a == end_of_exe)) && f[1].starts_with("rw") { v.push((a, b)); }
        if mine { end_of_exe = b; }
    }
    v
}
unsafe fn protect(on: bool) {
    let s = shm();
    for k in 0..(*s).nregions { let (a, b) = (*s).regions[k]; libc::mprotect(a as *mut _, b - a, if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE }); }
}
unsafe fn me() -> usize {
    let t = libc::syscall(libc::SYS_gettid) as u64;
    if (*shm()).tid[1].load(SeqCst) == t { 1 } else { 0 }
}
unsafe fn pause(w: usize) {
    let s = shm();
    (*s).armed.store(0, SeqCst);
    protect(false);
    (*s).paused[w].store(1, SeqCst);
    while (*s).go[w].load(SeqCst) == 0 { libc::sched_yield(); }
}
const TF: i64 = 0x100;
extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let s = shm();
        let uc = uc as *mut libc::ucontext_t;
        let a = (*info).si_addr() as usize;
        let inside = (0..(*s).nregions).any(|k| { let (x, y) = (*s).regions[k]; a >= x && a < y });
        if !inside { libc::signal(libc::SIGSEGV, libc::SIG_DFL); return; }
        let w = me();
        if (*s).armed.load(SeqCst) == 0 { protect(false); return; } // lost a race with disarming
        let n = (*s).count[w].fetch_add(1, SeqCst) + 1;
        (*s).addr.store(a as u64, SeqCst);
        if (*s).stop_at[w].load(SeqCst) == n && (*s).extra[w].load(SeqCst) == 0 { pause(w); }
        else {
            if (*s).stop_at[w].load(SeqCst) == n { (*s).left[w].store((*s).extra[w].load(SeqCst), SeqCst); }
            protect(false);
            (*s).stepping[w].store(1, SeqCst);
            (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF;
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let s = shm();
        let uc = uc as *mut libc::ucontext_t;
        let w = me();
        if (*s).left[w].load(SeqCst) > 0 {
            if (*s).left[w].fetch_sub(1, SeqCst) == 1 { pause(w); (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF; }
            return;
        }
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
        if (*s).stepping[w].swap(0, SeqCst) == 1 && (*s).armed.load(SeqCst) != 0 { protect(true); }
    }
}
unsafe fn handlers() {
    for (sig, f) in [(libc::SIGSEGV, on_segv as *const () as usize), (libc::SIGTRAP, on_trap as *const () as usize)] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = f;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
    let r = writable_regions();
    let s = shm();
    (*s).nregions = r.len().min(MAXR);
    for (k, x) in r.iter().take(MAXR).enumerate() { (*s).regions[k] = *x; }
    for w in 0..2 { for f in [&(*s).count, &(*s).stop_at, &(*s).extra, &(*s).paused, &(*s).go, &(*s).tid, &(*s).stepping, &(*s).left, &(*s).done] { f[w].store(0, SeqCst); } }
    (*s).armed.store(0, SeqCst);
}
/// Private copy of the shared page for this child.
fn own_shm() {
    unsafe {
        let copy: Vec<u8> = std::slice::from_raw_parts(SHM as *const u8, 1 << 16).to_vec();
        libc::mmap(SHM as *mut _, 1 << 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
        std::ptr::copy_nonoverlapping(copy.as_ptr(), SHM as *mut u8, 1 << 16);
    }
}
/// Number of accesses to process-wide writable memory made by one operation, alone, in a
/// process where `first` ran before.
fn profile(op: usize, first: Option<usize>) -> Result<u64, String> {
    let ops = OPS.get().unwrap();
    let r = child(|| unsafe {
        own_shm();
        let cx = Cx::empty();
        if let Some(f) = first { exec(&ops[f], &cx); }
        handlers();
        let o = &ops[op];
        let w = &WANT.get().unwrap()[op];
        (*shm()).armed.store(1, SeqCst);
        protect(true);
        let got = exec(o, &cx);
        (*shm()).armed.store(0, SeqCst);
        protect(false);
        if got != *w { return judge(op, &got, "single-stepped"); }
        ok_n((*shm()).count[0].load(SeqCst))
    });
    settle(r, ops[op].name.clone())
}
/// Thread 0 runs `x` up to its `k`-th shared access (and `extra` instructions further), then
/// thread 1 runs `y` (up to its `j`-th access if j > 0), then 0 finishes, then 1 finishes.
fn interleave(x: usize, y: usize, first: Option<usize>, k: u64, extra: u64, j: u64) -> Result<u64, String> {
    let ops = OPS.get().unwrap();
    let what = format!("{} stopped before its shared access {}{} while {} runs{}", ops[x].name, k, if extra > 0 { format!(" plus {} instructions", extra) } else { String::new() }, ops[y].name, if j > 0 { format!(" to its access {}", j) } else { String::new() });
    let r = child(|| unsafe {
        own_shm();
        let cx = Cx::empty();
        if let Some(f) = first { exec(&ops[f], &cx); }
        handlers();
        let s = shm();
        let outs: [std::sync::Mutex<Vec<u8>>; 2] = Default::default();
        let start = [AtomicU64::new(0), AtomicU64::new(0)];
        std::thread::scope(|sc| {
            for (w, op) in [(0usize, x), (1, y)] {
                let (outs, st, cx) = (&outs, &start[w], &cx);
                sc.spawn(move || {
                    let s = shm();
                    let mut b = [0u8; 65536]; // touch the stack before protection starts
                    std::hint::black_box(&mut b);
                    (*s).tid[w].store(libc::syscall(libc::SYS_gettid) as u64, SeqCst);
                    while st.load(SeqCst) == 0 { libc::sched_yield(); }
                    let r = exec(&ops[op], cx);
                    (*s).armed.store(0, SeqCst);
                    protect(false);
                    *outs[w].lock().unwrap() = r;
                    (*s).done[w].store(1, SeqCst);
                });
            }
            while (*s).tid[0].load(SeqCst) == 0 || (*s).tid[1].load(SeqCst) == 0 { libc::sched_yield(); }
            let ms = |n: u64, f: &dyn Fn() -> bool| { let t = std::time::Instant::now(); while !f() && (t.elapsed().as_millis() as u64) < n { libc::sched_yield(); } f() };
            (*s).stop_at[0].store(k, SeqCst);
            (*s).extra[0].store(extra, SeqCst);
            (*s).armed.store(1, SeqCst);
            protect(true);
            start[0].store(1, SeqCst);
            while (*s).paused[0].load(SeqCst) == 0 && (*s).done[0].load(SeqCst) == 0 { libc::sched_yield(); }
            // now the other thread; it may have to wait for the first one (that is allowed)
            if j > 0 { (*s).stop_at[1].store(j, SeqCst); (*s).armed.store(1, SeqCst); protect(true); }
            start[1].store(1, SeqCst);
            let blocked = !ms(if j > 0 { 400 } else { 200 }, &|| (*s).done[1].load(SeqCst) == 1 || (*s).paused[1].load(SeqCst) == 1);
            if blocked { (*s).armed.store(0, SeqCst); protect(false); }
            (*s).go[0].store(1, SeqCst);
            ms(if j > 0 && !blocked { 400 } else { 20_000 }, &|| (*s).done[0].load(SeqCst) == 1);
            (*s).go[1].store(1, SeqCst);
            if !ms(20_000, &|| (*s).done[0].load(SeqCst) == 1 && (*s).done[1].load(SeqCst) == 1) { libc::alarm(1); loop { libc::sched_yield(); } }
        });
        for (w, op) in [(0usize, x), (1, y)] {
            let v = judge(op, &outs[w].lock().unwrap(), &what);
            if v[0] != b'k' { return v; }
        }
        ok_n((*s).count[0].load(SeqCst))
    });
    settle(r, what.clone())
}

fn main() {
    let run = Run::from_args();
    let _ = FILL.load(SeqCst);
    let all = match guarded(|| Ok(history_ops())) { Ok(o) => o, Err(m) => run.whole(|| panic!("{}", m)) };
    OPS.set(all).ok().unwrap();
    let ops = OPS.get().unwrap();
    let lazy = cfg!(feature = "lazy-static-context");
    // what each operation returns as the first call of a process
    WANT.set(ops.iter().map(|o| child(|| exec(o, &Cx::empty())).unwrap_or_else(|e| e.into_bytes())).collect()).ok().unwrap();
    let want = WANT.get().unwrap();
    let fast: Vec<usize> = (0..ops.len()).filter(|i| !ops[*i].slow).collect();
    let all: Vec<usize> = (0..ops.len()).collect();
    let n = ops.len() as u64;

    run.sweep("first-call", n, |i, tr| {
        let i = i as usize;
        tr.note(|| ops[i].name.clone());
        tr.steps(1);
        let has = |x: &[u8]| want[i].windows(x.len()).any(|w| w == x);
        ensure!(!has(b"PANIC"), "{} panics as the first call of a process", ops[i].name);
        ensure!(!has(b"ARGUMENT CHANGED"), "{} changes an argument passed by shared reference", ops[i].name);
        ensure!(!want[i].is_empty() && want[i][0] != b'k' && want[i][0] != b'd', "{} as the first call: {}", ops[i].name, String::from_utf8_lossy(&want[i]));
        Ok(if want[i].contains(&b'!') { "with an error" } else { "succeeds" })
    });
    // contents of memory the operation must not depend on
    run.sweep("uninitialised-memory", n * 4, |i, tr| {
        let (op, pat) = ((i / 4) as usize, [0x00u8, 0xff, 0x01, 0x80][(i % 4) as usize]);
        tr.note(|| format!("{} with stack and heap filled with {:#x}", ops[op].name, pat));
        tr.steps(1);
        settle(child(|| { own_shm(); unsafe { (*shm()).fill = pat as u64; } dirty(pat); judge(op, &exec(&ops[op], &Cx::empty()), "with other memory contents") }), ops[op].name.clone())?;
        Ok("same result")
    });
    // every sequence
    for (name, depth, set) in if lazy { vec![("histories-of-two", 2, run.q(fast.iter().cloned().step_by(3).collect(), fast.clone()))] }
        else { vec![("histories-of-two", 2, fast.clone()), ("histories-of-three", 3, run.q(fast.iter().cloned().step_by(3).collect(), fast.clone()))] } {
    let m = set.len() as u64;
    run.sweep(name, m * m, |i, tr| {
        let (a, b) = (set[(i / m) as usize], set[(i % m) as usize]);
        tr.note(|| format!("all histories starting with {}, {}", ops[a].name, ops[b].name));
        let c = settle(child(|| {
            exec(&ops[a], &Cx::empty());
            let v = judge(b, &exec(&ops[b], &Cx::empty()), &format!("after [{}]", ops[a].name));
            if v[0] != b'k' || depth == 2 { return if v[0] == b'k' { ok_n(2) } else { v }; }
            match explore(&set, depth - 2, &mut vec![a, b]) { Ok(n) => ok_n(n + 2), Err(e) => e.into_bytes() }
        }), format!("{}, {}", ops[a].name, ops[b].name))?;
        tr.steps(c);
        Ok("same results as in fresh processes")
    });
    }
    if !lazy {
        // deeper, over one operation of each kind
        let kinds: Vec<usize> = fast.iter().cloned().filter(|i| ["pubkey-0", "sign-0-0", "verify-good", "verify-negated-key", "recover-good", "recover-no-point", "ecdh-0-2", "pk-comp", "pk-comp-bad", "sk-tweak-cancel", "combine-cancel", "der-junk", "ecmult-cancel"].contains(&ops[*i].name.as_str())).collect();
        let kinds = run.q(kinds.iter().cloned().step_by(2).collect::<Vec<_>>(), kinds);
        let m = kinds.len() as u64;
        run.sweep("deep-histories", m * m, |i, tr| {
            let (a, b) = (kinds[(i / m) as usize], kinds[(i % m) as usize]);
            tr.note(|| format!("all histories of length {} starting with {}, {}", run.q(4, 5), ops[a].name, ops[b].name));
            let c = settle(child(|| {
                exec(&ops[a], &Cx::empty());
                exec(&ops[b], &Cx::empty());
                match explore(&kinds, run.q(2, 3), &mut vec![a, b]) { Ok(n) => ok_n(n + 2), Err(e) => e.into_bytes() }
            }), format!("{}, {}", ops[a].name, ops[b].name))?;
            tr.steps(c);
            Ok("same results as in fresh processes")
        });
    }
    run.sweep("around-context-creation", 2 * n * 2, |i, tr| {
        let s = ops.len() - 1 - (i % 2) as usize;
        let (x, y) = if (i / 2) % 2 == 0 { (s, (i / 4) as usize) } else { ((i / 4) as usize, s) };
        tr.note(|| format!("{} then {}", ops[x].name, ops[y].name));
        tr.steps(2);
        settle(child(|| { exec(&ops[x], &Cx::empty()); judge(y, &exec(&ops[y], &Cx::empty()), &format!("after [{}]", ops[x].name)) }), ops[y].name.clone())?;
        Ok("same result")
    });
    // the same call very often, then every other operation
    let reps = if lazy { run.q(300, 5000) } else { run.q(1500u64, 70_000) };
    run.sweep("repetition", fast.len() as u64, |i, tr| {
        let op = fast[i as usize];
        tr.note(|| format!("{} {} times, then everything", ops[op].name, reps));
        let c = settle(child(|| {
            unsafe { libc::alarm(900); }
            let cx = Cx::empty();
            for k in 0..reps { let v = judge(op, &exec(&ops[op], &cx), &format!("after {} calls of itself", k)); if v[0] != b'k' { return v; } }
            for &o in &all { let v = judge(o, &exec(&ops[o], &cx), &format!("after {} calls of {}", reps, ops[op].name)); if v[0] != b'k' { return v; } }
            ok_n(reps + all.len() as u64)
        }), ops[op].name.clone())?;
        tr.steps(c);
        Ok("same result every time")
    });

    // concurrency: find the operations that touch process-wide writable memory at all
    let befores: Vec<Option<usize>> = vec![None, Some(fast.iter().cloned().find(|i| ops[*i].name == "verify-good").unwrap())];
    let counts: Vec<AtomicU64> = (0..ops.len() * 2).map(|_| AtomicU64::new(0)).collect();
    let need = !run.replaying();
    run.sweep("shared-accesses", n * 2, |i, tr| {
        let (op, b) = ((i / 2) as usize, befores[(i % 2) as usize]);
        if ops[op].slow { return Ok("-"); }
        let c = profile(op, b)?;
        counts[i as usize].store(c, SeqCst);
        tr.note(|| format!("{} makes {} accesses to process-wide writable memory", ops[op].name, c));
        if c > 0 && std::env::var("MC_ACC").is_ok() { println!("{} {}", ops[op].name, c); }
        tr.steps(1);
        Ok(if c == 0 { "touches no process-wide memory: commutes with everything" } else { "touches process-wide memory" })
    });
    if !need { for &op in &fast { for b in 0..2 { counts[op * 2 + b].store(profile(op, befores[b]).unwrap_or(0), SeqCst); } } }
    // every preemption point of every pair that is not independent
    let mut sched: Vec<(usize, usize, Option<usize>, u64, u64, u64)> = vec![];
    let cap = run.q(40u64, 400);
    let mut cut = 0u64;
    for b in 0..2 {
        let touching: Vec<usize> = fast.iter().cloned().filter(|o| counts[o * 2 + b].load(SeqCst) > 0).collect();
        // the pairs: with itself, with its neighbours in the list and (thorough) with all
        for (p, &x) in touching.iter().enumerate() {
            let partners: Vec<usize> = if touching.len() <= run.q(6, 30) { touching.clone() } else { (0..run.q(3, 8)).map(|q| touching[(p + q) % touching.len()]).collect() };
            for y in partners {
                let (cx, cy) = (counts[x * 2 + b].load(SeqCst), counts[y * 2 + b].load(SeqCst));
                for k in 1..=cx.min(cap) {
                    sched.push((x, y, befores[b], k, 0, 0));
                    for e in run.q(vec![40], vec![1, 2, 5, 10, 20, 50, 100, 1000]) { sched.push((x, y, befores[b], k, e, 0)); }
                    for j in 1..=cy.min(run.q(3, 12)) { sched.push((x, y, befores[b], k, 0, j)); }
                }
                if cx > cap { cut += cx - cap; }
            }
        }
    }
    let limit = run.q(if lazy { 1200usize } else { 3000 }, 200_000);
    if sched.len() > limit { cut += (sched.len() - limit) as u64; let st = sched.len() / limit + 1; sched = sched.into_iter().step_by(st).collect(); }
    run.sweep("preemptions", sched.len() as u64, |i, tr| {
        let (x, y, b, k, e, j) = sched[i as usize];
        tr.note(|| format!("{} | {} after {:?} at access {} + {} and {} ({} preemption points beyond the bound)", ops[x].name, ops[y].name, b.map(|b| &ops[b].name), k, e, j, cut));
        tr.steps(2);
        interleave(x, y, b, k, e, j)?;
        Ok("both results as alone")
    });
    run.finish()
}
