//! Exhaustive enumeration engine: complete sweeps over indexed finite spaces and
//! breadth-first closure of transition systems, in parallel, with replay, hang
//! watchdog and coverage counts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// Per-case recorder. `note` builds text only when a case is being explained.
pub struct Tr { pub on: bool, pub text: String, pub steps: u64 }
impl Tr {
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.on { if !self.text.is_empty() { self.text.push_str("; "); } let s = f(); self.text.push_str(&s); }
    }
    /// One implementation step executed and compared with the model.
    pub fn step(&mut self) { self.steps += 1; }
    pub fn steps(&mut self, n: u64) { self.steps += n; }
}
/// Outcome class of a case (for the non-vacuity report) or what is wrong.
pub type Res = Result<&'static str, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}
#[macro_export]
macro_rules! same {
    ($tr:expr, $got:expr, $want:expr, $what:expr) => {{
        let (g, w) = (&$got, &$want);
        $tr.step();
        if g != w { return Err(format!("{}: library gives {:?}, reference model {:?}", $what, g, w)); }
    }};
}

#[derive(Default, Clone)]
struct Sub { name: String, cases: u64, states: u64, transitions: u64, depth: u64, outcomes: BTreeMap<&'static str, u64>, samples: Vec<String>, wall: f64, note: String }
#[derive(Clone)]
struct Viol { sub: String, idx: u64, msg: String, desc: String }

struct Slot { start: AtomicU64, idx: AtomicU64 }
pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub profile: String,
    only: Option<(String, Option<u64>)>,
    threads: usize,
    subs: Mutex<Vec<Sub>>,
    viols: Mutex<Vec<Viol>>,
    t0: Instant,
    cur: Mutex<String>,
    slots: Vec<Slot>,
    out: Option<String>,
    inflight: Option<usize>,
    filter: Option<String>,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// Seconds after which one case counts as not terminating.
pub static HANG_SECS: AtomicU64 = AtomicU64::new(100);

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

impl Run {
    /// Arguments: PROP [--tier t] [--only sub[:idx]] [--out file] [--inflight file]
    pub fn from_args() -> Arc<Run> {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
        let only = get("--only").map(|s| match s.rsplit_once(':') {
            Some((n, i)) if i.parse::<u64>().is_ok() => (n.to_string(), Some(i.parse().unwrap())),
            _ => (s, None),
        });
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
        }));
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        let inflight = get("--inflight").map(|p| unsafe {
            let c = std::ffi::CString::new(p).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
            libc::ftruncate(fd, 4096);
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as usize
        });
        let run = Arc::new(Run {
            prop: a.get(1).cloned().unwrap_or_default(),
            tier,
            profile: if cfg!(debug_assertions) { "checked".into() } else { "release".into() },
            only,
            threads,
            subs: Mutex::new(vec![]),
            viols: Mutex::new(vec![]),
            t0: Instant::now(),
            cur: Mutex::new(String::new()),
            slots: (0..threads.max(1)).map(|_| Slot { start: AtomicU64::new(0), idx: AtomicU64::new(0) }).collect(),
            out: get("--out"),
            inflight,
            filter: std::env::var("MC_FILTER").ok(),
        });
        let r = run.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = r.t0.elapsed().as_millis() as u64 + 1;
            for s in &r.slots {
                let st = s.start.load(SeqCst);
                let hang = HANG_SECS.load(SeqCst);
                if st != 0 && now > st + hang * 1000 {
                    let sub = r.cur.lock().unwrap().clone();
                    let idx = s.idx.load(SeqCst);
                    r.viols.lock().unwrap().push(Viol { sub, idx, msg: format!("does not terminate (no answer after {} s)", hang), desc: String::new() });
                    r.finish_now();
                }
            }
        });
        run
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn checked(&self) -> bool { self.profile == "checked" }
    /// Picks by tier.
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn replaying(&self) -> bool { self.only.is_some() }
    fn wants(&self, name: &str) -> Option<Option<u64>> {
        if let Some(f) = &self.filter { if !name.contains(f.as_str()) { return None; } }
        match &self.only { None => Some(None), Some((n, i)) if n == name => Some(*i), _ => None }
    }
    fn set_cur(&self, name: &str) {
        *self.cur.lock().unwrap() = name.to_string();
        if let Some(p) = self.inflight {
            let b = name.as_bytes();
            unsafe { for i in 0..128 { std::ptr::write_volatile((p as *mut u8).add(i), *b.get(i).unwrap_or(&0)); } }
        }
    }
    fn enter(&self, w: usize, idx: u64) {
        let now = self.t0.elapsed().as_millis() as u64 + 1;
        self.slots[w].idx.store(idx, SeqCst);
        self.slots[w].start.store(now, SeqCst);
        if let Some(p) = self.inflight { unsafe { std::ptr::write_volatile((p as *mut u64).add(16 + w), idx + 1); } }
    }
    fn leave(&self, w: usize) {
        self.slots[w].start.store(0, SeqCst);
        if let Some(p) = self.inflight { unsafe { std::ptr::write_volatile((p as *mut u64).add(16 + w), 0); } }
    }

    /// Executes every case 0..n.
    pub fn sweep<F>(&self, name: &str, n: u64, f: F)
    where F: Fn(u64, &mut Tr) -> Res + Sync {
        let want = match self.wants(name) { None => return, Some(w) => w };
        self.set_cur(name);
        let one = |w: usize, i: u64, tr: &mut Tr| -> Res {
            self.enter(w, i);
            let r = guarded(|| f(i, tr));
            self.leave(w);
            r
        };
        if let Some(i) = want {
            let mut tr = Tr { on: true, text: String::new(), steps: 0 };
            let r = one(0, i, &mut tr);
            println!("{} case {}: {}\n  {}", name, i, tr.text, match &r { Ok(l) => format!("holds ({})", l), Err(e) => e.clone() });
            if let Err(msg) = r { self.viols.lock().unwrap().push(Viol { sub: name.into(), idx: i, msg, desc: tr.text }); }
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let nw = self.threads.min(n.max(1) as usize).max(1);
        let chunk = (n / (nw as u64 * 16)).clamp(1, 4096);
        let acc: Mutex<(u64, BTreeMap<&'static str, u64>, u64)> = Mutex::new((0, BTreeMap::new(), 0));
        let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
        std::thread::scope(|s| {
            for w in 0..nw {
                let (one, next, best, acc, bad) = (&one, &next, &best, &acc, &bad);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut outc: HashMap<&'static str, u64> = HashMap::new();
                    let (mut steps, mut cases) = (0u64, 0u64);
                    loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n || a > best.load(SeqCst) { break; }
                        for i in a..(a + chunk).min(n) {
                            let mut tr = Tr { on: false, text: String::new(), steps: 0 };
                            match one(w, i, &mut tr) {
                                Ok("-") => { tr.steps = 0; cases = cases.wrapping_sub(1); } // not a case of this space
                                Ok(l) => { *outc.entry(l).or_default() += 1; }
                                Err(e) => {
                                    best.fetch_min(i, SeqCst);
                                    let mut b = bad.lock().unwrap();
                                    if b.as_ref().map_or(true, |x| i < x.0) { *b = Some((i, e)); }
                                    drop(b);
                                    cases += 1; steps += tr.steps;
                                    break;
                                }
                            }
                            cases = cases.wrapping_add(1);
                            steps += tr.steps;
                        }
                    }
                    let mut g = acc.lock().unwrap();
                    g.0 += steps;
                    g.2 += cases;
                    for (k, v) in outc { *g.1.entry(k).or_default() += v; }
                }).unwrap();
            }
        });
        let (steps, outcomes, cases) = acc.into_inner().unwrap();
        let mut sub = Sub { name: name.into(), cases, states: cases, transitions: steps, outcomes, wall: t.elapsed().as_secs_f64(), ..Default::default() };
        if let Some((i, msg)) = bad.into_inner().unwrap() {
            let mut tr = Tr { on: true, text: String::new(), steps: 0 };
            let again = one(0, i, &mut tr);
            let msg = match again { Err(m) => m, Ok(_) => format!("{} (only in combination with other calls in the process)", msg) };
            self.viols.lock().unwrap().push(Viol { sub: name.into(), idx: i, msg, desc: tr.text });
        } else {
            for i in [0, n / 2, n.saturating_sub(1)] {
                if i < n && sub.samples.len() < 3 {
                    let mut tr = Tr { on: true, text: String::new(), steps: 0 };
                    if let Ok(l) = one(0, i, &mut tr) { sub.samples.push(format!("{}[{}]: {} => {}", name, i, tr.text, l)); }
                }
            }
            sub.samples.dedup();
        }
        self.subs.lock().unwrap().push(sub);
    }

    /// Breadth-first closure: every state reachable within `depth` steps, each
    /// expanded once. `succ` executes the real operations on a state and returns
    /// the successors; states equal under Eq have the same futures.
    pub fn bfs<S, F>(&self, name: &str, init: Vec<S>, depth: u64, cap: usize, succ: F)
    where S: Clone + Eq + Hash + Send + Sync + std::fmt::Debug, F: Fn(&S, &mut Tr) -> Result<Vec<(String, S)>, String> + Sync {
        if self.wants(name).is_none() { return; }
        self.set_cur(name);
        let t = Instant::now();
        let mut seen: HashSet<S> = HashSet::new();
        let mut hist: Vec<(Option<usize>, String)> = vec![];
        let mut frontier: Vec<(S, usize)> = vec![];
        for s in init { if seen.insert(s.clone()) { hist.push((None, format!("{:?}", s))); frontier.push((s, hist.len() - 1)); } }
        let path = |hist: &Vec<(Option<usize>, String)>, mut i: usize| { let mut v = vec![]; loop { v.push(hist[i].1.clone()); match hist[i].0 { Some(p) => i = p, None => break } } v.reverse(); v.join(" -> ") };
        let (mut trans, mut d, mut edges) = (0u64, 0, 0u64);
        let mut capped = false;
        let mut last = String::new();
        'outer: while !frontier.is_empty() && d < depth {
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let res: Mutex<Vec<(usize, Result<Vec<(String, S)>, String>, u64)>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for w in 0..self.threads.min(frontier.len()) {
                    let (next, res, succ, frontier, stop) = (&next, &res, &succ, &frontier, &stop);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let mut loc = vec![];
                        loop {
                            let i = next.fetch_add(1, SeqCst) as usize;
                            if i >= frontier.len() || stop.load(SeqCst) { break; }
                            let mut tr = Tr { on: false, text: String::new(), steps: 0 };
                            self.enter(w, i as u64);
                            let r = guarded(|| succ(&frontier[i].0, &mut tr));
                            self.leave(w);
                            if r.is_err() { stop.store(true, SeqCst); }
                            loc.push((i, r, tr.steps));
                        }
                        res.lock().unwrap().extend(loc);
                    }).unwrap();
                }
            });
            let mut res = res.into_inner().unwrap();
            res.sort_by_key(|x| x.0);
            let mut nf = vec![];
            for (i, r, steps) in res {
                trans += steps;
                match r {
                    Err(e) => {
                        let desc = path(&hist, frontier[i].1);
                        self.viols.lock().unwrap().push(Viol { sub: name.into(), idx: frontier[i].1 as u64, msg: e, desc });
                        break 'outer;
                    }
                    Ok(v) => for (l, s) in v {
                        edges += 1;
                        if seen.len() >= cap { capped = true; continue; }
                        if seen.insert(s.clone()) { hist.push((Some(frontier[i].1), l)); nf.push((s, hist.len() - 1)); }
                    }
                }
            }
            if let Some(x) = nf.last() { last = path(&hist, x.1); }
            frontier = nf;
            d += 1;
        }
        let note = format!("depth {}{}{}", d, if frontier.is_empty() { ", closed (no new states)" } else { "" }, if capped { ", state cap hit: deeper states not explored" } else { "" });
        let mut o = BTreeMap::new();
        o.insert("distinct states", seen.len() as u64);
        o.insert("edges", edges);
        self.subs.lock().unwrap().push(Sub { name: name.into(), cases: 1, states: seen.len() as u64, transitions: trans, depth: d, outcomes: o, samples: vec![format!("{}: {}", name, last)], wall: t.elapsed().as_secs_f64(), note });
    }

    /// A sub-check done elsewhere (child processes, signal handlers).
    pub fn external(&self, name: &str, f: impl FnOnce(&mut Ext) -> Result<(), String>) {
        if self.wants(name).is_none() { return; }
        self.set_cur(name);
        let t = Instant::now();
        let mut e = Ext::default();
        let r = guarded(|| f(&mut e));
        self.subs.lock().unwrap().push(Sub { name: name.into(), cases: e.states, states: e.states, transitions: e.transitions, depth: 0, outcomes: e.outcomes, samples: e.samples, wall: t.elapsed().as_secs_f64(), note: e.note });
        if let Err(m) = r { self.viols.lock().unwrap().push(Viol { sub: name.into(), idx: 0, msg: m, desc: e.desc }); }
    }

    /// Runs all spaces. A panic outside of every case comes from preparing one: the library
    /// refuses or spoils a value every space is built from.
    pub fn whole(&self, f: impl FnOnce()) -> ! {
        if let Err(msg) = guarded(|| { f(); Ok(()) }) {
            if ["os error", "spawn", "allocat"].iter().any(|w| msg.contains(w)) { eprintln!("{}", msg); std::process::exit(3) }
            self.viols.lock().unwrap().push(Viol { sub: "setup".into(), idx: 0, msg, desc: format!("while preparing the space after {:?}", self.cur.lock().unwrap()) });
        }
        self.finish()
    }
    pub fn finish(&self) -> ! { self.finish_now() }
    fn finish_now(&self) -> ! {
        let subs = self.subs.lock().unwrap().clone();
        let viols = self.viols.lock().unwrap().clone();
        let mut j = String::new();
        j.push_str(&format!("{{\"prop\":{},\"profile\":{},\"wall\":{:.3},\"subs\":[", js(&self.prop), js(&self.profile), self.t0.elapsed().as_secs_f64()));
        for (k, s) in subs.iter().enumerate() {
            if k > 0 { j.push(','); }
            j.push_str(&format!("{{\"name\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"depth\":{},\"wall\":{:.3},\"note\":{},\"outcomes\":{{{}}},\"samples\":[{}]}}",
                js(&s.name), s.cases, s.states, s.transitions, s.depth, s.wall, js(&s.note),
                s.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
        }
        j.push_str("],\"violations\":[");
        for (k, v) in viols.iter().enumerate() {
            if k > 0 { j.push(','); }
            j.push_str(&format!("{{\"sub\":{},\"idx\":{},\"msg\":{},\"desc\":{}}}", js(&v.sub), v.idx, js(&v.msg), js(&v.desc)));
        }
        j.push_str("]}\n");
        if let Some(o) = &self.out { std::fs::write(o, &j).expect("write report"); }
        if std::env::var("MC_VERBOSE").is_ok() {
            for s in &subs { println!("  {:<40} cases={:<9} states={:<9} trans={:<10} {:.2}s {} {:?}", s.name, s.cases, s.states, s.transitions, s.wall, s.note, s.outcomes); }
        }
        for v in &viols { println!("  FAILED {}:{}: {}\n    {}", v.sub, v.idx, v.msg, v.desc); }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(if viols.is_empty() { 0 } else { 1 }) }
    }
}

#[derive(Default)]
pub struct Ext { pub states: u64, pub transitions: u64, pub outcomes: BTreeMap<&'static str, u64>, pub samples: Vec<String>, pub note: String, pub desc: String }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars().take(6000) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// Mixed-radix decoding of a case index over a product space.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.take(v.len())] }
}
