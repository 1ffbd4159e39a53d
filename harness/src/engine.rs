//! The explorer: bounded-exhaustive, stateless exploration of choice trees on the real library.
//!
//! A *model* is a function that builds an execution (an input, a file, a program, a history of
//! operations) out of choices `Ch::pick(n)` and runs the library on it, comparing with a reference.
//! The explorer runs the model once for every choice sequence inside the bound: choice 0 is the
//! default of a point, any other choice is a deviation that costs 1 of the budget (points made
//! with `free` cost nothing and are always enumerated completely). Every leaf of the bounded tree
//! is visited exactly once; nothing is sampled.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use std::cell::RefCell;

pub struct Ch {
    prefix: Vec<u32>,
    /// (choice, arity, cost of deviating)
    pub trace: Vec<(u32, u32, u32)>,
    pub wide: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub steps: u64,
    pub hash: Option<u64>,
    pub skipped: bool,
    pub finding: Option<String>,
    /// abstract states covered inside this execution besides the one identified by `state`
    pub inner_states: u64,
}

impl Ch {
    pub fn new(prefix: Vec<u32>, verbose: bool) -> Ch {
        Ch { prefix, trace: Vec::new(), wide: false, verbose, notes: vec![], steps: 0, hash: None, skipped: false, finding: None, inner_states: 0 }
    }
    fn at(&mut self, n: usize, cost: u32) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replay out of range: the model is not deterministic");
        self.trace.push((c, n as u32, cost));
        c as usize
    }
    /// a choice whose non-default values cost one deviation
    pub fn pick(&mut self, n: usize) -> usize { self.at(n, 1) }
    /// a choice that is always enumerated completely
    pub fn free(&mut self, n: usize) -> usize { self.at(n, 0) }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.pick(xs.len()); &xs[i] }
    pub fn free_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.free(xs.len()); &xs[i] }
    /// counts one operation performed on the implementation
    pub fn step(&mut self) { self.steps += 1; }
    pub fn steps(&mut self, n: u64) { self.steps += n; }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) { if self.verbose { let s = f(); self.notes.push(s) } }
    /// identifies the abstract input of this execution, to count distinct ones
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if let Some(p) = self.hash { h.write_u64(p) }
        t.hash(&mut h);
        self.hash = Some(h.finish());
    }
    /// the execution is outside of the property's domain; counted apart
    pub fn skip(&mut self) { self.skipped = true; }
}

pub type Model = fn(&mut Ch) -> Result<(), String>;

pub struct Scope {
    pub name: &'static str,
    pub what: &'static str,
    pub model: Model,
    /// deviation budgets (u32::MAX: the whole tree)
    pub quick: u32,
    pub thorough: u32,
    pub wide: bool,
}

pub const ALL: u32 = u32::MAX;
pub const OFF: u32 = u32::MAX - 1; // scope not run in this tier

pub fn scope(name: &'static str, what: &'static str, model: Model, quick: u32, thorough: u32) -> Scope {
    Scope { name, what, model, quick, thorough, wide: false }
}
pub fn wide(name: &'static str, what: &'static str, model: Model, quick: u32, thorough: u32) -> Scope {
    Scope { name, what, model, quick, thorough, wide: true }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub execs: u64,
    pub states: u64,
    pub steps: u64,
    pub nodes: u64,
    pub edges: u64,
    pub skipped: u64,
    pub max_depth: usize,
}

#[derive(Debug, Clone)]
pub struct Violation { pub scope: String, pub prefix: Vec<u32>, pub msg: String, pub notes: Vec<String> }

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} ({})", msg, loc)));
    }));
}

/// Runs the library call; a panic of it becomes an error text
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}",
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
}

fn run_one(model: Model, prefix: &[u32], wide: bool, verbose: bool) -> (Ch, Result<(), String>) {
    let mut ch = Ch::new(prefix.to_vec(), verbose);
    ch.wide = wide;
    let r = guard(|| model(&mut ch)).and_then(|r| r);
    (ch, r)
}

pub fn replay(s: &Scope, prefix: &[u32]) -> (Vec<String>, Result<(), String>) {
    // on a stack as small as a worker's
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || {
        let (ch, r) = run_one(s.model, prefix, s.wide, true);
        (ch.notes, r)
    }).unwrap().join().expect("replay"))
}

struct Job { prefix: Vec<u32>, budget: u32 }

pub struct Journal { base: *mut u8 }
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub const WORKERS: usize = 8;
const SLOT: usize = 1 << 16;

impl Journal {
    /// a memory mapped file with what every worker is running, read by the parent after a crash
    pub fn open(path: &std::path::Path) -> Option<Journal> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).ok()?;
        f.set_len((SLOT * (WORKERS + 1)) as u64).ok()?;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SLOT * (WORKERS + 1), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED { None } else { Some(Journal { base: p as *mut u8 }) }
    }
    fn put(&self, slot: usize, words: &[u32]) {
        let n = words.len().min(SLOT / 4 - 2);
        unsafe {
            let p = self.base.add(slot * SLOT) as *mut u32;
            p.write_volatile(0);
            std::ptr::copy_nonoverlapping(words.as_ptr(), p.add(1), n);
            p.write_volatile(n as u32 + 1);
        }
    }
    pub fn scope(&self, i: usize) { self.put(WORKERS, &[i as u32]) }
    pub fn read(path: &std::path::Path) -> Option<(usize, Vec<Vec<u32>>)> {
        let b = std::fs::read(path).ok()?;
        let slot = |i: usize| -> Option<Vec<u32>> {
            let w = |k: usize| u32::from_le_bytes(b[i * SLOT + 4 * k..i * SLOT + 4 * k + 4].try_into().unwrap());
            let n = w(0);
            if n == 0 { return None }
            Some((0..(n - 1) as usize).map(|k| w(k + 1)).collect())
        };
        let sc = slot(WORKERS)?;
        Some((sc[0] as usize, (0..WORKERS).filter_map(slot).collect()))
    }
}

pub const HANG_SECS: u64 = 60;

/// Explores a scope completely within its bound
pub fn explore(s: &Scope, budget: u32, journal: Option<&Journal>, samples: &mut Vec<String>, findings: &mut Vec<String>) -> (Stats, Option<Violation>) {
    let queue: Mutex<Vec<Job>> = Mutex::new(vec![Job { prefix: vec![], budget }]);
    let pending = AtomicUsize::new(1);
    let waiting = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let found: Mutex<Vec<String>> = Mutex::new(vec![]);
    let smp: Mutex<Vec<String>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    let beat: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<Vec<u32>>> = (0..WORKERS).map(|_| Mutex::new(vec![])).collect();
    let alive = AtomicUsize::new(WORKERS);

    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (queue, pending, waiting, stop, stats, seen, viol, found, smp, beat, current, alive) =
                (&queue, &pending, &waiting, &stop, &stats, &seen, &viol, &found, &smp, &beat, &current, &alive);
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
                let mut local: Vec<Job> = vec![];
                let mut st = Stats::default();
                loop {
                    if stop.load(Relaxed) { break }
                    let job = match local.pop() {
                        Some(j) => j,
                        None => {
                            let j = queue.lock().unwrap().pop();
                            match j {
                                Some(j) => j,
                                None => {
                                    if pending.load(SeqCst) == 0 { break }
                                    waiting.fetch_add(1, SeqCst);
                                    std::thread::sleep(Duration::from_micros(200));
                                    waiting.fetch_sub(1, SeqCst);
                                    continue;
                                }
                            }
                        }
                    };
                    if let Some(j) = journal { j.put(w, &job.prefix) }
                    *current[w].lock().unwrap() = job.prefix.clone();
                    beat[w].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                    let verbose = smp.lock().unwrap().len() < 3;
                    let (ch, r) = run_one(s.model, &job.prefix, s.wide, verbose);
                    beat[w].store(0, Relaxed);
                    st.execs += 1;
                    st.steps += ch.steps;
                    st.max_depth = st.max_depth.max(ch.trace.len());
                    st.nodes += (ch.trace.len() + 1 - job.prefix.len()) as u64;
                    if ch.skipped { st.skipped += 1 }
                    st.states += ch.inner_states;
                    if let Some(h) = ch.hash {
                        if seen[(h % 64) as usize].lock().unwrap().insert(h) { st.states += 1 }
                    }
                    if verbose && !ch.notes.is_empty() {
                        let mut g = smp.lock().unwrap();
                        if g.len() < 3 { g.push(ch.notes.join(" | ")) }
                    }
                    if let Some(f) = &ch.finding {
                        let mut g = found.lock().unwrap();
                        if !g.contains(f) { g.push(f.clone()) }
                    }
                    if let Err(msg) = r {
                        let mut v = viol.lock().unwrap();
                        if v.is_none() {
                            let choices: Vec<u32> = ch.trace.iter().map(|t| t.0).collect();
                            let (ch2, r2) = run_one(s.model, &job.prefix, s.wide, true);
                            let msg = match r2 { Err(m) => m, Ok(()) => format!("{} (not reproduced on an immediate second run: the result depends on history)", msg) };
                            *v = Some(Violation { scope: s.name.into(), prefix: choices, msg, notes: ch2.notes });
                        }
                        stop.store(true, Relaxed);
                        break;
                    }
                    // children: one more deviation after the prefix
                    let mut kids = vec![];
                    for i in job.prefix.len()..ch.trace.len() {
                        let (_, arity, cost) = ch.trace[i];
                        st.edges += 1;
                        if cost > job.budget { continue }
                        for v in 1..arity {
                            let mut p: Vec<u32> = ch.trace[..i].iter().map(|t| t.0).collect();
                            p.push(v);
                            kids.push(Job { prefix: p, budget: if job.budget == ALL { ALL } else { job.budget - cost } });
                            st.edges += 1;
                        }
                    }
                    pending.fetch_add(kids.len(), SeqCst);
                    local.extend(kids);
                    pending.fetch_sub(1, SeqCst);
                    if local.len() > 1 && waiting.load(Relaxed) > 0 {
                        let n = local.len() / 2;
                        queue.lock().unwrap().extend(local.drain(..n));
                    }
                }
                let mut g = stats.lock().unwrap();
                g.execs += st.execs; g.steps += st.steps; g.states += st.states; g.nodes += st.nodes;
                g.edges += st.edges; g.skipped += st.skipped; g.max_depth = g.max_depth.max(st.max_depth);
                alive.fetch_sub(1, SeqCst);
            }).expect("spawn");
        }
        // watchdog
        let (beat, current, alive, done, viol) = (&beat, &current, &alive, &done, &viol);
        sc.spawn(move || {
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for w in 0..WORKERS {
                    let b = beat[w].load(Relaxed);
                    if b != 0 && now > b + HANG_SECS * 1000 {
                        // the stuck thread cannot be stopped: report and end the process
                        let v = Violation { scope: s.name.into(), prefix: current[w].lock().unwrap().clone(),
                            msg: format!("does not terminate (an execution ran for more than {} s)", HANG_SECS), notes: vec![] };
                        crate::report_hang(v);
                    }
                }
            }
            done.store(true, SeqCst);
            drop(viol);
        });
    });
    samples.extend(smp.into_inner().unwrap().into_iter().map(|x| format!("[{}] {}", s.name, trunc(&x, 700))));
    findings.extend(found.into_inner().unwrap());
    (stats.into_inner().unwrap(), viol.into_inner().unwrap())
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}
