//! Stateless exhaustive exploration: a scenario body asks for every decision with `pick`, and
//! the explorer runs it once for every possible sequence of answers.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Ch {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    /// Operations executed on the implementation.
    pub ops: u64,
    /// Inner points covered by loops inside one execution.
    pub points: u64,
    fp: u64,
    logging: bool,
    pub log: Vec<String>,
}

impl Ch {
    fn new() -> Ch {
        Ch { prefix: vec![], trace: vec![], ops: 0, points: 0, fp: 0, logging: false, log: vec![] }
    }
    /// One decision out of `n`.
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        if n == 0 {
            harness_error("pick(0)");
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            harness_error("replayed choice out of range: the harness does not own its choices");
        }
        self.trace.push((c, n as u32));
        c as usize
    }
    #[inline]
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())]
    }
    #[inline]
    pub fn op(&mut self) {
        self.ops += 1;
    }
    /// Feeds an observation into the fingerprint of this execution's outcome.
    #[inline]
    pub fn see(&mut self, x: f64) {
        self.ops += 1;
        self.fp = (self.fp ^ x.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
    #[inline]
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if self.logging {
            let s = f();
            self.log.push(s);
        }
    }
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    std::process::exit(3)
}

type Body = Box<dyn Fn(&mut Ch, usize) -> Res + Send + Sync>;

pub struct Scenario {
    pub name: String,
    pub depth: usize,
    pub body: Body,
}

pub fn scenario<F>(v: &mut Vec<Scenario>, name: &str, depth: usize, body: F)
where
    F: Fn(&mut Ch, usize) -> Res + Send + Sync + 'static,
{
    v.push(Scenario { name: name.to_string(), depth, body: Box::new(body) });
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    /// Distinct histories visited (nodes of the choice tree) plus inner points.
    pub states: u64,
    /// Operations performed on the implementation.
    pub ops: u64,
    pub outcomes: HashSet<u64>,
    pub outcomes_capped: bool,
    pub max_len: usize,
    /// Longest execution, in seconds.
    pub slowest: f64,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.states += o.states;
        self.ops += o.ops;
        self.max_len = self.max_len.max(o.max_len);
        self.slowest = self.slowest.max(o.slowest);
        self.outcomes_capped |= o.outcomes_capped;
        self.outcomes.extend(o.outcomes);
    }
}

pub struct Failure {
    pub scenario: String,
    pub depth: usize,
    pub choices: Vec<u32>,
    pub message: String,
    pub log: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

fn panic_text(e: Box<dyn Any + Send>) -> String {
    let mut s = PANIC.with(|p| p.borrow().clone());
    if s.is_empty() {
        s = match e.downcast_ref::<String>() {
            Some(x) => x.clone(),
            None => "panic".into(),
        };
    }
    format!("the implementation panicked: {}", s)
}

pub fn guarded<R, F: FnOnce() -> Result<R, String>>(f: F) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(panic_text(e)),
    }
}

fn run_once(sc: &Scenario, depth: usize, ch: &mut Ch, prefix: &[u32]) -> Res {
    ch.prefix.clear();
    ch.prefix.extend_from_slice(prefix);
    ch.trace.clear();
    ch.fp = 0x51_7c_c1_b7_27_22_0a_95;
    ch.log.clear();
    guarded(|| (sc.body)(ch, depth))
}

pub fn replay(sc: &Scenario, depth: usize, choices: &[u32]) -> (Res, Vec<String>) {
    let mut ch = Ch::new();
    ch.logging = true;
    let r = run_once(sc, depth, &mut ch, choices);
    (r, ch.log)
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

const OUTCOME_CAP: usize = 200_000;
pub const HANG_SECONDS: u64 = 90;

/// Bumped by long executions as they go on, so that they are not taken for hanging ones.
static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[inline]
pub fn alive() {
    PROGRESS.fetch_add(1, Relaxed);
}

struct Beat {
    count: AtomicU64,
    done: AtomicBool,
    prefix: Mutex<Vec<u32>>,
}

/// Explores `sc` completely at `depth`. `on_hang` is called (and must not return) when one
/// execution makes no progress for HANG_SECONDS.
fn explore_at(
    sc: &Scenario,
    depth: usize,
    stats: &mut Stats,
    on_hang: &(dyn Fn(Failure) + Sync),
) -> Result<(), Failure> {
    let nthreads = threads();
    let stop = AtomicBool::new(false);
    let beats: Vec<Beat> = (0..nthreads + 1)
        .map(|_| Beat { count: AtomicU64::new(0), done: AtomicBool::new(false), prefix: Mutex::new(vec![]) })
        .collect();
    let fail: Mutex<Option<(usize, Vec<u32>, String)>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let all_done = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let handed_out: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    std::thread::scope(|scope| {
        let wd = scope.spawn(|| {
            let mut last: Vec<(u64, Instant)> = beats.iter().map(|b| (b.count.load(Relaxed), Instant::now())).collect();
            let mut progress = 0;
            while !all_done.load(Acquire) {
                std::thread::park_timeout(Duration::from_millis(500));
                let p = PROGRESS.load(Relaxed);
                if p != progress {
                    progress = p;
                    last.iter_mut().for_each(|l| l.1 = Instant::now());
                }
                for (i, b) in beats.iter().enumerate() {
                    let c = b.count.load(Relaxed);
                    if c != last[i].0 || b.done.load(Relaxed) || c == 0 {
                        last[i] = (c, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(HANG_SECONDS) {
                        let p = b.prefix.lock().map(|g| g.clone()).unwrap_or_default();
                        on_hang(Failure {
                            scenario: sc.name.clone(),
                            depth,
                            choices: p,
                            message: format!("an operation did not return within {} s", HANG_SECONDS),
                            log: vec![],
                        });
                    }
                }
            }
        });
        // Split the choice tree into prefixes to hand out.
        let mut ch = Ch::new();
        let mut prefixes: Vec<Vec<u32>> = vec![vec![]];
        let mut closed: Vec<Vec<u32>> = vec![];
        let mut internal_nodes = 0u64;
        let b0 = &beats[nthreads];
        for _ in 0..12 {
            if prefixes.len() + closed.len() >= nthreads * 24 || prefixes.is_empty() {
                break;
            }
            let mut next = vec![];
            for p in prefixes.drain(..) {
                b0.prefix.lock().unwrap().clone_from(&p);
                b0.count.fetch_add(1, Relaxed);
                let r = run_once(sc, depth, &mut ch, &p);
                if ch.trace.len() <= p.len() || r.is_err() && ch.trace.len() <= p.len() {
                    closed.push(p);
                } else {
                    let n = ch.trace[p.len()].1;
                    internal_nodes += 1;
                    for c in 0..n {
                        let mut q = p.clone();
                        q.push(c);
                        next.push(q);
                    }
                }
            }
            prefixes = next;
        }
        b0.done.store(true, Relaxed);
        prefixes.extend(closed);
        let next = &next;
        let prefixes: &Vec<Vec<u32>> = handed_out.get_or_init(|| prefixes);
        let (stop, fail, total) = (&stop, &fail, &total);
        let mut hs = vec![];
        for beat in beats.iter().take(nthreads) {
            hs.push(scope.spawn(move || {
                let mut st = Stats::default();
                let mut ch = Ch::new();
                'outer: loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= prefixes.len() || stop.load(Relaxed) {
                        break;
                    }
                    let base = prefixes[i].len();
                    let mut cur = prefixes[i].clone();
                    let mut fresh_from = base.saturating_sub(1);
                    loop {
                        beat.prefix.lock().unwrap().clone_from(&cur);
                        beat.count.fetch_add(1, Relaxed);
                        ch.ops = 0;
                        ch.points = 0;
                        let t0 = Instant::now();
                        let r = run_once(sc, depth, &mut ch, &cur);
                        st.slowest = st.slowest.max(t0.elapsed().as_secs_f64());
                        st.executions += 1;
                        st.states += (ch.trace.len().saturating_sub(fresh_from)) as u64 + ch.points;
                        st.ops += ch.ops;
                        st.max_len = st.max_len.max(ch.trace.len());
                        if st.outcomes.len() < OUTCOME_CAP {
                            st.outcomes.insert(ch.fp);
                        } else {
                            st.outcomes_capped = true;
                        }
                        if let Err(m) = r {
                            let choices: Vec<u32> = ch.trace.iter().map(|t| t.0).collect();
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map_or(true, |f| i < f.0) {
                                *g = Some((i, choices, m));
                            }
                            stop.store(true, Relaxed);
                            break 'outer;
                        }
                        if stop.load(Relaxed) {
                            break 'outer;
                        }
                        // Next sequence within this subtree.
                        let mut k = ch.trace.len();
                        while k > base && ch.trace[k - 1].0 + 1 >= ch.trace[k - 1].1 {
                            k -= 1;
                        }
                        if k <= base {
                            break;
                        }
                        cur.clear();
                        cur.extend(ch.trace[..k].iter().map(|t| t.0));
                        cur[k - 1] += 1;
                        fresh_from = k - 1;
                    }
                }
                beat.done.store(true, Relaxed);
                total.lock().unwrap().merge(st);
            }));
        }
        for h in hs {
            if h.join().is_err() {
                harness_error("an explorer thread died");
            }
        }
        total.lock().unwrap().states += internal_nodes;
        all_done.store(true, Release);
        wd.thread().unpark();
    });
    stats.merge(total.into_inner().unwrap());
    match fail.into_inner().unwrap() {
        None => Ok(()),
        Some((_, choices, message)) => {
            let (r, log) = replay(sc, depth, &choices);
            let message = match r {
                Err(m) => m,
                Ok(()) => format!("{} [not reproduced when replayed alone: state is kept outside the instance]", message),
            };
            Err(Failure { scenario: sc.name.clone(), depth, choices, message, log })
        }
    }
}

pub fn explore(sc: &Scenario, stats: &mut Stats, on_hang: &(dyn Fn(Failure) + Sync)) -> Result<(), Failure> {
    let r = explore_at(sc, sc.depth, stats, on_hang);
    if let Err(f) = r {
        // Shortest counterexample first.
        for d in 0..sc.depth.min(5) {
            let mut s = Stats::default();
            if let Err(g) = explore_at(sc, d, &mut s, on_hang) {
                return Err(g);
            }
        }
        return Err(f);
    }
    Ok(())
}
