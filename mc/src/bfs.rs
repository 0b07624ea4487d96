//! Explicit-state breadth-first search over (real object, model) pairs.

use crate::explore::{guarded, harness_error, threads, Failure};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::{Debug, Write};
use std::hash::Hasher;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub trait Sys: Clone + Send + Sync {
    type A: Clone + Debug + Send + Sync;
    fn actions(&self) -> Vec<Self::A>;
    fn step(&mut self, a: &Self::A) -> Result<(), String>;
    /// Writes a complete description of the state.
    fn describe(&self, w: &mut dyn Write);
}

struct H(DefaultHasher, DefaultHasher);
impl Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.write(s.as_bytes());
        self.1.write(s.as_bytes());
        Ok(())
    }
}

fn key<S: Sys>(s: &S) -> u128 {
    let mut h = H(DefaultHasher::new(), DefaultHasher::new());
    h.1.write_u64(0x1234_5678_9abc_def1);
    s.describe(&mut h);
    ((h.0.finish() as u128) << 64) | h.1.finish() as u128
}

pub struct Bfs {
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    pub complete: bool,
}

/// Visits all states reachable from `init`; stops after `cap` states or `secs` seconds, reported as incomplete.
/// (The current code is complete well within both; an implementation with an unbounded counter never is.)
pub fn search<S: Sys>(name: &str, init: Vec<S>, cap: usize, secs: u64) -> Result<Bfs, Failure> {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let mut seen: HashSet<u128> = HashSet::new();
    // parent index and action of each state, for counterexamples
    let mut parent: Vec<(usize, Option<S::A>)> = vec![];
    let mut frontier: Vec<(usize, S)> = vec![];
    for s in init {
        if seen.insert(key(&s)) {
            parent.push((usize::MAX, None));
            frontier.push((parent.len() - 1, s));
        }
    }
    let mut transitions = 0u64;
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() {
        let fr = &frontier;
        let seen_ref = &seen;
        let next = AtomicUsize::new(0);
        let next = &next;
        let out: Mutex<Vec<(u128, usize, S::A, S)>> = Mutex::new(vec![]);
        let fail: Mutex<Option<(usize, S::A, String)>> = Mutex::new(None);
        let trans = AtomicUsize::new(0);
        let (out_r, fail_r, trans_r) = (&out, &fail, &trans);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads())
                .map(|_| {
                    sc.spawn(move || {
                        let mut local: Vec<(u128, usize, S::A, S)> = vec![];
                        let mut mine: HashSet<u128> = HashSet::new();
                        let mut n = 0;
                        loop {
                            let lo = next.fetch_add(64, Relaxed);
                            if lo >= fr.len() || std::time::Instant::now() > end || fail_r.lock().unwrap().is_some() {
                                break;
                            }
                            for (id, s) in &fr[lo..(lo + 64).min(fr.len())] {
                                for a in s.actions() {
                                    n += 1;
                                    match guarded(|| {
                                        let mut t = s.clone();
                                        t.step(&a)?;
                                        let k = key(&t);
                                        Ok((k, t))
                                    }) {
                                        Ok((k, t)) => {
                                            if !seen_ref.contains(&k) && mine.insert(k) {
                                                local.push((k, *id, a, t));
                                            }
                                        }
                                        Err(m) => {
                                            let mut g = fail_r.lock().unwrap();
                                            if g.as_ref().map_or(true, |f| *id < f.0) {
                                                *g = Some((*id, a, m));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        trans_r.fetch_add(n, Relaxed);
                        out_r.lock().unwrap().extend(local);
                    })
                })
                .collect();
            for h in hs {
                if h.join().is_err() {
                    harness_error("a search thread died");
                }
            }
        });
        transitions += trans.load(Relaxed) as u64;
        if let Some((id, a, m)) = fail.into_inner().unwrap() {
            let mut path = vec![format!("{:?}", a)];
            let mut i = id;
            let mut root = i;
            while i != usize::MAX {
                if let Some(x) = &parent[i].1 {
                    path.push(format!("{:?}", x));
                }
                root = i;
                i = parent[i].0;
            }
            path.push(format!("initial state #{}", root));
            path.reverse();
            return Err(Failure { scenario: name.into(), depth, choices: vec![], message: m, log: path });
        }
        depth += 1;
        let mut fresh = vec![];
        for (k, id, a, s) in out.into_inner().unwrap() {
            if seen.len() >= cap || std::time::Instant::now() > end {
                complete = false;
                break;
            }
            if seen.insert(k) {
                parent.push((id, Some(a)));
                fresh.push((parent.len() - 1, s));
            }
        }
        if !complete || std::time::Instant::now() > end {
            complete = false;
            break;
        }
        frontier = fresh;
    }
    Ok(Bfs { states: seen.len() as u64, transitions, depth, complete })
}
