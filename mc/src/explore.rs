//! Stateless exhaustive exploration: a case is a deterministic function of
//! the choices it makes through [`Cx::pick`]; the explorer runs it once for
//! every choice sequence (depth-first, in parallel by splitting prefixes).

use crate::guard;
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

/// Fast non-cryptographic hasher (deterministic).
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w));
        }
        self.write_u64(b.len() as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = std::collections::HashMap<K, V, FxB>;
pub type FxSet<K> = HashSet<K, FxB>;

pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0x1234_5678_9abc_def1);
    t.hash(&mut h);
    h.finish()
}

/// A failed case. `key` identifies the failing input for the
/// known-findings file (section plus a stable description).
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type CaseResult = Result<(), Fail>;

impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { key: String::new(), msg: msg.into() }
    }
}

/// Shorthand to fail a case.
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::explore::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::explore::Fail::from(format!($($t)*))) } };
}

pub struct Cx {
    /// (choice, arity) in order.
    stack: Vec<(u32, u32)>,
    pos: usize,
    pub tier_thorough: bool,
    pub want_desc: bool,
    pub desc: Vec<String>,
    // statistics of this worker
    pub nodes: u64,
    pub steps: u64,
    pub nontrivial: u64,
    digests: FxSet<u64>,
    digest_overflow: u64,
    outcomes: FxSet<u64>,
    states: FxSet<u64>,
    states_overflow: u64,
    replaying: bool,
}

const SET_CAP: usize = 6_000_000;

impl Cx {
    pub fn new(thorough: bool) -> Cx {
        Cx {
            stack: vec![],
            pos: 0,
            tier_thorough: thorough,
            want_desc: false,
            desc: vec![],
            nodes: 0,
            steps: 0,
            nontrivial: 0,
            digests: Default::default(),
            digest_overflow: 0,
            outcomes: Default::default(),
            states: Default::default(),
            states_overflow: 0,
            replaying: false,
        }
    }

    /// Nondeterministic choice among `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let n = u32::try_from(n).unwrap();
        if self.pos < self.stack.len() {
            let (c, m) = self.stack[self.pos];
            // m == 0: arity unknown (replay from a file)
            if m != 0 && m != n {
                panic!("nondeterministic case: arity {m} became {n} at choice {}", self.pos);
            }
            if c >= n {
                panic!("replayed choice {c} out of range {n} at choice {}", self.pos);
            }
            self.stack[self.pos].1 = n;
            self.pos += 1;
            c as usize
        } else {
            self.stack.push((0, n));
            self.pos += 1;
            if n > 1 {
                self.nodes += 1;
            }
            0
        }
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    /// Description of the case, only evaluated for samples and reports.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            self.desc.push(s);
        }
    }
    /// Records that this case is non-trivial, with a digest of its input.
    pub fn input(&mut self, digest: u64) {
        self.nontrivial += 1;
        if self.digests.len() < SET_CAP {
            self.digests.insert(digest);
        } else if !self.digests.contains(&digest) {
            self.digest_overflow += 1;
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h);
        }
    }
    /// Records a visited model state and one executed transition.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(h);
        } else {
            self.states_overflow += 1;
        }
    }
    /// Counts one operation executed against the implementation.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    fn choices(&self) -> Vec<u32> {
        self.stack.iter().map(|c| c.0).collect()
    }
}

pub struct Section {
    pub name: String,
    pub bound: String,
    pub run: Box<dyn Fn(&mut Cx) -> CaseResult + Sync + Send>,
}
impl Section {
    pub fn new(
        name: &str,
        bound: &str,
        run: impl Fn(&mut Cx) -> CaseResult + Sync + Send + 'static,
    ) -> Section {
        Section { name: name.into(), bound: bound.into(), run: Box::new(run) }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub section: String,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub desc: Vec<String>,
}

#[derive(Default)]
pub struct SecStats {
    pub name: String,
    pub bound: String,
    pub cases: u64,
    pub nodes: u64,
    pub steps: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub outcomes: u64,
    pub states: u64,
    pub exhausted: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

struct Shared {
    queue: Mutex<(VecDeque<Vec<u32>>, usize)>, // (prefixes, active workers)
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    cases: AtomicU64,
}

/// Runs one case, converting panics into failures.
pub fn run_case(sec: &Section, cx: &mut Cx) -> CaseResult {
    cx.pos = 0;
    cx.desc.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (sec.run)(cx)));
    match r {
        Ok(Ok(())) => {
            if cx.pos < cx.stack.len() {
                return Err(Fail::from(
                    "nondeterministic case: it made fewer choices than its prefix",
                ));
            }
            Ok(())
        }
        Ok(Err(f)) => {
            cx.stack.truncate(cx.pos);
            Err(f)
        }
        Err(_) => {
            cx.stack.truncate(cx.pos);
            let m = guard::take_panic();
            Err(Fail { key: String::new(), msg: format!("panic: {m}") })
        }
    }
}

/// Explores one section completely. `on_fail` returns true to keep going
/// (the failure is a listed known finding).
pub fn explore(
    sec: &Section,
    thorough: bool,
    threads: usize,
    deadline: std::time::Instant,
    on_fail: &(dyn Fn(Failure) -> bool + Sync),
) -> SecStats {
    let t0 = std::time::Instant::now();
    let sh = Shared {
        queue: Mutex::new((VecDeque::from([vec![]]), 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        cases: AtomicU64::new(0),
    };
    let capped = AtomicBool::new(false);
    let results: Vec<(Cx, Vec<Vec<u32>>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let sh = &sh;
                let capped = &capped;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        guard::register_thread(w);
                        let r = worker(sec, thorough, sh, deadline, capped, on_fail);
                        guard::unregister_thread(w);
                        r
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker died")).collect()
    });
    let mut st = SecStats {
        name: sec.name.clone(),
        bound: sec.bound.clone(),
        ..Default::default()
    };
    let mut dig: FxSet<u64> = Default::default();
    let mut states: FxSet<u64> = Default::default();
    let mut outc: FxSet<u64> = Default::default();
    let mut sample_choices = vec![];
    let (mut dover, mut sover) = (0, 0);
    for (cx, samples) in results {
        st.nodes += cx.nodes;
        st.steps += cx.steps;
        st.nontrivial += cx.nontrivial;
        dover += cx.digest_overflow;
        sover += cx.states_overflow;
        dig.extend(cx.digests);
        states.extend(cx.states);
        outc.extend(cx.outcomes);
        sample_choices.extend(samples);
    }
    let _ = (dover, sover); // lower bounds are reported when a set was capped
    st.distinct = dig.len() as u64;
    st.states = states.len() as u64;
    st.outcomes = outc.len() as u64;
    st.cases = sh.cases.load(SeqCst);
    st.exhausted = !sh.stop.load(SeqCst) && !capped.load(SeqCst);
    st.wall_s = t0.elapsed().as_secs_f64();
    // write out a few samples
    sample_choices.sort();
    let n = sample_choices.len();
    let pickn = [0, n / 3, 2 * n / 3];
    let mut done = HashSet::new();
    if !sh.stop.load(SeqCst) {
        for i in pickn {
            if i < n && done.insert(i) {
                let mut cx = Cx::new(thorough);
                cx.want_desc = true;
                cx.stack = sample_choices[i].iter().map(|c| (*c, 0)).collect();
                let _ = run_case(sec, &mut cx);
                st.samples.push(format!("{}: {}", sec.name, cx.desc.join("; ")));
            }
        }
    }
    st
}

fn worker(
    sec: &Section,
    thorough: bool,
    sh: &Shared,
    deadline: std::time::Instant,
    capped: &AtomicBool,
    on_fail: &(dyn Fn(Failure) -> bool + Sync),
) -> (Cx, Vec<Vec<u32>>) {
    let mut cx = Cx::new(thorough);
    let mut samples: Vec<Vec<u32>> = vec![];
    let mut count: u64 = 0;
    loop {
        // take a prefix
        let prefix = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) {
                    return (cx, samples);
                }
                if let Some(p) = q.0.pop_front() {
                    q.1 += 1;
                    break p;
                }
                if q.1 == 0 {
                    sh.cv.notify_all();
                    return (cx, samples);
                }
                sh.hungry.fetch_add(1, Relaxed);
                q = sh.cv.wait(q).unwrap();
                sh.hungry.fetch_sub(1, Relaxed);
            }
        };
        let mut base = prefix.len();
        cx.stack = prefix.iter().map(|c| (*c, 0)).collect();
        'dfs: loop {
            guard::begin_case(&sec.name, &cx.stack);
            let r = run_case(sec, &mut cx);
            guard::end_case();
            sh.cases.fetch_add(1, Relaxed);
            count += 1;
            if count.is_power_of_two() && samples.len() < 24 {
                samples.push(cx.choices());
            }
            if let Err(fail) = r {
                // Re-run with descriptions; this also checks determinism.
                let choices = cx.choices();
                let mut c2 = Cx::new(thorough);
                c2.want_desc = true;
                c2.replaying = true;
                c2.stack = choices.iter().map(|c| (*c, 0)).collect();
                guard::begin_case(&sec.name, &c2.stack);
                let r2 = run_case(sec, &mut c2);
                guard::end_case();
                let mut fail = fail;
                if let Err(f2) = r2 {
                    fail = f2;
                } else {
                    fail.msg = format!("{} (NOT REPRODUCED on immediate re-run)", fail.msg);
                }
                let go = on_fail(Failure {
                    section: sec.name.clone(),
                    choices,
                    fail,
                    desc: c2.desc,
                });
                if !go {
                    sh.stop.store(true, SeqCst);
                }
            }
            if sh.stop.load(Relaxed) {
                let mut q = sh.queue.lock().unwrap();
                q.1 -= 1;
                drop(q);
                sh.cv.notify_all();
                return (cx, samples);
            }
            if count % 64 == 0 && std::time::Instant::now() > deadline {
                capped.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
            }
            // donate work if someone is idle
            if sh.hungry.load(Relaxed) > 0 {
                for i in base..cx.stack.len() {
                    let (c, n) = cx.stack[i];
                    if c + 1 < n {
                        let mut q = sh.queue.lock().unwrap();
                        for alt in c + 1..n {
                            let mut p: Vec<u32> = cx.stack[..i].iter().map(|x| x.0).collect();
                            p.push(alt);
                            q.0.push_back(p);
                        }
                        drop(q);
                        sh.cv.notify_all();
                        base = i + 1;
                        break;
                    }
                }
            }
            // advance
            loop {
                if cx.stack.len() <= base {
                    break 'dfs;
                }
                let last = cx.stack.last_mut().unwrap();
                if last.0 + 1 < last.1 {
                    last.0 += 1;
                    break;
                }
                cx.stack.pop();
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        drop(q);
        sh.cv.notify_all();
    }
}

/// Replays one recorded case.
pub fn replay(sec: &Section, thorough: bool, choices: &[u32]) -> (CaseResult, Vec<String>) {
    let mut cx = Cx::new(thorough);
    cx.want_desc = true;
    cx.stack = choices.iter().map(|c| (*c, 0)).collect();
    guard::register_thread(0);
    guard::begin_case(&sec.name, &cx.stack);
    let r = run_case(sec, &mut cx);
    guard::end_case();
    guard::unregister_thread(0);
    (r, cx.desc)
}
