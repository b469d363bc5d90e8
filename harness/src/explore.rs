//! Stateless, deviation-bounded, exhaustive explorer.
//!
//! A *job* is a deterministic body that draws every nondeterministic decision from a `Ch`.
//! `run_jobs` enumerates all choice sequences of each job depth-first.  Free choices (inputs,
//! operations, verdicts) are enumerated completely; deviation choices (splits, short writes,
//! not-ready answers, faults) cost 1 each for any alternative but the default, and at most
//! `bound` of them are taken in one execution (all bounds 0..=bound are iterated).

use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0 ^ 0x9E37_79B9_7F4A_7C15;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        let mut h = self.0 ^ 0xcbf2_9ce4_8422_2325;
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 29;
        }
        for x in it.remainder() {
            h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        h = (h ^ (b.len() as u64)).wrapping_mul(0x0000_0100_0000_01B3);
        self.0 = h ^ (h >> 31);
    }
}

#[derive(Default, Clone)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type HSet = HashSet<u64, BuildHasherDefault<Ident>>;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Pt {
    n: u32,
    pick: u32,
    dev: bool,
}

#[derive(Default)]
struct Inner {
    pts: Vec<Pt>,
    prefix: usize, // points [0, prefix) are fixed for this execution
    pos: usize,
    bound: u32,
    used: u32,
    salt: u64,
    states: HSet,
    new_edges: u64,
    replay: Option<Vec<u32>>,
    prior: usize,
}

/// The source of all nondeterminism of one execution.
#[derive(Clone, Default)]
pub struct Ch(Arc<Mutex<Inner>>);

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Ch {
    fn draw(&self, n: usize, dev: bool, state: u64) -> usize {
        assert!(n >= 1);
        let mut i = lock(&self.0);
        let i = &mut *i;
        let pos = i.pos;
        i.pos += 1;
        let n_eff = if dev && i.used >= i.bound { 1 } else { n as u32 };
        if let Some(r) = &i.replay {
            let pick = r.get(pos).copied().unwrap_or(0);
            assert!((pick as usize) < n, "DIVERGENCE: replayed choice {pick} out of range {n} at {pos}");
            i.pts.push(Pt { n: n_eff, pick, dev });
            return pick as usize;
        }
        if pos < i.prefix {
            let p = i.pts[pos];
            assert!(
                p.n == n_eff && p.dev == dev,
                "DIVERGENCE: replaying a prefix met a different choice point at {pos}"
            );
            if dev && p.pick > 0 {
                i.used += 1;
            }
            if pos + 1 == i.prefix {
                i.new_edges += 1;
            }
            return p.pick as usize;
        }
        let s = i.salt ^ state.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        i.states.insert(s);
        i.new_edges += 1;
        i.pts.push(Pt { n: n_eff, pick: 0, dev });
        0
    }
    /// Free choice: all alternatives are enumerated.
    pub fn pick(&self, n: usize) -> usize {
        let st = {
            let i = lock(&self.0);
            let mut h = Fnv::default();
            for p in &i.pts[..i.pos.min(i.pts.len())] {
                h.write_u32(p.pick);
            }
            h.finish()
        };
        self.draw(n, false, st)
    }
    pub fn of<T: Clone>(&self, items: &[T]) -> T {
        items[self.pick(items.len())].clone()
    }
    pub fn flag(&self) -> bool {
        self.pick(2) == 1
    }
    /// Environment deviation: 0 is the default answer, others cost one unit of the bound.
    pub fn dev(&self, n: usize, state: u64) -> usize {
        self.draw(n, true, state)
    }
    /// True if deviations may still be taken (lets callers skip building alternatives).
    pub fn can_dev(&self) -> bool {
        let i = lock(&self.0);
        if i.replay.is_some() || i.pos < i.prefix {
            return true;
        }
        i.used < i.bound
    }
    /// What happened on a connection before the operation under test (see `client::PRIORS`).
    pub fn set_prior(&self, k: usize) {
        lock(&self.0).prior = k;
    }
    pub fn prior(&self) -> usize {
        lock(&self.0).prior
    }
    pub fn choices(&self) -> Vec<u32> {
        let i = lock(&self.0);
        i.pts.iter().map(|p| p.pick).collect()
    }
}

/// What one execution reports.
#[derive(Default)]
pub struct Cx {
    pub ch: Ch,
    pub fail: Option<(String, String)>, // (key, message)
    pub obs: Fnv,
    pub evals: u64,      // inner evaluations (loops over inputs inside one body)
    pub nontrivial: u64, // of those, how many were distinct and non-trivial
    pub note: String,    // human readable description (samples)
}

impl Cx {
    pub fn bad(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some((key.into(), msg.into()));
        }
    }
    pub fn ok(&self) -> bool {
        self.fail.is_none()
    }
    pub fn see<T: std::hash::Hash>(&mut self, t: &T) {
        t.hash(&mut self.obs);
    }
    /// One inner evaluation of an input loop.
    pub fn eval(&mut self, nontrivial: bool) {
        beat();
        self.evals += 1;
        self.nontrivial += nontrivial as u64;
    }
}

pub type JobBody = Arc<dyn Fn(&mut Cx) + Send + Sync>;
#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub bound: u32,
    pub body: JobBody,
}
pub fn job(name: impl Into<String>, bound: u32, body: impl Fn(&mut Cx) + Send + Sync + 'static) -> Job {
    Job { name: name.into(), bound, body: Arc::new(body) }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Totals {
    pub executions: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    /// Evaluations made inside of bodies that loop over inputs.
    pub inner: u64,
    pub states: u64,
    pub transitions: u64,
    pub distinct_obs: u64,
    pub jobs: u64,
    pub capped: bool,
    pub violations: Vec<Violation>,
    pub engine_errors: Vec<String>,
    pub samples: Vec<String>,
    /// (job, executions, order-sensitive hash of all observations)
    pub job_obs: Vec<(String, u64, u64)>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

thread_local! {
    static HEART: std::cell::RefCell<Option<(Instant, Arc<Vec<Slot>>, usize)>> = const { std::cell::RefCell::new(None) };
}
/// Tells the watchdog that this thread makes progress.
pub fn beat() {
    HEART.with(|h| {
        if let Some((base, slots, t)) = &*h.borrow() {
            slots[*t].started.store(base.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

enum Ran {
    Done(Cx),
    Engine(String),
}

fn run_once(body: &JobBody, ch: &Ch) -> Ran {
    let mut cx = Cx { ch: ch.clone(), ..Default::default() };
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut cx)));
    if r.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        // Panics raised by the harness's own sources are engine errors, never verdicts.
        if loc.starts_with("src/") || loc.contains("/harness/src/") || msg.starts_with("DIVERGENCE") {
            return Ran::Engine(format!("harness panic at {loc}: {msg}"));
        }
        cx.fail = None;
        cx.bad("panic", format!("panic in the code under test at {loc}: {msg}"));
        cx.see(&"panic");
    }
    Ran::Done(cx)
}

pub struct Limits {
    pub deadline: Instant,
    pub max_violations: usize,
    pub threads: usize,
    /// No execution, with all its inner evaluations, takes nearly as long.
    pub max_exec_s: u64,
}

struct Slot {
    started: AtomicU64, // millis since base, 0 = idle
    entered: AtomicU64, // the same, for the whole execution (no heartbeat)
    job: Mutex<(String, Option<Ch>)>,
}

pub fn run_jobs(jobs: Vec<Job>, lim: &Limits, on_stuck: impl Fn(Violation) + Send + Sync + 'static) -> Totals {
    let next = AtomicUsize::new(0);
    let stop = Arc::new(AtomicBool::new(false));
    let capped = AtomicBool::new(false);
    let out = Mutex::new(Totals::default());
    let base = Instant::now();
    let n_threads = lim.threads.max(1);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..n_threads)
            .map(|_| Slot { started: AtomicU64::new(0), entered: AtomicU64::new(0), job: Mutex::new((String::new(), None)) })
            .collect(),
    );
    // Watchdog: one evaluation that does not end in 60 s (they take micro- to milliseconds), or
    // that exhausts memory, is reported as non-termination.
    {
        let slots = slots.clone();
        let stop = stop.clone();
        let max_exec = lim.max_exec_s * 1000;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if stop.load(Ordering::Relaxed) {
                return;
            }
            let now = base.elapsed().as_millis() as u64 + 1;
            let rss_gb = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                * 4096
                / (1 << 30);
            let mut worst: Option<(u64, usize)> = None;
            for (k, s) in slots.iter().enumerate() {
                let st = s.started.load(Ordering::Relaxed);
                let en = s.entered.load(Ordering::Relaxed);
                if st != 0 {
                    let mut d = now.saturating_sub(st);
                    if en != 0 && now.saturating_sub(en) > max_exec {
                        d = d.max(now - en);
                    }
                    if worst.map_or(true, |w| d > w.0) {
                        worst = Some((d, k));
                    }
                }
            }
            if let Some((d, k)) = worst {
                if d > 60_000 || (rss_gb >= 14 && d > 1_000) {
                    let (name, ch) = {
                        let g = lock(&slots[k].job);
                        (g.0.clone(), g.1.clone())
                    };
                    let choices = ch
                        .map(|c| c.0.try_lock().map(|i| i.pts.iter().map(|p| p.pick).collect()).unwrap_or_default())
                        .unwrap_or_default();
                    on_stuck(Violation {
                        job: name,
                        choices,
                        key: "no-termination".into(),
                        msg: format!("one execution did not end ({d} ms, {rss_gb} GiB resident)"),
                    });
                }
            }
        });
    }
    std::thread::scope(|sc| {
        for t in 0..n_threads {
            let (jobs, next, stop, capped, out, slots) = (&jobs, &next, &stop, &capped, &out, &slots);
            sc.spawn(move || {
                HEART.with(|h| *h.borrow_mut() = Some((base, slots.clone(), t)));
                let mut states = HSet::default();
                let mut obs_set = HSet::default();
                let mut tot = Totals::default();
                'jobs: loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let j = &jobs[k];
                    let mut salt = Fnv::default();
                    salt.write(j.name.as_bytes());
                    let salt = salt.finish();
                    tot.jobs += 1;
                    for bound in 0..=j.bound {
                        let last = bound == j.bound;
                        let ch = Ch::default();
                        {
                            let mut i = lock(&ch.0);
                            i.bound = bound;
                            i.salt = salt;
                            i.states = std::mem::take(&mut states);
                        }
                        *lock(&slots[t].job) = (j.name.clone(), Some(ch.clone()));
                        let mut first: Option<(u64, Vec<Pt>)> = None;
                        let mut replays = 0;
                        let mut seq = Fnv::default();
                        let mut execs = 0u64;
                        loop {
                            {
                                let mut i = lock(&ch.0);
                                i.pos = 0;
                                i.prior = 0;
                                i.used = 0;
                                i.prefix = i.pts.len();
                            }
                            let now = base.elapsed().as_millis() as u64 + 1;
                            slots[t].started.store(now, Ordering::Relaxed);
                            slots[t].entered.store(now, Ordering::Relaxed);
                            let r = run_once(&j.body, &ch);
                            slots[t].started.store(0, Ordering::Relaxed);
                            slots[t].entered.store(0, Ordering::Relaxed);
                            let cx = match r {
                                Ran::Engine(e) => {
                                    tot.engine_errors.push(format!("job {}: {e} (choices {:?})", j.name, ch.choices()));
                                    states = std::mem::take(&mut lock(&ch.0).states);
                                    continue 'jobs;
                                }
                                Ran::Done(cx) => cx,
                            };
                            let h = cx.obs.finish();
                            {
                                let mut i = lock(&ch.0);
                                if i.pos < i.prefix && cx.fail.is_none() {
                                    tot.engine_errors.push(format!("job {}: execution ended inside its prefix", j.name));
                                    states = std::mem::take(&mut i.states);
                                    continue 'jobs;
                                }
                                let pos = i.pos;
                                i.pts.truncate(pos);
                                // Determinism: the first execution is run twice.
                                match &first {
                                    None => {
                                        first = Some((h, i.pts.clone()));
                                        replays = 1;
                                        if cx.fail.is_none() {
                                            continue;
                                        }
                                    }
                                    Some((h0, p0)) if replays == 1 => {
                                        replays = 2;
                                        if *h0 != h || *p0 != i.pts {
                                            tot.engine_errors.push(format!("job {}: replay is not deterministic", j.name));
                                            states = std::mem::take(&mut i.states);
                                            continue 'jobs;
                                        }
                                    }
                                    _ => {}
                                }
                            }
                            seq.write_u64(h);
                            execs += 1;
                            if last {
                                tot.executions += 1;
                                tot.evaluations += cx.evals.max(1);
                                tot.inner += cx.evals;
                                let new = obs_set.insert(salt ^ h);
                                if cx.evals > 0 {
                                    tot.nontrivial += cx.nontrivial;
                                } else if new {
                                    tot.nontrivial += 1;
                                }
                                if tot.samples.len() < 2 && execs % 97 == 1 && !cx.note.is_empty() {
                                    tot.samples.push(format!("{}: {}", j.name, cx.note));
                                }
                            }
                            if let Some((key, msg)) = cx.fail {
                                let full = if cx.note.is_empty() { msg } else { format!("{msg} [{}]", cx.note) };
                                tot.violations.push(Violation { job: j.name.clone(), choices: ch.choices(), key, msg: full });
                                if tot.violations.len() >= lim.max_violations {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                states = std::mem::take(&mut lock(&ch.0).states);
                                continue 'jobs; // one violation per job is enough
                            }
                            if Instant::now() > lim.deadline {
                                capped.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                            if stop.load(Ordering::Relaxed) {
                                states = std::mem::take(&mut lock(&ch.0).states);
                                break 'jobs;
                            }
                            // advance (odometer)
                            let mut i = lock(&ch.0);
                            while let Some(l) = i.pts.last_mut() {
                                if l.pick + 1 < l.n {
                                    l.pick += 1;
                                    break;
                                }
                                i.pts.pop();
                            }
                            if i.pts.is_empty() {
                                break;
                            }
                        }
                        let mut i = lock(&ch.0);
                        states = std::mem::take(&mut i.states);
                        if last {
                            tot.transitions += i.new_edges;
                            tot.job_obs.push((j.name.clone(), execs, seq.finish()));
                        }
                    }
                }
                let mut o = lock(out);
                o.executions += tot.executions;
                o.evaluations += tot.evaluations;
                o.nontrivial += tot.nontrivial;
                o.inner += tot.inner;
                o.states += states.len() as u64; // jobs are salted: sets of different jobs are disjoint
                o.transitions += tot.transitions;
                o.distinct_obs += obs_set.len() as u64;
                o.jobs += tot.jobs;
                o.violations.extend(tot.violations);
                o.engine_errors.extend(tot.engine_errors);
                o.samples.extend(tot.samples);
                o.job_obs.extend(tot.job_obs);
            });
        }
    });
    stop.store(true, Ordering::Relaxed);
    let mut o = out.into_inner().unwrap_or_else(|e| e.into_inner());
    o.capped = capped.load(Ordering::Relaxed);
    o.job_obs.sort();
    o.samples.sort();
    o.violations.sort_by(|a, b| (a.choices.len(), &a.job).cmp(&(b.choices.len(), &b.job)));
    o
}

/// Re-executes one recorded choice sequence.
pub fn replay(j: &Job, choices: &[u32]) -> Result<(Option<(String, String)>, u64, String), String> {
    let ch = Ch::default();
    {
        let mut i = lock(&ch.0);
        i.replay = Some(choices.to_vec());
        i.bound = u32::MAX;
    }
    match run_once(&j.body, &ch) {
        Ran::Engine(e) => Err(e),
        Ran::Done(cx) => Ok((cx.fail, cx.obs.finish(), cx.note)),
    }
}

/// Runs one job and prints "choices obs" for every execution of its final bound (for diffing).
pub fn dump(j: &Job, mut sink: impl FnMut(&[u32], u64, &str)) {
    let ch = Ch::default();
    lock(&ch.0).bound = j.bound;
    loop {
        {
            let mut i = lock(&ch.0);
            i.pos = 0;
            i.prior = 0;
            i.used = 0;
            i.prefix = i.pts.len();
        }
        match run_once(&j.body, &ch) {
            Ran::Engine(e) => {
                eprintln!("engine: {e}");
                return;
            }
            Ran::Done(cx) => {
                let mut i = lock(&ch.0);
                let pos = i.pos;
                i.pts.truncate(pos);
                let c: Vec<u32> = i.pts.iter().map(|p| p.pick).collect();
                sink(&c, cx.obs.finish(), &cx.note);
            }
        }
        let mut i = lock(&ch.0);
        while let Some(l) = i.pts.last_mut() {
            if l.pick + 1 < l.n {
                l.pick += 1;
                break;
            }
            i.pts.pop();
        }
        if i.pts.is_empty() {
            return;
        }
    }
}
