//! Stateless, exhaustive exploration of an environment's choices.
//!
//! A driver is an ordinary function that asks its `Ctx` for every choice it
//! makes. The explorer runs it again and again, replaying a prefix of choices and
//! taking alternative 0 afterwards, until every choice sequence has been run:
//! * `all(..)`  - every alternative, free of charge (full product);
//! * `dev(..)`  - alternative 0 is the default answer, any other is a deviation;
//!   executions with more than `bound` deviations are not explored.
//! A divergence while replaying a prefix is a hard error of the check.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Problem {
    /// Stable identity of the failing input / call site, matched against the known findings.
    pub site: String,
    pub detail: String,
}

impl Problem {
    pub fn new(site: impl Into<String>, detail: impl Into<String>) -> Self {
        Problem { site: site.into(), detail: detail.into() }
    }
}

/// `Ok(class of outcome)` or the disagreement with the reference model.
pub type Res = Result<String, Problem>;
pub type Driver = Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

#[derive(Clone)]
struct Point {
    name: &'static str,
    n: u32,
    chosen: u32,
    dev: bool,
}

pub struct Ctx {
    prefix: Vec<u32>,
    points: Vec<Point>,
    spent: u32,
    bound: u32,
    pub calls: u64,
    pub verbose: bool,
    pub labels: Vec<String>,
    diverged: Option<String>,
}

/// Thrown to abandon an execution that would exceed the bound.
struct Diverged;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    /// a panic outside `Ctx::call`, by the code under test (an operation's result
    /// that is computed while the driver looks at it)
    static STRAY: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_IMPL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_IMPL.with(std::cell::Cell::get) {
            PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else if info.payload().is::<Diverged>() {
        } else if info.location().is_some_and(|l| l.file().contains("openid4vci/src/")) {
            STRAY.with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

impl Ctx {
    pub fn new(prefix: Vec<u32>, bound: u32, verbose: bool) -> Self {
        Ctx {
            prefix,
            points: vec![],
            spent: 0,
            bound,
            calls: 0,
            verbose,
            labels: vec![],
            diverged: None,
        }
    }

    fn choose(&mut self, name: &'static str, n: usize, dev: bool) -> usize {
        assert!(n > 0, "no alternatives for {name}");
        let i = self.points.len();
        let chosen = match self.prefix.get(i) {
            Some(c) => *c as usize,
            None => 0,
        };
        if chosen >= n {
            self.diverged = Some(format!("choice {i} ({name}): {chosen} of {n}"));
            std::panic::panic_any(Diverged);
        }
        if dev && chosen != 0 {
            self.spent += 1;
        }
        self.points.push(Point { name, n: n as u32, chosen: chosen as u32, dev });
        chosen
    }

    /// Full product over the alternatives.
    pub fn all<'a, T: Debug>(&mut self, name: &'static str, alts: &'a [T]) -> &'a T {
        let i = self.choose(name, alts.len(), false);
        if self.verbose {
            self.labels.push(format!("{name} = {}", short(&alts[i])));
        }
        &alts[i]
    }

    /// Alternative 0 is the default; any other costs one deviation.
    pub fn dev<'a, T: Debug>(&mut self, name: &'static str, alts: &'a [T]) -> &'a T {
        let i = self.choose(name, alts.len(), true);
        if self.verbose && i != 0 {
            self.labels.push(format!("{name} := {}", short(&alts[i])));
        }
        &alts[i]
    }

    pub fn all_n(&mut self, name: &'static str, n: usize) -> usize {
        let i = self.choose(name, n, false);
        if self.verbose {
            self.labels.push(format!("{name} = #{i}"));
        }
        i
    }

    pub fn dev_n(&mut self, name: &'static str, n: usize) -> usize {
        let i = self.choose(name, n, true);
        if self.verbose && i != 0 {
            self.labels.push(format!("{name} := #{i}"));
        }
        i
    }

    pub fn flag(&mut self, name: &'static str) -> bool {
        *self.all(name, &[false, true])
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.labels.push(s);
        }
    }

    /// One call into the implementation, panics captured.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, Problem> {
        self.calls += 1;
        IN_IMPL.with(|x| x.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_IMPL.with(|x| x.set(false));
        r.map_err(|_| {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Problem::new(format!("panic/{what}"), format!("{what} panicked: {m}"))
        })
    }
}

fn short<T: Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 240 {
        let head: String = s.chars().take(200).collect();
        format!("{head}... ({} chars)", s.chars().count())
    } else {
        s
    }
}

pub struct Found {
    pub choices: Vec<u32>,
    pub labels: Vec<String>,
    pub problem: Problem,
    pub reproducible: bool,
}

#[derive(Default)]
pub struct Stats {
    /// distinct nodes of the choice tree (environment states) visited
    pub nodes: u64,
    /// calls into the implementation
    pub calls: u64,
    /// complete executions compared with the reference model
    pub executions: u64,
    /// class -> (executions, the first one's choices)
    pub outcomes: BTreeMap<String, (u64, Vec<u32>)>,
    pub known: BTreeMap<String, u64>,
    pub found: Option<Found>,
    pub capped: bool,
    pub error: Option<String>,
}

struct One {
    points: Vec<Point>,
    spent_before: Vec<u32>,
    calls: u64,
    res: Result<Res, String>,
    labels: Vec<String>,
}

fn run_one(driver: &Driver, prefix: &[u32], bound: u32, verbose: bool) -> One {
    let mut cx = Ctx::new(prefix.to_vec(), bound, verbose);
    STRAY.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| driver(&mut cx)));
    crate::clock::release();
    let mut spent = 0;
    let mut spent_before = Vec::with_capacity(cx.points.len());
    for p in &cx.points {
        spent_before.push(spent);
        if p.dev && p.chosen != 0 {
            spent += 1;
        }
    }
    let res = match r {
        Ok(r) => {
            if cx.points.len() < prefix.len() {
                Err(format!("replay diverged: only {} of {} choices asked", cx.points.len(), prefix.len()))
            } else {
                Ok(r)
            }
        }
        Err(e) => match (cx.diverged.take(), STRAY.with(|p| p.borrow_mut().take())) {
            (Some(d), _) => Err(d),
            (None, Some(m)) => Ok(Err(Problem::new("panic/outside", format!("the library panicked: {m}")))),
            (None, None) => Err(panic_text(&e)),
        },
    };
    One { points: cx.points, spent_before, calls: cx.calls, res, labels: cx.labels }
}

fn panic_text(e: &Box<dyn Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
        .unwrap_or_else(|| "driver panicked".into())
}

pub struct Limits {
    pub wall: Duration,
    pub threads: usize,
}

pub fn explore(
    driver: &Driver,
    bound: u32,
    limits: &Limits,
    is_known: &(dyn Fn(&str) -> bool + Sync),
    hang: &(dyn Fn(&[u32]) + Sync),
) -> Stats {
    let start = Instant::now();
    let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let idle = AtomicUsize::new(0);
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let beats: Vec<(AtomicU64, Mutex<Vec<u32>>)> =
        (0..limits.threads).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect();
    let done = AtomicBool::new(false);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..limits.threads {
            let (global, idle, cv, stop, merged, beats) = (&global, &idle, &cv, &stop, &merged, &beats);
            hs.push(s.spawn(move || {
                let mut st = Stats::default();
                let mut local: Vec<Vec<u32>> = vec![];
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let prefix = match local.pop() {
                        Some(p) => p,
                        None => {
                            let mut g = global.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if !g.is_empty() {
                                    let take = (g.len() / limits.threads).clamp(1, 256);
                                    let at = g.len() - take;
                                    local = g.split_off(at);
                                    break;
                                }
                                if idle.fetch_add(1, Ordering::SeqCst) + 1 == limits.threads {
                                    stop.store(true, Ordering::SeqCst);
                                    cv.notify_all();
                                    break;
                                }
                                g = cv.wait(g).unwrap();
                                if stop.load(Ordering::SeqCst) {
                                    break;
                                }
                                idle.fetch_sub(1, Ordering::SeqCst);
                            }
                            drop(g);
                            match local.pop() {
                                Some(p) => p,
                                None => break,
                            }
                        }
                    };
                    let n = st.executions;
                    if n % 64 == 0 && start.elapsed() > limits.wall {
                        st.capped = true;
                        stop.store(true, Ordering::SeqCst);
                        cv.notify_all();
                        break;
                    }
                    *beats[w].1.lock().unwrap() = prefix.clone();
                    beats[w].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let one = run_one(driver, &prefix, bound, false);
                    beats[w].0.store(0, Ordering::Relaxed);
                    st.executions += 1;
                    st.calls += one.calls;
                    st.nodes += (one.points.len() + 1 - prefix.len()) as u64;
                    match one.res {
                        Err(e) => {
                            st.error = Some(format!("{e} (prefix {prefix:?})"));
                            stop.store(true, Ordering::SeqCst);
                            cv.notify_all();
                            break;
                        }
                        Ok(Ok(class)) => {
                            st.outcomes
                                .entry(class)
                                .or_insert_with(|| (0, one.points.iter().map(|p| p.chosen).collect()))
                                .0 += 1;
                        }
                        Ok(Err(p)) if is_known(&p.site) => {
                            *st.known.entry(p.site).or_default() += 1;
                        }
                        Ok(Err(p)) => {
                            let choices = one.points.iter().map(|p| p.chosen).collect();
                            st.found =
                                Some(Found { choices, labels: vec![], problem: p, reproducible: true });
                            stop.store(true, Ordering::SeqCst);
                            cv.notify_all();
                            break;
                        }
                    }
                    // alternatives of every choice made after the prefix
                    for i in prefix.len()..one.points.len() {
                        let p = &one.points[i];
                        if p.n == 1 || (p.dev && one.spent_before[i] + 1 > bound) {
                            continue;
                        }
                        for alt in 1..p.n {
                            let mut np: Vec<u32> = one.points[..i].iter().map(|p| p.chosen).collect();
                            np.push(alt);
                            local.push(np);
                        }
                    }
                    if local.len() > 512 && idle.load(Ordering::Relaxed) > 0
                        || local.len() > 1 && idle.load(Ordering::Relaxed) > 0 && st.executions % 16 == 0
                        || prefix.is_empty()
                    {
                        let half = local.len() / 2;
                        // the bottom of the stack holds the shallow prefixes: biggest subtrees
                        let rest = local.split_off(half);
                        let give = std::mem::replace(&mut local, rest);
                        global.lock().unwrap().extend(give);
                        cv.notify_all();
                    }
                }
                let mut m = merged.lock().unwrap();
                m.nodes += st.nodes;
                m.calls += st.calls;
                m.executions += st.executions;
                m.capped |= st.capped;
                for (k, (n, c)) in st.outcomes {
                    m.outcomes.entry(k).or_insert((0, c)).0 += n;
                }
                for (k, v) in st.known {
                    *m.known.entry(k).or_default() += v;
                }
                if m.found.is_none() {
                    m.found = st.found;
                }
                if m.error.is_none() {
                    m.error = st.error;
                }
            }));
        }
        // watchdog: one execution that does not come back is a hang
        let (beats, done) = (&beats, &done);
        s.spawn(move || loop {
            for _ in 0..20 {
                if done.load(Ordering::Relaxed) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(25));
            }
            let now = start.elapsed().as_millis() as u64;
            for (b, p) in beats {
                let t = b.load(Ordering::Relaxed);
                if t != 0 && now > t + 60_000 {
                    hang(&p.lock().unwrap());
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::SeqCst);
    });

    let mut st = merged.into_inner().unwrap();
    if let Some(f) = &mut st.found {
        minimise(driver, f, is_known);
    }
    st
}

/// Same choices, reported verbosely.
pub fn replay(driver: &Driver, choices: &[u32]) -> (Result<Res, String>, Vec<String>) {
    let one = run_one(driver, choices, u32::MAX, true);
    (one.res, one.labels)
}

/// Resets choices to 0 as long as the execution still fails in the same way.
fn minimise(driver: &Driver, f: &mut Found, is_known: &(dyn Fn(&str) -> bool + Sync)) {
    let fails = |c: &[u32]| -> Option<Problem> {
        match run_one(driver, c, u32::MAX, false).res {
            Ok(Err(p)) if !is_known(&p.site) => Some(p),
            _ => None,
        }
    };
    // re-run twice: a failure that does not come back depends on what was called before
    let (a, b) = (fails(&f.choices), fails(&f.choices));
    f.reproducible = match (&a, &b) {
        (Some(a), Some(b)) => a.site == b.site,
        _ => false,
    };
    if a.is_some() && b.is_some() {
        let mut changed = true;
        while changed {
            changed = false;
            for i in (0..f.choices.len()).rev() {
                if f.choices[i] == 0 {
                    continue;
                }
                let mut c = f.choices.clone();
                c[i] = 0;
                let mut tries = vec![c.clone()];
                // a shorter suffix in case the later choices no longer fit
                tries.push(c[..=i].to_vec());
                for t in tries {
                    if let Some(p) = fails(&t) {
                        f.choices = t;
                        f.problem = p;
                        changed = true;
                        break;
                    }
                }
            }
        }
    }
    f.labels = replay(driver, &f.choices).1;
}
