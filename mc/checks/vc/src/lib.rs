//! Small explicit-state / stateless model checking engine shared by all checks.
//!
//! * [`Ctx::explore`] runs a body for every sequence of choices the body asks for.
//! * [`Ctx::range`] runs a body for every index of a finite space.
//!
//! Both count what they did, catch panics, write a replayable artefact for every violation and
//! are able to re-run a single recorded case (`--replay <file>`).

pub mod clock;
pub mod entropy;
pub mod json;

use std::{
    cell::RefCell,
    collections::HashSet,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    ModelChecking,
    Exploration,
    FaultEnumeration,
}

pub struct Check {
    pub id: &'static str,
    pub level: Level,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub f: fn(&Ctx),
}

/// Result of one execution: `Err` describes the violation.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
        }
    }};
}

/// Ends the run with an error that is not a verdict.
pub fn engine_error(msg: &str) -> ! {
    println!("ENGINE-ERROR {msg}");
    eprintln!("ENGINE-ERROR {msg}");
    std::process::exit(2)
}

const MAX_VIOLATIONS: usize = 5;

#[derive(Default)]
struct Totals {
    executions: u64,
    transitions: u64,
    evaluations: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    spaces: Vec<(String, u64)>,
}

struct Violation {
    space: String,
    at: String,
    message: String,
    trace: Vec<String>,
}

struct Replay {
    space: String,
    at: Vec<u32>,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    level: Level,
    rule: &'static str,
    start: Instant,
    cap: Duration,
    threads: usize,
    totals: Mutex<Totals>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    replay: Option<Replay>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<usize>>,
}

/// Source of choices and sink of observations of one execution.
pub struct Ch {
    prefix: Vec<u32>,
    taken: Vec<u32>,
    arity: Vec<u32>,
    trace: Option<Vec<String>>,
    evaluations: u64,
    steps: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    diverged: bool,
    fixed: bool,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

impl Ch {
    fn new(prefix: Vec<u32>, trace: bool) -> Self {
        Ch {
            prefix,
            taken: vec![],
            arity: vec![],
            trace: trace.then(Vec::new),
            evaluations: 0,
            steps: 0,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            diverged: false,
            fixed: false,
        }
    }

    /// A nondeterministic choice among `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "pick from nothing");
        if n == 1 {
            return 0;
        }
        if self.fixed {
            engine_error("a choice inside a range is not explored");
        }
        let at = self.taken.len();
        let v = if at < self.prefix.len() {
            self.prefix[at]
        } else {
            0
        };
        if v as usize >= n {
            self.diverged = true;
            panic!("nondeterministic replay: choice {v} of {n} at {at}");
        }
        self.taken.push(v);
        self.arity.push(n as u32);
        v as usize
    }

    pub fn choose<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        let i = self.pick(of.len());
        &of[i]
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    /// A subset of `0..n`, as bits.
    pub fn subset(&mut self, n: usize) -> u32 {
        self.pick(1 << n) as u32
    }

    /// A permutation of `0..n`.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !rest.is_empty() {
            let i = self.pick(rest.len());
            out.push(rest.remove(i));
        }
        out
    }

    /// Adds a line to the trace shown with a violation.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }

    /// Records that the system reached this state.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }

    /// Records an observable outcome, to show the exploration is not vacuous.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(hash_of(t));
    }

    /// Counts one comparison against the oracle.
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }

    pub fn evals(&mut self, n: u64) {
        self.evaluations += n;
    }

    /// Counts transitions taken without asking for a choice.
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// All panics are captured here; whoever joins the thread decides what they mean.
static OTHER_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{msg} at {at}");
        if std::env::var_os("VC_BACKTRACE").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        *OTHER_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(text);
    }));
}

/// Runs `f`, turning a panic into `Err(text)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// Runs one execution: panics are violations, and the thread is back on the real clock afterwards.
fn run(f: impl FnOnce() -> Res) -> Res {
    let r = no_panic(f);
    clock::stop();
    r.unwrap_or_else(|p| Err(format!("panic: {p}")))
}

/// Runs an execution on a fresh thread (fresh thread-locals); a panic becomes `Err`.
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || no_panic(f))
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    })
}

impl Ctx {
    /// The bound for the current tier.
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn check_cap(&self) {
        if self.start.elapsed() > self.cap {
            engine_error(&format!(
                "{}: the stated bounds were not completed within {:?}",
                self.id, self.cap
            ));
        }
    }

    fn violation(&self, space: &str, at: String, message: String, trace: Vec<String>) {
        for (i, (pat, text)) in self.known.iter().enumerate() {
            if message.contains(pat.as_str()) {
                if self.known_hit.lock().unwrap().insert(i) {
                    println!("KNOWN-FINDING: property={} {}", self.id, text);
                }
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push(Violation {
                space: space.into(),
                at,
                message,
                trace,
            });
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    fn merge(&self, ch: &mut Ch, runs: u64, transitions: u64) {
        let mut t = self.totals.lock().unwrap();
        t.executions += runs;
        t.transitions += transitions + ch.steps;
        ch.steps = 0;
        t.evaluations += ch.evaluations;
        ch.evaluations = 0;
        t.states.extend(ch.states.drain());
        t.outcomes.extend(ch.outcomes.drain());
    }

    pub fn sample(&self, s: String) {
        let mut t = self.totals.lock().unwrap();
        if t.samples.len() < 12 {
            t.samples.push(s);
        }
    }

    /// Counts evaluations made outside of explore / range.
    pub fn count(&self, evaluations: u64, states: u64, transitions: u64) {
        let mut t = self.totals.lock().unwrap();
        t.evaluations += evaluations;
        t.transitions += transitions;
        let _ = states;
    }

    fn replaying(&self, space: &str) -> Option<Option<Vec<u32>>> {
        self.replay
            .as_ref()
            .map(|r| (r.space == space).then(|| r.at.clone()))
    }

    /// Runs `body` once for every sequence of choices it can make.
    pub fn explore(&self, space: &str, body: impl Fn(&mut Ch) -> Res + Sync) {
        if let Some(r) = self.replaying(space) {
            if let Some(at) = r {
                let mut ch = Ch::new(at.clone(), true);
                let res = run(|| body(&mut ch));
                for l in ch.trace.iter().flatten() {
                    println!("  {l}");
                }
                println!("  result: {res:?}");
                if let Err(m) = res {
                    self.violation(space, fmt_at(&at), m, vec![]);
                }
            }
            return;
        }
        if self.stopped() {
            return;
        }
        let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
        let pending = AtomicUsize::new(1); // tasks in global or local stacks or running
        let idle = AtomicUsize::new(0);
        let total_runs = AtomicU64::new(0);
        std::thread::scope(|s| {
            for worker in 0..self.threads {
                let (global, pending, idle, body, total_runs) =
                    (&global, &pending, &idle, &body, &total_runs);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local: Vec<Vec<u32>> = vec![];
                        let mut acc = Ch::new(vec![], false);
                        let (mut runs, mut trans, mut since) = (0u64, 0u64, 0u32);
                        let mut am_idle = false;
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let task = local.pop().or_else(|| global.lock().unwrap().pop());
                            let Some(prefix) = task else {
                                if !am_idle {
                                    am_idle = true;
                                    idle.fetch_add(1, Ordering::SeqCst);
                                }
                                if pending.load(Ordering::SeqCst) == 0 {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                                continue;
                            };
                            if am_idle {
                                am_idle = false;
                                idle.fetch_sub(1, Ordering::SeqCst);
                            }
                            since += 1;
                            if since == 64 {
                                since = 0;
                                self.check_cap();
                            }
                            let from = prefix.len();
                            let mut ch = Ch::new(prefix, false);
                            std::mem::swap(&mut ch.states, &mut acc.states);
                            std::mem::swap(&mut ch.outcomes, &mut acc.outcomes);
                            let res = run(|| body(&mut ch));
                            std::mem::swap(&mut ch.states, &mut acc.states);
                            std::mem::swap(&mut ch.outcomes, &mut acc.outcomes);
                            if ch.diverged || (res.is_ok() && ch.taken.len() < from) {
                                engine_error(&format!(
                                    "{}: execution of {space} is not a function of its choices ({})",
                                    self.id,
                                    fmt_at(&ch.prefix)
                                ));
                            }
                            runs += 1;
                            trans += ch.taken.len() as u64 + 1;
                            acc.evaluations += ch.evaluations;
                            acc.steps += ch.steps;
                            // alternatives of the choices made beyond the prefix
                            let mut new = 0;
                            for i in from..ch.taken.len() {
                                for alt in (1..ch.arity[i]).rev() {
                                    let mut p = ch.taken[..i].to_vec();
                                    p.push(alt);
                                    local.push(p);
                                    new += 1;
                                }
                            }
                            pending.fetch_add(new, Ordering::SeqCst);
                            if let Err(m) = res {
                                // run again with tracing
                                let mut again = Ch::new(ch.taken.clone(), true);
                                let _ = run(|| body(&mut again));
                                self.violation(
                                    space,
                                    fmt_at(&ch.taken),
                                    m,
                                    again.trace.unwrap_or_default(),
                                );
                            } else if worker == 0 && (runs == 1 || runs == 7 || runs == 100) {
                                let mut again = Ch::new(ch.taken.clone(), true);
                                let _ = run(|| body(&mut again));
                                self.sample(format!(
                                    "{space} [{}] {}",
                                    fmt_at(&ch.taken),
                                    again.trace.unwrap_or_default().join("; ")
                                ));
                            }
                            pending.fetch_sub(1, Ordering::SeqCst);
                            if idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                                let give = local.len() / 2;
                                global.lock().unwrap().extend(local.drain(..give));
                            }
                        }
                        total_runs.fetch_add(runs, Ordering::Relaxed);
                        self.merge(&mut acc, runs, trans);
                    })
                    .expect("spawn");
            }
        });
        let n = total_runs.load(Ordering::Relaxed);
        self.totals.lock().unwrap().spaces.push((space.into(), n));
    }

    /// Runs `body` for every index in `0..n`.
    pub fn range(&self, space: &str, n: u64, body: impl Fn(u64, &mut Ch) -> Res + Sync) {
        if let Some(r) = self.replaying(space) {
            if let Some(at) = r {
                let i = ((at[0] as u64) << 32) | at[1] as u64;
                let mut ch = Ch::new(vec![], true);
                ch.fixed = true;
                let res =
                    run(|| body(i, &mut ch));
                for l in ch.trace.iter().flatten() {
                    println!("  {l}");
                }
                println!("  result: {res:?}");
                if let Err(m) = res {
                    self.violation(space, format!("{},{}", at[0], at[1]), m, vec![]);
                }
            }
            return;
        }
        if self.stopped() {
            return;
        }
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 16)).clamp(1, 1 << 16);
        std::thread::scope(|s| {
            for worker in 0..self.threads {
                let (next, body) = (&next, &body);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut acc = Ch::new(vec![], false);
                        acc.fixed = true;
                        let mut runs = 0;
                        loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= n || self.stopped() {
                                break;
                            }
                            self.check_cap();
                            for i in from..(from + chunk).min(n) {
                                let res = run(|| body(i, &mut acc));
                                runs += 1;
                                if let Err(m) = res {
                                    let mut again = Ch::new(vec![], true);
                                    again.fixed = true;
                                    let _ = run(|| body(i, &mut again));
                                    self.violation(
                                        space,
                                        format!("{},{}", i >> 32, i & 0xffff_ffff),
                                        m,
                                        again.trace.unwrap_or_default(),
                                    );
                                    if self.stopped() {
                                        break;
                                    }
                                } else if worker == 0 && (runs == 1 || runs == 7) {
                                    let mut again = Ch::new(vec![], true);
                                    again.fixed = true;
                                    let _ = run(|| body(i, &mut again));
                                    self.sample(format!(
                                        "{space}[{i}] {}",
                                        again.trace.unwrap_or_default().join("; ")
                                    ));
                                }
                            }
                        }
                        self.merge(&mut acc, runs, runs);
                    })
                    .expect("spawn");
            }
        });
        self.totals.lock().unwrap().spaces.push((space.into(), n));
    }

    /// Runs `body` once (a single case space).
    pub fn once(&self, space: &str, body: impl Fn(&mut Ch) -> Res + Sync) {
        self.range(space, 1, |_, ch| body(ch));
    }
}

fn fmt_at(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

/// Entry point of a check binary: `<bin> <property> <quick|thorough> [--replay <file>]`.
pub fn main(checks: &[Check]) -> ! {
    // Errors that record where they were made would dominate the running time.
    if std::env::var_os("VC_BACKTRACE").is_none() {
        std::env::set_var("RUST_BACKTRACE", "0");
    }
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        engine_error("usage: <property> <quick|thorough> [--replay <file>]");
    }
    let tier = match args[2].as_str() {
        "thorough" => Tier::Thorough,
        "quick" => Tier::Quick,
        t => engine_error(&format!("unknown tier {t}")),
    };
    let Some(check) = checks.iter().find(|c| c.id == args[1]) else {
        engine_error(&format!("unknown property {}", args[1]));
    };
    let replay = (args.get(3).map(String::as_str) == Some("--replay")).then(|| {
        let text = std::fs::read_to_string(&args[4]).unwrap_or_else(|e| engine_error(&e.to_string()));
        let field = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(&format!("{k}: ")))
                .unwrap_or("")
                .to_string()
        };
        Replay {
            space: field("space"),
            at: field("at")
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| s.trim().parse().unwrap_or(0))
                .collect(),
        }
    });
    install_hook();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let known = std::fs::read_to_string(root().join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // finding: property=<id> match=<text> | <description>
            let l = l.strip_prefix("finding: property=")?;
            let (id, l) = l.split_once(' ')?;
            let l = l.strip_prefix("match=")?;
            let (pat, text) = l.split_once(" | ")?;
            (id == check.id).then(|| (pat.to_string(), text.to_string()))
        })
        .collect();
    let cap = Duration::from_secs(match tier {
        Tier::Quick => 780,
        Tier::Thorough => 3600,
    });
    let threads = std::env::var("VC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let ctx = Ctx {
        id: check.id,
        tier,
        level: check.level,
        rule: check.rule,
        start: Instant::now(),
        cap,
        threads,
        totals: Mutex::default(),
        violations: Mutex::default(),
        stop: AtomicBool::new(false),
        replay,
        known,
        known_hit: Mutex::default(),
    };
    if let Err(p) = no_panic(|| (check.f)(&ctx)) {
        engine_error(&format!("{}: check failed outside of an execution: {p}", check.id));
    }
    ctx.finish(seed)
}

impl Ctx {
    fn finish(self, seed: i64) -> ! {
        let t = self.totals.into_inner().unwrap();
        let v = self.violations.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        if self.replay.is_some() {
            for x in &v {
                println!("replayed violation: {}", x.message);
            }
            std::process::exit(if v.is_empty() { 0 } else { 1 });
        }
        if t.executions == 0 {
            engine_error(&format!("{}: nothing was explored", self.id));
        }
        let mut cov = json::Obj::new();
        match self.level {
            Level::ModelChecking => {
                cov.num("states", t.states.len() as u64);
                cov.num("transitions", t.transitions);
                cov.num("traces_validated_against_impl", t.executions);
                cov.num("oracle_comparisons", t.evaluations);
                cov.num("distinct_outcomes", t.outcomes.len() as u64);
            }
            Level::Exploration | Level::FaultEnumeration => {
                cov.num("evaluations", t.executions);
                cov.num("distinct_nontrivial", t.outcomes.len() as u64);
                cov.num("oracle_comparisons", t.evaluations);
                if !t.states.is_empty() {
                    cov.num("states", t.states.len() as u64);
                }
            }
        }
        cov.str("rule", self.rule);
        cov.raw(
            "spaces",
            &format!(
                "[{}]",
                t.spaces
                    .iter()
                    .map(|(n, c)| format!("{{\"name\":{},\"cases\":{c}}}", json::quote(n)))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
        );
        cov.raw(
            "samples",
            &format!(
                "[{}]",
                t.samples
                    .iter()
                    .map(|s| json::quote(&s.chars().take(600).collect::<String>()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
        );
        cov.raw("exhaustive", if v.is_empty() { "true" } else { "false" });
        let mut o = json::Obj::new();
        o.str("property", self.id);
        o.str("tier", if self.tier == Tier::Quick { "quick" } else { "thorough" });
        o.raw("seed", &seed.to_string());
        o.str(
            "level",
            match self.level {
                Level::ModelChecking => "model_checking",
                Level::Exploration => "exploration",
                Level::FaultEnumeration => "fault_enumeration",
            },
        );
        o.raw("coverage", &cov.end());
        o.raw("wall_s", &format!("{wall:.3}"));
        o.num("violations", v.len() as u64);
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), o.end() + "\n") {
            engine_error(&format!("cannot write evidence: {e}"));
        }
        println!(
            "{}: {} executions, {} transitions, {} states, {} distinct outcomes, {} comparisons, {:.1} s",
            self.id,
            t.executions,
            t.transitions,
            t.states.len(),
            t.outcomes.len(),
            t.evaluations,
            wall
        );
        if v.is_empty() {
            std::process::exit(0);
        }
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for (i, x) in v.iter().enumerate() {
            let path = dir.join(format!("{}-{i}.txt", self.id));
            let text = format!(
                "property: {}\nspace: {}\nat: {}\nmessage: {}\ntrace:\n{}\n",
                self.id,
                x.space,
                x.at,
                x.message.replace('\n', " "),
                x.trace.join("\n")
            );
            let _ = std::fs::write(&path, text);
            println!("  {} in {}: {}", self.id, x.space, x.message.chars().take(400).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        std::process::exit(1)
    }
}
