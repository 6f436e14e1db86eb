use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use crate::{rng::hash_str, Res, Rng};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub out: Option<PathBuf>,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub scale: f64,
    /// Seconds of wall time after which no further cases are begun (a workload gets a third of what is left).
    pub budget: f64,
    pub trace: bool,
    /// Which part of the workloads to run, if a program's are split over several processes.
    pub part: String,
}

impl Opts {
    /// `<bin> ID [--tier quick|thorough] [--seed N] [--out FILE] [--only WORKLOAD:CASE] [--threads N] [--scale F] [--budget S] [--trace]`
    pub fn parse() -> Opts {
        let mut o = Opts {
            id: String::new(),
            tier: Tier::Quick,
            seed: 1,
            out: None,
            only: None,
            threads: 8,
            scale: 1.0,
            budget: f64::INFINITY,
            trace: false,
            part: String::new(),
        };
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            let mut val = || args.next().expect("missing argument value");
            match a.as_str() {
                "--tier" => {
                    o.tier = match val().as_str() {
                        "thorough" => Tier::Thorough,
                        _ => Tier::Quick,
                    }
                }
                "--seed" => o.seed = val().parse().expect("seed"),
                "--out" => o.out = Some(PathBuf::from(val())),
                "--threads" => o.threads = val().parse().expect("threads"),
                "--scale" => o.scale = val().parse().expect("scale"),
                "--budget" => o.budget = val().parse().expect("budget"),
                "--trace" => o.trace = true,
                "--part" => o.part = val(),
                "--only" => {
                    let v = val();
                    let (w, c) = v.rsplit_once(':').expect("--only WORKLOAD:CASE");
                    o.only = Some((w.to_string(), c.parse().expect("case number")));
                }
                x => o.id = x.to_string(),
            }
        }
        o
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Case count for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        ((n as f64 * self.scale).ceil() as u64).max(1)
    }
}

// ---------------------------------------------------------------------------------------------
// Panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{msg} at {loc}"));
            }
        });
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<payload>".to_string()
    }
}

/// What a panic was, with its location if known.
pub struct Caught {
    pub msg: String,
    pub payload: Box<dyn Any + Send>,
}

impl std::fmt::Debug for Caught {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panic({})", self.msg)
    }
}

/// Run `f`, catching a panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        // A panic that came from another thread (rayon) did not run the hook here.
        let own = payload_str(&*payload);
        let msg = match LAST_PANIC.with(|p| p.borrow_mut().take()) {
            Some(m) if m.starts_with(&own) || own == "<payload>" => m,
            _ => own,
        };
        Caught { msg, payload }
    })
}

// ---------------------------------------------------------------------------------------------
// Cases

pub struct Case {
    pub workload: String,
    pub no: u64,
    pub rng: Rng,
    pub ops: Vec<(&'static str, u64, u64)>,
    fp: u64,
    pub nontrivial: bool,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    pub keep_ops: usize,
}

impl Case {
    /// Record an operation: part of the case's identity, and of its printed history.
    pub fn op(&mut self, name: &'static str, a: u64, b: u64) {
        self.mix(name.len() as u64 ^ (name.as_bytes()[0] as u64) << 8 ^ a << 16 ^ b << 40);
        if self.ops.len() >= self.keep_ops {
            self.ops.drain(..self.keep_ops / 2);
        }
        self.ops.push((name, a, b));
        *self.counters.entry("operations").or_default() += 1;
    }

    pub fn mix(&mut self, x: u64) {
        self.fp = (self.fp.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }

    pub fn mix_str(&mut self, x: &str) {
        self.mix(hash_str(x));
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_default() += n;
    }

    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.maxima.entry(name).or_default();
        *e = (*e).max(n);
    }

    pub fn history(&self, last: usize) -> String {
        let mut s = String::new();
        let from = self.ops.len().saturating_sub(last);
        for (n, a, b) in &self.ops[from..] {
            let _ = write!(s, "{n}({a},{b}) ");
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub workload: String,
    pub case: u64,
    pub message: String,
    pub history: String,
}

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    per_workload: BTreeMap<String, u64>,
    samples: Vec<String>,
    rules: Vec<String>,
    violations: Vec<Violation>,
    notes: Vec<String>,
}

pub struct Runner {
    pub opts: Opts,
    inner: Mutex<Inner>,
    start: Instant,
}

/// Where each worker thread is, for the watchdog.
struct Slot {
    busy: AtomicBool,
    workload: Mutex<String>,
    case: AtomicU64,
    clock: AtomicU64,
    cpu_at_start: AtomicU64,
    started_ms: AtomicU64,
    proc_cpu_at_start: AtomicU64,
}

fn slots() -> &'static Vec<Slot> {
    static SLOTS: std::sync::OnceLock<Vec<Slot>> = std::sync::OnceLock::new();
    SLOTS.get_or_init(|| {
        (0..64)
            .map(|_| Slot {
                busy: AtomicBool::new(false),
                workload: Mutex::new(String::new()),
                case: AtomicU64::new(0),
                clock: AtomicU64::new(0),
                cpu_at_start: AtomicU64::new(0),
                started_ms: AtomicU64::new(0),
                proc_cpu_at_start: AtomicU64::new(0),
            })
            .collect()
    })
}

#[cfg(not(miri))]
mod clock {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    pub fn own_clock() -> u64 {
        let mut id = 0i32;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
        id as u32 as u64
    }
    /// Milliseconds of CPU time on that clock.
    pub fn read(id: u64) -> u64 {
        let mut ts = Ts { s: 0, n: 0 };
        if unsafe { clock_gettime(id as u32 as i32, &mut ts) } != 0 {
            return 0;
        }
        ts.s as u64 * 1000 + ts.n as u64 / 1_000_000
    }
    pub fn process() -> u64 {
        read(2)
    }
}
#[cfg(miri)]
mod clock {
    pub fn own_clock() -> u64 {
        0
    }
    pub fn read(_: u64) -> u64 {
        0
    }
    pub fn process() -> u64 {
        0
    }
}

/// One case may use this much CPU time; cases take milliseconds (the exhaustion runs set their own).
static CPU_LIMIT_MS: AtomicU64 = AtomicU64::new(60_000);
static WALL_LIMIT_MS: AtomicU64 = AtomicU64::new(150_000);

impl Runner {
    pub fn new(opts: Opts) -> &'static Runner {
        quiet_panics();
        let r: &'static Runner = Box::leak(Box::new(Runner {
            opts,
            inner: Mutex::new(Inner::default()),
            start: Instant::now(),
        }));
        if !cfg!(miri) {
            std::thread::spawn(move || r.watchdog());
        }
        r
    }

    pub fn set_case_limit(&self, cpu_s: u64) {
        CPU_LIMIT_MS.store(cpu_s * 1000, Ordering::Relaxed);
        WALL_LIMIT_MS.store(cpu_s * 2500, Ordering::Relaxed);
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    fn watchdog(&self) {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in slots() {
                if !s.busy.load(Ordering::Acquire) {
                    continue;
                }
                let case = s.case.load(Ordering::Acquire);
                let cpu = clock::read(s.clock.load(Ordering::Relaxed))
                    .saturating_sub(s.cpu_at_start.load(Ordering::Relaxed));
                let wall = self.now_ms().saturating_sub(s.started_ms.load(Ordering::Relaxed));
                let proc = clock::process().saturating_sub(s.proc_cpu_at_start.load(Ordering::Relaxed));
                let limit = CPU_LIMIT_MS.load(Ordering::Relaxed);
                let spinning = cpu > limit
                    || (wall > WALL_LIMIT_MS.load(Ordering::Relaxed) && proc > 2 * limit);
                let stuck = wall > WALL_LIMIT_MS.load(Ordering::Relaxed) * 2;
                if !(spinning || stuck) {
                    continue;
                }
                if !s.busy.load(Ordering::Acquire) || s.case.load(Ordering::Acquire) != case {
                    continue;
                }
                let workload = s.workload.lock().unwrap().clone();
                self.add_violation(Violation {
                    workload,
                    case,
                    message: format!(
                        "the case does not terminate ({}): {cpu} ms of CPU time in its thread, {proc} ms in the process, {wall} ms of wall time (cases take milliseconds)",
                        if spinning { "running" } else { "blocked" }
                    ),
                    history: String::new(),
                });
                self.finish_and_exit();
            }
        }
    }

    pub fn add_violation(&self, v: Violation) {
        self.inner.lock().unwrap().violations.push(v);
    }

    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rules.push(s.to_string());
    }

    pub fn note(&self, s: String) {
        self.inner.lock().unwrap().notes.push(s);
    }

    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }

    /// Run `n` cases of a workload on `threads` worker threads, `rule` says what they are.
    pub fn run(
        &self,
        workload: &str,
        rule: &str,
        n: u64,
        threads: usize,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        self.rule(&format!("{workload}: {rule}"));
        if let Some((w, c)) = &self.opts.only {
            if w == workload {
                self.one(0, workload, *c, &f, true);
            }
            return;
        }
        if self.violated() {
            return;
        }
        let next = AtomicU64::new(0);
        let threads = threads.min(n as usize).max(1);
        let now = self.start.elapsed().as_secs_f64();
        let until = now + ((self.opts.budget - now) / 3.0).max(10.0);
        let cut = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, f, cut) = (&next, &f, &cut);
                let body = move || loop {
                    let c = next.fetch_add(1, Ordering::Relaxed);
                    if c >= n || self.violated() {
                        break;
                    }
                    if self.start.elapsed().as_secs_f64() > until {
                        cut.store(true, Ordering::Relaxed);
                        break;
                    }
                    self.one(t, workload, c, f, c < 1);
                };
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, body)
                    .unwrap();
            }
        });
        if cut.load(Ordering::Relaxed) {
            self.note(format!("{workload}: out of time, fewer than the {n} cases planned"));
        }
    }

    fn one(&self, t: usize, workload: &str, c: u64, f: &(impl Fn(&mut Case) -> Res + Sync), sample: bool) {
        let mut case = Case {
            workload: workload.to_string(),
            no: c,
            rng: Rng::for_case(self.opts.seed, workload, c),
            ops: Vec::new(),
            fp: hash_str(workload),
            nontrivial: false,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            keep_ops: if self.opts.only.is_some() { usize::MAX } else { 400 },
        };
        if self.opts.trace {
            eprintln!("BEGIN {workload}:{c}");
        }
        let s = &slots()[t];
        *s.workload.lock().unwrap() = workload.to_string();
        s.clock.store(clock::own_clock(), Ordering::Relaxed);
        s.cpu_at_start
            .store(clock::read(s.clock.load(Ordering::Relaxed)), Ordering::Relaxed);
        s.started_ms.store(self.now_ms(), Ordering::Relaxed);
        s.proc_cpu_at_start.store(clock::process(), Ordering::Relaxed);
        s.case.store(c, Ordering::Release);
        s.busy.store(true, Ordering::Release);
        let r = match catch(|| f(&mut case)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {}", p.msg)),
        };
        s.busy.store(false, Ordering::Release);
        if self.opts.trace {
            eprintln!("END {workload}:{c}");
        }

        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        *i.per_workload.entry(workload.to_string()).or_default() += 1;
        if case.nontrivial {
            i.distinct.insert(case.fp);
        }
        for (k, v) in &case.counters {
            *i.counters.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &case.maxima {
            let e = i.maxima.entry(k.to_string()).or_default();
            *e = (*e).max(*v);
        }
        if sample && i.samples.len() < 24 {
            let s = format!("{workload}:{c} seed={} … {}", self.opts.seed, case.history(24));
            i.samples.push(s);
        }
        if let Err(message) = r {
            i.violations.push(Violation {
                workload: workload.to_string(),
                case: c,
                message,
                history: case.history(400),
            });
        }
    }

    /// Count something outside of a case.
    pub fn add_count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(k.to_string()).or_default() += n;
    }

    fn finish_and_exit(&self) -> ! {
        let i = self.inner.lock().unwrap();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.3}",
            i.evaluations,
            i.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        let map = |o: &mut String, k: &str, m: &BTreeMap<String, u64>| {
            let _ = write!(o, ",{}:{{", q(k));
            for (n, (k, v)) in m.iter().enumerate() {
                let _ = write!(o, "{}{}:{}", if n > 0 { "," } else { "" }, q(k), v);
            }
            o.push('}');
        };
        let list = |o: &mut String, k: &str, m: &[String]| {
            let _ = write!(o, ",{}:[", q(k));
            for (n, v) in m.iter().enumerate() {
                let _ = write!(o, "{}{}", if n > 0 { "," } else { "" }, q(v));
            }
            o.push(']');
        };
        map(&mut o, "cases_per_workload", &i.per_workload);
        map(&mut o, "observed", &i.counters);
        map(&mut o, "maxima", &i.maxima);
        list(&mut o, "rules", &i.rules);
        list(&mut o, "samples", &i.samples);
        list(&mut o, "notes", &i.notes);
        o.push_str(",\"violations\":[");
        for (n, v) in i.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"workload\":{},\"case\":{},\"seed\":{},\"message\":{},\"history\":{}}}",
                if n > 0 { "," } else { "" },
                q(&v.workload),
                v.case,
                self.opts.seed,
                q(&v.message),
                q(&v.history)
            );
        }
        o.push_str("]}");
        match &self.opts.out {
            Some(p) => std::fs::write(p, &o).expect("write result"),
            None => println!("{o}"),
        }
        std::process::exit(if i.violations.is_empty() { 0 } else { 1 });
    }

    pub fn finish(&self) -> ! {
        self.finish_and_exit()
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn rethrow(c: Caught) -> ! {
    resume_unwind(c.payload)
}
