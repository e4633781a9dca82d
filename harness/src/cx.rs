//! Verdict sink: violations, known-finding hits, measured counters, distinct cases, samples.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub work: String,
    pub extra: BTreeMap<String, String>,
}
impl Args {
    pub fn parse() -> Self {
        let mut a = Args {
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            out: String::new(),
            work: String::new(),
            extra: BTreeMap::new(),
        };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            match k.as_str() {
                "--seed" => a.seed = v.parse().expect("seed"),
                "--tier" => a.thorough = v == "thorough",
                "--out" => a.out = v,
                "--work" => a.work = v,
                _ => {
                    a.extra.insert(k.trim_start_matches('-').to_string(), v);
                }
            }
        }
        if a.work.is_empty() {
            a.work = std::env::temp_dir().join("pcmon").to_string_lossy().into_owned();
        }
        let _ = std::fs::create_dir_all(&a.work);
        a
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.extra.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(default)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub case: String,
    pub detail: String,
}

pub struct Cx {
    pub prop: String,
    pub fails: Vec<Fail>,
    pub fail_count: u64,
    pub known: BTreeMap<String, (u64, String)>,
    pub counts: BTreeMap<String, u64>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// Errors that say this are expected.
    pub tolerate: Option<&'static str>,
    pub case: String,
    path: Vec<String>,
    start: Instant,
    budget: Duration,
    out: String,
    case_fails: u64,
    offered: u64,
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

static BEATS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static NOW: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Ends a process that makes no progress at all: no verdict, no count and no new case while every
/// thread sleeps for 60 s without using the processor (deadlock), or while 300 s of processor time
/// go by (livelock). Reported as a violation: the library never came back.
fn watchdog(prop: &str, out: &str) {
    if cfg!(miri) {
        return;
    }
    let (prop, out) = (prop.to_string(), out.to_string());
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(move || {
            let beats = || BEATS.load(std::sync::atomic::Ordering::Relaxed);
            let (mut b, mut t, mut c, mut c0) = (beats(), Instant::now(), cpu(), cpu());
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let (nb, nc) = (beats(), cpu());
                if nb != b {
                    (b, t, c, c0) = (nb, Instant::now(), nc, nc);
                } else if nc - c > 0.1 || runnable() {
                    (t, c) = (Instant::now(), nc);
                }
                let why = if t.elapsed() > Duration::from_secs(60) {
                    "all threads asleep for 60 s"
                } else if nc - c0 > 300.0 {
                    "300 s of processor time without any progress"
                } else {
                    continue;
                };
                let case = NOW.lock().map(|g| g.clone()).unwrap_or_default();
                let o = format!(
                    "{{\"property\":{},\"evaluations\":{b},\"distinct\":0,\"fail_count\":1,\"counts\":{{}},\"known\":{{}},\"samples\":[],\"fails\":[{{\"kind\":\"hang\",\"case\":{},\"detail\":{}}}]}}",
                    js(&prop), js(&case), js(why)
                );
                if out.is_empty() {
                    println!("{o}");
                } else {
                    let _ = std::fs::write(&out, &o);
                }
                unsafe { libc::_exit(3) };
            }
        });
    });
}
fn tick() {
    BEATS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

impl Cx {
    pub fn new(prop: &str, args: &Args, quick_s: u64, thorough_s: u64) -> Self {
        watchdog(prop, &args.out);
        let s = args.num("budget", if args.thorough { thorough_s } else { quick_s });
        Self {
            prop: prop.into(),
            fails: vec![],
            fail_count: 0,
            known: BTreeMap::new(),
            counts: BTreeMap::new(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            tolerate: None,
            case: String::new(),
            path: vec![],
            start: Instant::now(),
            budget: Duration::from_secs(s),
            out: args.out.clone(),
            case_fails: 0,
            offered: 0,
        }
    }
    /// Scratch context that collects verdicts without reporting them (used by worker threads).
    pub fn scratch(case: &str) -> Self {
        Self {
            prop: String::new(),
            fails: vec![],
            fail_count: 0,
            known: BTreeMap::new(),
            counts: BTreeMap::new(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            tolerate: None,
            case: case.into(),
            path: vec![],
            start: Instant::now(),
            budget: Duration::from_secs(3600),
            out: String::new(),
            case_fails: 0,
            offered: 0,
        }
    }
    /// A context for worker thread `t`: same budget and start, heartbeat of its own.
    pub fn fork(&self, t: usize) -> Self {
        let mut c = Self::scratch(&self.case);
        c.prop = self.prop.clone();
        c.start = self.start;
        c.budget = self.budget;
        if !self.out.is_empty() {
            c.out = format!("{}.t{t}", self.out);
        }
        c
    }
    pub fn merge(&mut self, o: Cx) {
        self.fail_count += o.fail_count;
        for f in o.fails {
            if self.fails.len() < 50 {
                self.fails.push(f);
            }
        }
        for (k, v) in o.counts {
            if k.starts_with("max_") {
                self.max(&k, v);
            } else {
                *self.counts.entry(k).or_insert(0) += v;
            }
        }
        for (k, v) in o.known {
            self.known.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            self.sample(|| s);
        }
    }
    /// Is there time left (and no flood of violations)?
    pub fn go(&self) -> bool {
        self.start.elapsed() < self.budget && self.fail_count < 40
    }
    pub fn spent(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64().max(0.001)
    }
    pub fn begin(&mut self, case: String) {
        // Heartbeat: the driver's watchdog distinguishes a hang from slow progress by it.
        tick();
        if let Ok(mut g) = NOW.lock() {
            g.clone_from(&case);
        }
        self.case = case;
        self.path.clear();
        self.case_fails = 0;
        self.evaluations += 1;
        if !self.out.is_empty() && self.evaluations % 16 == 1 {
            let _ = std::fs::write(format!("{}.hb", self.out), format!("{}\n{}\n", self.evaluations, self.case));
        }
    }
    pub fn beat(&self) {
        tick();
        if !self.out.is_empty() {
            let _ = std::fs::write(format!("{}.hb", self.out), format!("{}\n{}\n", self.evaluations, self.case));
        }
    }
    pub fn clean(&self) -> bool {
        self.case_fails == 0
    }
    pub fn distinct<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(hash64(t));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        tick();
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.into(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        debug_assert!(k.starts_with("max_"));
        let c = self.counts.entry(k.into()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        // Reservoir: the samples come from the whole run, not from its first moments.
        tick();
        self.offered += 1;
        let slot = hash64(&(self.offered, self.evaluations)) % self.offered;
        if self.samples.len() < 6 || slot < 6 {
            let mut t = s();
            if t.len() > 400 {
                let mut e = 400;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
                t.push('…');
            }
            if self.samples.len() < 6 {
                self.samples.push(t);
            } else {
                self.samples[slot as usize] = t;
            }
        }
    }
    pub fn fail(&mut self, kind: &str, detail: impl Into<String>) {
        let mut d: String = detail.into();
        self.case_fails += 1;
        if self.tolerate.is_some_and(|t| d.contains(t)) {
            return self.count("tolerated_errors", 1);
        }
        self.fail_count += 1;
        if self.fails.len() < 50 && self.case_fails <= 5 {
            if d.len() > 1500 {
                let mut e = 1500;
                while !d.is_char_boundary(e) {
                    e -= 1;
                }
                d.truncate(e);
            }
            let p = self.path.join(".");
            self.fails.push(Fail {
                kind: kind.into(),
                case: self.case.clone(),
                detail: if p.is_empty() { d } else { format!("at {p}: {d}") },
            });
        }
    }
    /// A violation that the caller recognises as one of the committed known findings.
    pub fn known(&mut self, id: &str, detail: &str) {
        let e = self.known.entry(id.into()).or_insert((0, detail.into()));
        e.0 += 1;
    }
    pub fn at<R>(&mut self, seg: impl Into<String>, f: impl FnOnce(&mut Cx) -> R) -> R {
        self.path.push(seg.into());
        let r = f(self);
        self.path.pop();
        r
    }
    pub fn ok<T, E: std::fmt::Display>(&mut self, r: Result<T, E>, what: &str) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail("error", format!("{what}: {e}"));
                None
            }
        }
    }
    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(kind, detail());
        }
        ok
    }
    /// Runs one case; a panic of the code under test is a violation, not the end of the run.
    pub fn guard(&mut self, f: impl FnOnce(&mut Cx)) {
        let r = catch(|| f(self));
        if let Err(m) = r {
            self.fail("panic", m);
        }
    }
    pub fn finish(self) -> ! {
        let mut o = String::from("{");
        o += &format!("\"property\":{},", js(&self.prop));
        o += &format!("\"evaluations\":{},", self.evaluations);
        o += &format!("\"distinct\":{},", self.distinct.len());
        o += &format!("\"fail_count\":{},", self.fail_count);
        o += "\"counts\":{";
        o += &self.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"known\":{";
        o += &self
            .known
            .iter()
            .map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1)))
            .collect::<Vec<_>>()
            .join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += "],\"fails\":[";
        o += &self
            .fails
            .iter()
            .map(|f| format!("{{\"kind\":{},\"case\":{},\"detail\":{}}}", js(&f.kind), js(&f.case), js(&f.detail)))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}";
        if self.out.is_empty() {
            println!("{o}");
        } else {
            std::fs::write(&self.out, &o).expect("cannot write the result file");
        }
        for f in self.fails.iter().take(3) {
            eprintln!("[{}] {} :: {}", f.kind, f.case, f.detail);
        }
        std::process::exit(if self.fail_count > 0 { 3 } else { 0 });
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static HOOK: std::sync::Once = std::sync::Once::new();
/// Record where panics come from (slow).
pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// CPU time used by this process so far, in seconds.
fn cpu() -> f64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
    let t = |v: libc::timeval| v.tv_sec as f64 + v.tv_usec as f64 / 1e6;
    t(u.ru_utime) + t(u.ru_stime)
}
/// Is any other thread of this process able to run (or in the kernel doing I/O)?
fn runnable() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) };
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return true };
    d.flatten().any(|e| {
        if e.file_name().to_string_lossy() == me.to_string() {
            return false;
        }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { return false };
        let state = s.rsplit(") ").next().and_then(|r| r.chars().next()).unwrap_or('R');
        matches!(state, 'R' | 'D')
    })
}
/// Runs `f` under a progress monitor. `Err` is a proven lack of progress, not a missed deadline:
/// either every other thread stays asleep with no CPU time used and no event for 20 s (deadlock),
/// or 150 s of CPU time go by without a single event (livelock). `events` counts observable steps.
pub fn watched<R: Send>(events: impl Fn() -> u64, f: impl FnOnce() -> R + Send) -> Result<R, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    // The thread cannot be stopped if it hangs, so it must not be scoped.
    let f: Box<dyn FnOnce() -> R + Send> = Box::new(f);
    let f: Box<dyn FnOnce() -> R + Send + 'static> = unsafe { std::mem::transmute(f) };
    struct Tx<R>(std::sync::mpsc::Sender<R>);
    unsafe impl<R> Send for Tx<R> {}
    let tx = Tx(tx);
    type Out<R> = std::thread::Result<R>;
    let job: Box<dyn FnOnce() + Send> = Box::new(move || {
        let tx = tx;
        let r: Out<R> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.0.send(r);
    });
    let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
    let h = std::thread::spawn(job);
    let mut ev = events();
    let (mut idle_since, mut cpu_at, mut busy_cpu) = (Instant::now(), cpu(), cpu());
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ok(r)) => {
                let _ = h.join();
                return Ok(r);
            }
            Ok(Err(p)) => {
                let _ = h.join();
                std::panic::resume_unwind(p);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return Err("worker thread vanished".into()),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
        }
        let (e, c) = (events(), cpu());
        if e != ev {
            (ev, idle_since, cpu_at, busy_cpu) = (e, Instant::now(), c, c);
        } else if c - cpu_at > 0.05 || runnable() {
            // Somebody is working, or about to.
            (idle_since, cpu_at) = (Instant::now(), c);
        }
        if idle_since.elapsed() > Duration::from_secs(20) {
            return Err(format!("deadlock: all threads asleep for 20 s after {ev} events"));
        }
        if c - busy_cpu > 150.0 {
            return Err(format!("livelock: 150 s of CPU time without an event after {ev} events"));
        }
    }
}

/// Catches panics, with message and location; keeps stderr quiet.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let l = i.location().map(|l| l.to_string()).unwrap_or_default();
            let from = if TRACE.load(std::sync::atomic::Ordering::Relaxed) {
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                format!(" [from {}] {}", crate::guard::culprit(&bt), crate::guard::frames(&bt))
            } else {
                String::new()
            };
            if let Ok(mut g) = LAST.lock() {
                *g = format!("panicked at {l}: {m}{from}");
            }
        }));
    });
    QUIET.with(|q| q.set(true));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = LAST.lock().map(|g| g.clone()).unwrap_or_default();
        if l.contains(&m) { l } else { format!("panicked: {m}") }
    })
}
