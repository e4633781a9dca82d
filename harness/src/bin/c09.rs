//! C09: hostile files. Worker processes open, load, explore, iterate and inspect damaged files; a
//! supervisor watches them for panics, aborts, crashes, exhausted stacks or memory, and hangs
//! (processor time spent on one small file, confirmed by running that file alone).
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, TRACE, catch, hash64};
use pcmon::guard;
use pcmon::mutate;
use pcmon::refdec::{self, Expect};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Poke, Rooted};
use pcmon::work::*;
use pcmon::zoo::{self, Each};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: guard::Capped = guard::Capped;

const KNOWN: &str = "bincode-length-prefix";
/// Per file of at most 60 KB: how much may be asked for at once, and be reserved in total.
/// (Reservations made before the items are read may be refused without harm: they are fallible.)
const SINGLE: usize = 256 << 20;
const CAP: usize = 6 << 30;
const HANG_CPU: f64 = 40.0;
const MUTANTS: u64 = 8;
/// Types whose items take no bytes: a count is then a value of any size (see DESIGN.md); and
/// recursive types, whose depth is the file's to choose.
const SKIP: [&str; 8] = ["Tree", "Vec<Tree>", "Vec<Empty>", "Vec<Unit>", "Inner0", "Vec<Inner0>", "Empty", "Unit"];

/// What a worker tells the supervisor, in memory shared through a file.
#[repr(C)]
struct Shared {
    case: [AtomicU64; 4], // round, type, mutant, serial number
    counts: [AtomicU64; 16],
    distinct: [AtomicU64; 1 << 16],
}
const NAMES: [&str; 9] = [
    "files_tried", "files_accepted", "calls", "calls_answered_with_data", "structured_edits", "raw_damage", "wrong_types", "mapped_files", "files_undamaged",
];
fn shared(p: &Path) -> &'static Shared {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("shared file");
    f.set_len(std::mem::size_of::<Shared>() as u64).unwrap();
    use std::os::fd::AsRawFd;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(m != libc::MAP_FAILED);
        &*(m as *const Shared)
    }
}

struct Worker<'a> {
    sh: &'a Shared,
    args: &'a Args,
    dir: PathBuf,
    round: u64,
    ty: u64,
    from: (u64, u64, u64),
    only: bool,
    end: Instant,
    other: Vec<u8>,
    fails: usize,
    samples: usize,
}
impl Worker<'_> {
    fn line(&self, file: &str, s: &str) {
        let f = std::fs::OpenOptions::new().create(true).append(true).open(self.dir.join(file));
        if let Ok(mut f) = f {
            let _ = writeln!(f, "{}", s.replace('\n', " "));
        }
    }
    fn count(&self, k: usize, n: u64) {
        self.sh.counts[k].fetch_add(n, SeqCst);
    }
    fn one<T: Rooted>(&mut self, name: &str, m: u64, v: &T, written: &[u8]) {
        let key = [self.round, self.ty, m].iter().fold(0u64, |a, x| a.wrapping_mul(1_000_003).wrapping_add(*x));
        let mut r = Rng::derive(self.args.seed, "c09-mutant", key);
        // The file: as written, or laid out by the reference encoder (many shards, small).
        let base = if r.chance(1, 2) {
            let shape = v.shape(0, false);
            let lay = Layout::random(&mut r, cfg!(feature = "lz4"));
            let e = refenc::encode(&shape, &lay, &mut r);
            debug_assert!(refdec::parse(&e.file).and_then(|n| refdec::check(&n, &shape, Expect { global: false, lz4: true, flags: false })).is_ok());
            e.file
        } else {
            written.to_vec()
        };
        let (file, what, kind) = if m == 0 {
            (base, "undamaged".to_string(), 8)
        } else if r.chance(3, 4) {
            let n = refdec::parse(&base).expect("own file");
            let (f, d) = mutate::mutate(&mut r, &n, &self.other, false);
            (f, d, 4)
        } else if r.chance(1, 4) {
            (self.other.clone(), "file of another type".to_string(), 6)
        } else {
            let (f, d) = mutate::scramble(&mut r, &base, &self.other);
            (f, d, 5)
        };
        self.count(0, 1);
        self.count(kind, 1);
        let mapped = r.chance(1, 8);
        let h = hash64(&(name, &file)) % (1 << 22);
        self.sh.distinct[(h >> 6) as usize].fetch_or(1 << (h & 63), SeqCst);
        let case = format!("seed={} type={name} n={}.{}.{m}", self.args.seed, self.round, self.ty);
        let mut w = Poke::new(r, 3000);
        let len = file.len();
        let p = self.dir.join("f.par");
        if self.only {
            std::fs::write(self.dir.join("case.par"), &file).unwrap();
            eprintln!("{name}: {what}");
        }
        let run = catch(|| {
            let f = if mapped {
                std::fs::write(&p, &file).unwrap();
                Parcode::open(&p)
            } else {
                ParcodeFile::from_bytes(file)
            };
            match f {
                Ok(f) => {
                    exercise::<T>(&f, &mut w);
                    true
                }
                Err(e) => {
                    w.sink ^= e.to_string().len() as u64;
                    false
                }
            }
        });
        if mapped {
            self.count(7, 1);
        }
        self.count(2, w.calls);
        self.count(3, w.oks);
        match run {
            Ok(opened) => self.count(1, u64::from(opened)),
            Err(msg) => {
                let from = msg.split("[from ").nth(1).and_then(|s| s.split(']').next()).unwrap_or("");
                if msg.contains("capacity overflow") && guard::is_bincode(from) {
                    self.line("known", &format!("{case}: {what}: {msg}"));
                } else {
                    self.fails += 1;
                    self.line("fails", &format!("panic\t{case}\t{what} ({len} bytes): {msg}"));
                }
            }
        }
        if self.samples < 4 && hash64(&(key, 7u8)) % 400 == 0 {
            self.samples += 1;
            self.line("samples", &format!("{name}: {what}: {len} bytes, {} calls, {} answered", w.calls, w.oks));
        }
    }
}
impl Each for Worker<'_> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        self.ty += 1;
        if SKIP.contains(&name) || Instant::now() > self.end || self.fails > 5 {
            return;
        }
        if (self.round, self.ty) < (self.from.0, self.from.1) || (self.only && (self.round, self.ty) != (self.from.0, self.from.1)) {
            return;
        }
        let first = if (self.round, self.ty) == (self.from.0, self.from.1) { self.from.2 } else { 0 };
        let mut r = Rng::derive(self.args.seed, "c09-base", self.round.wrapping_mul(1009) ^ hash64(name));
        let b = [12, 30, 60, 60, 200, 200, 900][r.below(7)];
        let v: T = value_of(&mut r, b);
        let written = if r.chance(1, 3) {
            let mut b = vec![];
            Parcode::builder().compression(true).write_sync(&mut b, &v).map(|()| b)
        } else {
            let mut b = vec![];
            Parcode::write_sync(&mut b, &v).map(|()| b)
        };
        let Ok(written) = written else {
            self.line("fails", &format!("write\t{name} n={}\tcould not write the base file", self.round));
            return;
        };
        if written.len() > 60_000 {
            return;
        }
        for m in first..MUTANTS {
            for (c, x) in self.sh.case.iter().zip([self.round, self.ty, m]) {
                c.store(x, SeqCst);
            }
            self.sh.case[3].fetch_add(1, SeqCst);
            self.one(name, m, &v, &written);
            if self.only {
                break;
            }
        }
        // The next types read this file too.
        if written.len() < 4000 && r.chance(1, 3) {
            self.other = written;
        }
    }
}
fn base_other() -> Vec<u8> {
    let mut r = Rng::new(77);
    let v: zoo::Mixed = value_of(&mut r, 200);
    let mut b = vec![];
    let _ = Parcode::write_sync(&mut b, &v);
    b
}
fn worker(args: &Args) -> ! {
    let dir = PathBuf::from(args.get("dir").unwrap());
    let sh = shared(&dir.join("shared"));
    guard::report_aborts(&dir.join("abort").to_string_lossy());
    guard::LIMIT.store(CAP, SeqCst);
    guard::SINGLE.store(SINGLE, SeqCst);
    TRACE.store(true, SeqCst);
    let from: Vec<u64> = args.get("from").unwrap().split('.').map(|s| s.parse().unwrap()).collect();
    let only = args.get("only").is_some();
    let stride = args.num("stride", 1);
    let end = Instant::now() + Duration::from_millis(args.num("ms", 1000));
    let mut w = Worker { sh, args, dir, round: from[0], ty: 0, from: (from[0], from[1], from[2]), only, end, other: base_other(), fails: 0, samples: 0 };
    while Instant::now() < end && w.fails <= 5 {
        w.ty = 0;
        zoo::each(&mut w);
        if only {
            break;
        }
        w.round += stride;
    }
    std::process::exit(0);
}

fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
enum End {
    Done,
    Died(String),
    Hung(String),
}
fn spawn(args: &Args, dir: &Path, from: &str, stride: u64, ms: u64, only: bool) -> Child {
    let _ = std::fs::remove_file(dir.join("abort"));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["--worker", "1", "--seed", &args.seed.to_string(), "--dir", &dir.to_string_lossy(), "--from", from, "--stride", &stride.to_string(), "--ms", &ms.to_string()]);
    if only {
        c.args(["--only", "1"]);
    }
    c.env("RAYON_NUM_THREADS", if stride % 2 == 0 { "2" } else { "3" });
    c.stdout(std::process::Stdio::null()).stderr(std::fs::File::create(dir.join("stderr")).unwrap());
    c.spawn().expect("worker")
}
fn watch(mut c: Child, sh: &Shared, limit_cpu: f64) -> End {
    let pid = c.id();
    let (mut serial, mut cpu0, mut idle, mut last_cpu) = (u64::MAX, 0.0, Instant::now(), 0.0);
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            return match (st.code(), st.signal()) {
                (Some(0), _) => End::Done,
                (Some(77), _) => End::Died("abort".into()),
                (Some(x), _) => End::Died(format!("exit {x}")),
                (_, Some(s)) => End::Died(format!("signal {s}")),
                _ => End::Died("?".into()),
            };
        }
        std::thread::sleep(Duration::from_millis(5));
        let (s, cpu) = (sh.case[3].load(SeqCst), cpu_of(pid));
        if s != serial {
            (serial, cpu0, idle, last_cpu) = (s, cpu, Instant::now(), cpu);
        } else if cpu - last_cpu > 0.02 {
            (idle, last_cpu) = (Instant::now(), cpu);
        }
        let why = if cpu - cpu0 > limit_cpu {
            Some(format!("{limit_cpu} s of processor time without an answer"))
        } else if idle.elapsed() > Duration::from_secs(45) {
            Some("asleep for 45 s without an answer".to_string())
        } else {
            None
        };
        if let Some(w) = why {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hung(w);
        }
    }
}

/// Supervises one chain of workers; each continues after the case its predecessor died on.
fn chain(args: &Args, cx: &mut Cx, t: u64, width: u64, ms: u64) -> BTreeMap<String, u64> {
    let dir = scratch(args, &format!("c09-{t}"));
    std::fs::create_dir_all(&dir).unwrap();
    let sh = shared(&dir.join("shared"));
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let start = Instant::now();
    let mut from = args.get("n").map_or(format!("{t}.0.0"), |s| s.to_string());
    let mut deaths = 0;
    loop {
        let left = ms.saturating_sub(start.elapsed().as_millis() as u64);
        if left < 20 || cx.fail_count > 5 {
            break;
        }
        let c = spawn(args, &dir, &from, width, left, args.get("n").is_some());
        *extra.entry("processes".into()).or_insert(0) += 1;
        let end = watch(c, sh, HANG_CPU);
        let at: Vec<u64> = sh.case.iter().map(|c| c.load(SeqCst)).collect();
        let here = format!("{}.{}.{}", at[0], at[1], at[2]);
        let case = format!("seed={} n={here}", args.seed);
        from = format!("{}.{}.{}", at[0], at[1], at[2] + 1);
        match end {
            End::Done => break,
            End::Died(how) => {
                deaths += 1;
                let rep = std::fs::read_to_string(dir.join("abort")).unwrap_or_default();
                let mut l = rep.lines();
                let (kind, who, frames) = (l.next().unwrap_or(""), l.next().unwrap_or(""), l.next().unwrap_or(""));
                if kind == "oom" && guard::is_bincode(who) {
                    cx.known(KNOWN, &format!("{case}: allocation refused, asked for by {frames}"));
                } else if kind == "oom" {
                    cx.begin(case);
                    cx.fail("memory", format!("asked for more than {SINGLE} bytes at once or {CAP} in total, from {who}: {frames}"));
                } else {
                    let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
                    cx.begin(case);
                    cx.fail("crash", format!("{how} {who}: {frames} {}", err.chars().take(600).collect::<String>()));
                }
            }
            End::Hung(why) => {
                // Alone, in a fresh process, with more time: a verdict, not a busy machine.
                let c = spawn(args, &dir, &here, width, 3_600_000, true);
                match watch(c, sh, 2.0 * HANG_CPU) {
                    End::Hung(again) => {
                        cx.begin(case);
                        cx.fail("hang", format!("{why}; alone: {again}"));
                    }
                    _ => *extra.entry("slow_cases".into()).or_insert(0) += 1,
                }
            }
        }
        if args.get("n").is_some() {
            break;
        }
    }
    let _ = deaths;
    for l in std::fs::read_to_string(dir.join("fails")).unwrap_or_default().lines() {
        let p: Vec<&str> = l.splitn(3, '\t').collect();
        if p.len() == 3 {
            cx.begin(p[1].to_string());
            cx.fail(p[0], p[2]);
        }
    }
    for l in std::fs::read_to_string(dir.join("known")).unwrap_or_default().lines() {
        cx.known(KNOWN, l);
    }
    for l in std::fs::read_to_string(dir.join("samples")).unwrap_or_default().lines() {
        cx.sample(|| l.to_string());
    }
    for (i, k) in NAMES.iter().enumerate() {
        *extra.entry(k.to_string()).or_insert(0) += sh.counts[i].load(SeqCst);
    }
    // Work is divided by rounds, so the chains' files are different ones.
    for (i, w) in sh.distinct.iter().enumerate() {
        let w = w.load(SeqCst);
        for b in 0..64 {
            if w >> b & 1 == 1 {
                cx.distinct(&((i as u64) << 6 | b));
            }
        }
    }
    extra
}

fn main() {
    let args = Args::parse();
    if args.get("worker").is_some() {
        worker(&args);
    }
    let mut cx = Cx::new("C09", &args, 22, 420);
    let ms = args.num("budget", if args.thorough { 420 } else { 22 }) * 1000;
    let width = if args.get("n").is_some() { 1 } else { 8 };
    let all = std::sync::Mutex::new(BTreeMap::<String, u64>::new());
    threads(&mut cx, width, |t, cx| {
        let e = chain(&args, cx, t as u64, width as u64, ms);
        let mut g = all.lock().unwrap();
        for (k, v) in e {
            *g.entry(k).or_insert(0) += v;
        }
    });
    let all = all.into_inner().unwrap();
    cx.evaluations = all["files_tried"];
    for (k, v) in all {
        cx.count(&k, v);
    }
    cx.finish();
}
