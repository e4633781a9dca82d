//! C07: faults at every point of a write (destination errors, short writes, interruptions, panics,
//! a full disk, a vanished peer, failing or panicking user serialization), judged by a monitor on
//! the destination: what it accepted, when it was flushed, and what it answered.
use parcode::{Parcode, ParcodeError, ParcodeFile};
use pcmon::cx::{Args, Cx, watched};
use pcmon::refdec;
use pcmon::rng::Rng;
use pcmon::spy::{self, PANIC, SER_ERR, record};
use pcmon::val::Rooted;
use pcmon::work::*;
use pcmon::{spyzoo, zoo};
use std::io::{Error, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

static EVENTS: AtomicU64 = AtomicU64::new(0);
const KINDS: [ErrorKind; 9] = [
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::Other,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
];

#[derive(Clone, Debug)]
struct Plan {
    /// Fail once this many bytes were accepted.
    at_byte: Option<u64>,
    /// Fail this call of `write` (1-based), or every later one.
    at_call: Option<u64>,
    at_flush: Option<u64>,
    kind: ErrorKind,
    /// 0 error, 1 accept zero bytes, 2 panic
    how: u8,
    transient: bool,
    short: bool,
    intr: bool,
}
#[derive(Default)]
struct State {
    buf: Vec<u8>,
    calls: u64,
    flushes: u64,
    /// Bytes accepted at the last successful flush, if nothing was written since.
    flushed: Option<usize>,
    faults: Vec<&'static str>,
    interrupts: u64,
    shorts: u64,
}
struct Dest {
    st: Arc<Mutex<State>>,
    p: Plan,
    r: Rng,
}
const MSG: &str = "dest: injected failure";
impl Dest {
    fn fire(&self, s: &mut State, what: &'static str) -> std::io::Result<usize> {
        s.faults.push(what);
        match self.p.how {
            1 if what == "write" => Ok(0),
            2 => panic!("{PANIC}"),
            _ => Err(Error::new(self.p.kind, MSG)),
        }
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        EVENTS.fetch_add(1, SeqCst);
        let st = self.st.clone();
        let mut g = st.lock().unwrap_or_else(|p| p.into_inner());
        let s = &mut *g;
        s.calls += 1;
        s.flushed = None;
        let spent = self.p.transient && !s.faults.is_empty();
        if let Some(k) = self.p.at_call
            && !spent
            && s.calls >= k
        {
            return self.fire(s, "write");
        }
        let mut n = b.len();
        if let Some(k) = self.p.at_byte
            && !spent
        {
            let left = k.saturating_sub(s.buf.len() as u64) as usize;
            if left == 0 && n > 0 {
                return self.fire(s, "write");
            }
            n = n.min(left);
        }
        if self.p.intr && self.r.chance(1, 3) {
            s.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if self.p.short && n > 1 && self.r.chance(2, 3) {
            n = if self.r.chance(1, 4) { self.r.range(1, 3.min(n)) } else { self.r.range((n / 40).max(1), n) };
            s.shorts += 1;
        }
        s.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        EVENTS.fetch_add(1, SeqCst);
        let st = self.st.clone();
        let mut g = st.lock().unwrap_or_else(|p| p.into_inner());
        let s = &mut *g;
        s.flushes += 1;
        if let Some(k) = self.p.at_flush
            && s.flushes >= k
            && !(self.p.transient && !s.faults.is_empty())
        {
            return self.fire(s, "flush").map(|_| ());
        }
        s.flushed = Some(s.buf.len());
        Ok(())
    }
}

/// What the call did.
enum Out {
    Done,
    Err(ParcodeError),
    Panic(String),
}
fn attempt(f: impl FnOnce() -> Result<(), ParcodeError>) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(())) => Out::Done,
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())),
    }
}
struct S {
    pools: Vec<(usize, rayon::ThreadPool)>,
    trials: usize,
}
/// The error must name the original cause, as itself or as a source.
fn names(e: &ParcodeError, kind: ErrorKind, zero: bool) -> bool {
    match e {
        ParcodeError::Io(i) if zero => i.kind() == ErrorKind::WriteZero,
        ParcodeError::Io(i) => i.kind() == kind && i.to_string().contains(MSG),
        _ => false,
    }
}
fn hang(cx: &mut Cx, e: String) -> ! {
    cx.fail("hang", e);
    std::mem::replace(cx, Cx::scratch("")).finish();
}

impl S {
    fn pool(&self, r: &mut Rng) -> Option<usize> {
        // None: synchronous entry point.
        if r.chance(1, 3) { None } else { Some(r.below(self.pools.len() + 1)) }
    }
    fn run<T: Rooted>(&self, v: &T, dest: impl Write + Send, pool: Option<usize>, global: bool) -> Result<Out, String> {
        let o = Parcode::builder().compression(global);
        watched(
            || EVENTS.load(SeqCst) + spy::SER_N.load(SeqCst),
            || {
                attempt(|| match pool {
                    None => o.write_sync(dest, v),
                    Some(p) => match self.pools.get(p) {
                        Some((_, pool)) => pool.install(|| o.write(dest, v)),
                        None => o.write(dest, v),
                    },
                })
            },
        )
    }
    fn ctx(&self, pool: Option<usize>) -> String {
        match pool {
            None => "write_sync".into(),
            Some(p) => self.pools.get(p).map(|(n, _)| format!("write in a pool of {n}")).unwrap_or("write in the global pool".into()),
        }
    }
    /// A destination left behind: complete and of this value, or refused.
    fn left<T: Rooted>(&self, cx: &mut Cx, v: &T, bytes: &[u8], canon: &[u8], ctx: &str) {
        if refdec::header(bytes).is_ok() {
            let same = refdec::parse(bytes).is_ok_and(|n| n.canonical() == canon);
            cx.check(same, "leftover", || format!("{ctx}: {} bytes with a valid trailer, but not of this value", bytes.len()));
            return;
        }
        match ParcodeFile::from_bytes(bytes.to_vec()).and_then(|f| f.load::<T>()) {
            Ok(x) => {
                cx.check(v.same(&x), "leftover", || format!("{ctx}: {} bytes were loaded as another value", bytes.len()));
            }
            Err(_) => cx.count("leftovers_refused", 1),
        }
    }
    fn trial<T: Rooted>(&self, cx: &mut Cx, name: &str, r: &mut Rng, v: &T, base: &Base, ids: &[u64], spying: bool, passing: Option<Passing>) {
        spy::reset_hooks();
        spy::DELAY.store(if r.chance(1, 2) { r.u64() | 1 } else { 0 }, SeqCst);
        let total = base.len as u64;
        let mut p = Plan { at_byte: None, at_call: None, at_flush: None, kind: *r.pick(&KINDS), how: 0, transient: r.chance(1, 4), short: r.chance(1, 3), intr: r.chance(1, 4) };
        let mut ser = 0u64;
        // A fault of the destination, a fault of user code, both, or only nuisances.
        let mode = if spying { r.below(10) } else { r.below(6) };
        if mode <= 4 || mode == 9 {
            p.how = [0, 0, 0, 1, 2][r.below(5)];
            match r.below(5) {
                0 => p.at_byte = Some(0),
                1 => p.at_byte = Some(total - 1 - r.below(26.min(total as usize)) as u64),
                2 => p.at_flush = Some(1),
                3 => p.at_call = Some(r.range(1, base.calls.max(1) as usize) as u64),
                _ => p.at_byte = Some(r.below(total as usize) as u64),
            }
        }
        if let Some(f) = passing {
            // A failure that goes away at once, such as a caller would be tempted to retry.
            (p.transient, p.at_byte, p.at_call, p.at_flush) = (true, None, None, None);
            match f {
                Passing::Error(kind) => (p.kind, p.how, p.at_byte) = (kind, 0, Some(r.below(total as usize) as u64)),
                Passing::Zero(call) => (p.how, p.at_call) = (1, Some(call)),
            }
        } else if mode >= 6 && !ids.is_empty() {
            ser = r.range(1, 2) as u64;
            if ser == 2 && p.how == 2 {
                // The destination would panic again while the first panic unwinds: Rust aborts.
                p.how = 0;
            }
            spy::SER_FAIL_KIND.store(ser, SeqCst);
            if r.chance(1, 2) {
                spy::SER_FAIL_ID.store(*r.pick(ids), SeqCst);
                spy::SER_FAIL_ID_SET.store(true, SeqCst);
            } else {
                spy::SER_FAIL_AT.store(r.range(1, base.sers as usize) as u64, SeqCst);
            }
        }
        let pool = self.pool(r);
        let ctx = format!("{} {p:?} serialization fault {ser}", self.ctx(pool));
        let st = Arc::new(Mutex::new(State::default()));
        let dest = Dest { st: st.clone(), p: p.clone(), r: Rng::new(r.u64()) };
        let out = match self.run(v, dest, pool, base.global) {
            Ok(o) => o,
            Err(e) => hang(cx, format!("{ctx}: {e}")),
        };
        spy::reset_hooks();
        let s = st.lock().unwrap_or_else(|p| p.into_inner());
        let hit = !s.faults.is_empty();
        cx.count("writes", 1);
        cx.count("interruptions", s.interrupts);
        cx.count("short_writes", s.shorts);
        cx.count(&format!("destination_faults_{}", if !hit { "none" } else if p.how == 2 { "panic" } else { s.faults[0] }), 1);
        cx.distinct(&(name, s.faults.first(), p.how, p.kind, ser, pool, s.buf.len() * 64 / base.len.max(1), base.global));
        match out {
            Out::Done => {
                cx.count("writes_ok", 1);
                cx.check(!hit, "fault-swallowed", || format!("{ctx}: Ok although the destination failed in {:?}", s.faults));
                cx.check(ser == 0, "fault-swallowed", || format!("{ctx}: Ok although serialization failed"));
                cx.check(s.flushed == Some(s.buf.len()), "not-flushed", || {
                    format!("{ctx}: Ok, but {} bytes were written and the last flush saw {:?}", s.buf.len(), s.flushed)
                });
                match refdec::parse(&s.buf) {
                    Err(e) => cx.fail("incomplete", format!("{ctx}: Ok, but the destination holds {} bytes: {e}", s.buf.len())),
                    Ok(n) => {
                        cx.check(n.canonical() == base.canon, "incomplete", || format!("{ctx}: Ok, but the destination holds another chunk tree"));
                        cx.check(s.buf.len() == base.len, "incomplete", || format!("{ctx}: Ok with {} bytes instead of {}", s.buf.len(), base.len));
                    }
                }
            }
            Out::Err(e) => {
                cx.count("writes_failed", 1);
                let by_dest = hit && names(&e, p.kind, p.how == 1 && s.faults[0] == "write");
                let by_ser = ser == 1 && matches!(&e, ParcodeError::Serialization(m) if m.contains(SER_ERR));
                // A panic may surface as an error only if it is named.
                let by_panic = e.to_string().contains(PANIC);
                cx.check(by_dest || by_ser || by_panic, if hit || ser > 0 { "wrong-cause" } else { "spurious-error" }, || {
                    format!("{ctx}: error `{e}` does not carry the cause (destination faults {:?}, serialization fault {ser})", s.faults)
                });
            }
            Out::Panic(m) => {
                cx.count("writes_panicked", 1);
                let due = (hit && p.how == 2) || ser == 2;
                cx.check(due && m.contains(PANIC), "panic", || format!("{ctx}: panicked with `{m}`"));
            }
        }
        self.left(cx, v, &s.buf, &base.canon, &ctx);
        cx.sample(|| format!("{name}, {} chunks, {} bytes: {ctx}", base.chunks, base.len));
    }
    fn check<T: Rooted>(&self, cx: &mut Cx, name: &str, r: &mut Rng, v: &T, trials: usize) {
        let global = r.chance(1, 4);
        spy::reset_hooks();
        let st = Arc::new(Mutex::new(State::default()));
        let quiet = Plan { at_byte: None, at_call: None, at_flush: None, kind: ErrorKind::Other, how: 0, transient: false, short: false, intr: false };
        let dest = Dest { st: st.clone(), p: quiet, r: Rng::new(1) };
        let (w, sers, _) = record(|| Parcode::builder().compression(global).write_sync(dest, v));
        let n = spy::SER_N.load(SeqCst);
        if cx.ok(w, "write_sync").is_none() {
            return;
        }
        let (buf, calls) = {
            let mut s = st.lock().unwrap();
            (std::mem::take(&mut s.buf), s.calls)
        };
        let node = match refdec::parse(&buf) {
            Ok(n) => n,
            Err(e) => return cx.fail("format", e),
        };
        let base = Base { canon: node.canonical(), len: buf.len(), calls, sers: n, chunks: node.count(), global };
        cx.max("max_chunks", base.chunks as u64);
        cx.max("max_bytes", base.len as u64);
        cx.max("max_write_calls", calls);
        drop((node, buf));
        let mut ids: Vec<u64> = sers.into_keys().collect();
        ids.sort_unstable();
        for _ in 0..trials {
            self.trial(cx, name, r, v, &base, &ids, n > 0, None);
        }
        if base.len > 1 << 20 {
            for kind in KINDS {
                self.trial(cx, name, r, v, &base, &ids, n > 0, Some(Passing::Error(kind)));
            }
            for call in 1..=base.calls.min(8) {
                self.trial(cx, name, r, v, &base, &ids, n > 0, Some(Passing::Zero(call)));
                cx.count("passing_zero_writes", 1);
            }
        }
    }
}
#[derive(Clone, Copy)]
enum Passing {
    Error(ErrorKind),
    /// This call of `write` accepts nothing.
    Zero(u64),
}
struct Base {
    canon: Vec<u8>,
    len: usize,
    calls: u64,
    sers: u64,
    chunks: usize,
    global: bool,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let b = [40, 40, 400, 2000][r.below(4)];
        let v: T = value_of(&mut r, b);
        let t = self.trials;
        self.check(cx, name, &mut r, &v, t);
    }
}

/// Text that does not compress.
fn noise(r: &mut Rng) -> String {
    let n = r.range(60_000, 80_000);
    r.bytes(n).into_iter().map(|b| char::from(b & 0x7f)).collect()
}

/// Values larger than any write buffer: faults strike while chunks are still being produced.
fn large(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    let mut r = Rng::derive(args.seed, "c07-large", n);
    cx.begin(format!("seed={} type=large n={n}", args.seed));
    cx.guard(|cx| match n % 4 {
        0 => {
            let k = r.range(300, 400);
            let v: Vec<String> = (0..k).map(|_| noise(&mut r)).collect();
            s.check(cx, "large strings", &mut r, &v, 8);
        }
        1 => {
            let v: String = "0123456789abcdef".repeat(r.range(1_050_000, 1_400_000));
            s.check(cx, "one large string", &mut r, &v, 8);
        }
        2 => {
            // A chunk larger than the writer's buffer, between others.
            let mut v: Vec<String> = (0..r.range(1, 6)).map(|_| noise(&mut r)).collect();
            let at = r.below(v.len());
            let n = r.range(16, 21);
            v[at] = noise(&mut r).repeat(n * (1 << 20) / 60_000);
            v.extend((0..3).map(|_| noise(&mut r)));
            s.check(cx, "large among small", &mut r, &v, 8);
        }
        _ => {
            let k = r.range(300, 400) as u64;
            let v: Vec<spyzoo::SFlat> =
                (0..k).map(|i| spyzoo::SFlat { s: spy::Spy::new(i + 1), n: 0, t: noise(&mut r) }).collect();
            s.check(cx, "large spies", &mut r, &v, 8);
        }
    });
}

/// Real destinations: full disks, size limits, missing and misused paths, sockets.
fn system(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    let mut r = Rng::derive(args.seed, "c07-system", n);
    let dir = scratch(args, "c07");
    std::fs::create_dir_all(&dir).unwrap();
    cx.begin(format!("seed={} type=system n={n}", args.seed));
    cx.guard(|cx| {
        spy::reset_hooks();
        let big = r.chance(1, 6);
        let v: Vec<String> = if big { vec!["q".repeat(70_000); 300] } else { value_of(&mut r, 4000) };
        let canon = {
            let mut b = vec![];
            if cx.ok(Parcode::write_sync(&mut b, &v), "write_sync").is_none() {
                return;
            }
            refdec::parse(&b).map(|n| (n.canonical(), b.len()))
        };
        let Ok((canon, len)) = canon else { return cx.fail("format", "sync output unreadable") };
        let o = || Parcode::builder().compression(false);
        let saves: [(&str, &(dyn Fn(&std::path::Path) -> Result<(), ParcodeError> + Sync)); 4] =
            [("save", &|p| Parcode::save(p, &v)), ("save_sync", &|p| Parcode::save_sync(p, &v)), ("b.save", &|p| o().save(p, &v)), ("b.save_sync", &|p| o().save_sync(p, &v))];
        let want = |cx: &mut Cx, what: &str, p: &std::path::Path, kind: &[ErrorKind], f: &(dyn Fn(&std::path::Path) -> Result<(), ParcodeError> + Sync)| {
            let out = match watched(|| EVENTS.load(SeqCst), || attempt(|| f(p))) {
                Ok(o) => o,
                Err(e) => hang(cx, format!("{what}: {e}")),
            };
            cx.count("system_faults", 1);
            match out {
                Out::Err(ParcodeError::Io(e)) if kind.contains(&e.kind()) => {}
                Out::Err(e) => cx.fail("wrong-cause", format!("{what} on {}: {e}", p.display())),
                Out::Done => cx.fail("fault-swallowed", format!("{what} on {}: Ok", p.display())),
                Out::Panic(m) => cx.fail("panic", format!("{what} on {}: {m}", p.display())),
            }
        };
        let full = std::path::Path::new("/dev/full");
        for (what, f) in saves {
            if full.exists() {
                want(cx, what, full, &[ErrorKind::StorageFull], f);
            }
            want(cx, what, &dir.join("no/such/dir/f.par"), &[ErrorKind::NotFound], f);
            want(cx, what, &dir, &[ErrorKind::IsADirectory], f);
        }
        // A file size limit strikes in the middle of the file.
        let old = unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
            l
        };
        for (what, f) in saves {
            let lim = r.below(len);
            let p = dir.join("limited.par");
            let _ = std::fs::remove_file(&p);
            // The path may hold another complete file, which may at most stay as it is.
            let old_bytes = if r.chance(1, 2) {
                let n = [0, 40, 400, 4000][r.below(4)];
                let mut u: Vec<String> = value_of(&mut r, n);
                u.push("earlier".into());
                if cx.ok(Parcode::save(&p, &u), "save").is_none() {
                    return;
                }
                cx.count("failed_overwrites", 1);
                std::fs::read(&p).ok()
            } else {
                None
            };
            unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: lim as u64, rlim_max: old.rlim_max }) };
            want(cx, what, &p, &[ErrorKind::FileTooLarge], f);
            unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old) };
            let b = std::fs::read(&p).unwrap_or_default();
            if old_bytes.as_ref() == Some(&b) {
                continue;
            }
            s.left(cx, &v, &b, &canon, what);
            cx.distinct(&("limit", lim * 32 / len, big));
            match Parcode::load::<Vec<String>, _>(&p) {
                Err(_) => {}
                Ok(_) => cx.fail("leftover", format!("{what}: a file cut at {lim} of {len} bytes by the size limit was loaded")),
            }
        }
        // A peer that reads slowly, or goes away.
        for k in 0..3 {
            let Ok((a, mut b)) = std::os::unix::net::UnixStream::pair() else { return };
            let cut = (k > 0).then(|| r.below(len));
            let h = std::thread::spawn(move || {
                let mut got = vec![];
                let mut buf = [0u8; 4096];
                while cut.is_none_or(|c| got.len() < c) {
                    let want = cut.map_or(4096, |c| (c - got.len()).min(4096));
                    match b.read(&mut buf[..want]) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => got.extend_from_slice(&buf[..n]),
                    }
                }
                got
            });
            let pool = s.pool(&mut r);
            let out = match s.run(&v, a, pool, false) {
                Ok(o) => o,
                Err(e) => hang(cx, format!("socket: {e}")),
            };
            let got = h.join().unwrap_or_default();
            match (cut, out) {
                (None, Out::Done) => {
                    let same = refdec::parse(&got).is_ok_and(|n| n.canonical() == canon);
                    cx.check(same, "incomplete", || format!("socket: Ok, but the peer received {} of {len} bytes", got.len()));
                }
                (None, _) => cx.fail("spurious-error", "socket write failed"),
                // Small files fit in the socket buffer before the peer goes away.
                (Some(_), Out::Done) => cx.count("peer_gone_too_late", 1),
                (Some(_), Out::Err(ParcodeError::Io(e))) => {
                    cx.count("peers_gone", 1);
                    cx.check(matches!(e.kind(), ErrorKind::BrokenPipe | ErrorKind::ConnectionReset), "wrong-cause", || format!("peer gone: {e}"));
                }
                (Some(c), Out::Err(e)) => cx.fail("wrong-cause", format!("peer gone after {c} bytes: {e}")),
                (Some(_), Out::Panic(m)) => cx.fail("panic", m),
            }
        }
    });
}

fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C07", &args, 25, 420);
    let _ = pcmon::cx::catch(|| ());
    let pools = [1, 2, 4, 8].into_iter().map(|n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).collect();
    let mut s = S { pools, trials: 12 };
    struct L<'a, 'b>(&'a mut S, &'b mut Cx, &'b Args, u64);
    impl zoo::Each for L<'_, '_> {
        fn visit<T: Rooted>(&mut self, name: &'static str) {
            let L(s, cx, args, n) = self;
            if args.get("type").is_some_and(|t| t != name) || !cx.go() {
                return;
            }
            let r = Rng::derive(args.seed, name, *n);
            cx.begin(format!("seed={} type={name} n={n}", args.seed));
            cx.guard(|cx| s.step::<T>(cx, name, r));
        }
    }
    let only = args.get("n").and_then(|n| n.parse().ok());
    let mut n = only.unwrap_or(0);
    while cx.go() {
        let on = |t: &str| args.get("type").is_none_or(|x| x == t);
        if on("system") {
            system(&mut cx, &s, &args, n);
        }
        if on("large") && (only.is_some() || n % 4 == 0 || n < 4) {
            large(&mut cx, &s, &args, if only.is_some() || n < 4 { n } else { n / 4 });
        }
        spyzoo::each(&mut L(&mut s, &mut cx, &args, n));
        if n % 2 == 0 || only.is_some() {
            zoo::each(&mut L(&mut s, &mut cx, &args, n));
        }
        if only.is_some() {
            break;
        }
        n += 1;
    }
    cx.finish();
}
