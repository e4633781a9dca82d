//! C19: synchronous writes. Every write of a value by every synchronous entry point, from any
//! surroundings, must give the same bytes; user code and the destination record the threads they
//! run on; a parallel write must be of the same length.
use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeOptions};
use pcmon::cx::{Args, Cx};
use pcmon::probe::Probe;
use pcmon::refdec;
use pcmon::rng::Rng;
use pcmon::spy;
use pcmon::val::Rooted;
use pcmon::work::*;
use pcmon::{spyzoo, zoo};
use std::collections::HashSet;
use std::io::Write;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;

/// A destination that notes which threads use it.
struct Dest {
    buf: Arc<Mutex<Vec<u8>>>,
    by: Arc<Mutex<HashSet<ThreadId>>>,
    r: Option<Rng>,
}
impl Dest {
    fn new(r: Option<Rng>) -> Self {
        Self { buf: Arc::default(), by: Arc::default(), r }
    }
    fn note(&self) {
        self.by.lock().unwrap().insert(std::thread::current().id());
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.note();
        let mut n = b.len();
        if let Some(r) = &mut self.r
            && n > 0
            && r.chance(1, 3)
        {
            n = r.range(1, n);
        }
        self.buf.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.note();
        Ok(())
    }
}
impl Drop for Dest {
    fn drop(&mut self) {
        self.note();
    }
}
fn opts(c: bool) -> ParcodeOptions {
    Parcode::builder().compression(c)
}
/// One synchronous write: the bytes, the threads user code ran on, those the destination was used from.
fn sync<T: ParcodeVisitor>(v: &T, how: usize, c: bool, path: &Path, slow: Option<Rng>) -> Result<(Vec<u8>, HashSet<ThreadId>, HashSet<ThreadId>), String> {
    let es = |e: parcode::ParcodeError| e.to_string();
    match how {
        0 => {
            let d = Dest::new(slow);
            let (buf, by) = (d.buf.clone(), d.by.clone());
            let (res, _, threads) = spy::record(|| if c { opts(true).write_sync(d, v) } else { Parcode::write_sync(d, v) });
            res.map_err(es)?;
            let b = std::mem::take(&mut *buf.lock().unwrap());
            let by = by.lock().unwrap().clone();
            Ok((b, threads, by))
        }
        1 => {
            let (res, _, threads) = spy::record(|| opts(c).save_sync(path, v));
            res.map_err(es)?;
            Ok((std::fs::read(path).map_err(|e| e.to_string())?, threads, HashSet::new()))
        }
        2 => {
            let mut b = vec![];
            let (res, _, threads) = spy::record(|| opts(c).write_sync(&mut b, v));
            res.map_err(es)?;
            Ok((b, threads, HashSet::new()))
        }
        _ => {
            let (res, _, threads) = spy::record(|| if c { opts(true).save_sync(path, v) } else { Parcode::save_sync(path, v) });
            res.map_err(es)?;
            Ok((std::fs::read(path).map_err(|e| e.to_string())?, threads, HashSet::new()))
        }
    }
}
struct S<'a> {
    dir: &'a Path,
    pools: &'a [rayon::ThreadPool],
}
impl S<'_> {
    fn check<T: ParcodeVisitor + Sync>(&self, cx: &mut Cx, name: &str, v: &T, r: &mut Rng, mut again: impl FnMut(&[u8], bool) -> Result<(), String>) -> Option<usize> {
        let path = self.dir.join("s.par");
        let c = r.chance(1, 3);
        let mut first: Option<Vec<u8>> = None;
        for round in 0..r.range(2, 5) {
            let how = if round == 0 { 0 } else { r.below(4) };
            let place = r.below(4);
            spy::reset_hooks();
            if r.chance(1, 4) {
                spy::DELAY.store(r.u64() | 1, SeqCst);
            }
            let slow = r.chance(1, 3).then(|| r.clone());
            let calls0 = spy::CALLS.load(SeqCst);
            // The caller: this thread, a thread of its own, or a worker of a pool.
            let go = || (std::thread::current().id(), sync(v, how, c, &path, slow.clone()));
            let (me, res) = match place {
                0 | 1 => go(),
                2 => std::thread::scope(|s| s.spawn(go).join().expect("writer")),
                _ => self.pools[r.below(self.pools.len())].install(go),
            };
            spy::reset_hooks();
            let what = || format!("{name} c={c} round={round} how={how} place={place}");
            let (bytes, user, dest) = match res {
                Ok(x) => x,
                Err(e) => {
                    cx.fail("error", format!("{}: {e}", what()));
                    return None;
                }
            };
            cx.count("sync_writes", 1);
            cx.count("user_code_entries", spy::CALLS.load(SeqCst) - calls0);
            cx.count("in_pool", u64::from(place == 3));
            cx.check(user.iter().all(|t| *t == me), "user code thread", || format!("{}: user code ran on {} threads, or not on the caller's", what(), user.len()));
            cx.check(dest.iter().all(|t| *t == me), "destination thread", || format!("{}: the destination was used from {} threads, or not from the caller's", what(), dest.len()));
            if let Err(e) = again(&bytes, c) {
                cx.fail("tree", format!("{}: {e}", what()));
            }
            match &first {
                None => first = Some(bytes),
                Some(f) => {
                    let at = f.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(f.len().min(bytes.len()));
                    cx.check(*f == bytes, "bytes", || format!("{}: {} and {} bytes, first difference at {at}", what(), f.len(), bytes.len()));
                    cx.count("repetitions", 1);
                }
            }
            if !cx.clean() {
                return None;
            }
        }
        let n = first?.len();
        for _ in 0..2 {
            let mut b = vec![];
            let res = match r.below(2) {
                0 => opts(c).write(&mut b, v),
                _ => self.pools[r.below(self.pools.len())].install(|| opts(c).write(&mut b, v)),
            };
            if cx.ok(res, "parallel write").is_none() {
                return None;
            }
            cx.check(b.len() == n, "length", || format!("{name} c={c}: {} bytes in parallel, {n} synchronously", b.len()));
            cx.count("parallel_lengths", 1);
        }
        Some(n)
    }
    fn probe(&self, cx: &mut Cx, r: &mut Rng) {
        let n = *r.pick(&[1, 2, 5, 30, 300]);
        let p = Probe::random(r, n);
        p.clear();
        let n = self.check(cx, "Probe", &p, r, |b, c| {
            let root = refdec::parse(b)?;
            let res = p.check(&root, c, true);
            p.clear();
            res
        });
        cx.count("probe_graphs", 1);
        cx.distinct(&("probe", n, p.0.len()));
    }
}
impl Step for S<'_> {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let v: T = value_large(&mut r);
        if let Some(n) = self.check(cx, name, &v, &mut r, |_, _| Ok(())) {
            cx.distinct(&(name, n));
            cx.sample(|| format!("{name}: {n} bytes"));
        }
    }
}

fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C19", &args, 24, 300);
    let dir = scratch(&args, "c19");
    std::fs::create_dir_all(&dir).unwrap();
    let pools: Vec<_> = [1, 2, 4, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect();
    let part = args.num("part", 0);
    let only = args.get("n").and_then(|v| v.parse::<u64>().ok());
    // Others write in parallel meanwhile, through the global pool (not with recording types).
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..2u64 {
            let stop = &stop;
            sc.spawn(move || {
                let v: Vec<Vec<String>> = (0..300 * (t + 1)).map(|i| (0..i % 40).map(|k| format!("{i}/{k}")).collect()).collect();
                let mut want = None;
                while !stop.load(SeqCst) {
                    let n = Parcode::serialize(&v).map(|b| b.len()).unwrap_or(0);
                    assert_eq!(*want.get_or_insert(n), n);
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
            });
        }
        let mut n = only.unwrap_or(part);
        while cx.go() {
            struct L<'a, 'b>(&'a mut S<'b>, &'a mut Cx, &'a Args, u64);
            impl zoo::Each for L<'_, '_> {
                fn visit<T: Rooted>(&mut self, name: &'static str) {
                    if !self.1.go() || self.2.get("type").is_some_and(|t| t != name) {
                        return;
                    }
                    let r = Rng::derive(self.2.seed, "c19", self.3.wrapping_mul(1009) ^ pcmon::cx::hash64(name));
                    self.1.begin(format!("seed={} type={name} n={}", self.2.seed, self.3));
                    let s = &mut *self.0;
                    self.1.guard(|cx| s.step::<T>(cx, name, r));
                }
            }
            let mut s = S { dir: &dir, pools: &pools };
            spyzoo::each(&mut L(&mut s, &mut cx, &args, n));
            if n % 3 == 0 {
                zoo::each(&mut L(&mut s, &mut cx, &args, n));
            }
            for k in 0..20 {
                let mut r = Rng::derive(args.seed, "c19p", n * 100 + k);
                cx.begin(format!("seed={} probe n={n} k={k}", args.seed));
                cx.guard(|cx| s.probe(cx, &mut r));
            }
            if only.is_some() {
                break;
            }
            n += 16;
        }
        stop.store(true, SeqCst);
    });
    cx.finish();
}
