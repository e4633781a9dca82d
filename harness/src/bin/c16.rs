//! C16: every value the library creates is released exactly once. Items carry an identity that a
//! ledger follows from creation to drop; loads, walks, lookups and writes succeed, fail or panic at
//! a chosen item, meet files that lie about their contents, or are abandoned. A counting allocator
//! watches for anything else that stays behind.
use parcode::{Parcode, ParcodeFile};
use pcmon::big;
use pcmon::cx::{Args, Cx, catch, hash64};
use pcmon::refdec;
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::spy;
use pcmon::val::{Poke, Rooted, Walk};
use pcmon::work::*;
use pcmon::{guard, mutate, spyzoo, zoo};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static A: guard::Capped = guard::Capped;

struct Lim(usize, u8);
impl Write for Lim {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            match self.1 {
                0 => return Err(std::io::Error::other("full")),
                1 => return Ok(0),
                _ => panic!("{}", spy::PANIC),
            }
        }
        let k = b.len().min(self.0);
        self.0 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Balance of the ledger around an operation.
fn balanced(cx: &mut Cx, live0: i64, what: impl Fn() -> String) {
    let d = spy::live() - live0;
    cx.check(d == 0, "ledger", || if d > 0 { format!("{}: {d} instances never released", what()) } else { format!("{}: {} instances released twice", what(), -d) });
    let n = spy::doubles();
    cx.check(n == 0, "double drop", || format!("{}: {n} drops of dead or damaged instances", what()));
    cx.count("balances", 1);
}
/// Instances alive in `v`.
fn held<T: Clone>(v: &T) -> i64 {
    let a = spy::live();
    let c = v.clone();
    let n = spy::live() - a;
    drop(c);
    n
}
/// Does repeating `f` leave bytes behind every time?
fn leaks(cx: &mut Cx, what: &str, mut f: impl FnMut()) {
    let mut run = |n: usize| {
        let mut low = usize::MAX;
        for _ in 0..n {
            f();
            low = low.min(guard::live());
        }
        low
    };
    run(4);
    let (a, b) = (run(8), run(8));
    cx.count("leak_checks", 1);
    if b >= a + 8 * 8 {
        // Caches settle and queues grow by the block; a leak grows every time, and in the end still does.
        let mut least = 0;
        for round in 0..4 {
            let lows: Vec<usize> = (0..6).map(|_| run(40)).collect();
            least = lows.windows(2).map(|w| w[1].saturating_sub(w[0])).min().unwrap_or(0);
            if least < 8 * 40 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(30 * (round + 1)));
        }
        cx.check(least < 8 * 40, "heap leak", || format!("{what}: heap grows by at least {} bytes each time", least / 40));
        cx.count("leak_checks_confirmed", 1);
    }
}

struct Step<'a> {
    dir: &'a std::path::Path,
    pools: &'a [rayon::ThreadPool],
    thorough: bool,
}
impl Step<'_> {
    fn open(&self, cx: &mut Cx, r: &mut Rng, bytes: Vec<u8>) -> parcode::Result<ParcodeFile> {
        if r.chance(1, 4) {
            let p = self.dir.join("f.par");
            std::fs::write(&p, &bytes).unwrap();
            cx.count("mapped_files", 1);
            return Parcode::open(&p);
        }
        ParcodeFile::from_bytes(bytes)
    }
    fn inside<R: Send>(&self, r: &mut Rng, f: impl FnOnce() -> R + Send) -> R {
        match r.below(3) {
            0 => f(),
            _ => self.pools[r.below(self.pools.len())].install(f),
        }
    }
    fn reading<T: Rooted>(&self, cx: &mut Cx, name: &str, v: &T, bytes: &[u8], r: &mut Rng) {
        let mine = held(v);
        // Success, every entry point.
        let path = self.dir.join("w.par");
        std::fs::write(&path, bytes).unwrap();
        let k = r.below(READERS.len());
        let live = spy::live();
        let x = self.inside(r, || read_with::<T>(k, &path, bytes));
        if let Some(x) = cx.ok(x, READERS[k]) {
            let n = spy::live() - live;
            cx.check(n == mine, "ledger", || format!("{}: {n} instances alive, the value has {mine}", READERS[k]));
            cx.check(v.same(&x), "value", || READERS[k].to_string());
        }
        balanced(cx, live, || format!("{name}: {}", READERS[k]));
        cx.count("loads", 1);
        // Lazy walk, everything visited and dropped.
        let f = self.open(cx, r, bytes.to_vec());
        let Some(f) = cx.ok(f, "open") else { return };
        let mut w = Walk { r: r.clone(), samples: 2, visits: 60 };
        v.lazy_root(&f, cx, &mut w);
        balanced(cx, live, || format!("{name}: lazy walk"));
        // Failing at an item.
        spy::reset_hooks();
        let seed = r.u64();
        let walk = |f: &ParcodeFile| {
            let mut w = Poke::new(Rng::new(seed), 500);
            w.iter_max = 40;
            T::poke_root(f, &mut w);
            w.calls
        };
        drop(f.load::<T>());
        let total_load = spy::DE_N.swap(0, SeqCst);
        walk(&f);
        let total_walk = spy::DE_N.swap(0, SeqCst);
        balanced(cx, live, || format!("{name}: walk without looking"));
        for (lazy, total) in [(false, total_load), (true, total_walk)] {
            if total == 0 {
                continue;
            }
            let every = total <= 40;
            let tries = if every { total } else if self.thorough { 60 } else { 14 };
            for i in 0..tries {
                let at = if every { 1 + i } else { 1 + r.below(total as usize) as u64 };
                for kind in 1..=2 {
                    spy::reset_hooks();
                    if r.chance(1, 4) {
                        spy::DELAY.store(r.u64() | 1, SeqCst);
                    }
                    spy::DE_FAIL_AT.store(at, SeqCst);
                    spy::DE_FAIL_KIND.store(kind, SeqCst);
                    let res = catch(|| self.inside(r, || if lazy { walk(&f) > 0 } else { f.load::<T>().is_ok() }));
                    let hit = spy::DE_N.load(SeqCst) >= at;
                    spy::reset_hooks();
                    let how = ["", "error", "panic"][kind as usize];
                    match &res {
                        Err(m) if !m.contains(spy::PANIC) => cx.fail("panic", m.clone()),
                        Ok(true) if !lazy && hit => cx.fail("swallowed", format!("{name}: item {at} of {total} failed to decode and load returned Ok")),
                        _ => {}
                    }
                    cx.count(if lazy { "failing_walks" } else { "failing_loads" }, 1);
                    cx.count(if kind == 1 { "decode_errors" } else { "decode_panics" }, u64::from(hit));
                    balanced(cx, live, || format!("{name}: {} with {how} at item {at} of {total}", if lazy { "walk" } else { "load" }));
                    if !cx.clean() {
                        return;
                    }
                }
                cx.distinct(&(1, name, at, total, lazy, bytes.len()));
            }
        }
        // Nothing else stays behind either.
        if r.chance(1, 6) && bytes.len() < 60_000 {
            // One thread: what other threads free late would blur the count.
            self.pools[0].install(|| {
                leaks(cx, &format!("{name}: load"), || drop(f.load::<T>()));
                leaks(cx, &format!("{name}: walk"), || {
                    walk(&f);
                });
                spy::DE_FAIL_KIND.store(1, SeqCst);
                let at = 1 + r.below(total_load.max(1) as usize) as u64;
                leaks(cx, &format!("{name}: load failing at item {at} of {total_load}"), || {
                    spy::DE_N.store(0, SeqCst);
                    spy::DE_FAIL_AT.store(at, SeqCst);
                    drop(f.load::<T>());
                });
            });
            spy::reset_hooks();
        }
    }
    fn lying<T: Rooted>(&self, cx: &mut Cx, name: &str, bytes: &[u8], r: &mut Rng) {
        let Ok(n) = refdec::parse(bytes) else { return };
        let mut files = mutate::lies(&n, r);
        r.shuffle(&mut files);
        files.truncate(if self.thorough { 60 } else { 16 });
        for _ in 0..6 {
            files.push(if r.chance(5, 6) { mutate::mutate(r, &n, bytes, true) } else { mutate::scramble(r, bytes, bytes) });
        }
        for (b, what) in files {
            let h = hash64(&b);
            let (live, made) = (spy::live(), spy::created());
            let res = catch(|| {
                let Ok(f) = self.open(cx, r, b) else { return };
                let mut w = Poke::new(r.clone(), 800);
                w.iter_max = 60;
                self.inside(r, || exercise::<T>(&f, &mut w));
            });
            if let Err(m) = res {
                cx.fail("panic", format!("{what}: {m}"));
            }
            balanced(cx, live, || format!("{name}: {what}"));
            cx.count("lying_files", 1);
            cx.count("lying_files_that_created_items", u64::from(spy::created() > made));
            cx.distinct(&(2, h));
            if !cx.clean() {
                return;
            }
        }
    }
    fn writing<T: Rooted>(&self, cx: &mut Cx, name: &str, v: &T, r: &mut Rng) {
        spy::reset_hooks();
        let live = spy::live();
        let path = self.dir.join("v.par");
        let k = r.below(WRITERS.len());
        let size = match self.inside(r, || write_with(k, v, &path)) {
            Ok(b) => b.len(),
            Err(e) => return cx.fail("error", format!("{}: {e}", WRITERS[k])),
        };
        let total = spy::SER_N.load(SeqCst);
        balanced(cx, live, || format!("{name}: {}", WRITERS[k]));
        for _ in 0..if self.thorough { 40 } else { 12 } {
            spy::reset_hooks();
            let mut at = usize::MAX; // One fault at a time: two panics at once end the process.
            let kind = r.below(3) as u8;
            if r.chance(1, 2) || total == 0 {
                at = r.below(size + 1);
            } else {
                spy::SER_FAIL_KIND.store(1 + r.below(2) as u64, SeqCst);
                spy::SER_FAIL_AT.store(1 + r.below(total as usize) as u64, SeqCst);
            }
            let sync = r.chance(1, 4);
            let comp = r.chance(1, 4);
            let res = catch(|| {
                self.inside(r, || {
                    let b = Parcode::builder().compression(comp);
                    if sync { b.write_sync(Lim(at, kind), v) } else { b.write(Lim(at, kind), v) }
                })
            });
            spy::reset_hooks();
            if let Err(m) = &res
                && !m.contains(spy::PANIC)
            {
                cx.fail("panic", m.clone());
            }
            cx.count(if matches!(res, Ok(Ok(()))) { "writes_completed" } else { "writes_failed" }, 1);
            balanced(cx, live, || format!("{name}: write (sync {sync}) with failure {kind} at byte {at}"));
            if !cx.clean() {
                return;
            }
        }
        cx.distinct(&(3, name, size, k));
        if r.chance(1, 6) && size < 60_000 {
            self.pools[0].install(|| {
                leaks(cx, &format!("{name}: write"), || drop(Parcode::serialize(v)));
                leaks(cx, &format!("{name}: write_sync"), || drop(Parcode::write_sync(std::io::sink(), v)));
                let at = r.below(size);
                leaks(cx, &format!("{name}: write failing at byte {at}"), || drop(Parcode::write(Lim(at, 0), v)));
                leaks(cx, &format!("{name}: write_sync failing at byte {at}"), || drop(Parcode::write_sync(Lim(at, 0), v)));
                if total > 0 {
                    let (sync, kind, at) = (r.chance(1, 3), 1 + r.below(2) as u64, 1 + r.below(total as usize) as u64);
                    let how = ["", "error", "panic"][kind as usize];
                    leaks(cx, &format!("{name}: write (sync {sync}) with {how} in the serialization of item {at} of {total}"), || {
                        spy::reset_hooks();
                        spy::SER_FAIL_KIND.store(kind, SeqCst);
                        spy::SER_FAIL_AT.store(at, SeqCst);
                        drop(catch(|| if sync { Parcode::write_sync(std::io::sink(), v) } else { Parcode::write(std::io::sink(), v) }));
                    });
                    spy::reset_hooks();
                }
            });
        }
    }
}
impl pcmon::work::Step for Step<'_> {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let r = &mut r;
        let b = *r.pick(&[12, 60, 60, 200, 900, if self.thorough { 30_000 } else { 6000 }]);
        let all0 = spy::live();
        let v: T = value_of(r, b);
        let bytes = if r.chance(2, 3) {
            let mut lay = Layout::random(r, true);
            lay.split = *r.pick(&[1, 2, 3, 3]);
            lay.max_shards = 24;
            let e = refenc::encode(&v.shape(0, false), &lay, r);
            cx.count("multi_shard_files", u64::from(e.shards > 1));
            e.file
        } else {
            match Parcode::serialize(&v) {
                Ok(b) => b,
                Err(e) => return cx.fail("error", e.to_string()),
            }
        };
        // Hostile files: not as recursive types, nor with strings (known finding of C09).
        let tame = !["STree", "SFlat", "SNode", "SMaps"].iter().any(|s| name.contains(s));
        match r.below(5) {
            0 | 1 if tame => self.lying::<T>(cx, name, &bytes, r),
            2 => self.writing(cx, name, &v, r),
            _ => self.reading(cx, name, &v, &bytes, r),
        }
        cx.sample(|| format!("{name}: {} instances in {} bytes", held(&v), bytes.len()));
        drop(v);
        if cx.clean() {
            balanced(cx, all0, || format!("{name}: whole case"));
        }
    }
}
struct Spies<'a>(&'a mut Cx, &'a Args, Step<'a>, u64);
impl zoo::Each for Spies<'_> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        if !self.0.go() || self.1.get("type").is_some_and(|t| t != name) {
            return;
        }
        let r = Rng::derive(self.1.seed, "c16", self.3.wrapping_mul(1009) ^ hash64(name));
        self.0.begin(format!("seed={} type={name} n={}", self.1.seed, self.3));
        let s = &mut self.2;
        self.0.guard(|cx| pcmon::work::Step::step::<T>(s, cx, name, r));
        if !self.0.clean() {
            // A case that leaked must not blame the next.
            spy::reset_hooks();
        }
    }
}

/// Writes of more than the writer's buffer, refused by the destination in the middle.
fn large(cx: &mut Cx, args: &Args, pool: &rayon::ThreadPool, n: u64) {
    let mut r = Rng::derive(args.seed, "c16-large", n);
    cx.begin(format!("seed={} type=large n={n}", args.seed));
    let mut v = big::value(&mut r);
    v.truncate(r.range(18, 40));
    let size = v.len() << 20;
    cx.guard(|cx| {
        for kind in 0..3 {
            let (at, sync) = (r.below(size), (n + kind as u64) % 3 == 0);
            let what = format!("{size} bytes: write (sync {sync}) with failure {kind} at byte {at}");
            pool.install(|| {
                leaks(cx, &what, || {
                    drop(catch(|| if sync { Parcode::write_sync(Lim(at, kind), &v) } else { Parcode::write(Lim(at, kind), &v) }));
                });
            });
            cx.count("large_leak_checks", 1);
            cx.distinct(&("large", size, kind, at));
        }
    });
}
fn main() {
    let args = Args::parse();
    guard::SINGLE.store(256 << 20, SeqCst);
    let mut cx = Cx::new("C16", &args, 24, 420);
    let dir = scratch(&args, "c16");
    std::fs::create_dir_all(&dir).unwrap();
    let pools: Vec<_> = [1, 2, 4, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect();
    let part = args.num("part", 0);
    let only = args.get("n").and_then(|v| v.parse::<u64>().ok());
    let mut n = only.unwrap_or(part);
    if args.get("type").is_none_or(|t| t == "large") {
        large(&mut cx, &args, &pools[0], n);
    }
    while cx.go() {
        let mut s = Spies(&mut cx, &args, Step { dir: &dir, pools: &pools, thorough: args.thorough }, n);
        spyzoo::each(&mut s);
        if only.is_some() {
            break;
        }
        n += 16;
    }
    cx.count("instances_created", spy::created());
    cx.finish();
}
