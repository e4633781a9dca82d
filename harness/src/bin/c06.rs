//! C06: the same value written in parallel under many pools, delays and call contexts must give
//! the chunk tree of the synchronous write, with every job run exactly once, and always finish.
use parcode::{Parcode, ParcodeError};
use pcmon::cx::{Args, Cx, watched};
use parcode::visitor::ParcodeVisitor;
use pcmon::probe::Probe;
use pcmon::refdec;
use pcmon::rng::Rng;
use pcmon::spy::{self, record};
use pcmon::val::Rooted;
use pcmon::work::*;
use pcmon::{spyzoo, zoo};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static BYTES: AtomicU64 = AtomicU64::new(0);

/// A destination that is sometimes slow and accepts data piecemeal.
struct Slow {
    buf: Vec<u8>,
    r: Rng,
    slow: bool,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        BYTES.fetch_add(1, SeqCst);
        let mut n = b.len();
        if self.slow {
            match self.r.below(6) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(self.r.below(200) as u64)),
                2 => n = self.r.range(1, b.len().max(1)).min(n),
                _ => {}
            }
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct S {
    pools: Vec<(usize, rayon::ThreadPool)>,
    trials: usize,
}
fn one<T: ParcodeVisitor + Sync>(v: &T, global: bool, slow: Option<Rng>) -> Result<Vec<u8>, ParcodeError> {
    let mut w = Slow { buf: vec![], r: slow.clone().unwrap_or(Rng::new(1)), slow: slow.is_some() };
    Parcode::builder().compression(global).write(&mut w, v)?;
    Ok(w.buf)
}
impl S {
    fn check<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng, v: &T) {
        let global = r.chance(1, 3);
        spy::reset_hooks();
        let (sync, want, _) = record(|| {
            let mut b = vec![];
            Parcode::builder().compression(global).write_sync(&mut b, v).map(|_| b)
        });
        let Some(sync) = cx.ok(sync, "write_sync") else { return };
        let base = match refdec::parse(&sync) {
            Ok(n) => n,
            Err(e) => return cx.fail("sync-format", e),
        };
        let canon = base.canonical();
        let chunks = base.count();
        cx.max("max_chunks", chunks as u64);
        for _ in 0..self.trials {
            let p = r.below(self.pools.len() + 2);
            let slow = r.chance(1, 2).then(|| Rng::new(r.u64()));
            spy::DELAY.store(if r.chance(2, 3) { r.u64() | 1 } else { 0 }, SeqCst);
            let pool = self.pools.get(p);
            let events = || spy::SER_N.load(SeqCst) + BYTES.load(SeqCst);
            let run = || {
                record(|| match pool {
                    Some((_, pool)) => pool.install(|| one(v, global, slow)),
                    None if p == self.pools.len() => one(v, global, slow),
                    // From inside a task of the global pool, with a sibling keeping workers busy.
                    None => rayon::join(|| one(v, global, slow), || (0..2000u64).map(|x| x.wrapping_mul(x)).sum::<u64>()).0,
                })
            };
            let ctx = || match pool {
                Some((n, _)) => format!("pool of {n}"),
                None => "global pool".to_string(),
            };
            let (bytes, sers, threads) = match watched(events, run) {
                Ok(x) => x,
                Err(e) => {
                    cx.fail("hang", format!("{}: {e}", ctx()));
                    std::mem::replace(cx, Cx::scratch("")).finish();
                }
            };
            spy::DELAY.store(0, SeqCst);
            cx.count("parallel_writes", 1);
            cx.max("max_threads_in_one_write", threads.len() as u64);
            let bytes = match bytes {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("parallel-error", format!("{}: {e}", ctx()));
                    continue;
                }
            };
            cx.check(bytes.len() == sync.len(), "length", || format!("{}: {} bytes, synchronous write has {}", ctx(), bytes.len(), sync.len()));
            let node = match refdec::parse(&bytes) {
                Ok(n) => n,
                Err(e) => {
                    cx.fail("tree", format!("{}: {e}", ctx()));
                    continue;
                }
            };
            if let Err(e) = refdec::check_tiling(&bytes, &node) {
                cx.fail("placement", format!("{}: {e}", ctx()));
            }
            cx.check(node.canonical() == canon, "tree", || format!("{}: chunk tree of {} chunks differs from the synchronous one of {chunks}", ctx(), node.count()));
            if sers != want {
                let d: Vec<_> = want.iter().filter(|(k, n)| sers.get(k) != Some(n)).take(3).collect();
                cx.fail("jobs", format!("{}: values serialized a different number of times: {d:?}", ctx()));
            }
            cx.count("jobs_counted", sers.values().sum());
            if chunks > 1 {
                cx.distinct(&(name, &canon, node.placement()));
            }
            cx.sample(|| format!("{name}, {}: {chunks} chunks in file order {:?}", ctx(), node.placement().iter().take(24).collect::<Vec<_>>()));
        }
    }
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let b = [40, 40, 400, 400, 4000, 20_000][r.below(6)];
        let v: T = value_of(&mut r, b);
        self.check(cx, name, r, &v);
    }
}

/// Many quick writes of a small tree: the windows between finishing siblings are narrow.
fn burst(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    use pcmon::spy::Spy;
    use spyzoo::*;
    let mut r = Rng::derive(args.seed, "c06-burst", n);
    cx.begin(format!("seed={} type=burst n={n}", args.seed));
    spy::reset_hooks();
    let leaf = |i: u64| SLeaf { s: Spy::new(i), data: vec![i as u16; (i % 3) as usize] };
    let kids = r.range(1, 9) as u64;
    let v = STree {
        s: Spy::new(900),
        kids: (0..kids).map(|i| STree { s: Spy::new(i), kids: vec![], one: SFlat { s: Spy::new(i + 100), n: 1, t: String::new() } }).collect(),
        one: SFlat { s: Spy::new(901), n: 2, t: "x".into() },
    };
    let w = SNode { a: Spy::new(1), leaf: leaf(2), leaves: (0..kids).map(leaf).collect(), m: (0..3).map(|i| (i, leaf(u64::from(i)))).collect(), flat: vec![], z: None };
    let mut want = vec![];
    for sync in [Parcode::write_sync(&mut want, &v), { want.clear(); Parcode::write_sync(&mut want, &v) }] {
        cx.ok(sync, "write_sync");
    }
    let mut want2 = vec![];
    cx.ok(Parcode::write_sync(&mut want2, &w), "write_sync");
    let canon = |b: &[u8]| refdec::parse(b).map(|n| n.canonical());
    let (c1, c2) = (canon(&want), canon(&want2));
    if c1.is_err() || c2.is_err() {
        return cx.fail("sync-format", "unreadable");
    }
    let p = r.below(s.pools.len());
    for i in 0..250 {
        let (_, pool) = &s.pools[p];
        let events = || BYTES.load(SeqCst) + spy::SER_N.load(SeqCst);
        let out = watched(events, || pool.install(|| (one(&v, false, None), one(&w, false, None))));
        let (a, b) = match out {
            Ok(x) => x,
            Err(e) => {
                cx.fail("hang", format!("pool of {}, write {i}: {e}", s.pools[p].0));
                std::mem::replace(cx, Cx::scratch("")).finish();
            }
        };
        for (got, want) in [(a, &c1), (b, &c2)] {
            match got {
                Err(e) => cx.fail("parallel-error", format!("pool of {}: {e}", s.pools[p].0)),
                Ok(b) => {
                    let c = canon(&b);
                    cx.check(&c == want, "tree", || format!("pool of {}: tree differs ({:?})", s.pools[p].0, c.err()));
                    if let Ok(n) = refdec::parse(&b) {
                        cx.distinct(&(kids, n.placement()));
                    }
                }
            }
            cx.count("parallel_writes", 1);
        }
        if !cx.clean() {
            return;
        }
    }
}

/// Chunks of kilobytes to megabytes, written by workers that have nothing to do but to write them.
fn contend(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    let mut r = Rng::derive(args.seed, "c06-contend", n);
    cx.begin(format!("seed={} type=contend n={n}", args.seed));
    let size = [3_000, 12_000, 40_000, 70_000, 150_000, 600_000][r.below(6)];
    let k = (r.range(4, 30) << 20) / size;
    let v: Vec<String> = (0..k).map(|i| format!("{i:07},").repeat(r.range(size / 16, size * 3 / 16))).collect();
    let mut want = vec![];
    if cx.ok(Parcode::write_sync(&mut want, &v), "write_sync").is_none() {
        return;
    }
    let Ok(canon) = refdec::parse(&want).map(|n| n.canonical()) else { return cx.fail("sync-format", "unreadable") };
    for _ in 0..12 {
        let (threads, pool) = &s.pools[r.range(1, s.pools.len() - 1)];
        let slow = r.chance(1, 4).then(|| Rng::new(r.u64()));
        let b = match watched(|| BYTES.load(SeqCst), || pool.install(|| one(&v, false, slow))) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("hang", format!("{k} items of about {size} bytes in a pool of {threads}: {e}"));
                std::mem::replace(cx, Cx::scratch("")).finish();
            }
        };
        let what = || format!("{k} items of about {size} bytes in a pool of {threads}");
        let Some(b) = cx.ok(b, "write") else { return };
        match refdec::parse(&b) {
            Err(e) => cx.fail("tree", format!("{}: {e}", what())),
            Ok(root) => {
                cx.check(root.canonical() == canon, "tree", || format!("{}: chunk tree differs from the synchronous one", what()));
                cx.distinct(&(size, root.placement()));
            }
        }
        cx.count("contended_writes", 1);
        if !cx.clean() {
            return;
        }
    }
}

/// Arbitrary task graphs through the public job interface: each job must run once, be given the
/// places of its own children in order, and end up where its parent says.
fn graphs(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    let mut r = Rng::derive(args.seed, "c06-graph", n);
    cx.begin(format!("seed={} type=graph n={n}", args.seed));
    // Now and then more siblings than 16 bits count.
    let size = if n % 16 == 3 { r.range(66_000, 140_000) } else { *r.pick(&[1, 2, 3, 8, 40, 200, 2000]) };
    if size > 60_000 {
        cx.count("very_wide_graphs", 1);
    }
    let p = Probe::random(&mut r, size);
    let global = r.chance(1, 4);
    for _ in 0..if size < 50 { 12 } else if size < 60_000 { 4 } else { 1 } {
        let slow = r.chance(1, 4).then(|| Rng::new(r.u64()));
        spy::reset_hooks();
        spy::DELAY.store(if r.chance(1, 2) { r.u64() | 1 } else { 0 }, SeqCst);
        let (threads, pool) = &s.pools[r.below(s.pools.len())];
        p.clear();
        let events = || p.0.iter().map(|x| x.runs.lock().map_or(0, |r| r.len() as u64)).sum::<u64>() + BYTES.load(SeqCst);
        let out = match watched(events, || pool.install(|| one(&p, global, slow))) {
            Ok(x) => x,
            Err(e) => {
                cx.fail("hang", format!("graph of {size} in a pool of {threads}: {e}"));
                std::mem::replace(cx, Cx::scratch("")).finish();
            }
        };
        spy::reset_hooks();
        let what = || format!("graph of {size} in a pool of {threads}");
        let Some(b) = cx.ok(out, "write") else { return };
        match refdec::parse(&b) {
            Err(e) => cx.fail("tree", format!("{}: {e}", what())),
            Ok(root) => {
                if let Err(e) = p.check(&root, global, true).and_then(|()| refdec::check_tiling(&b, &root)) {
                    cx.fail("tree", format!("{}: {e}", what()));
                }
                cx.distinct(&(size, root.placement()));
            }
        }
        cx.count("graphs_written", 1);
        cx.count("jobs_counted", size as u64);
        if !cx.clean() {
            return;
        }
    }
}

/// Shapes chosen for contention: very wide, very deep, and many single-child chains.
fn special(cx: &mut Cx, s: &mut S, args: &Args, n: u64) {
    use pcmon::spy::Spy;
    use spyzoo::*;
    let mut r = Rng::derive(args.seed, "c06-special", n);
    let leaf = |i: u64| SLeaf { s: Spy::new(i), data: vec![i as u16; (i % 5) as usize] };
    let flat = |i: u64| SFlat { s: Spy::new(1 << 40 | i), n: i as u16, t: "t".into() };
    cx.begin(format!("seed={} type=special n={n}", args.seed));
    cx.guard(|cx| {
        let wide: Vec<SLeaf> = (0..r.range(500, 4000) as u64).map(leaf).collect();
        s.check(cx, "wide", r.clone(), &wide);
        let mut t = STree { s: Spy::new(7), kids: vec![], one: flat(0) };
        for i in 0..r.range(20, 150) as u64 {
            t = STree { s: Spy::new(100 + i), kids: vec![t], one: flat(i) };
        }
        s.check(cx, "chain", r.clone(), &t);
        let m: HashMap<u32, SLeaf> = (0..r.range(100, 700) as u32).map(|i| (i, leaf(u64::from(i)))).collect();
        let node = SNode { a: Spy::new(1), leaf: leaf(2), leaves: (0..400).map(leaf).collect(), m, flat: (0..3000).map(flat).collect(), z: None };
        s.check(cx, "node", r.clone(), &node);
    });
}

fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C06", &args, 25, 420);
    let pools = [1, 2, 3, 4, 8, 16].into_iter().map(|n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).collect();
    let mut s = S { pools, trials: 5 };
    struct L<'a, 'b>(&'a mut S, &'b mut Cx, &'b Args, u64);
    impl zoo::Each for L<'_, '_> {
        fn visit<T: Rooted>(&mut self, name: &'static str) {
            let L(s, cx, args, n) = self;
            if args.get("type").is_some_and(|t| t != name) || !cx.go() {
                return;
            }
            let r = Rng::derive(args.seed, name, *n);
            cx.begin(format!("seed={} type={name} n={n}", args.seed));
            cx.guard(|cx| s.step::<T>(cx, name, r));
        }
    }
    let only = args.get("n").and_then(|n| n.parse().ok());
    let mut n = only.unwrap_or(0);
    while cx.go() {
        if args.get("type").is_none_or(|t| t == "special") {
            special(&mut cx, &mut s, &args, n);
        }
        if args.get("type").is_none_or(|t| t == "contend") {
            for k in 0..2 {
                contend(&mut cx, &s, &args, only.unwrap_or(n * 2 + k));
            }
        }
        if args.get("type").is_none_or(|t| t == "burst") {
            for k in 0..4 {
                burst(&mut cx, &s, &args, only.unwrap_or(n * 4 + k));
            }
        }
        if args.get("type").is_none_or(|t| t == "graph") {
            for k in 0..12 {
                graphs(&mut cx, &s, &args, only.unwrap_or(n * 12 + k));
            }
        }
        spyzoo::each(&mut L(&mut s, &mut cx, &args, n));
        if n % 4 == 0 || only.is_some() {
            zoo::each(&mut L(&mut s, &mut cx, &args, n));
        }
        if only.is_some() {
            break;
        }
        n += 1;
    }
    cx.finish();
}
