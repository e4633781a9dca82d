//! C08: a workload for the sanitizers (Miri, AddressSanitizer, ThreadSanitizer, MemorySanitizer):
//! every operation of the library, succeeding and failing, on sound and damaged files, from one
//! thread and many. Everything it gets back is looked at and dropped, so that a bad byte is seen.
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, catch, hash64};
use pcmon::refdec;
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::spy;
use pcmon::val::{Poke, Rooted, Walk};
use pcmon::work::*;
use pcmon::{guard, mutate, spyzoo, zoo};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[global_allocator]
static A: guard::Capped = guard::Capped;

const MIRI: bool = cfg!(miri);
/// Zero-byte items (hostile counts are then legitimate values of any size) and recursive types.
const WILD: [&str; 11] = ["Tree", "Vec<Tree>", "Vec<Empty>", "Vec<Unit>", "Inner0", "Vec<Inner0>", "Empty", "Unit", "STree", "Vec<STree>", "Vec<Hard>"];
/// A String's length prefix makes bincode allocate it (known finding of C09): not for hostile files.
fn has_string(name: &str) -> bool {
    ["String", "Flat", "Wide", "Prims", "Mixed", "Packed", "Twig", "Deep", "Maps", "Attrs", "SNode"].iter().any(|s| name.contains(s))
}
fn small(r: &mut Rng) -> usize {
    if MIRI { r.range(4, 24) } else { *r.pick(&[12, 60, 60, 200, 900, 3000]) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    RoundTrip,
    Layout,
    Lies,
    Hostile,
    Share,
    SpyFail,
    Abandon,
    WriteFail,
}
use Part::*;

struct Pass<'a> {
    part: Part,
    cx: &'a mut Cx,
    args: &'a Args,
    n: u64,
    end: Instant,
    dir: std::path::PathBuf,
}
struct Lim(usize, u8);
impl Write for Lim {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            match self.1 {
                0 => return Err(std::io::Error::other("full")),
                1 => return Ok(0),
                _ => panic!("destination"),
            }
        }
        let k = b.len().min(self.0);
        self.0 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Pass<'_> {
    fn open(&mut self, r: &mut Rng, bytes: Vec<u8>) -> parcode::Result<ParcodeFile> {
        if !MIRI && r.chance(1, 3) {
            let p = self.dir.join("f.par");
            std::fs::write(&p, &bytes).unwrap();
            self.cx.count("mapped_files", 1);
            return Parcode::open(&p);
        }
        ParcodeFile::from_bytes(bytes)
    }
    fn reference<T: Rooted>(&mut self, v: &T, r: &mut Rng) -> Vec<u8> {
        let mut lay = Layout::random(r, cfg!(feature = "lz4"));
        lay.split = *r.pick(&[1, 2, 3, 3]);
        lay.max_shards = if MIRI { 4 } else { 24 };
        let e = refenc::encode(&v.shape(0, false), &lay, r);
        self.cx.count("multi_shard_files", u64::from(e.shards > 1));
        e.file
    }
    fn run<T: Rooted>(&mut self, name: &str, r: &mut Rng) {
        let b = small(r);
        let v: T = value_of(r, b);
        match self.part {
            RoundTrip => {
                let mut buf = vec![];
                let global = r.chance(1, 3);
                let res = if r.chance(1, 4) { Parcode::builder().compression(global).write_sync(&mut buf, &v) } else { Parcode::builder().compression(global).write(&mut buf, &v) };
                if self.cx.ok(res, "write").is_none() {
                    return;
                }
                let size = buf.len();
                let f = self.open(r, buf);
                let Some(f) = self.cx.ok(f, "open") else { return };
                if let Some(x) = self.cx.ok(f.load::<T>(), "load") {
                    self.cx.check(v.same(&x), "value", || format!("{v:.200?} became {x:.200?}"));
                }
                let mut w = Walk { r: r.clone(), samples: 2, visits: if MIRI { 10 } else { 200 } };
                v.lazy_root(&f, self.cx, &mut w);
                self.cx.distinct(&(0, name, size));
            }
            Layout => {
                let file = self.reference(&v, r);
                let f = self.open(r, file);
                let Some(f) = self.cx.ok(f, "open") else { return };
                if let Some(x) = self.cx.ok(f.load::<T>(), "load") {
                    self.cx.check(v.same(&x), "value", || format!("{v:.200?} became {x:.200?}"));
                }
                let mut w = Walk { r: r.clone(), samples: 2, visits: if MIRI { 10 } else { 200 } };
                v.lazy_root(&f, self.cx, &mut w);
                self.cx.distinct(&(1, name, f.file_size()));
            }
            Lies | Hostile => {
                let file = self.reference(&v, r);
                let Ok(n) = refdec::parse(&file) else { return };
                let mut files = if self.part == Lies {
                    let mut l = mutate::lies(&n, r);
                    r.shuffle(&mut l);
                    l.truncate(if MIRI { 10 } else { 60 });
                    l
                } else {
                    vec![]
                };
                if self.part == Hostile {
                    for _ in 0..if MIRI { 6 } else { 20 } {
                        files.push(if r.chance(5, 6) { mutate::mutate(r, &n, &file, true) } else { mutate::scramble(r, &file, &file) });
                    }
                }
                for (bytes, what) in files {
                    let h = hash64(&bytes);
                    let live = spy::live();
                    let res = catch(|| {
                        let Ok(f) = self.open(r, bytes) else { return (0, 0, None) };
                        let mut w = Poke::new(r.clone(), if MIRI { 60 } else { 800 });
                        w.iter_max = if MIRI { 8 } else { 60 };
                        if MIRI && w.r.chance(1, 2) {
                            w.see(f.load::<T>());
                        } else {
                            exercise::<T>(&f, &mut w);
                        }
                        (w.calls, w.oks, w.unsound)
                    });
                    match res {
                        Ok((c, o, bad)) => {
                            self.cx.check(bad.is_none(), "invalid value", || format!("{what}: {bad:?}"));
                            self.cx.count("hostile_calls", c);
                            self.cx.count("hostile_calls_answered_with_data", o);
                        }
                        Err(m) => self.cx.fail("panic", format!("{what}: {m}")),
                    }
                    self.cx.count("hostile_files", 1);
                    self.cx.check(spy::doubles() == 0, "double drop", || what.clone());
                    let _ = live;
                    self.cx.distinct(&(2, h));
                    self.cx.sample(|| format!("{name}: {what}"));
                }
            }
            Share => {
                let file = if r.chance(1, 2) { self.reference(&v, r) } else { Parcode::serialize(&v).unwrap_or_default() };
                let f = self.open(r, file);
                let Some(f) = self.cx.ok(f, "open") else { return };
                let k = if MIRI { 2 } else { 4 };
                let seeds: Vec<Rng> = (0..k).map(|_| Rng::new(r.u64())).collect();
                let parts: Vec<Cx> = std::thread::scope(|s| {
                    let hs: Vec<_> = seeds
                        .into_iter()
                        .enumerate()
                        .map(|(t, mut q)| {
                            let (f, v) = (&f, &v);
                            let mut c = self.cx.fork(90 + t);
                            s.spawn(move || {
                                if t == 0 {
                                    // A writer at work meanwhile.
                                    let mut b = vec![];
                                    c.ok(Parcode::write(&mut b, v), "write");
                                }
                                if q.chance(1, 2) {
                                    if let Some(x) = c.ok(f.load::<T>(), "load") {
                                        c.check(v.same(&x), "shared value", || format!("{v:.100?} became {x:.100?}"));
                                    }
                                } else {
                                    let mut w = Walk { r: q.clone(), samples: 1, visits: if MIRI { 6 } else { 60 } };
                                    v.lazy_root(f, &mut c, &mut w);
                                }
                                if let Some(rep) = c.ok(f.inspect(), "inspect") {
                                    std::hint::black_box(rep.to_string().len());
                                }
                                c
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("thread")).collect()
                });
                for p in parts {
                    self.cx.merge(p);
                }
                self.cx.count("shared_files", 1);
                self.cx.distinct(&(3, name, f.file_size()));
            }
            SpyFail => {
                let file = self.reference(&v, r);
                spy::reset_hooks();
                let Ok(f) = ParcodeFile::from_bytes(file) else { return };
                let _ = catch(|| f.load::<T>());
                let total = spy::DE_N.load(SeqCst);
                for _ in 0..if MIRI { 3 } else { 10 } {
                    if total == 0 {
                        break;
                    }
                    spy::reset_hooks();
                    spy::DE_FAIL_AT.store(1 + r.below(total as usize) as u64, SeqCst);
                    spy::DE_FAIL_KIND.store(1 + r.below(2) as u64, SeqCst);
                    let res = catch(|| {
                        let mut w = Poke::new(r.clone(), 300);
                        if r.chance(1, 2) {
                            w.see(f.load::<T>());
                        } else {
                            T::poke_root(&f, &mut w);
                        }
                    });
                    self.cx.count(if res.is_err() { "decode_panics" } else { "decode_errors" }, 1);
                    if let Err(m) = res
                        && !m.contains(spy::PANIC)
                    {
                        self.cx.fail("panic", m);
                    }
                    self.cx.check(spy::doubles() == 0, "double drop", String::new);
                }
                spy::reset_hooks();
                self.cx.distinct(&(4, name, total));
            }
            Abandon => {
                let file = self.reference(&v, r);
                let Ok(f) = ParcodeFile::from_bytes(file) else { return };
                let mut w = Poke::new(r.clone(), 400);
                w.iter_max = 3;
                T::poke_root(&f, &mut w);
                self.cx.check(spy::doubles() == 0, "double drop", String::new);
                self.cx.count("abandoned_walks", 1);
                self.cx.distinct(&(5, name, f.file_size()));
            }
            WriteFail => {
                spy::reset_hooks();
                let size = Parcode::serialize(&v).map_or(0, |b| b.len());
                let total = spy::SER_N.load(SeqCst);
                for _ in 0..if MIRI { 3 } else { 8 } {
                    spy::reset_hooks();
                    let mut at = size + 100;
                    let kind = r.below(3) as u8;
                    if r.chance(1, 2) || total == 0 {
                        at = r.below(size + 1);
                    } else {
                        spy::SER_FAIL_KIND.store(1 + r.below(2) as u64, SeqCst);
                        spy::SER_FAIL_AT.store(1 + r.below(total as usize) as u64, SeqCst);
                    }
                    let res = catch(|| {
                        if r.chance(1, 4) {
                            Parcode::write_sync(Lim(at, kind), &v)
                        } else {
                            Parcode::write(Lim(at, kind), &v)
                        }
                    });
                    self.cx.count(if matches!(res, Ok(Ok(()))) { "writes_completed" } else { "writes_failed" }, 1);
                }
                spy::reset_hooks();
                self.cx.distinct(&(6, name, size));
            }
        }
    }
}
impl zoo::Each for Pass<'_> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        if Instant::now() > self.end || !self.cx.go() {
            return;
        }
        let hostile = matches!(self.part, Lies | Hostile);
        if hostile && (WILD.contains(&name) || has_string(name)) {
            return;
        }
        if self.args.get("type").is_some_and(|t| t != name) {
            return;
        }
        let key = hash64(&(name, self.n, self.part as u8));
        // The interpreter is slow: a different third of the types in each round.
        if MIRI && Rng::derive(self.args.seed, "pick", key).below(3) != 0 {
            return;
        }
        let mut r = Rng::derive(self.args.seed, "c08", key);
        self.cx.begin(format!("seed={} part={:?} type={name} n={}", self.args.seed, self.part, self.n));
        self.cx.beat();
        self.cx.count(&format!("cases_{:?}", self.part), 1);
        let me = std::cell::RefCell::new(self);
        let res = catch(|| me.borrow_mut().run::<T>(name, &mut r));
        if let Err(m) = res {
            me.into_inner().cx.fail("panic", m);
        }
    }
}

fn main() {
    let args = Args::parse();
    guard::SINGLE.store(if MIRI { 20 << 20 } else { 64 << 20 }, SeqCst);
    let mut cx = Cx::new("C08", &args, 60, 600);
    let secs = args.num("budget", if args.thorough { 600 } else { 60 });
    let all = [RoundTrip, Layout, Lies, Hostile, Share, SpyFail, Abandon, WriteFail];
    let parts: Vec<Part> = all.into_iter().filter(|p| args.get("part").is_none_or(|a| a.split(',').any(|x| x.eq_ignore_ascii_case(&format!("{p:?}"))))).collect();
    for (i, part) in parts.iter().enumerate() {
        let slice = Duration::from_millis(secs * 1000 / parts.len() as u64);
        let end = Instant::now() + slice;
        let _ = i;
        // The ledger's hooks are global: their parts run alone.
        let width = if MIRI || matches!(part, SpyFail | WriteFail) { 1 } else { args.num("width", 3) as usize };
        let body = |t: usize, cx: &mut Cx| {
            let dir = scratch(&args, &format!("c08-{t}"));
            std::fs::create_dir_all(&dir).unwrap();
            let mut n = t as u64;
            while Instant::now() < end && cx.go() {
                let mut p = Pass { part: *part, cx, args: &args, n, end, dir: dir.clone() };
                if !matches!(part, SpyFail) && n % 2 == 0 || matches!(part, RoundTrip | Layout) && n % 4 != 3 {
                    zoo::few(&mut p);
                } else {
                    spyzoo::few(&mut p);
                }
                n += width as u64;
            }
        };
        if width == 1 {
            body(0, &mut cx);
        } else {
            threads(&mut cx, width, body);
        }
    }
    cx.count("instances_created", spy::created());
    cx.finish();
}
