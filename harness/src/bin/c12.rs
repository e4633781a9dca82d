//! C12: what streaming keeps in memory. Two ledgers are read at every step of every traversal:
//! live instances of identity-carrying items, and live heap bytes (a counting allocator). The
//! bounds come from the file itself: the reference decoder says which items share a shard, and
//! what a shard weighs is measured on the original items.
use parcode::rt::ParcodeLazyRef;
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx};
use pcmon::guard;
use pcmon::refdec::{self, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::spy;
use pcmon::spyzoo::{SFlat, SHard, SLeaf, SNode, STree, Spy2};
use pcmon::val::{G, Remote, Rooted};
use pcmon::work::scratch;
use pcmon::zoo::{Flat, Leaf, Tree};
use std::path::Path;

#[path = "../lazyzoo.rs"]
mod lazyzoo;
use lazyzoo::{Rec, Sub};

#[global_allocator]
static A: guard::Capped = guard::Capped;

const SLACK: usize = 96 << 10;

/// What the shards of one file weigh.
struct Weights {
    /// For each shard: index after its last item.
    end: Vec<usize>,
    spies: Vec<i64>,
    max_spies: i64,
    /// Heap bytes that hold one shard: items, payloads (stored and restored), chunk tables.
    bytes: usize,
    /// The same for the whole collection.
    all: usize,
    table: usize,
}
fn weigh<T: Remote>(orig: &[T], c: &Node) -> Option<Weights> {
    let (total, runs) = refdec::vec_header(&c.payload).ok()?;
    if total as usize != orig.len() {
        return None;
    }
    let mut w = Weights { end: vec![], spies: vec![], max_spies: 0, bytes: 0, all: 0, table: 0 };
    let mut at = 0;
    for (n, rep) in runs {
        for _ in 0..rep {
            let part = &orig[at..at + n as usize];
            let (s0, h0) = (spy::live(), guard::live());
            let copy = part.to_vec();
            let h = guard::live() - h0;
            let s = spy::live() - s0;
            drop(copy);
            let mut raw = 0;
            let mut chunks = 0;
            c.kids.get(w.end.len())?.walk(
                &mut |k, _| {
                    raw += k.payload.len() + k.len as usize;
                    chunks += 1;
                },
                0,
            );
            let b = h + raw + 256 * chunks;
            at += n as usize;
            w.end.push(at);
            w.spies.push(s);
            w.max_spies = w.max_spies.max(s);
            w.bytes = w.bytes.max(b);
            w.all += b;
        }
    }
    w.table = 256 * c.kids.len() + 8 * c.payload.len() + c.len as usize;
    Some(w)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Keep {
    No,
    Last(usize),
    Some,
    All,
}
struct Watch<'w> {
    w: &'w Weights,
    spies0: i64,
    heap0: usize,
    heap: bool,
    what: String,
}
impl Watch<'_> {
    fn before(&self) {
        spy::reset_peak();
        guard::reset_peak();
    }
    /// After item `i` was handed out, with `kept` instances in the caller's hands.
    fn after(&self, cx: &mut Cx, i: usize, shard: usize, kept: i64) -> bool {
        let p = spy::peak() - self.spies0;
        let lim = kept + self.w.spies.get(shard).copied().unwrap_or(0);
        cx.max("max_items_alive", p.max(0) as u64);
        let mut ok = cx.check(p <= lim, "items alive", || {
            format!("{} item {i} (shard {shard}): {p} instances alive; the caller keeps {kept} and the shard holds {}", self.what, self.w.spies[shard])
        });
        if self.heap {
            let b = guard::peak().saturating_sub(self.heap0);
            let lim = 3 * self.w.bytes + self.w.table + SLACK;
            cx.max("max_heap_bytes", b as u64);
            cx.max("max_heap_per_mille_of_bound", (b * 1000 / lim) as u64);
            ok &= cx.check(b <= lim, "heap", || {
                format!("{} item {i} (shard {shard}): {b} heap bytes; a shard weighs {}, the table {}, the collection {}", self.what, self.w.bytes, self.w.table, self.w.all)
            });
        }
        cx.count("steps", 1);
        ok
    }
    fn end(&self, cx: &mut Cx, stopped: usize) {
        let s = spy::live() - self.spies0;
        cx.check(s == 0, "not released", || format!("{} stopped after {stopped}: {s} instances still alive", self.what));
        if self.heap {
            let b = guard::live().saturating_sub(self.heap0);
            cx.check(b <= 32 << 10, "not released", || format!("{} stopped after {stopped}: {b} heap bytes still held", self.what));
        }
    }
}
fn next_shard(w: &Weights, i: usize) -> usize {
    w.end.partition_point(|e| *e <= i)
}
fn eager<T: Remote>(cx: &mut Cx, it: &mut dyn Iterator<Item = parcode::Result<T>>, orig: &[T], stop: usize, keep: Keep, wt: &Watch<'_>, r: &mut Rng) {
    let mut kept: std::collections::VecDeque<(T, i64)> = std::collections::VecDeque::with_capacity(if keep == Keep::No { 0 } else { orig.len() });
    let mut kept_spies = 0;
    for i in 0..stop {
        wt.before();
        let x = it.next();
        let s = next_shard(wt.w, i);
        if !wt.after(cx, i, s, kept_spies) {
            return;
        }
        match x {
            Some(Ok(x)) => {
                cx.check(orig[i].same(&x), "wrong", || format!("{} item {i} differs", wt.what));
                let n = if keep == Keep::No {
                    0
                } else {
                    let a = spy::live();
                    let y = x.clone();
                    let n = spy::live() - a;
                    drop(y);
                    n
                };
                let hold = match keep {
                    Keep::No => false,
                    Keep::Some => r.chance(1, 3),
                    _ => true,
                };
                if hold {
                    kept_spies += n;
                    kept.push_back((x, n));
                    if let Keep::Last(k) = keep
                        && kept.len() > k
                        && let Some((x, n)) = kept.pop_front()
                    {
                        drop(x);
                        kept_spies -= n;
                    }
                }
            }
            Some(Err(e)) => return cx.fail("error", format!("{} item {i}: {e}", wt.what)),
            None => return cx.fail("short", format!("{} ended before item {i} of {}", wt.what, orig.len())),
        }
        // At rest: the rest of the shard, and what the caller keeps.
        let live = spy::live() - wt.spies0;
        let lim = kept_spies + wt.w.spies[s];
        if !cx.check(live <= lim, "items alive", || format!("{} after item {i}: {live} alive, {kept_spies} kept, shard {}", wt.what, wt.w.spies[s])) {
            return;
        }
        cx.max("max_kept", kept.len() as u64);
    }
    if stop == orig.len() {
        wt.before();
        if it.next().is_some() {
            cx.fail("long", format!("{} yields more than {} items", wt.what, orig.len()));
        }
        cx.count("full_traversals", 1);
    } else {
        cx.count("early_stops", 1);
    }
}
fn lazy<'a, T: Remote>(cx: &mut Cx, it: &mut dyn Iterator<Item = parcode::Result<<T as ParcodeLazyRef<'a>>::Lazy>>, n: usize, stop: usize, hold: bool, wt: &Watch<'_>) {
    let mut prev = None;
    let mut held = 0;
    for i in 0..stop {
        wt.before();
        let a = spy::live();
        let x = it.next();
        let s = next_shard(wt.w, i);
        if !wt.after(cx, i, s, held) {
            return;
        }
        match x {
            Some(Ok(x)) => {
                if hold {
                    // What the mirror itself carries was just created.
                    let mine = spy::live() - a;
                    prev = Some(x);
                    held = mine.max(0);
                }
            }
            Some(Err(e)) => return cx.fail("error", format!("{} item {i}: {e}", wt.what)),
            None => return cx.fail("short", format!("{} ended before item {i} of {n}", wt.what)),
        }
    }
    drop(prev);
    cx.count(if stop == n { "full_traversals" } else { "early_stops" }, 1);
}
fn traverse<T: Remote>(cx: &mut Cx, f: &ParcodeFile, orig: &[T], w: &Weights, spyish: bool, name: &str, r: &mut Rng) {
    let n = orig.len();
    // Lazy items of inline types: a known finding of C02.
    for way in 0..if T::INLINE { 2 } else { 3 } {
        let stop = match r.below(4) {
            0 => r.below(n + 1),
            1 => r.below(n + 1).min(w.end.first().copied().unwrap_or(0) + 1),
            _ => n,
        };
        let keep = if spyish { [Keep::No, Keep::Last(1 + r.below(20)), Keep::Some, Keep::All][r.below(4)] } else { Keep::No };
        let way_name = ["promise.iter", "node.iter", "iter_lazy"][way];
        let wt = Watch { w, spies0: spy::live(), heap0: guard::live(), heap: !spyish, what: format!("{name} {way_name} keep={keep:?}") };
        cx.evaluations += 1;
        wt.before();
        match way {
            0 => {
                let Some(p) = cx.ok(f.root::<Vec<T>>(), "root") else { return };
                let Some(mut it) = cx.ok(p.iter(), "iter") else { return };
                eager(cx, &mut it, orig, stop, keep, &wt, r);
            }
            1 => {
                let Some(nd) = cx.ok(f.root_node(), "root_node") else { return };
                let Some(mut it) = cx.ok(nd.iter::<T>(), "iter") else { return };
                eager(cx, &mut it, orig, stop, keep, &wt, r);
            }
            _ => {
                let Some(p) = cx.ok(f.root::<Vec<T>>(), "root") else { return };
                let Some(mut it) = cx.ok(p.iter_lazy(), "iter_lazy") else { return };
                lazy::<T>(cx, &mut it, n, stop, r.chance(1, 2), &wt);
            }
        }
        wt.end(cx, stop);
        cx.count("traversals", 1);
        // Would keeping everything have been noticed?
        let seen = if spyish {
            w.spies.iter().sum::<i64>() > 2 * w.max_spies
        } else {
            w.all > 2 * (3 * w.bytes + w.table + SLACK)
        };
        if seen && stop == n {
            cx.count(if spyish { "telling_by_items" } else { "telling_by_bytes" }, 1);
        }
        cx.distinct(&(name, way, stop, n, w.end.len(), w.bytes));
        if !cx.clean() {
            return;
        }
    }
}
fn case<T: Remote>(cx: &mut Cx, dir: &Path, name: &str, spyish: bool, n: usize, r: &mut Rng)
where
    Vec<T>: Rooted,
{
    let mut g = G::new(r.clone(), 4000);
    r.u64();
    let base: Vec<T> = (0..n.min(200))
        .map(|_| {
            g.budget = g.budget.max(60);
            T::mk(&mut g)
        })
        .collect();
    let v: Vec<T> = base.iter().cycle().take(n).cloned().collect();
    let foreign = r.chance(2, 3);
    let bytes = if foreign {
        let mut lay = Layout::random(r, true);
        lay.split = 1 + r.below(3) as u8;
        lay.max_shards = 400.min(n / 2 + 2);
        refenc::encode(&v.shape(0, false), &lay, r).file
    } else {
        let mut b = vec![];
        let w = Parcode::builder().compression(r.chance(1, 2));
        if cx.ok(if r.chance(1, 2) { w.write(&mut b, &v) } else { w.write_sync(&mut b, &v) }, "write").is_none() {
            return;
        }
        b
    };
    let Some(root) = cx.ok(refdec::parse(&bytes), "parse") else { return };
    let w = if n == 0 { None } else { weigh(&v, &root) };
    let Some(w) = w else { return };
    drop(base);
    cx.max("max_shards", w.end.len() as u64);
    cx.count(if foreign { "foreign_files" } else { "written_files" }, 1);
    let mut compressed = 0;
    root.walk(&mut |k, _| compressed += u64::from(k.comp != 0), 0);
    cx.count("compressed_chunks", compressed);
    drop(root);
    cx.sample(|| format!("{name}: {n} items in {} shards; largest weighs {} bytes, all {}", w.end.len(), w.bytes, w.all));
    if r.chance(1, 2) {
        let path = dir.join("c12.par");
        if std::fs::write(&path, &bytes).is_err() {
            return;
        }
        drop(bytes);
        if let Some(f) = cx.ok(Parcode::open(&path), "open") {
            cx.count("mapped", 1);
            traverse(cx, &f, &v, &w, spyish, name, r);
        }
    } else if let Some(f) = cx.ok(Parcode::open_bytes(bytes), "open_bytes") {
        cx.count("in_memory", 1);
        traverse(cx, &f, &v, &w, spyish, name, r);
    }
}

fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C12", &args, 24, 420);
    let dir = scratch(&args, "c12");
    std::fs::create_dir_all(&dir).unwrap();
    // Thread pool and other one-time allocations happen before anything is measured.
    for _ in 0..3 {
        let v: Vec<Sub> = vec![];
        let b = Parcode::serialize(&v).unwrap();
        let _: Vec<Sub> = Parcode::load_bytes(b).unwrap();
        let v: Vec<String> = (0..200_000).map(|i| i.to_string()).collect();
        let b = Parcode::serialize(&v).unwrap();
        let _: Vec<String> = Parcode::load_bytes(b).unwrap();
    }
    let part = args.num("part", 0);
    let mut n = 0u64;
    let scale = if args.thorough { 4 } else { 1 };
    while cx.go() {
        let mut r = Rng::derive(args.seed, "c12", part * 1_000_003 + n);
        let s = [0usize, 1, 1, 2][r.below(4)];
        let k = |r: &mut Rng, m: usize| -> usize {
            match s {
                0 => r.below(60),
                1 => r.below(m / 8) + 1,
                _ => r.below(m * scale) + 1,
            }
        };
        macro_rules! go {
            ($t:ty, $spy:expr, $max:expr) => {{
                let m = k(&mut r, $max);
                cx.begin(format!("seed={} part={part} n={n} {} x {m}", args.seed, stringify!($t)));
                cx.guard(|cx| case::<$t>(cx, &dir, stringify!($t), $spy, m, &mut r));
            }};
        }
        match r.below(15) {
            0 => go!(u8, false, 8_000_000),
            1 => go!(u64, false, 1_500_000),
            2 => go!(String, false, 200_000),
            3 => go!(Flat, false, 60_000),
            4 => go!(Rec, false, 40_000),
            5 => go!(Leaf, false, 20_000),
            6 => go!(Sub, false, 900),
            7 => go!(Tree, false, 900),
            8 => go!(Vec<Flat>, false, 3000),
            9 => go!(Spy2, true, 30_000),
            10 => go!(SFlat, true, 20_000),
            11 => go!(SLeaf, true, 8_000),
            12 => go!(SNode, true, 300),
            13 => go!(STree, true, 800),
            _ => go!(SHard, true, 300),
        }
        n += 1;
    }
    cx.finish();
}
