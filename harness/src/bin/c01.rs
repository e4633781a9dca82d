//! C01: every write entry point x every read entry point, over generated values of every type,
//! reusing file paths so that longer, older contents must disappear.
use pcmon::big;
use pcmon::cx::{Args, Cx};
use pcmon::rng::Rng;
use pcmon::val::{CKey, Rooted, Val};
use pcmon::work::*;
use pcmon::zoo;

struct S {
    dir: std::path::PathBuf,
    last: [usize; 3],
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let v: T = value_large(&mut r);
        self.one(cx, name, r, v);
    }
}
impl S {
    fn one<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng, v: T) {
        let sig = v.shape(0, false).signature();
        let mut ws: Vec<usize> = (0..WRITERS.len()).collect();
        r.shuffle(&mut ws);
        let all = r.chance(1, 6);
        for &k in ws.iter().take(if all { WRITERS.len() } else { 3 }) {
            let slot = r.below(3);
            let path = self.dir.join(format!("f{slot}.par"));
            let bytes = match write_with(k, &v, &path) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("write", format!("{}: {e}", WRITERS[k]));
                    continue;
                }
            };
            if writer_file(k) && self.last[slot] > bytes.len() {
                cx.count("overwrites_of_longer_files", 1);
            }
            self.last[slot] = bytes.len();
            cx.count("files_written", 1);
            cx.count("bytes_written", bytes.len() as u64);
            cx.max("max_file_bytes", bytes.len() as u64);
            let mut rs: Vec<usize> = (0..READERS.len()).collect();
            r.shuffle(&mut rs);
            for &q in rs.iter().take(if all { READERS.len() } else { 2 }) {
                match read_with::<T>(q, &path, &bytes) {
                    Err(e) => cx.fail("read", format!("{} then {}: {e}", WRITERS[k], READERS[q])),
                    Ok(x) => {
                        cx.check(v.same(&x), "roundtrip", || {
                            format!("{} then {}: {:.300?} became {:.300?}", WRITERS[k], READERS[q], v, x)
                        });
                    }
                }
                cx.count("roundtrips", 1);
                if sig.len() > 3 {
                    cx.distinct(&(name, k, q, &sig));
                }
            }
        }
        cx.sample(|| format!("{name}: {:.200?}", v));
    }
}
/// A file of more than 4 GiB.
fn huge(cx: &mut Cx, args: &Args, dir: &std::path::Path, n: u64) {
    let mut r = Rng::derive(args.seed, "c01-huge", n);
    cx.begin(format!("seed={} type=huge n={n}", args.seed));
    let p = dir.join("huge.par");
    let (v, sync) = (big::value(&mut r), n % 2 == 1);
    cx.guard(|cx| {
        if cx.ok(big::write(&p, &v, sync), "write").is_some() {
            if let Some(x) = cx.ok(parcode::Parcode::load::<Vec<big::Big>, _>(&p), "load") {
                cx.check(v == x, "roundtrip", || format!("{} items became {}, or others", v.len(), x.len()));
            }
            cx.max("max_file_bytes", p.metadata().map_or(0, |m| m.len()));
        }
    });
    cx.count("huge_files", 1);
    let _ = std::fs::remove_file(&p);
}
/// Shards of more than 65 535 items.
fn millions(cx: &mut Cx, args: &Args, s: &mut S, n: u64) {
    let mut r = Rng::derive(args.seed, "c01-millions", n);
    cx.begin(format!("seed={} type=millions n={n}", args.seed));
    let k = r.range(2_200_000, 3_200_000);
    cx.guard(|cx| {
        let d = r.u64();
        match n % 3 {
            0 => s.one(cx, "millions of bool", r, big::millions(d, k, |x| x & 1 == 1)),
            1 => s.one(cx, "millions of i8", r, big::millions(d, k, |x| x as i8)),
            // (The first items are small, and the average size is taken from those.)
            _ => s.one(cx, "millions of u16", r, big::millions(d, k, |x| if x % 5 == 0 { x as u16 } else { x as u16 & 63 })),
        }
    });
    cx.count("million_item_values", 1);
}
/// Maps of several buckets whose keys crowd into a few: others stay empty.
fn crowded(cx: &mut Cx, args: &Args, s: &mut S, n: u64) {
    let mut r = Rng::derive(args.seed, "c01-crowded", n);
    cx.begin(format!("seed={} type=crowded n={n}", args.seed));
    let k = r.range(4001, 14_000);
    let first = r.u64() as u32;
    let keys = (0..k as u32).map(|i| CKey(first.wrapping_add(i)));
    cx.guard(|cx| match n % 3 {
        0 => {
            let mut v: zoo::Hard = value(&mut r);
            v.h = keys.map(|c| (c.clone(), c.0.wrapping_mul(77))).collect();
            s.one(cx, "Hard", r, v);
        }
        1 => {
            let mut v: zoo::Maps = value(&mut r);
            v.c = keys.map(|c| (c.clone(), c.0.wrapping_mul(77))).collect();
            s.one(cx, "Maps", r, v);
        }
        _ => {
            let v: zoo::Hard = value(&mut r);
            let mut all = vec![v.clone(), v.clone(), v];
            let i = r.below(3);
            all[i].h = keys.map(|c| (c.clone(), c.0.wrapping_mul(77))).collect();
            s.one(cx, "Vec<Hard>", r, all);
        }
    });
    cx.count("crowded_maps", 1);
}
/// Vectors of references, and a reference as the root.
fn references(cx: &mut Cx, args: &Args, dir: &std::path::Path, n: u64) {
    let mut r = Rng::derive(args.seed, "c01-references", n);
    cx.begin(format!("seed={} type=references n={n}", args.seed));
    let path = dir.join("refs.par");
    macro_rules! of {
        ($($t:ty),*) => {{
            let mut i = 0;
            let pick = r.below([$(stringify!($t)),*].len());
            $(
                if i == pick {
                    cx.guard(|cx| {
                        let v: Vec<$t> = value(&mut r);
                        let v = Owned(Box::into_raw(Box::new(v)));
                        let refs: Vec<&'static $t> = v.get().iter().collect();
                        let (k, q) = (r.below(WRITERS.len()), r.below(READERS.len()));
                        let bytes = if r.chance(1, 4) { write_with(k, &&refs, &path) } else { write_with(k, &refs, &path) };
                        let Some(bytes) = cx.ok(bytes, "write") else { return };
                        match read_with::<Vec<$t>>(q, &path, &bytes) {
                            Err(e) => cx.fail("read", format!("references to {} {}: {} then {}: {e}", refs.len(), stringify!($t), WRITERS[k], READERS[q])),
                            Ok(x) => {
                                cx.check(v.get().same(&x), "roundtrip", || format!("references: {} then {}: {:.300?} became {:.300?}", WRITERS[k], READERS[q], v.get(), x));
                            }
                        }
                        cx.count("reference_vectors", 1);
                        if !refs.is_empty() {
                            cx.distinct(&("references", stringify!($t), k, q, refs.len()));
                        }
                    });
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    of!(zoo::Leaf, zoo::Hard, zoo::Maps, zoo::Packed, zoo::Flat, zoo::Twig, zoo::OneRemote, zoo::Raw, zoo::Tree, u16, bool, String, Vec<u32>)
}
/// A value that references into may outlive every borrow of it, released at the end all the same.
struct Owned<T: 'static>(*mut T);
impl<T> Owned<T> {
    fn get(&self) -> &'static T {
        unsafe { &*self.0 }
    }
}
impl<T> Drop for Owned<T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C01", &args, 22, 420);
    threads(&mut cx, 4, |t, cx| {
        let dir = scratch(&args, &format!("c01-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut s = S { dir: dir.clone(), last: [0; 3] };
        match (args.get("type"), args.get("n")) {
            (Some("huge"), _) if t > 0 => return,
            (Some("huge"), _) => return huge(cx, &args, &dir, args.num("n", 0)),
            (Some("millions"), _) if t > 0 => return,
            (Some("millions"), _) => return millions(cx, &args, &mut s, args.num("n", 0)),
            (None, None) if t == 2 => (0..3).for_each(|n| millions(cx, &args, &mut s, n)),
            (None, None) if t < 2 && cfg!(feature = "mmap") => huge(cx, &args, &dir, t as u64),
            (Some("references"), _) if t > 0 => return,
            (Some("references"), _) => return references(cx, &args, &dir, args.num("n", 0)),
            (Some("crowded"), _) if t > 0 => return,
            (Some("crowded"), _) => return crowded(cx, &args, &mut s, args.num("n", 0)),
            (None, None) if t == 3 => {
                (0..6).for_each(|n| crowded(cx, &args, &mut s, n));
                (0..150).for_each(|n| references(cx, &args, &dir, n));
            }
            _ => {}
        }
        cycle(cx, &args, "c01", t as u64, 4, s);
    });
    cx.finish();
}
