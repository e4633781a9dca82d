//! C03: hash maps of every size regime (empty, around every bucket-count boundary), key kind
//! (colliding hashes included) and value kind, sharded and blob, as field, item part and root.
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx};
use pcmon::rng::Rng;
use pcmon::val::*;
use pcmon::work::*;
use pcmon::zoo::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

fn build<K: Key, V: Val>(n: usize, r: &mut Rng) -> HashMap<K, V> {
    let mut g = G::new(Rng::new(r.u64()), 40 * n + 50);
    g.max = 6;
    let mut m = HashMap::new();
    let mut tries = 0;
    while m.len() < n && tries < 3 * n + 50 {
        g.budget = 60;
        let k = K::mk(&mut g);
        // Large maps would exhaust the interesting integers: scramble.
        let v = V::mk(&mut g);
        m.insert(k, v);
        tries += 1;
    }
    m
}

/// Wrappers with one map field each, so that the map's own promise is the only remote.
macro_rules! holders {
    ($($n:ident, $attr:meta, $k:ty, $v:ty, $map:literal, $cap:literal;)*) => { $(
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
        pub struct $n { pub pre: u8, #[$attr] pub m: HashMap<$k, $v>, pub post: u16 }
        impl $n {
            fn run(cx: &mut Cx, n: usize, r: &mut Rng, dir: &std::path::Path) {
                let n = if n > $cap { n % ($cap + 1) } else { n };
                let m = build::<$k, $v>(n, r);
                let v = $n { pre: r.u64() as u8, m, post: r.u64() as u16 };
                let path = dir.join("m.par");
                let bytes = match r.below(4) {
                    0 => Parcode::save(&path, &v).and_then(|_| Ok(std::fs::read(&path)?)),
                    1 => { let mut b = vec![]; Parcode::write_sync(&mut b, &v).map(|_| b) }
                    2 => { let mut b = vec![]; Parcode::builder().compression(true).write(&mut b, &v).map(|_| b) }
                    _ => Parcode::serialize(&v),
                };
                let Some(bytes) = cx.ok(bytes, "write") else { return };
                let Some(f) = cx.ok(ParcodeFile::from_bytes(bytes), "open") else { return };
                if let Some(x) = cx.ok(f.load::<$n>(), "eager load") {
                    cx.check(x.pre == v.pre && x.post == v.post, "local", || "local fields differ".into());
                    if let Some(d) = same_map(&v.m, &x.m) { cx.fail("eager load", d); }
                }
                let mut w = Walk::new(r.clone());
                if let Some(l) = cx.ok(f.root::<$n>(), "lazy root") {
                    check_map(&v.m, &l.m, $map, cx, &mut w);
                    // Every stored key of a small map must be found, 250 of a large one; absent ones not.
                    let step = (v.m.len() / 250).max(1);
                    for (k, x) in v.m.iter().skip(w.r.below(step)).step_by(step) {
                        match l.m.get(k) {
                            Ok(Some(y)) if x.same(&y) => {}
                            Ok(Some(y)) => cx.fail("get", format!("get({k:?}) = {y:.200?}, expected {x:.200?}")),
                            Ok(None) => cx.fail("get", format!("get({k:?}) = None for a stored key of {}", v.m.len())),
                            Err(e) => cx.fail("get", format!("get({k:?}): {e}")),
                        }
                        if !cx.clean() { break; }
                        cx.count("map_hits", 1);
                    }
                    for k in absent(&v.m, 40, &mut w) {
                        match l.m.get(&k) {
                            Ok(None) => cx.count("map_misses", 1),
                            Ok(Some(_)) => cx.fail("get", format!("absent key {k:?} found")),
                            Err(e) => cx.fail("get", format!("absent key {k:?}: {e}")),
                        }
                    }
                }
                let buckets = f.root_node().and_then(|n| n.get_child_by_index(0)).map(|c| c.child_count()).unwrap_or(u32::MAX);
                cx.max("max_buckets", u64::from(buckets));
                cx.max("max_entries", v.m.len() as u64);
                cx.distinct(&(stringify!($n), v.m.len(), buckets));
                cx.sample(|| format!("{} with {} entries in {} buckets", stringify!($n), v.m.len(), buckets));
            }
        }
    )*
        fn all(cx: &mut Cx, args: &Args, n: usize, round: u64, dir: &std::path::Path) {
            $(
                if args.get("type").is_none_or(|t| t == stringify!($n)) && cx.go() {
                    let mut r = Rng::derive(args.seed, stringify!($n), round);
                    cx.begin(format!("seed={} type={} n={round} entries={n}", args.seed, stringify!($n)));
                    cx.guard(|cx| $n::run(cx, n, &mut r, dir));
                }
            )*
        }
    };
}
holders! {
    U64, parcode(map), u64, u32, true, 99999;
    Str, parcode(map), String, String, true, 99999;
    Col, parcode(map), CKey, u64, true, 9000;
    ColLeaf, parcode(map), CKey, Leaf, true, 150;
    ColTwig, parcode(map, compression = "lz4"), CKey, Twig, true, 40;
    LeafM, parcode(map), u32, Leaf, true, 4100;
    PrimsM, parcode(map), u16, Prims, true, 2100;
    MixedM, parcode(map), String, Mixed, true, 60;
    TupV, parcode(map), (u32, String), Vec<u8>, true, 9000;
    EmptyM, parcode(map), i64, Empty, true, 99999;
    FlatM, parcode(map, compression = "lz4"), i32, Flat, true, 9000;
    MapM, parcode(map), u8, HashMap<u8, u16>, true, 9000;
    BlobS, parcode(chunkable), String, u32, false, 9000;
    BlobC, parcode(chunkable, compression = "lz4"), CKey, Flat, false, 500;
    BlobB, parcode(chunkable), bool, u8, false, 10;
    BlobV, parcode(chunkable), u16, Vec<String>, false, 2100;
    BlobL, parcode(chunkable), u32, Leaf, false, 500;
}

struct Roots {
    dir: std::path::PathBuf,
}
impl Step for Roots {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        if !(name.contains("HashMap") || name.contains("Maps") || name.contains("Mixed") || name.contains("Packed") || name.contains("Attrs")) {
            return;
        }
        let v: T = value(&mut r);
        let k = r.below(WRITERS.len());
        let Some(bytes) = cx.ok(write_with(k, &v, &self.dir.join("r.par")), "write") else { return };
        let Some(f) = cx.ok(ParcodeFile::from_bytes(bytes), "open") else { return };
        if let Some(x) = cx.ok(f.load::<T>(), "eager load") {
            cx.check(v.same(&x), "eager load", || format!("{v:.200?} became {x:.200?}"));
        }
        v.lazy_root(&f, cx, &mut Walk::new(r));
        cx.distinct(&(name, v.shape(0, false).signature()));
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct Giant {
    #[parcode(map)]
    m: HashMap<u64, u32>,
    #[parcode(map, compression = "lz4")]
    leaves: HashMap<u32, GiantLeaf>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct GiantLeaf {
    n: u32,
    #[parcode(chunkable)]
    s: u16,
}
/// Maps of hundreds of buckets, up to the most the writer makes and beyond.
fn giant(cx: &mut Cx, args: &Args, n: u64, dir: &std::path::Path) {
    let mut r = Rng::derive(args.seed, "c03-giant", n);
    cx.begin(format!("seed={} type=giant n={n}", args.seed));
    let entries = match n % 4 {
        0 => r.range(520_000, 700_000),
        1 => r.range(2_060_000, 2_300_000),
        2 => r.range(40_000, 200_000),
        _ => r.range(200_000, 500_000),
    };
    let salt = r.u64() | 1;
    let key = |i: usize| (i as u64).wrapping_mul(salt);
    let few = r.range(2000, 9000);
    let g = Giant {
        m: (0..entries).map(|i| (key(i), i as u32)).collect(),
        leaves: (0..few as u32).map(|i| (i * 3, GiantLeaf { n: i, s: i as u16 })).collect(),
    };
    cx.guard(|cx| {
        let k = r.below(3);
        let p = dir.join("giant.par");
        let bytes = match k {
            0 => Parcode::serialize(&g),
            1 => Parcode::builder().compression(r.chance(1, 2)).save(&p, &g).and_then(|()| Ok(std::fs::read(&p)?)),
            _ => { let mut b = vec![]; Parcode::write_sync(&mut b, &g).map(|()| b) }
        };
        let Some(bytes) = cx.ok(bytes, "write") else { return };
        let Some(f) = cx.ok(ParcodeFile::from_bytes(bytes), "open") else { return };
        let Some(l) = cx.ok(f.root::<Giant>(), "root") else { return };
        for _ in 0..3000 {
            let i = r.below(entries);
            let got = l.m.get(&key(i));
            cx.check(matches!(got, Ok(Some(x)) if x == i as u32), "get", || format!("{got:?} for key {i} of {entries}"));
            let absent = key(entries + r.below(1 << 30));
            if !g.m.contains_key(&absent) {
                let got = l.m.get(&absent);
                cx.check(matches!(got, Ok(None)), "get", || format!("{got:?} for a key that is not one of {entries}"));
            }
            let i = r.below(2 * few) as u32;
            let got = l.leaves.get(&i);
            cx.check(got.as_ref().is_ok_and(|x| x.as_ref() == g.leaves.get(&i)), "get", || format!("{got:?} for {i} of {few} leaves"));
            if r.chance(1, 8) {
                let got = l.leaves.get_lazy(&i).map(|x| x.map(|x| (x.n, x.s.load())));
                let want = g.leaves.get(&i).map(|x| (x.n, x.s));
                let same = match (&got, want) {
                    (Ok(Some((n, Ok(s)))), Some(w)) => (*n, *s) == w,
                    (Ok(None), None) => true,
                    _ => false,
                };
                cx.check(same, "get_lazy", || format!("{got:?} for {i} of {few} leaves"));
            }
            cx.count("giant_queries", 1);
        }
        for (what, x) in [("load", f.load::<Giant>().map(|x| x.m)), ("promise", l.m.load())] {
            if let Some(x) = cx.ok(x, what) {
                cx.check(x == g.m, "whole map", || format!("{what}: {} entries of {entries}", x.len()));
            }
        }
        cx.max("max_entries", entries as u64);
        cx.distinct(&("giant", entries, few, k));
        let _ = std::fs::remove_file(&p);
    });
    cx.count("giant_maps", 1);
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C03", &args, 26, 420);
    // The writer picks max(1, entries / 2000) buckets: probe both sides of every small boundary.
    let sizes: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 12, 30, 100, 333, 1999, 2000, 2001, 3999, 4000, 4001, 6000, 8001, 10_050, 13_999, 20_003];
    threads(&mut cx, 4, |t, cx| {
        let dir = scratch(&args, &format!("c03-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        if let Some(n) = args.get("n").and_then(|n| n.parse::<u64>().ok()) {
            if t == 0 && args.get("type") == Some("giant") {
                giant(cx, &args, n, &dir);
            } else if t == 0 {
                let e = args.num("entries", 10) as usize;
                all(cx, &args, e, n, &dir);
                cycle(cx, &args, "c03r", 0, 1, Roots { dir });
            }
            return;
        }
        if args.get("type") == Some("giant") || (args.get("type").is_none() && cx.go()) {
            giant(cx, &args, args.num("n", t as u64), &dir);
        }
        let mut round = t as u64;
        while cx.go() && (cx.spent() < 0.75 || round < sizes.len() as u64) {
            let i = round as usize;
            let n = if i < sizes.len() {
                sizes[i]
            } else {
                let mut r = Rng::derive(args.seed, "c03-size", round);
                match r.below(10) {
                    0..=5 => r.below(60),
                    6..=7 => r.below(900),
                    8 => 2000 * r.range(1, 6) + r.below(3) - 1,
                    _ => r.below(9000),
                }
            };
            all(cx, &args, n, round, &dir);
            round += 4;
        }
        cycle(cx, &args, "c03r", t as u64, 4, Roots { dir });
    });
    cx.finish();
}
