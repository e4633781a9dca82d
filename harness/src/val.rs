//! Generated values and what the library owes them: bit-exact comparison, the documented shape
//! of their encoding, and a walk of their lazy view that compares everything observable in it.
use crate::cx::Cx;
use crate::rng::Rng;
use crate::shape::{Items, Shape, bin};
use parcode::reader::{ParcodeItem, ParcodeNative};
use parcode::rt::ParcodeLazyRef;
use parcode::visitor::ParcodeVisitor;
use parcode::{ParcodeCollectionPromise, ParcodeFile, ParcodeMapPromise, ParcodePromise};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Known defects of the unchanged tree that the lazy walk recognises (see known_findings.txt).
pub const K_LEN: &str = "len-of-unreadable-collections";
pub const K_INLINE: &str = "lazy-items-of-inline-collections";
pub const K_MAP_INLINE: &str = "get-lazy-of-inline-map-values";
pub const K_MAP_BLOB: &str = "get-lazy-on-blob-maps";

/// Generation context: randomness and a shared budget of elements and depth.
pub struct G {
    pub r: Rng,
    pub budget: usize,
    pub depth: u32,
    /// Upper bound for one collection.
    pub max: usize,
    /// How many strings are to be made large, and how large.
    pub large: usize,
    pub large_len: usize,
}
impl G {
    pub fn new(r: Rng, budget: usize) -> Self {
        Self { r, budget, depth: 0, max: usize::MAX, large: 0, large_len: 0 }
    }
    pub fn count(&mut self) -> usize {
        let n = match self.r.below(100) {
            0..=11 => 0,
            12..=24 => 1,
            25..=49 => self.r.range(2, 9),
            50..=74 => self.r.range(10, 70),
            75..=94 => self.r.range(71, 3000),
            _ => self.r.range(3000, 60000),
        };
        let n = n.min(self.budget).min(self.max);
        let n = if self.depth > 6 { 0 } else { n };
        self.budget -= n;
        n
    }
}

pub trait Val: Sized + Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn mk(g: &mut G) -> Self;
    /// Equality of every bit that matters (floats by representation).
    fn same(&self, o: &Self) -> bool;
}
pub fn same_slice<T: Val>(a: &[T], b: &[T]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} items, expected {}", b.len(), a.len()));
    }
    a.iter().zip(b).position(|(x, y)| !x.same(y)).map(|i| format!("item {i} of {} differs: {:.200?} became {:.200?}", a.len(), a[i], b[i]))
}

/// Map keys.
pub trait Key: Val + Eq + Hash {}
impl<T: Val + Eq + Hash> Key for T {}

/// Per-walk state: a random source for sampled accesses and limits.
pub struct Walk {
    pub r: Rng,
    pub samples: usize,
    pub visits: usize,
}
impl Walk {
    pub fn new(r: Rng) -> Self {
        Self { r, samples: 6, visits: 4000 }
    }
    /// Interesting indexes of a collection of n items.
    pub fn indexes(&mut self, n: usize) -> Vec<usize> {
        if n == 0 {
            return vec![];
        }
        let mut v = vec![0, n - 1, n / 2];
        for _ in 0..self.samples {
            v.push(self.r.below(n));
        }
        v.sort_unstable();
        v.dedup();
        v
    }
}

/// State of a walk through a hostile file: what is called is chosen at random, bounded by fuel,
/// and everything returned is looked at (so that sanitizers see it) and dropped.
pub struct Poke {
    pub r: Rng,
    pub fuel: u64,
    pub calls: u64,
    pub oks: u64,
    pub sink: u64,
    pub iter_max: usize,
    /// A value that no safe code can make.
    pub unsound: Option<String>,
}
impl Poke {
    /// What is in memory, whatever the type says must be there.
    pub fn sound_bools(&mut self, v: &[bool]) {
        let raw = unsafe { std::slice::from_raw_parts(v.as_ptr().cast::<u8>(), v.len()) };
        if let Some(b) = raw.iter().find(|b| **b > 1) {
            self.unsound = Some(format!("a bool that is {b}"));
        }
    }
    pub fn sound_strs(&mut self, v: &[String]) {
        if let Some(s) = v.iter().find(|s| std::str::from_utf8(s.as_bytes()).is_err()) {
            self.unsound = Some(format!("a string of {:?}", s.as_bytes()));
        }
    }
    pub fn new(r: Rng, fuel: u64) -> Self {
        Self { r, fuel, calls: 0, oks: 0, sink: 0, iter_max: 300, unsound: None }
    }
    pub fn burn(&mut self) -> bool {
        self.calls += 1;
        self.fuel = self.fuel.saturating_sub(1);
        self.fuel > 0
    }
    pub fn touch<T: Debug + ?Sized>(&mut self, t: &T) {
        use std::fmt::Write;
        struct Sink(u64);
        impl Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                for b in s.bytes() {
                    self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
                }
                Ok(())
            }
        }
        let mut k = Sink(self.sink);
        let _ = write!(k, "{t:?}");
        self.sink = k.0;
        self.oks += 1;
    }
    /// Looks at a result; `None` if it is an error.
    pub fn see<T: Debug>(&mut self, r: parcode::Result<T>) -> Option<T> {
        match r {
            Ok(t) => {
                self.touch(&t);
                Some(t)
            }
            Err(e) => {
                self.sink ^= e.to_string().len() as u64;
                None
            }
        }
    }
}
pub fn poke_indexes(n: usize, w: &mut Poke) -> Vec<usize> {
    let mut v = vec![0, 1, n.wrapping_sub(1), n, n.wrapping_add(1), usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 63];
    v.push(w.r.below(n.clamp(1, 1 << 40)));
    v.push(w.r.below(n.clamp(1, 1 << 40)));
    v.push(w.r.u64() as usize);
    w.r.shuffle(&mut v);
    v.truncate(6);
    v
}
pub fn poke_vec<T: Item>(p: &ParcodeCollectionPromise<'_, T>, w: &mut Poke) {
    if !w.burn() {
        return;
    }
    let n = p.len();
    w.sink ^= n as u64 ^ u64::from(p.is_empty());
    w.see(p.load());
    for i in poke_indexes(n, w) {
        if w.burn() {
            w.see(p.get(i));
        }
    }
    if let Ok(it) = p.iter() {
        let mut it = it;
        w.sink ^= it.size_hint().0 as u64;
        for _ in 0..w.r.range(1, w.iter_max) {
            match it.next() {
                None => break,
                Some(r) => {
                    w.see(r);
                }
            }
            if !w.burn() {
                break;
            }
        }
    }
    T::poke_vec(p, w);
}
pub fn poke_vec_lazy<T: Remote>(p: &ParcodeCollectionPromise<'_, T>, w: &mut Poke)
{
    let n = p.len();
    let mut is = poke_indexes(n, w);
    is.truncate(3);
    for i in is {
        if !w.burn() {
            return;
        }
        if let Ok(l) = p.get_lazy(i) {
            w.oks += 1;
            T::poke(&l, false, w);
        }
    }
    if let Ok(Some(l)) = p.first() {
        T::poke(&l, false, w);
    }
    // last() of a huge declared length scans to it, as documented; only indexes are bounded.
    if let Ok(Some(l)) = p.last() {
        T::poke(&l, false, w);
    }
    if let Ok(mut it) = p.iter_lazy() {
        let k = w.r.range(1, w.iter_max);
        for i in 0..k {
            w.sink ^= it.len() as u64;
            match it.next() {
                None => break,
                Some(Ok(l)) => {
                    w.oks += 1;
                    if i < 3 || w.r.chance(1, 20) {
                        T::poke(&l, false, w);
                    }
                }
                Some(Err(e)) => w.sink ^= e.to_string().len() as u64,
            }
            if !w.burn() {
                break;
            }
        }
    }
}
fn poke_keys<K: Key, V: Item>(p: &ParcodeMapPromise<'_, K, V>, w: &mut Poke) -> Vec<K> {
    let mut keys: Vec<K> = w.see(p.load()).map(|m| m.into_keys().take(4).collect()).unwrap_or_default();
    for _ in 0..4 {
        let mut g = G::new(w.r.clone(), 8);
        w.r.u64();
        keys.push(K::mk(&mut g));
    }
    keys
}
pub fn poke_map<K: Key, V: Item>(p: &ParcodeMapPromise<'_, K, V>, w: &mut Poke) {
    if !w.burn() {
        return;
    }
    for k in poke_keys(p, w) {
        if w.burn() {
            w.see(p.get(&k));
        }
    }
    V::poke_map(p, w);
}
pub fn poke_map_lazy<K: Key, V: Remote>(p: &ParcodeMapPromise<'_, K, V>, w: &mut Poke)
{
    for k in poke_keys(p, w) {
        if !w.burn() {
            return;
        }
        if let Ok(Some(l)) = p.get_lazy(&k) {
            w.oks += 1;
            V::poke(&l, false, w);
        }
    }
}

/// Values that can be vector items and map values.
pub trait Item: Val + ParcodeItem + ParcodeVisitor {
    fn local(&self, out: &mut Vec<u8>) {
        bin(self, out);
    }
    fn kids(&self, _out: &mut Vec<Shape>) {}
    fn vec_lazy(_orig: &[Self], _p: &ParcodeCollectionPromise<'_, Self>, _cx: &mut Cx, _w: &mut Walk) {}
    fn map_lazy<K: Key>(_o: &HashMap<K, Self>, _p: &ParcodeMapPromise<'_, K, Self>, _sharded: bool, _cx: &mut Cx, _w: &mut Walk) {}
    fn poke_vec(_p: &ParcodeCollectionPromise<'_, Self>, _w: &mut Poke) {}
    fn poke_map<K: Key>(_p: &ParcodeMapPromise<'_, K, Self>, _w: &mut Poke) {}
}

/// Values that can be the root of a file.
pub trait Rooted: Val + ParcodeVisitor + ParcodeNative {
    fn shape(&self, comp: u8, map: bool) -> Shape;
    fn lazy_root(&self, _f: &ParcodeFile, _cx: &mut Cx, _w: &mut Walk) {}
    fn poke_root(_f: &ParcodeFile, _w: &mut Poke) {}
    /// One lazy view checked by several threads at once, a context each.
    fn share_root(&self, _f: &ParcodeFile, _cxs: &mut [Cx], _r: &Rng) {}
}

/// Values with a lazy view.
pub trait Remote: Rooted + Item + for<'a> ParcodeLazyRef<'a, Lazy: Sync> {
    /// True if as a vector item or map value it is stored without chunks of its own, so that the
    /// lazy item accessors cannot serve it (known finding).
    const INLINE: bool;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, map: bool, cx: &mut Cx, w: &mut Walk);
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, map: bool, w: &mut Poke);
}

pub fn poke_root<T: Remote>(f: &ParcodeFile, w: &mut Poke) {
    if let Ok(l) = f.root::<T>() {
        w.oks += 1;
        T::poke(&l, false, w);
    }
}

pub fn share_root<T: Remote>(v: &T, f: &ParcodeFile, cxs: &mut [Cx], r: &Rng) {
    let l = match f.root::<T>() {
        Ok(l) => l,
        Err(e) => return cxs[0].fail("error", format!("lazy root: {e}")),
    };
    std::thread::scope(|s| {
        for (i, cx) in cxs.iter_mut().enumerate() {
            let l = &l;
            let mut w = Walk { r: Rng::derive(r.clone().u64(), "share", i as u64), samples: 2, visits: 200 };
            s.spawn(move || cx.guard(|cx| v.lazy_check(l, false, cx, &mut w)));
        }
    });
}
pub fn lazy_root<T: Remote>(v: &T, f: &ParcodeFile, cx: &mut Cx, w: &mut Walk) {
    let l = match w.r.below(3) {
        0 => f.root::<T>(),
        1 => f.load_lazy::<T>(),
        _ => f.read_lazy::<T>(),
    };
    if let Some(l) = cx.ok(l, "lazy root") {
        v.lazy_check(&l, false, cx, w);
    }
}

fn is_missing_child(m: &str) -> bool {
    m.contains("Missing child node")
}

pub fn check_vec<T: Item>(orig: &[T], p: &ParcodeCollectionPromise<'_, T>, cx: &mut Cx, w: &mut Walk) {
    if cx.tolerate.is_some() && !orig.is_empty() && p.len() == 0 && p.is_empty() && p.load().is_err() {
        // Neither can report an error.
        cx.known(K_LEN, "len() = 0 and is_empty() of a collection that cannot be read");
        return cx.ok(p.load(), "load").map_or((), |_| ());
    }
    cx.check(p.len() == orig.len(), "len", || format!("len() = {}, expected {}", p.len(), orig.len()));
    cx.check(p.is_empty() == orig.is_empty(), "len", || format!("is_empty() = {} of {}", p.is_empty(), orig.len()));
    cx.count("lazy_collections", 1);
    if let Some(v) = cx.ok(p.load(), "load") {
        if let Some(d) = same_slice(orig, &v) {
            cx.fail("load", d);
        }
    }
    // Full traversal, in order, with exact size hints and a stable end.
    if let Some(mut it) = cx.ok(p.iter(), "iter") {
        let mut i = 0;
        loop {
            let (lo, hi) = it.size_hint();
            if lo > orig.len() - i || hi.is_some_and(|h| h < orig.len() - i) {
                cx.fail("size_hint", format!("size_hint() = ({lo}, {hi:?}) with {} items left", orig.len() - i));
                break;
            }
            match it.next() {
                None => break,
                Some(Err(e)) => {
                    cx.fail("iter", format!("item {i}: {e}"));
                    break;
                }
                Some(Ok(x)) => {
                    if i >= orig.len() || !orig[i].same(&x) {
                        cx.fail("iter", format!("item {i} of {} is wrong: {x:.200?}", orig.len()));
                        break;
                    }
                }
            }
            i += 1;
        }
        if cx.clean() {
            cx.check(i == orig.len(), "iter", || format!("iteration ended after {i} of {} items", orig.len()));
            cx.check(it.next().is_none(), "iter", || "an item after the end".into());
        }
        cx.count("lazy_items_iterated", i as u64);
    }
    // Abandoned traversal, and one resumed after skipping.
    let n = orig.len();
    for _ in 0..3 {
        let Some(mut it) = cx.ok(p.iter(), "iter") else { break };
        let mut i = 0;
        for _ in 0..w.r.range(1, 6) {
            let k = if w.r.chance(1, 5) { n - i } else { w.r.below(n - i + 1) };
            let at = i + k;
            match it.nth(k) {
                Some(Ok(x)) => {
                    cx.check(at < n && orig[at].same(&x), "iter", || format!("nth({k}) from {i} of {n} is wrong: {x:.200?}"));
                }
                Some(Err(e)) => cx.fail("iter", format!("nth({k}) from {i} of {n}: {e}")),
                // The error may have been among the items skipped.
                None if cx.tolerate.is_some() => break,
                None => {
                    cx.check(at >= n, "iter", || format!("nth({k}) from {i} of {n} gave nothing"));
                }
            }
            i = (at + 1).min(n);
            if cx.tolerate.is_some() {
                // What an iterator says after an error is left open.
                break;
            }
            let h = it.size_hint();
            cx.check(h.0 <= n - i && h.1.is_none_or(|h| h >= n - i), "size_hint", || format!("{h:?} after nth to {i} of {n}"));
            cx.count("lazy_items_skipped_to", 1);
        }
        if cx.tolerate.is_none() && w.r.chance(1, 3) {
            let left = it.count();
            cx.check(left == n - i, "iter", || format!("{left} items after nth to {i} of {n}"));
        }
    }
    let mut order = w.indexes(orig.len());
    w.r.shuffle(&mut order);
    for i in order {
        match p.get(i) {
            Ok(x) => {
                cx.check(orig[i].same(&x), "get", || format!("get({i}) of {} is wrong: {x:.200?}", orig.len()));
            }
            Err(e) => cx.fail("get", format!("get({i}) of {}: {e}", orig.len())),
        }
        cx.count("lazy_gets", 1);
    }
    for i in outside(orig.len(), &mut w.r) {
        cx.check(p.get(i).is_err(), "get", || format!("get({i}) of {} returned a value", orig.len()));
        cx.count("lazy_outside", 1);
    }
    T::vec_lazy(orig, p, cx, w);
}

fn outside(n: usize, r: &mut Rng) -> Vec<usize> {
    vec![n, n + 1, n + r.below(100_000), n * 2 + 1, usize::MAX, usize::MAX - r.below(9), 1 << 32 | r.below(n + 1), 1 << 63 | r.below(n + 1)]
}

/// The lazy item accessors of a vector promise.
pub fn check_vec_lazy<T: Remote>(orig: &[T], p: &ParcodeCollectionPromise<'_, T>, cx: &mut Cx, w: &mut Walk) {
    for i in outside(orig.len(), &mut w.r) {
        cx.check(p.get_lazy(i).is_err(), "get_lazy", || format!("get_lazy({i}) of {} returned a value", orig.len()));
    }
    if orig.is_empty() {
        match p.first() {
            Ok(None) => {}
            Ok(Some(_)) => cx.fail("first", "first() of an empty vector is not None"),
            Err(e) => cx.fail("first", format!("first() of an empty vector: {e}")),
        }
        match p.last() {
            Ok(None) => {}
            Ok(Some(_)) => cx.fail("last", "last() of an empty vector is not None"),
            Err(e) => cx.fail("last", format!("last() of an empty vector: {e}")),
        }
        match p.iter_lazy() {
            Ok(mut it) => {
                cx.check(it.len() == 0, "iter_lazy", || format!("len() = {} of an empty vector", it.len()));
                cx.check(it.next().is_none(), "iter_lazy", || "an item in an empty vector".into());
            }
            Err(e) => cx.fail("iter_lazy", e.to_string()),
        }
        return;
    }
    let n = orig.len();
    let one = |r: parcode::Result<T::Lazy>, i: usize, what: &str, cx: &mut Cx, w: &mut Walk| match r {
        Ok(l) => cx.at(format!("{what}[{i}]"), |cx| {
            if w.visits > 0 {
                w.visits -= 1;
                orig[i].lazy_check(&l, false, cx, w);
            }
        }),
        Err(e) if T::INLINE && is_missing_child(&e.to_string()) => cx.known(K_INLINE, &format!("{what}: {e}")),
        Err(e) => cx.fail(what, format!("item {i} of {n}: {e}")),
    };
    for i in w.indexes(n) {
        one(p.get_lazy(i), i, "get_lazy", cx, w);
        cx.count("lazy_get_lazy", 1);
    }
    match p.first() {
        Ok(None) => cx.fail("first", "first() of a non-empty vector is None"),
        Ok(Some(l)) => one(Ok(l), 0, "first", cx, w),
        Err(e) => one(Err(e), 0, "first", cx, w),
    }
    match p.last() {
        Ok(None) => cx.fail("last", "last() of a non-empty vector is None"),
        Ok(Some(l)) => one(Ok(l), n - 1, "last", cx, w),
        Err(e) => one(Err(e), n - 1, "last", cx, w),
    }
    match p.iter_lazy() {
        Err(e) => cx.fail("iter_lazy", e.to_string()),
        Ok(mut it) => {
            let mut i = 0;
            // Visiting every item's subtree would be quadratic in the nesting: sample the depth,
            // but pull every item and count.
            let deep: Vec<usize> = if n <= 40 { (0..n).collect() } else { w.indexes(n) };
            let mut d = 0;
            loop {
                if it.len() != n - i || it.size_hint() != (n - i, Some(n - i)) {
                    cx.fail("iter_lazy", format!("len() = {}, size_hint() = {:?} with {} items left", it.len(), it.size_hint(), n - i));
                    break;
                }
                match it.next() {
                    None => break,
                    Some(Ok(l)) => {
                        if i >= n {
                            cx.fail("iter_lazy", format!("item {i} of {n}"));
                            break;
                        }
                        if deep.get(d) == Some(&i) {
                            d += 1;
                            one(Ok(l), i, "iter_lazy", cx, w);
                        }
                    }
                    Some(Err(e)) => {
                        let known = T::INLINE && is_missing_child(&e.to_string());
                        one(Err(e), i, "iter_lazy", cx, w);
                        if known {
                            return;
                        }
                        break;
                    }
                }
                i += 1;
                cx.count("lazy_items_iterated", 1);
            }
            if cx.clean() {
                cx.check(i == n, "iter_lazy", || format!("ended after {i} of {n} items"));
                cx.check(it.next().is_none(), "iter_lazy", || "an item after the end".into());
            }
        }
    }
    if T::INLINE || !cx.clean() {
        return;
    }
    // Skipping, stepping and abandoning, alone and mixed.
    for _ in 0..3 {
        let Some(mut it) = cx.ok(p.iter_lazy(), "iter_lazy") else { return };
        let mut i = 0;
        let mut steps = vec![];
        for _ in 0..w.r.range(1, 12) {
            let left = n - i;
            let k = match w.r.below(6) {
                0 => 0,
                1 => w.r.below(4),
                2 => left,
                3 => left.saturating_sub(1),
                _ => w.r.below(left + 1),
            };
            steps.push(k);
            let at = i + k;
            let got = if w.r.chance(1, 4) { it.by_ref().skip(k).next() } else { it.nth(k) };
            match got {
                None if at >= n => {
                    i = n;
                }
                None => return cx.fail("iter_lazy", format!("nth{steps:?} of {n} gave nothing")),
                Some(Err(e)) => return cx.fail("iter_lazy", format!("nth{steps:?} of {n}: {e}")),
                Some(Ok(_)) if at >= n => return cx.fail("iter_lazy", format!("nth{steps:?} of {n} gave an item")),
                Some(Ok(l)) => {
                    i = at + 1;
                    one(Ok(l), at, "iter_lazy.nth", cx, w);
                    cx.count("lazy_items_skipped_to", 1);
                }
            }
            if it.len() != n - i || it.size_hint() != (n - i, Some(n - i)) {
                return cx.fail("iter_lazy", format!("len() = {}, size_hint() = {:?} after nth{steps:?} of {n}", it.len(), it.size_hint()));
            }
        }
        let rest = w.r.below(3);
        let left = match rest {
            0 => it.count(),
            1 => it.fold(0, |c, _| c + 1),
            _ => it.step_by(1).count(),
        };
        cx.check(left == n - i, "iter_lazy", || format!("{left} items after nth{steps:?} of {n} instead of {}", n - i));
    }
    let by = w.r.range(1, n.min(4000));
    if let Some(it) = cx.ok(p.iter_lazy(), "iter_lazy") {
        for (k, l) in it.step_by(by).enumerate() {
            one(l, k * by, "iter_lazy.step_by", cx, w);
        }
    }
    if let Some(it) = cx.ok(p.iter_lazy(), "iter_lazy") {
        if let Some(l) = it.last() {
            one(l, n - 1, "iter_lazy.last", cx, w);
        } else {
            cx.fail("iter_lazy", "last() gave nothing");
        }
    }
}

pub fn same_map<K: Key, V: Val>(a: &HashMap<K, V>, b: &HashMap<K, V>) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} entries, expected {}", b.len(), a.len()));
    }
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("key {k:?} is missing")),
            Some(x) if !v.same(x) => return Some(format!("key {k:?}: {v:.200?} became {x:.200?}")),
            _ => {}
        }
    }
    None
}

fn present<'m, K: Key, V>(m: &'m HashMap<K, V>, w: &mut Walk) -> Vec<(&'m K, &'m V)> {
    let n = m.len();
    if n <= 12 {
        return m.iter().collect();
    }
    let step = (n / 12).max(1);
    let off = w.r.below(step);
    m.iter().skip(off).step_by(step).collect()
}
pub fn absent<K: Key, V>(m: &HashMap<K, V>, n: usize, w: &mut Walk) -> Vec<K> {
    let mut v = vec![];
    for _ in 0..n * 3 {
        let mut g = G::new(w.r.clone(), 16);
        w.r.u64();
        let k = K::mk(&mut g);
        if !m.contains_key(&k) {
            v.push(k);
        }
        if v.len() == n {
            break;
        }
    }
    v
}

pub fn check_map<K: Key, V: Item>(orig: &HashMap<K, V>, p: &ParcodeMapPromise<'_, K, V>, sharded: bool, cx: &mut Cx, w: &mut Walk) {
    cx.count("lazy_maps", 1);
    if let Some(m) = cx.ok(p.load(), "map load") {
        if let Some(d) = same_map(orig, &m) {
            cx.fail("map load", d);
        }
    }
    for (k, v) in present(orig, w) {
        match p.get(k) {
            Ok(Some(x)) => {
                cx.check(v.same(&x), "map get", || format!("get({k:?}) = {x:.200?}, expected {v:.200?}"));
            }
            Ok(None) => cx.fail("map get", format!("get({k:?}) = None for a stored key ({} entries)", orig.len())),
            Err(e) => cx.fail("map get", format!("get({k:?}): {e}")),
        }
        cx.count("map_hits", 1);
    }
    for k in absent(orig, 6, w) {
        match p.get(&k) {
            Ok(None) => {}
            Ok(Some(x)) => cx.fail("map get", format!("get({k:?}) = {x:.200?} for an absent key")),
            Err(e) => cx.fail("map get", format!("get({k:?}) of an absent key: {e}")),
        }
        cx.count("map_misses", 1);
    }
    V::map_lazy(orig, p, sharded, cx, w);
}

pub fn check_map_lazy<K: Key, V: Remote>(orig: &HashMap<K, V>, p: &ParcodeMapPromise<'_, K, V>, sharded: bool, cx: &mut Cx, w: &mut Walk) {
    for (k, v) in present(orig, w) {
        match p.get_lazy(k) {
            Ok(Some(l)) => cx.at(format!("get_lazy({k:?})"), |cx| {
                if w.visits > 0 {
                    w.visits -= 1;
                    v.lazy_check(&l, false, cx, w);
                }
            }),
            Ok(None) => cx.fail("map get_lazy", format!("get_lazy({k:?}) = None for a stored key")),
            Err(e) => {
                let m = e.to_string();
                if !sharded && m.contains("Map is not sharded") {
                    cx.known(K_MAP_BLOB, &m);
                } else if sharded && V::INLINE && is_missing_child(&m) {
                    cx.known(K_MAP_INLINE, &m);
                } else {
                    cx.fail("map get_lazy", format!("get_lazy({k:?}): {m}"));
                }
            }
        }
        cx.count("map_lazy_hits", 1);
    }
    for k in absent(orig, 4, w) {
        match p.get_lazy(&k) {
            Ok(None) => {}
            Ok(Some(_)) => cx.fail("map get_lazy", format!("get_lazy({k:?}) gave a value for an absent key")),
            Err(e) => cx.fail("map get_lazy", format!("get_lazy({k:?}) of an absent key: {e}")),
        }
    }
}

pub fn check_one<T: Val>(orig: &T, p: &ParcodePromise<'_, T>, cx: &mut Cx) {
    if let Some(v) = cx.ok(p.load(), "promise load") {
        cx.check(orig.same(&v), "promise", || format!("{v:.200?}, expected {orig:.200?}"));
    }
    cx.count("lazy_promises", 1);
}

// ---- primitives ----

/// Gives a remote type the item-level lazy checks.
#[macro_export]
macro_rules! item_lazy {
    () => {
        fn vec_lazy(o: &[Self], p: &parcode::ParcodeCollectionPromise<'_, Self>, cx: &mut $crate::cx::Cx, w: &mut $crate::val::Walk) {
            $crate::val::check_vec_lazy(o, p, cx, w)
        }
        fn map_lazy<QK: $crate::val::Key>(o: &std::collections::HashMap<QK, Self>, p: &parcode::ParcodeMapPromise<'_, QK, Self>, s: bool, cx: &mut $crate::cx::Cx, w: &mut $crate::val::Walk) {
            $crate::val::check_map_lazy(o, p, s, cx, w)
        }
        fn poke_vec(p: &parcode::ParcodeCollectionPromise<'_, Self>, w: &mut $crate::val::Poke) {
            $crate::val::poke_vec_lazy(p, w)
        }
        fn poke_map<QK: $crate::val::Key>(p: &parcode::ParcodeMapPromise<'_, QK, Self>, w: &mut $crate::val::Poke) {
            $crate::val::poke_map_lazy(p, w)
        }
    };
}
#[macro_export]
macro_rules! root_lazy {
    () => {
        fn lazy_root(&self, f: &parcode::ParcodeFile, cx: &mut $crate::cx::Cx, w: &mut $crate::val::Walk) {
            $crate::val::lazy_root(self, f, cx, w)
        }
        fn poke_root(f: &parcode::ParcodeFile, w: &mut $crate::val::Poke) {
            $crate::val::poke_root::<Self>(f, w)
        }
        fn share_root(&self, f: &parcode::ParcodeFile, cxs: &mut [$crate::cx::Cx], r: &$crate::rng::Rng) {
            $crate::val::share_root(self, f, cxs, r)
        }
    };
}

pub fn blob<T: Serialize>(t: &T, comp: u8) -> Shape {
    let mut b = vec![];
    bin(t, &mut b);
    Shape::Blob { bytes: b, comp }
}

macro_rules! prim_val {
    ($($t:ty, $g:expr, $s:expr;)*) => { $(
        impl Val for $t {
            fn mk(g: &mut G) -> Self { let f: fn(&mut G) -> $t = $g; f(g) }
            fn same(&self, o: &Self) -> bool { let f: fn(&$t, &$t) -> bool = $s; f(self, o) }
        }
    )* };
}
macro_rules! prim_item {
    ($($t:ty),*) => { $(
        impl Rooted for $t {
            fn shape(&self, comp: u8, _m: bool) -> Shape { blob(self, comp) }
            root_lazy!();
        }
        impl Item for $t { item_lazy!(); }
        impl Remote for $t {
            const INLINE: bool = true;
            fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, _w: &mut Walk) {
                check_one(self, l, cx);
            }
            fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
                if w.burn() {
                    w.see(l.load());
                }
            }
        }
    )* };
}
fn int(g: &mut G) -> u128 {
    // Values around every varint and type boundary.
    match g.r.below(8) {
        0 => 0,
        1 => u128::MAX,
        2 => [250u128, 251, 252, 253, 254, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64][g.r.below(16)],
        3 => u128::from(g.r.u64() & 0xff),
        4 => 1u128 << g.r.below(128),
        5 => (1u128 << g.r.below(128)).wrapping_sub(1),
        _ => u128::from(g.r.u64()) << 64 | u128::from(g.r.u64()),
    }
}
fn text(g: &mut G) -> String {
    if g.large > 0 && g.r.chance(1, 3) {
        g.large -= 1;
        let piece: String = (0..g.r.range(1, 40)).map(|_| (b' ' + g.r.below(90) as u8) as char).collect();
        return piece.repeat(g.large_len / piece.len() + 1);
    }
    let n = match g.r.below(12) {
        0 | 1 => 0,
        2..=7 => g.r.range(1, 12),
        8..=9 => g.r.range(12, 60),
        10 => g.r.range(240, 260),
        _ => g.r.range(60, 700).min(g.budget.max(12)),
    };
    g.budget -= (n / 16).min(g.budget);
    let alphabet = ['a', 'b', 'z', '0', ' ', '\0', '\n', 'é', 'ß', '中', '\u{10FFFF}', '🦀'];
    let kind = g.r.below(3);
    (0..n)
        .map(|_| match kind {
            0 => 'x',
            1 => (b'a' + g.r.below(26) as u8) as char,
            _ => *g.r.pick(&alphabet),
        })
        .collect()
}
prim_val! {
    u8, |g| int(g) as u8, |a, b| a == b;
    u16, |g| int(g) as u16, |a, b| a == b;
    u32, |g| int(g) as u32, |a, b| a == b;
    u64, |g| int(g) as u64, |a, b| a == b;
    u128, int, |a, b| a == b;
    usize, |g| int(g) as usize, |a, b| a == b;
    i8, |g| int(g) as i8, |a, b| a == b;
    i16, |g| int(g) as i16, |a, b| a == b;
    i32, |g| int(g) as i32, |a, b| a == b;
    i64, |g| int(g) as i64, |a, b| a == b;
    i128, |g| int(g) as i128, |a, b| a == b;
    isize, |g| int(g) as isize, |a, b| a == b;
    f32, |g| if g.r.chance(1, 3) { *g.r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1.5]) } else { f32::from_bits(int(g) as u32) }, |a, b| a.to_bits() == b.to_bits();
    f64, |g| if g.r.chance(1, 3) { *g.r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1.5]) } else { f64::from_bits(int(g) as u64) }, |a, b| a.to_bits() == b.to_bits();
    bool, |g| g.r.chance(1, 2), |a, b| a == b;
    String, text, |a, b| a == b;
    char, |g| *g.r.pick(&['a', '\0', 'é', '中', '\u{10FFFF}', '\u{D7FF}', '\u{E000}']), |a, b| a == b;
    (), |_| (), |_, _| true;
}
prim_item!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String);
macro_rules! eager_item {
    ($($t:ty),*) => { $(
        impl Rooted for $t { fn shape(&self, comp: u8, _m: bool) -> Shape { blob(self, comp) } }
        impl Item for $t {}
    )* };
}
eager_item!(u128, i128);

// ---- collections ----

fn many<T: Val>(g: &mut G, n: usize) -> Vec<T> {
    g.depth += 1;
    // Sometimes repetitive, so that compression has something to do.
    let v: Vec<T> = if n > 3 && g.r.chance(1, 4) {
        let before = g.budget;
        let base: Vec<T> = (0..g.r.range(1, 3)).map(|_| T::mk(g)).collect();
        // Copies cost as much as originals.
        let cost = (before - g.budget).max(1);
        let n = n.min(base.len() + g.budget / cost * base.len());
        g.budget -= (cost * (n / base.len())).min(g.budget);
        (0..n).map(|i| base[i % base.len()].clone()).collect()
    } else {
        (0..n).map(|_| T::mk(g)).collect()
    };
    g.depth -= 1;
    v
}
impl<T: Val> Val for Vec<T> {
    fn mk(g: &mut G) -> Self {
        let n = g.count();
        many(g, n)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<K: Key, V: Val> Val for HashMap<K, V> {
    fn mk(g: &mut G) -> Self {
        let n = g.count().min(9000);
        g.depth += 1;
        let mut m = HashMap::new();
        for _ in 0..n {
            let k = K::mk(g);
            let v = V::mk(g);
            m.insert(k, v);
        }
        g.depth -= 1;
        m
    }
    fn same(&self, o: &Self) -> bool {
        same_map(self, o).is_none()
    }
}
pub fn items<T: Item>(v: &[T]) -> Items {
    let mut it = Items::default();
    for x in v {
        x.local(&mut it.flat);
        x.kids(&mut it.kids);
        it.close();
    }
    it
}
impl<T: Item> Rooted for Vec<T> {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        Shape::Vec { items: items(self), comp }
    }
    root_lazy!();
}
impl<T: Item> Item for Vec<T> {
    item_lazy!();
}
impl<T: Item> Remote for Vec<T> {
    const INLINE: bool = true;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        check_vec(self, l, cx, w);
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        poke_vec(l, w);
    }
}
/// The documented key hash: XxHash64 with seed 0 over the key's `Hash` byte stream.
pub fn key_hash<K: Hash>(k: &K) -> u64 {
    let mut h = twox_hash::XxHash64::with_seed(0);
    k.hash(&mut h);
    h.finish()
}
impl<K: Key, V: Item> Rooted for HashMap<K, V> {
    fn shape(&self, comp: u8, map: bool) -> Shape {
        if map {
            let mut it = Items::default();
            let mut hashes = vec![];
            for (k, v) in self {
                hashes.push(key_hash(k));
                bin(k, &mut it.flat);
                v.local(&mut it.flat);
                v.kids(&mut it.kids);
                it.close();
            }
            Shape::Map { hashes, items: it, comp }
        } else {
            let entries = self
                .iter()
                .map(|(k, v)| {
                    let mut b = vec![];
                    bin(k, &mut b);
                    bin(v, &mut b);
                    b
                })
                .collect();
            Shape::BlobMap { entries, comp }
        }
    }
    root_lazy!();
}
impl<K: Key, V: Item> Item for HashMap<K, V> {
    // The default local encoding (serde, inline) is what the library writes.
    item_lazy!();
}
impl<K: Key, V: Item> Remote for HashMap<K, V> {
    const INLINE: bool = true;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, map: bool, cx: &mut Cx, w: &mut Walk) {
        check_map(self, l, map, cx, w);
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        poke_map(l, w);
    }
}

// ---- local-only types ----

impl<T: Val> Val for Option<T> {
    fn mk(g: &mut G) -> Self {
        if g.r.chance(1, 3) { None } else { Some(T::mk(g)) }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Val> Val for Box<T> {
    fn mk(g: &mut G) -> Self {
        Box::new(T::mk(g))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    fn mk(g: &mut G) -> Self {
        (A::mk(g), B::mk(g))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<A: Val, B: Val, C: Val> Val for (A, B, C) {
    fn mk(g: &mut G) -> Self {
        (A::mk(g), B::mk(g), C::mk(g))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
macro_rules! array_val {
    ($($n:literal),*) => { $(
        impl<T: Val> Val for [T; $n] {
            fn mk(g: &mut G) -> Self { std::array::from_fn(|_| T::mk(g)) }
            fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
        }
    )* };
}
array_val!(1, 3, 4, 16);
impl<K: Key + Ord, V: Val> Val for BTreeMap<K, V> {
    fn mk(g: &mut G) -> Self {
        let n = g.r.below(5);
        (0..n).map(|_| (K::mk(g), V::mk(g))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.0 == b.0 && a.1.same(b.1))
    }
}

/// A serde enum: unit, newtype, tuple and struct variants.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Color {
    Red,
    Gray(u8),
    Rgb(u8, u16, u32),
    Named { name: String, alpha: Option<i16> },
}
impl Val for Color {
    fn mk(g: &mut G) -> Self {
        match g.r.below(4) {
            0 => Color::Red,
            1 => Color::Gray(u8::mk(g)),
            2 => Color::Rgb(u8::mk(g), u16::mk(g), u32::mk(g)),
            _ => Color::Named { name: text(g), alpha: Option::mk(g) },
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// A key whose hash takes few values: distinct keys collide in all 64 bits.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct CKey(pub u32);
impl Hash for CKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        crate::spy::seen();
        (self.0 % 3).hash(h);
    }
}
impl Val for CKey {
    fn mk(g: &mut G) -> Self {
        CKey(if g.r.chance(1, 2) { g.r.below(20) as u32 } else { u32::mk(g) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
