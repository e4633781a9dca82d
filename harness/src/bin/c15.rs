//! C15: many threads at work on shared files, shared lazy views and values of their own, in and
//! out of pools. Every operation's result is compared with what it must be alone.
use parcode::reader::ChunkNode;
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, watched};
use pcmon::probe::Probe;
use pcmon::refdec::{self, Expect, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::spy;
use pcmon::val::{Poke, Rooted, Walk};
use pcmon::work::*;
use pcmon::{spyzoo, zoo};
use serde::{Deserialize, Serialize, Serializer};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

static EVENTS: AtomicU64 = AtomicU64::new(0);
/// Operations of each kind under way.
static ACTIVE: [AtomicU64; OPS.len()] = [const { AtomicU64::new(0) }; OPS.len()];
const OPS: [&str; 18] = [
    "load", "reread", "lazy", "inspect", "navigate", "write", "graph", "failing write", "panicking write", "wrong type", "truncated",
    "iterator on the move", "open and drop", "short queries", "nested use",
    "panicking read", "twin files", "shared view",
];

#[derive(Clone, Copy, Debug, Deserialize)]
struct Bomb;
impl Serialize for Bomb {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        panic!("{}", spy::PANIC)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
struct Boom {
    #[parcode(chunkable)]
    v: Vec<u32>,
    #[parcode(chunkable)]
    bombs: Vec<BombItem>,
}
#[derive(Clone, Debug, Serialize, Deserialize, parcode::ParcodeObject)]
struct BombItem {
    b: Bomb,
    #[parcode(chunkable)]
    v: Vec<u8>,
}
/// User code that uses the library itself while it is being written or read.
#[derive(Clone, Debug, PartialEq)]
struct Inside(Vec<u32>);
/// What it stores of itself, with every kind of chunk.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct Inner {
    #[parcode(chunkable)]
    v: Vec<u32>,
    #[parcode(chunkable)]
    blob: std::collections::HashMap<u8, u32>,
    #[parcode(map)]
    m: std::collections::HashMap<u8, u32>,
    #[parcode(chunkable, compression = "lz4")]
    s: String,
    n: u32,
}
impl Serialize for Inside {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let few: std::collections::HashMap<u8, u32> = self.0.iter().take(9).map(|x| (*x as u8, *x)).collect();
        let i = Inner { v: self.0.clone(), m: few.clone(), blob: few, s: "x".repeat(self.0.len() % 99), n: self.0.len() as u32 };
        let b = if self.0.len() % 2 == 0 { Parcode::serialize(&i) } else { let mut b = vec![]; Parcode::write_sync(&mut b, &i).map(|()| b) };
        b.map_err(serde::ser::Error::custom)?.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Inside {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = Vec::<u8>::deserialize(d)?;
        let f = Parcode::open_bytes(b).map_err(serde::de::Error::custom)?;
        let i: Inner = f.load().map_err(serde::de::Error::custom)?;
        if i.n as usize != i.v.len() || i.blob != i.m || i.m.len() != i.v.len().min(9) || i.s.len() != i.v.len() % 99 {
            return Err(serde::de::Error::custom("another value"));
        }
        let l = f.root::<Inner>().map_err(serde::de::Error::custom)?;
        if l.blob.load().ok().as_ref() != Some(&i.blob) || l.s.load().ok().as_ref() != Some(&i.s) {
            return Err(serde::de::Error::custom("another view"));
        }
        Ok(Self(i.v))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct NestItem {
    n: Inside,
    #[parcode(chunkable)]
    v: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct Nest {
    #[parcode(chunkable, compression = "lz4")]
    items: Vec<NestItem>,
    #[parcode(map)]
    m: std::collections::HashMap<u32, NestItem>,
    #[parcode(chunkable)]
    blob: std::collections::HashMap<u8, NestItem>,
    one: Inside,
}
fn nest(q: &mut Rng) -> Nest {
    let mut item = |k: usize| {
        let n = *q.pick(&[0, 1, 50, 3000, 40_000]);
        NestItem { n: Inside((0..(n / (k / 8 + 1)) as u32).collect()), v: vec![k as u16; k % 50] }
    };
    let items = (0..12).map(&mut item).collect();
    let m = (0..5).map(|k| (k as u32, item(k))).collect();
    let blob = (0..3).map(|k| (k as u8, item(k))).collect();
    Nest { items, m, blob, one: item(1).n }
}
/// User code that refuses some values when they are read.
#[derive(Clone, Debug, PartialEq, Serialize)]
struct Touchy(u8);
impl<'de> Deserialize<'de> for Touchy {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            13 => panic!("{}", spy::PANIC),
            14 => Err(serde::de::Error::custom("not this one")),
            n => Ok(Self(n)),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct TouchyItem {
    t: Touchy,
    #[parcode(chunkable)]
    v: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct TouchyDoc {
    #[parcode(chunkable, compression = "lz4")]
    items: Vec<TouchyItem>,
    #[parcode(map)]
    m: std::collections::HashMap<u32, TouchyItem>,
    #[parcode(chunkable)]
    blob: std::collections::HashMap<u8, TouchyItem>,
    #[parcode(chunkable)]
    one: TouchyItem,
}
/// Loads and lookups of values of which one cannot be read, then of one that can.
fn touchy(q: &mut Rng, cx: &mut Cx) {
    let bad = *q.pick(&[13, 14]);
    let at = q.below(15);
    let doc = |bad: Option<usize>, code: u8| {
        let item = |i: usize| TouchyItem { t: Touchy(if bad == Some(i) { code } else { 1 }), v: vec![i as u16; 1 + i % 50] };
        TouchyDoc { items: (0..8).map(item).collect(), m: (8..13).map(|i| (i as u32, item(i))).collect(), one: item(13), blob: (0..3).map(|k| (k, item(if k == 1 { 14 } else { 99 }))).collect() }
    };
    for d in [doc(Some(at), bad), doc(None, 0)] {
        let whole = !(d.items.iter().chain(d.m.values()).any(|i| i.t.0 == bad) || d.blob.values().any(|i| i.t.0 == bad) || d.one.t.0 == bad);
        let Some(b) = cx.ok(if q.chance(1, 2) { Parcode::serialize(&d) } else { let mut b = vec![]; Parcode::write_sync(&mut b, &d).map(|()| b) }, "write") else { return };
        let Some(f) = cx.ok(ParcodeFile::from_bytes(b), "open") else { return };
        // Of a document with a bad value, what is not that value may be refused with it.
        let judge = |cx: &mut Cx, what: &str, res: Result<Option<bool>, String>, readable: bool| match res {
            Ok(Some(same)) => {
                cx.check(readable && same, "value", || format!("{what} of a value {} be read", if readable { "that can" } else { "that cannot" }));
            }
            Ok(None) => {
                cx.check(!whole, "error", || format!("{what} refused, although nothing is wrong with it"));
            }
            Err(m) => {
                cx.check(!whole && m.contains(spy::PANIC), "panic", || format!("{what}: {m}"));
            }
        };
        let r = pcmon::cx::catch(|| f.load::<TouchyDoc>().ok().map(|x| x == d));
        judge(cx, "load", r, whole);
        for _ in 0..12 {
            let i = q.below(15);
            let r = pcmon::cx::catch(|| {
                let l = f.root::<TouchyDoc>().ok()?;
                match i {
                    0..8 => l.items.get(i).ok().map(|x| x == d.items[i]),
                    8..13 => l.m.get(&(i as u32)).ok().map(|x| x.as_ref() == d.m.get(&(i as u32))),
                    13 => Some(l.one.t == d.one.t),
                    _ => l.blob.get(&1).ok().map(|x| x.as_ref() == d.blob.get(&1)),
                }
            });
            judge(cx, "lookup", r, whole || i != at);
        }
    }
    cx.count("panicking_reads", 1);
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct TwinItem {
    n: u8,
    #[parcode(chunkable)]
    v: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
struct Twin {
    id: u8,
    #[parcode(chunkable)]
    v: Vec<u16>,
    #[parcode(chunkable)]
    w: Vec<TwinItem>,
    #[parcode(map)]
    m: std::collections::HashMap<u32, u8>,
    #[parcode(chunkable)]
    s: String,
}
/// Files alike in the place and length of every chunk, but of other values in other shards: what
/// is remembered of one of them must not answer for another.
fn twins(q: &mut Rng, cx: &mut Cx, own: &std::path::Path) {
    use pcmon::mutate::{Ed, Ref, put_together, take_apart};
    let (nv, nw) = (q.range(4, 240), q.range(4, 40));
    let k = q.range(2, 4);
    let hasher = std::hash::RandomState::new();
    let mut docs = vec![];
    for id in 0..k as u8 {
        let mut m = std::collections::HashMap::with_capacity_and_hasher(64, hasher.clone());
        for i in 0..40u32 {
            m.insert(i * 7, q.below(251) as u8);
        }
        let d = Twin {
            id,
            v: (0..nv).map(|_| q.below(250) as u16).collect(),
            w: (0..nw).map(|_| TwinItem { n: q.u64() as u8, v: q.bytes(3) }).collect(),
            m,
            s: (0..9).map(|_| char::from(b'a' + q.below(26) as u8)).collect(),
        };
        let Some(b) = cx.ok(Parcode::serialize(&d), "serialize") else { return };
        let Some(root) = cx.ok(refdec::parse(&b), "format") else { return };
        let mut a = take_apart(&root);
        // Two shards each, cut where this file has them cut.
        let top = a.chunks.len() - 1;
        let vecs: Vec<usize> = a.chunks[top].kids.iter().filter_map(|k| if let Ref::To(i) = *k { Some(i) } else { None }).collect();
        let mut done = 0;
        for c in vecs {
            let Ok((total, _)) = refdec::vec_header(&a.chunks[c].payload) else { continue };
            let is_v = total == nv as u64;
            if a.chunks[c].kids.is_empty() || done == 2 || total != (if done == 0 { nv } else { nw }) as u64 {
                continue;
            }
            done += 1;
            let cut = q.range(1, total as usize - 1);
            let (mut ends, mut kids) = (vec![], vec![]);
            let part = |from: usize, to: usize| {
                let mut p = vec![(to - from) as u8];
                if is_v && done == 1 {
                    p.extend(d.v[from..to].iter().map(|x| *x as u8));
                } else {
                    p.extend(d.w[from..to].iter().map(|x| x.n));
                }
                p
            };
            for (from, to) in [(0, cut), (cut, total as usize)] {
                let mut mine = vec![];
                if done == 2 {
                    for x in &d.w[from..to] {
                        let mut e = vec![x.v.len() as u8];
                        e.extend(&x.v);
                        // A vector of bytes: container, then one shard.
                        let mut head = (x.v.len() as u64).to_le_bytes().to_vec();
                        head.extend([1, x.v.len() as u8, 1]);
                        a.chunks.push(Ed { payload: e, comp: 0, raw: None, kids: vec![], count: None, meta: None });
                        let shard = a.chunks.len() - 1;
                        a.chunks.push(Ed { payload: head, comp: 0, raw: None, kids: vec![Ref::To(shard)], count: None, meta: None });
                        mine.push(Ref::To(a.chunks.len() - 1));
                    }
                }
                a.chunks.push(Ed { payload: part(from, to), comp: 0, raw: None, kids: mine, count: None, meta: None });
                kids.push(Ref::To(a.chunks.len() - 1));
                ends.push(to - from);
            }
            let mut head = total.to_le_bytes().to_vec();
            head.push(2);
            for n in ends {
                head.extend([n as u8, 1]);
            }
            a.chunks[c].payload = head;
            a.chunks[c].kids = kids;
        }
        let b = put_together(&a);
        docs.push((d, b));
    }
    let alike = docs.windows(2).all(|x| x[0].1.len() == x[1].1.len());
    cx.count("twin_sets", u64::from(alike));
    let files: Vec<_> = docs.iter().map(|(_, b)| ParcodeFile::from_bytes(b.clone())).collect();
    for _ in 0..120 {
        let t = q.below(k);
        let d = &docs[t].0;
        // The same bytes opened anew may lie where those of another file lay before, in memory or
        // on disk.
        let fresh = match q.below(6) {
            0 | 1 => Some(ParcodeFile::from_bytes(docs[t].1.clone())),
            2 => {
                if let Err(e) = std::fs::write(own, &docs[t].1) {
                    return cx.fail("error", format!("the harness cannot write: {e}"));
                }
                cx.count("twins_over_each_other", 1);
                Some(ParcodeFile::open(own))
            }
            _ => None,
        };
        let f = match fresh.as_ref().unwrap_or(&files[t]) {
            Ok(f) => f,
            Err(e) => return cx.fail("error", format!("open: {e}")),
        };
        let what = q.below(8);
        let res = (|| -> parcode::Result<bool> {
            let l = f.root::<Twin>()?;
            let (i, j, key) = (q.below(nv), q.below(nw), q.below(40) as u32 * 7);
            Ok(match what {
                0 => f.load::<Twin>()? == *d,
                1 | 2 => l.v.get(i)? == d.v[i],
                3 => l.v.iter()?.collect::<Result<Vec<_>, _>>()? == d.v,
                4 => l.w.get(j)? == d.w[j],
                5 => l.w.get_lazy(j)?.n == d.w[j].n && l.w.get_lazy(j)?.v.load()? == d.w[j].v,
                6 => l.m.get(&key)? == d.m.get(&key).copied() && l.m.get(&1)?.is_none(),
                _ => l.id == d.id && l.s.load()? == d.s && l.v.load()? == d.v && l.m.load()? == d.m,
            })
        })();
        match res {
            Ok(same) => {
                cx.check(same, "twin", || format!("query {what} of file {t} of {k} alike ({nv} and {nw} items)"));
            }
            Err(e) => cx.fail("error", format!("query {what} of file {t} of {k} alike: {e}")),
        }
        cx.count("twin_queries", 1);
    }
}
/// A destination that takes `left` bytes and no more.
struct Full {
    left: usize,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        self.left -= n;
        if n == 0 && !b.is_empty() { Err(std::io::Error::other("full")) } else { Ok(n) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Shared<T> {
    v: T,
    path: PathBuf,
    bytes: Vec<u8>,
    source: Arc<Vec<u8>>,
    file: ParcodeFile,
    root: Node,
    report: String,
    /// Where some chunks are, by child positions, and what the short queries say of them alone.
    facts: Vec<(Vec<usize>, Facts)>,
    wrong: [bool; 2],
    stamp: Option<std::time::SystemTime>,
}
fn wrong(f: &ParcodeFile) -> [bool; 2] {
    [f.load::<Vec<u64>>().is_ok(), f.load::<Vec<Vec<u16>>>().is_ok()]
}
fn same_tree(c: &ChunkNode<'_>, n: &Node) -> Result<u64, String> {
    let got = (c.offset(), c.length(), c.payload_len(), c.child_count() as usize, c.meta().compression_method());
    if got != (n.off, n.len, n.raw_len, n.kids.len(), n.comp) {
        return Err(format!("chunk at {} shows {got:?}", n.off));
    }
    match c.read_raw() {
        Ok(p) if p[..] == n.payload[..] => {}
        Ok(p) => return Err(format!("chunk at {}: {} bytes of payload, or other ones, instead of {}", n.off, p.len(), n.payload.len())),
        Err(e) => return Err(format!("chunk at {}: {e}", n.off)),
    }
    let ks = c.children().map_err(|e| format!("chunk at {}: {e}", n.off))?;
    let mut sum = 1;
    for (k, n) in ks.iter().zip(&n.kids) {
        sum += same_tree(k, n)?;
    }
    if ks.len() == n.kids.len() { Ok(sum) } else { Err(format!("chunk at {}: {} children", n.off, ks.len())) }
}
type Facts = (u64, bool, u64, u32, u64, Option<u64>);
fn facts(c: &ChunkNode<'_>, kids: usize) -> Facts {
    let kid = if kids == 0 { None } else { c.get_child_by_index(kids / 2).ok().map(|k| k.offset()) };
    (c.len(), c.is_empty(), c.payload_len(), c.child_count(), c.length(), kid)
}
/// Up to 40 chunks, the containers first.
fn places(root: &Node) -> Vec<Vec<usize>> {
    let mut all = vec![(vec![], root)];
    let mut i = 0;
    while i < all.len() && all.len() < 400 {
        let (at, n) = all[i].clone();
        for (k, c) in n.kids.iter().enumerate().take(60) {
            all.push(([&at[..], &[k]].concat(), c));
        }
        i += 1;
    }
    all.sort_by_key(|(_, n)| n.kids.is_empty());
    all.truncate(40);
    all.into_iter().map(|x| x.0).collect()
}
fn place<'f>(f: &'f ParcodeFile, root: &Node, at: &[usize], mut see: impl FnMut(&ChunkNode<'f>, &Node)) -> Result<(), parcode::ParcodeError> {
    let (mut c, mut n) = (f.root_node()?, root);
    for k in at {
        c = c.get_child_by_index(*k)?;
        n = &n.kids[*k];
    }
    see(&c, n);
    Ok(())
}
/// One operation, complete with its oracle.
fn op<T: Rooted>(kind: usize, fs: &[Shared<T>], nums: &(ParcodeFile, Vec<u64>), own: &Path, q: &mut Rng, cx: &mut Cx) {
    let s = &fs[q.below(fs.len())];
    match kind {
        0 => {
            if let Some(x) = cx.ok(s.file.load::<T>(), "load") {
                cx.check(s.v.same(&x), "value", || "load of a shared file".into());
            }
        }
        1 => {
            let k = q.below(READERS.len());
            if let Some(x) = cx.ok(read_with::<T>(k, &s.path, &s.bytes), READERS[k]) {
                cx.check(s.v.same(&x), "value", || READERS[k].to_string());
            }
        }
        2 => s.v.lazy_root(&s.file, cx, &mut Walk { r: q.clone(), samples: 2, visits: 150 }),
        3 => {
            if let Some(rep) = cx.ok(s.file.inspect(), "inspect") {
                cx.check(rep.to_string() == s.report, "report", || "another inspection report than alone".into());
            }
        }
        4 => match s.file.root_node() {
            Ok(n) => match same_tree(&n, &s.root) {
                Ok(n) => cx.count("chunks_navigated", n),
                Err(e) => cx.fail("chunk", e),
            },
            Err(e) => cx.fail("error", format!("root_node: {e}")),
        },
        5 => {
            let k = q.below(WRITERS.len());
            let v = if q.chance(1, 2) { None } else { Some(value_of::<T>(q, 200)) };
            let v = v.as_ref().unwrap_or(&s.v);
            let Some(b) = cx.ok(write_with(k, v, own), WRITERS[k]) else { return };
            let ex = Expect { global: writer_global(k), lz4: true, flags: true };
            if let Err(e) = refdec::parse(&b).and_then(|n| refdec::check(&n, &v.shape(0, false), ex).and_then(|()| refdec::check_tiling(&b, &n))) {
                cx.fail("written", format!("{}: {e}", WRITERS[k]));
            }
            let k = q.below(READERS.len());
            if let Some(x) = cx.ok(read_with::<T>(k, own, &b), READERS[k]) {
                cx.check(v.same(&x), "value", || "a value written meanwhile".into());
            }
        }
        6 => {
            let n = *q.pick(&[1, 10, 60]);
            let p = Probe::random(q, n);
            let mut b = vec![];
            if cx.ok(Parcode::write(&mut b, &p), "write").is_some()
                && let Err(e) = refdec::parse(&b).and_then(|n| p.check(&n, false, true))
            {
                cx.fail("written", format!("graph: {e}"));
            }
        }
        7 => {
            let left = q.below(s.bytes.len().min(5000));
            // The file of this value has another length if laid out elsewhere.
            let full = Parcode::serialize(&s.v).map_or(0, |b| b.len());
            let res = if q.chance(1, 2) { Parcode::write(Full { left }, &s.v) } else { Parcode::write_sync(Full { left }, &s.v) };
            cx.check(res.is_err() || full <= left, "success", || format!("{full} bytes into a destination of {left}"));
        }
        8 => {
            let b = Boom { v: vec![7; 3000], bombs: vec![BombItem { b: Bomb, v: vec![1; 9] }; q.range(1, 20)] };
            let res = pcmon::cx::catch(|| Parcode::serialize(&b).map(|b| b.len()));
            cx.check(!matches!(res, Ok(Ok(_))), "success", || "a panicking serialization succeeded".into());
        }
        9 => {
            let got = wrong(&s.file);
            cx.check(got == s.wrong, "wrong type", || format!("loading as other types: {got:?}, alone {:?}", s.wrong));
        }
        10 => {
            let n = q.below(s.bytes.len());
            let cut = s.bytes[..n].to_vec();
            let res = Parcode::open_bytes(cut).and_then(|f| f.load::<T>());
            // A prefix may end in what looks like a trailer only by content (outside this property).
            if let Ok(x) = res {
                cx.check(s.v.same(&x), "value", || format!("a prefix of {n} bytes was loaded as something else"));
            }
        }
        11 => {
            let p = match nums.0.root::<Vec<u64>>() {
                Ok(p) => p,
                Err(e) => return cx.fail("error", format!("root: {e}")),
            };
            let mut it = match p.iter() {
                Ok(it) => it,
                Err(e) => return cx.fail("error", format!("iter: {e}")),
            };
            let mut got = vec![];
            let k = q.range(1, nums.1.len());
            got.extend(it.by_ref().take(k));
            let rest = std::thread::scope(|s| s.spawn(move || it.collect::<Vec<_>>()).join());
            match rest {
                Ok(r) => got.extend(r),
                Err(_) => return cx.fail("panic", "an iterator finished by another thread"),
            }
            let got: Result<Vec<u64>, _> = got.into_iter().collect();
            cx.check(got.is_ok_and(|g| g == nums.1), "value", || format!("an iterator moved to another thread after {k} items"));
        }
        12 => {
            let f = if q.chance(1, 2) { Parcode::open(&s.path) } else { ParcodeFile::from_bytes(s.source.clone()) };
            if let Some(f) = cx.ok(f, "open") {
                cx.check(f.file_size() == s.bytes.len() as u64, "value", || "file size".into());
                let mut w = Poke::new(q.clone(), 30);
                T::poke_root(&f, &mut w);
            }
        }
        13 => {
            // The same few chunks again and again: whatever is remembered between queries is
            // remembered for one of them.
            let mut nodes = vec![];
            for _ in 0..q.range(2, 5) {
                let (at, want) = q.pick(&s.facts);
                let mut found = None;
                let res = place(&s.file, &s.root, at, |c, n| found = Some((c.clone(), n.kids.len())));
                match found {
                    Some((c, n)) => nodes.push((c, n, want)),
                    None => return cx.fail("error", format!("chunk at {at:?}: {:?}", res.err())),
                }
            }
            for _ in 0..q.range(50, 1500) {
                let (c, n, want) = q.pick(&nodes);
                let got = facts(c, *n);
                if !cx.check(got == **want, "query", || format!("chunk at {}: {got:?}, alone {want:?}", c.offset())) {
                    return;
                }
                cx.count("short_queries", 1);
            }
        }
        14 => {
            let v = nest(q);
            let k = q.below(WRITERS.len());
            let b = match k % 3 {
                0 => Parcode::serialize(&v),
                1 => Parcode::save(own, &v).and_then(|()| Ok(std::fs::read(own)?)),
                _ => { let mut b = vec![]; Parcode::write_sync(&mut b, &v).map(|()| b) }
            };
            let Some(b) = cx.ok(b, "nested write") else { return };
            let Some(f) = cx.ok(Parcode::open_bytes(b), "nested open") else { return };
            if let Some(x) = cx.ok(f.load::<Nest>(), "nested load") {
                cx.check(x == v, "value", || "a value whose items use the library themselves".into());
            }
            if let Some(l) = cx.ok(f.root::<Nest>(), "nested view") {
                let i = q.below(v.items.len());
                cx.check(l.blob.get(&1).is_ok_and(|x| x.as_ref() == v.blob.get(&1)), "value", || "nested: entry of a blob".into());
                cx.check(l.one == v.one, "value", || "nested: local".into());
                cx.check(l.items.get(i).is_ok_and(|x| x == v.items[i]), "value", || format!("nested: item {i}"));
                cx.check(l.m.get(&3).is_ok_and(|x| x.as_ref() == v.m.get(&3)), "value", || "nested: entry".into());
            }
            cx.count("nested_uses", 1);
        }
        15 => touchy(q, cx),
        16 => twins(q, cx, own),
        _ => {
            let mut cxs: Vec<Cx> = (0..3).map(|t| cx.fork(40 + t)).collect();
            s.v.share_root(&s.file, &mut cxs, q);
            cxs.into_iter().for_each(|c| cx.merge(c));
        }
    }
}
struct S {
    dir: PathBuf,
    pools: Vec<rayon::ThreadPool>,
    big: bool,
}
impl S {
    fn shared<T: Rooted>(&self, i: usize, cx: &mut Cx, r: &mut Rng) -> Option<Shared<T>> {
        let b = [40, 400, 400, 4000, 30_000][r.below(if self.big { 5 } else { 4 })];
        let v: T = value_of(r, b);
        let path = self.dir.join(format!("s{i}.par"));
        let bytes = if r.chance(1, 2) {
            let k = r.below(WRITERS.len());
            cx.ok(write_with(k, &v, &path), WRITERS[k])?
        } else {
            refenc::encode(&v.shape(0, false), &Layout::random(r, true), r).file
        };
        std::fs::write(&path, &bytes).ok()?;
        let source = Arc::new(bytes.clone());
        let file = if r.chance(1, 2) { Parcode::open(&path) } else { ParcodeFile::from_bytes(source.clone()) };
        let file = cx.ok(file, "open")?;
        let root = cx.ok(refdec::parse(&bytes), "format")?;
        let report = cx.ok(file.inspect(), "inspect")?.to_string();
        let wrong = wrong(&file);
        let mut known = vec![];
        for at in places(&root) {
            let mut f = None;
            cx.ok(place(&file, &root, &at, |c, n| f = Some(facts(c, n.kids.len()))), "navigate")?;
            known.push((at, f?));
        }
        let stamp = std::fs::metadata(&path).and_then(|m| m.modified()).ok();
        Some(Shared { v, path, bytes, source, file, root, report, facts: known, wrong, stamp })
    }
    fn round<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        spy::reset_hooks();
        let n = r.range(1, 3);
        let mut fs: Vec<Shared<T>> = vec![];
        for i in 0..n {
            let Some(s) = self.shared(i, cx, &mut r) else { return };
            fs.push(s);
        }
        let count = r.range(1, 60_000);
        let nums: Vec<u64> = (0..count as u64).map(|x| x.wrapping_mul(x)).collect();
        let Some(b) = cx.ok(Parcode::serialize(&nums), "serialize") else { return };
        let Some(f) = cx.ok(Parcode::open_bytes(b), "open") else { return };
        let nums = (f, nums);
        if r.chance(1, 2) {
            spy::DELAY.store(r.u64() | 1, SeqCst);
        }
        let (threads, each) = (r.range(2, 12), r.range(2, 7));
        // A round of everything, or one where a few kinds meet all the time.
        let kinds: Vec<usize> = if r.chance(1, 2) { (0..OPS.len()).collect() } else { (0..3).map(|_| r.below(OPS.len())).collect() };
        let seeds: Vec<(usize, Rng)> = (0..threads).map(|t| (t, Rng::new(r.u64()))).collect();
        let overlaps: Mutex<Vec<(usize, u64)>> = Mutex::default();
        let gate = std::sync::Barrier::new(threads);
        let (dir, pools) = (&self.dir, &self.pools);
        let one = |t: usize, q: &mut Rng, c: &mut Cx, blocking: bool| {
            let mut kind = *q.pick(&kinds);
            if !blocking && kind >= 17 {
                // Waits for threads of its own, which a pool's worker must not.
                kind = 2;
            }
            let mask = ACTIVE.iter().enumerate().fold(0u64, |m, (i, a)| m | u64::from(a.load(SeqCst) > 0) << i);
            ACTIVE[kind].fetch_add(1, SeqCst);
            overlaps.lock().unwrap().push((kind, mask));
            // Same stem for all: whatever is derived from the name alone must not be shared.
            let own = dir.join(format!("own.{t}"));
            c.at(OPS[kind], |c| c.guard(|c| op(kind, &fs, &nums, &own, q, c)));
            ACTIVE[kind].fetch_sub(1, SeqCst);
            EVENTS.fetch_add(1, SeqCst);
            c.count("operations", 1);
            if mask != 0 {
                c.count("overlapping_operations", 1);
            }
        };
        let forks: Vec<Cx> = seeds.iter().map(|(t, _)| cx.fork(*t)).collect();
        let run = || -> Vec<Cx> {
            std::thread::scope(|s| {
                let hs: Vec<_> = seeds
                    .into_iter()
                    .zip(forks)
                    .map(|((t, mut q), mut c)| {
                        let (one, gate) = (&one, &gate);
                        s.spawn(move || {
                            gate.wait();
                            for i in 0..each {
                                match q.below(4) {
                                    0 => one(t, &mut q, &mut c, true),
                                    1 => {
                                        let p = &pools[q.below(pools.len())];
                                        p.install(|| one(t, &mut q, &mut c, false));
                                        c.count("in_pool", 1);
                                    }
                                    k => {
                                        // Two operations side by side in one pool.
                                        let (mut q2, mut c2) = (Rng::new(q.u64()), c.fork(60 + t));
                                        let p = q.below(pools.len() + 1);
                                        let (a, b) = (&mut q, &mut c);
                                        let (a2, b2) = (&mut q2, &mut c2);
                                        let both = move || {
                                            rayon::join(move || one(t, a, b, false), move || one(100 * (i + 1) + t, a2, b2, false));
                                        };
                                        match pools.get(p) {
                                            Some(p) if k == 2 => p.install(both),
                                            _ => both(),
                                        }
                                        c.merge(c2);
                                        c.count("side_by_side", 1);
                                    }
                                }
                            }
                            c
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            })
        };
        let events = || EVENTS.load(SeqCst) + spy::SER_N.load(SeqCst) + spy::DE_N.load(SeqCst);
        let parts = match watched(events, run) {
            Ok(x) => x,
            Err(e) => {
                let busy: Vec<_> = OPS.iter().zip(&ACTIVE).filter(|x| x.1.load(SeqCst) > 0).map(|x| x.0).collect();
                cx.fail("hang", format!("{threads} threads on {n} files of {name}: {e}; under way: {busy:?}"));
                std::mem::replace(cx, Cx::scratch("")).finish();
            }
        };
        parts.into_iter().for_each(|p| cx.merge(p));
        spy::reset_hooks();
        for s in &fs {
            cx.check(*s.source == s.bytes, "file changed", || "in memory".into());
            let now = std::fs::read(&s.path).ok();
            cx.check(now.as_ref() == Some(&s.bytes), "file changed", || "on disk".into());
            let stamp = std::fs::metadata(&s.path).and_then(|m| m.modified()).ok();
            cx.check(stamp == s.stamp, "file changed", || "its time of modification".into());
            if let Some(x) = cx.ok(s.file.load::<T>(), "load afterwards") {
                cx.check(s.v.same(&x), "value", || "load afterwards".into());
            }
        }
        cx.count("rounds", 1);
        cx.count(if self.big { "large_rounds" } else { "small_rounds" }, 1);
        cx.max("max_threads", threads as u64);
        for o in overlaps.into_inner().unwrap() {
            cx.distinct(&o);
        }
        cx.distinct(&(name, threads, fs.iter().map(|s| s.bytes.len()).collect::<Vec<_>>()));
        cx.sample(|| format!("{name}: {threads} threads, {each} rounds each of {kinds:?} on {n} files"));
    }
}
struct L<'a>(&'a mut S, &'a mut Cx, &'a Args, u64);
impl zoo::Each for L<'_> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        let L(s, cx, args, n) = self;
        if args.get("type").is_some_and(|t| t != name) || !cx.go() {
            return;
        }
        let r = Rng::derive(args.seed, name, *n);
        cx.begin(format!("seed={} type={name} n={n}", args.seed));
        cx.guard(|cx| s.round::<T>(cx, name, r));
    }
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C15", &args, 25, 420);
    let dir = scratch(&args, "c15");
    std::fs::create_dir_all(&dir).unwrap();
    let pools = [1, 1, 2, 4, 7].into_iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let mut s = S { dir, pools, big: false };
    let part = args.num("part", 0);
    let only = args.get("n").and_then(|n| n.parse().ok());
    let mut n = only.unwrap_or(part);
    while cx.go() {
        s.big = n % 3 == 2;
        if n % 2 == 0 || only.is_some() {
            spyzoo::each(&mut L(&mut s, &mut cx, &args, n));
        }
        zoo::each(&mut L(&mut s, &mut cx, &args, n));
        if only.is_some() {
            break;
        }
        n += 2;
    }
    cx.finish();
}
