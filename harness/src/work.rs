//! Shared workload pieces: case generation, every write and read entry point, worker threads.
use crate::cx::{Args, Cx};
use crate::rng::Rng;
use crate::val::{G, Poke, Rooted};
use crate::zoo;
use parcode::reader::ChunkNode;
use parcode::visitor::ParcodeVisitor;
use parcode::{Parcode, ParcodeError, ParcodeFile};
use std::io::{BufWriter, Cursor};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type R<T> = Result<T, ParcodeError>;

/// Budget of elements for case `n`: mostly small, regularly large enough for many shards.
pub fn budget(r: &mut Rng) -> usize {
    match r.below(24) {
        0..=9 => 60,
        10..=17 => 900,
        18..=22 => 9000,
        _ => 90_000,
    }
}
pub fn value<T: Rooted>(r: &mut Rng) -> T {
    let b = budget(r);
    value_of(r, b)
}
/// Like `value`, and now and then with strings of 64 KiB to 40 MiB (if the type holds strings at
/// all): beyond the writer's buffer, which is 16 MiB.
pub fn value_large<T: Rooted>(r: &mut Rng) -> T {
    if !r.chance(1, 120) {
        return value(r);
    }
    let mut g = G::new(r.clone(), if r.chance(1, 2) { 60 } else { 900 });
    r.u64();
    (g.large, g.large_len) = match r.below(4) {
        0 => (r.range(1, 40), 1 << r.range(16, 18)),
        1 => (r.range(1, 8), 1 << r.range(19, 22)),
        2 => (1, (1 << 24) + r.below(40)),
        _ => (r.range(1, 2), r.range(17 << 20, 40 << 20)),
    };
    T::mk(&mut g)
}
pub fn value_of<T: Rooted>(r: &mut Rng, budget: usize) -> T {
    let mut g = G::new(r.clone(), budget);
    r.u64();
    T::mk(&mut g)
}

pub const WRITERS: [&str; 14] = [
    "save", "save_sync", "write", "write_sync", "serialize", "b.save", "b.save_sync", "b.write", "b.write_sync", "b.save+c",
    "b.save_sync+c", "b.write+c", "b.write_sync+c", "write(BufWriter<Cursor>)",
];
pub fn writer_global(k: usize) -> bool {
    (9..=12).contains(&k)
}
pub fn writer_file(k: usize) -> bool {
    matches!(k, 0 | 1 | 5 | 6 | 9 | 10)
}
pub fn writer_sync(k: usize) -> bool {
    matches!(k, 1 | 3 | 6 | 8 | 10 | 12)
}
/// Writes `v` with entry point `k`; leaves the bytes at `path` as well, and returns them.
pub fn write_with<T: ParcodeVisitor + Sync>(k: usize, v: &T, path: &Path) -> R<Vec<u8>> {
    let mut buf: Vec<u8> = vec![];
    let c = |on: bool| Parcode::builder().compression(on);
    match k {
        0 => Parcode::save(path, v)?,
        1 => Parcode::save_sync(path, v)?,
        2 => Parcode::write(&mut buf, v)?,
        3 => Parcode::write_sync(&mut buf, v)?,
        4 => buf = Parcode::serialize(v)?,
        5 => c(false).save(path, v)?,
        6 => c(false).save_sync(path, v)?,
        7 => c(false).write(&mut buf, v)?,
        8 => c(false).write_sync(&mut buf, v)?,
        9 => c(true).save(path, v)?,
        10 => c(true).save_sync(path, v)?,
        11 => c(true).write(&mut buf, v)?,
        12 => c(true).write_sync(&mut buf, v)?,
        _ => {
            let mut w = BufWriter::new(Cursor::new(vec![]));
            Parcode::write(&mut w, v)?;
            buf = w.into_inner().map_err(|e| ParcodeError::Internal(e.to_string()))?.into_inner();
        }
    }
    if writer_file(k) {
        buf = std::fs::read(path)?;
    } else {
        std::fs::write(path, &buf)?;
    }
    Ok(buf)
}

pub const READERS: [&str; 8] = [
    "load", "load_bytes(Vec)", "load_bytes(Arc)", "open.load", "open_bytes.load", "ParcodeFile::open.load", "from_bytes.load", "from_node",
];
pub fn read_with<T: Rooted>(k: usize, path: &Path, bytes: &[u8]) -> R<T> {
    match k {
        0 => Parcode::load(path),
        1 => Parcode::load_bytes(bytes.to_vec()),
        2 => Parcode::load_bytes(Arc::new(bytes.to_vec())),
        3 => Parcode::open(path)?.load(),
        4 => Parcode::open_bytes(bytes.to_vec())?.load(),
        5 => ParcodeFile::open(path)?.load(),
        6 => ParcodeFile::from_bytes(Arc::new(bytes.to_vec()))?.load(),
        _ => {
            let f = ParcodeFile::open(path)?;
            let n = f.root_node()?;
            T::from_node(&n)
        }
    }
}

/// Runs `f(thread, cx)` on several threads and merges the verdicts.
pub fn threads(cx: &mut Cx, n: usize, f: impl Fn(usize, &mut Cx) + Sync) {
    let parts: Vec<Cx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let mut c = cx.fork(t);
                let f = &f;
                s.spawn(move || {
                    f(t, &mut c);
                    c
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness thread")).collect()
    });
    for p in parts {
        cx.merge(p);
    }
}

pub fn scratch(args: &Args, name: &str) -> PathBuf {
    Path::new(&args.work).join(name)
}

/// One generic step over every zoo type, with per-case randomness, panics turned into verdicts,
/// and selection of a single case for replay (`--type`, `--n`).
pub trait Step {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, r: Rng);
}
pub struct Loop<'a, S> {
    pub s: &'a mut S,
    pub cx: &'a mut Cx,
    pub args: &'a Args,
    pub label: &'a str,
    pub n: u64,
}
impl<S: Step> zoo::Each for Loop<'_, S> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        if self.args.get("type").is_some_and(|t| t != name) || !self.cx.go() {
            return;
        }
        let r = Rng::derive(self.args.seed, self.label, self.n.wrapping_mul(1009) ^ crate::cx::hash64(name));
        self.cx.begin(format!("seed={} type={name} n={}", self.args.seed, self.n));
        let s = &mut *self.s;
        self.cx.guard(|cx| s.step::<T>(cx, name, r));
    }
}
/// Cycles through the zoo until the time budget is used; at least `min` rounds in full.
pub fn cycle<S: Step>(cx: &mut Cx, args: &Args, label: &str, start: u64, stride: u64, s: S) {
    cycle_over(cx, args, label, start, stride, s, |l| zoo::each(l));
}
/// The same over another set of types.
pub fn cycle_over<S: Step>(cx: &mut Cx, args: &Args, label: &str, start: u64, stride: u64, mut s: S, each: impl Fn(&mut Loop<'_, S>)) {
    let only = args.get("n").and_then(|v| v.parse::<u64>().ok());
    let mut n = only.unwrap_or(start);
    while cx.go() {
        each(&mut Loop { s: &mut s, cx, args, label, n });
        if only.is_some() {
            break;
        }
        n += stride;
    }
}

/// Everything a user can do with an untrusted file, as type `T` and without a type: opening,
/// eager loading, lazy exploration, iteration, lookup, inspection, raw chunk navigation.
pub fn exercise<T: Rooted>(f: &ParcodeFile, w: &mut Poke) {
    w.see(f.load::<T>());
    T::poke_root(f, w);
    if let Ok(rep) = f.inspect() {
        w.oks += 1;
        w.sink ^= rep.to_string().len() as u64;
    }
    if let Ok(n) = f.root_node() {
        navigate(&n, w, 0);
        w.see(T::from_node(&n));
    }
}
/// Walks chunks through the untyped public API, reading them as a few fixed types.
pub fn navigate(n: &ChunkNode<'_>, w: &mut Poke, depth: u32) {
    if !w.burn() || depth > 8 {
        return;
    }
    w.sink ^= n.len() ^ n.offset() ^ n.length() ^ n.payload_len() ^ u64::from(n.child_count()) ^ u64::from(n.meta().as_u8()) ^ u64::from(n.is_empty());
    if let Ok(p) = n.read_raw() {
        w.touch(&p.as_ref()[..p.len().min(4096)]);
    }
    // (The checks come before anything else looks at what was read.)
    match w.r.below(10) {
        0 => drop(w.see(n.decode::<(u64, u64)>())),
        6 => {
            if let Ok(v) = n.decode_parallel_collection::<bool>() {
                w.sound_bools(&v);
            }
        }
        7 => {
            let i = w.r.below(40);
            if let Ok(b) = n.get::<bool>(i) {
                w.sound_bools(&[b]);
            }
        }
        8 => {
            // (A short one: bincode allocates what the length claims, a known finding of C09.)
            let short = matches!(n.read_raw(), Ok(p) if p.first().is_some_and(|b| *b <= 250));
            if short && let Ok(v) = n.decode::<String>() {
                w.sound_strs(&[v]);
            }
        }
        9 => {
            if let Ok(it) = n.clone().iter::<bool>() {
                for b in it.take(w.iter_max).map_while(Result::ok) {
                    w.sound_bools(&[b]);
                }
            }
        }
        1 => drop(w.see(n.decode::<Vec<u16>>())),
        2 => drop(w.see(n.decode_parallel_collection::<u8>())),
        3 => drop(w.see(n.decode_parallel_collection::<u32>())),
        4 => {
            let i = w.r.below(40);
            w.see(n.get::<u16>(i));
        }
        _ => {
            if let Ok(it) = n.clone().iter::<u64>() {
                for x in it.take(w.iter_max) {
                    w.see(x);
                }
            }
        }
    }
    let c = n.child_count() as usize;
    for i in [c, c.wrapping_sub(1), usize::MAX] {
        if let Ok(k) = n.get_child_by_index(i) {
            w.sink ^= k.length();
        }
    }
    if let Ok(ks) = n.children() {
        for k in ks.iter().take(3) {
            navigate(k, w, depth + 1);
        }
    }
}
