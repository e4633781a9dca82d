//! C14: builds of every feature combination on one, two or all processors write files
//! (`--emit FILE`), and builds of every combination read all of them (`--verify FILES`).
use parcode::compression::CompressorRegistry;
use parcode::reader::ChunkNode;
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, catch, hash64};
use pcmon::refdec::{self, Expect, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Poke, Rooted, Walk};
use pcmon::work::*;
use pcmon::zoo;
use std::path::PathBuf;

const LZ4: bool = cfg!(feature = "lz4");
const TAG: &str = match (cfg!(feature = "parallel"), cfg!(feature = "mmap"), LZ4) {
    (true, true, true) => "parallel+mmap+lz4",
    (true, true, false) => "parallel+mmap",
    (true, false, true) => "parallel+lz4",
    (true, false, false) => "parallel",
    (false, true, true) => "mmap+lz4",
    (false, true, false) => "mmap",
    (false, false, true) => "lz4",
    (false, false, false) => "none",
};
fn cpus(n: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut have);
        let mut want: libc::cpu_set_t = std::mem::zeroed();
        let all: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
        // Processes running side by side should not all sit on the first processor.
        let start = std::process::id() as usize % all.len();
        (0..n.min(all.len())).for_each(|i| libc::CPU_SET(all[(start + i) % all.len()], &mut want));
        libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &want);
    }
}
/// The value of case `n`: the same in every build.
fn case<T: Rooted>(seed: u64, name: &str, n: u64) -> (T, Rng) {
    let mut r = Rng::derive(seed, "c14", n.wrapping_mul(1009) ^ hash64(name));
    let b = [40, 400, 400, 4000, 40_000][r.below(5)];
    let v = value_of(&mut r, b);
    (v, r)
}

struct Emit {
    seed: u64,
    n: u64,
    path: PathBuf,
    out: Vec<u8>,
    cpus: u64,
}
impl Step for Emit {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, _: Rng) {
        let (v, _) = case::<T>(self.seed, name, self.n);
        // Writers vary from build to build.
        let k = Rng::derive(self.seed, TAG, self.n ^ hash64(name) ^ self.cpus).below(WRITERS.len());
        let Some(b) = cx.ok(write_with(k, &v, &self.path), WRITERS[k]) else { return };
        // What was asked for, stored as far as this build can.
        let ex = Expect { global: writer_global(k), lz4: LZ4, flags: true };
        if let Err(e) = refdec::parse(&b).and_then(|n| refdec::check(&n, &v.shape(0, false), ex)) {
            cx.fail("format", format!("{}: {e}", WRITERS[k]));
        }
        for x in [name.len() as u64, self.n, k as u64, b.len() as u64] {
            self.out.extend(x.to_le_bytes());
        }
        self.out.extend(name.as_bytes());
        self.out.extend(&b);
        cx.count("files_written", 1);
    }
}
struct Record {
    name: String,
    n: u64,
    k: usize,
    bytes: Vec<u8>,
}
fn records(mut b: &[u8]) -> Vec<Record> {
    let mut v = vec![];
    while !b.is_empty() {
        let mut u = || {
            let x = u64::from_le_bytes(b[..8].try_into().unwrap());
            b = &b[8..];
            x
        };
        let (name, n, k, len) = (u() as usize, u(), u() as usize, u() as usize);
        v.push(Record { name: String::from_utf8(b[..name].to_vec()).unwrap(), n, k, bytes: b[name..name + len].to_vec() });
        b = &b[name + len..];
    }
    v
}

struct Verify {
    seed: u64,
    /// (features, processors, files), one per emitting process.
    from: Vec<(String, String, Vec<Record>)>,
    dir: PathBuf,
}
/// Chunks as this build sees them: those it cannot restore are errors, all others are right.
fn chunks(c: &ChunkNode<'_>, n: &Node, cx: &mut Cx) -> Result<(), String> {
    let bad = |m: String| Err(format!("chunk at {}: {m}", n.off));
    match (c.read_raw(), n.comp == 0 || LZ4) {
        (Ok(p), true) if p[..] == n.payload[..] => cx.count("chunks_restored", 1),
        (Ok(p), true) => return bad(format!("{} bytes, or other ones, instead of {}", p.len(), n.payload.len())),
        (Err(e), true) => return bad(e.to_string()),
        (Ok(_), false) => return bad("restored without its algorithm".into()),
        (Err(_), false) => cx.count("chunks_refused", 1),
    }
    match c.children() {
        Ok(ks) if ks.len() == n.kids.len() => ks.iter().zip(&n.kids).try_for_each(|(k, n)| chunks(k, n, cx)),
        Ok(ks) => bad(format!("{} children instead of {}", ks.len(), n.kids.len())),
        Err(e) => bad(e.to_string()),
    }
}
impl Verify {
    fn read<T: Rooted>(&self, cx: &mut Cx, v: &T, bytes: &[u8], root: &Node, r: &mut Rng) {
        let path = self.dir.join("f.par");
        if std::fs::write(&path, bytes).is_err() {
            return;
        }
        let (mut uses, mut ignorable) = (false, true);
        root.walk(
            &mut |n, _| {
                uses |= n.comp != 0;
                ignorable &= n.comp == 0 || n.payload.is_empty() || n.payload.len() <= 12 && !n.kids.is_empty();
            },
            0,
        );
        let able = LZ4 || !uses;
        for k in [r.below(READERS.len()), r.below(READERS.len())] {
            match read_with::<T>(k, &path, bytes) {
                Ok(x) => {
                    cx.check(v.same(&x), "value", || READERS[k].to_string());
                    cx.check(able || ignorable, "unnoticed", || format!("{} of data in an algorithm this build does not have", READERS[k]));
                    cx.count("values_read", 1);
                }
                Err(e) if able => cx.fail("error", format!("{}: {e}", READERS[k])),
                Err(_) => cx.count("refused_without_lz4", 1),
            }
        }
        let f = if r.chance(1, 2) { Parcode::open(&path) } else { ParcodeFile::from_bytes(bytes.to_vec()) };
        let Some(f) = cx.ok(f, "open") else { return };
        let mut w = Walk { r: r.clone(), samples: 2, visits: 80 };
        if able {
            v.lazy_root(&f, cx, &mut w);
        } else {
            // Errors are fine, wrong answers are not.
            cx.tolerate = Some("not registered or available");
            cx.guard(|cx| v.lazy_root(&f, cx, &mut w));
            cx.tolerate = None;
            let mut p = Poke::new(r.clone(), 100);
            T::poke_root(&f, &mut p);
        }
        match f.root_node() {
            Ok(n) => {
                if let Err(e) = chunks(&n, root, cx) {
                    cx.fail("chunk", e);
                }
            }
            Err(e) => cx.fail("error", format!("root_node: {e}")),
        }
        if let Some(rep) = cx.ok(f.inspect(), "inspect") {
            let lines = rep.to_string().lines().filter(|l| l.contains("Algo:")).count();
            cx.check(lines == root.count(), "report", || format!("{lines} chunks reported of {}", root.count()));
        }
        // Incomplete files are refused whatever the build.
        let n = if r.chance(1, 3) { bytes.len() - 1 - r.below(bytes.len().min(30)) } else { r.below(bytes.len()) };
        if std::fs::write(&path, &bytes[..n]).is_ok() && refdec::parse(&bytes[..n]).is_err() {
            for k in [0, 1, 3] {
                let res = catch(|| read_with::<T>(k, &path, &bytes[..n]).is_ok());
                cx.check(matches!(res, Ok(false)), "incomplete", || format!("{} of {n} of {} bytes: {res:?}", READERS[k], bytes.len()));
            }
            cx.count("prefixes", 1);
        }
    }
}
impl Step for Verify {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let mut from = std::mem::take(&mut self.from);
        let mut trees = std::collections::HashMap::<u64, Vec<Vec<u8>>>::new();
        for (feat, procs, recs) in &mut from {
            let (mine, rest): (Vec<Record>, Vec<Record>) = recs.drain(..).partition(|x| x.name == name);
            *recs = rest;
            for rec in mine {
                let (v, _) = case::<T>(self.seed, name, rec.n);
                let case = format!("seed={} type={name} n={} written by {feat} on {procs} cpus with {}, read by {TAG}", self.seed, rec.n, WRITERS[rec.k]);
                cx.begin(case);
                let root = match refdec::parse(&rec.bytes) {
                    Ok(x) => x,
                    Err(e) => {
                        cx.fail("format", e);
                        continue;
                    }
                };
                if let Err(e) = refdec::check_tiling(&rec.bytes, &root) {
                    cx.fail("format", e);
                }
                let mut compressed = false;
                root.walk(&mut |n, _| compressed |= n.comp != 0, 0);
                if compressed {
                    cx.count("lz4_files", 1);
                }
                cx.guard(|cx| self.read(cx, &v, &rec.bytes, &root, &mut r));
                cx.count("files_read", 1);
                cx.count(&format!("from {feat} on {procs} cpus"), 1);
                cx.distinct(&(name, TAG, feat.as_str(), procs.as_str(), &rec.bytes));
                let mut shape = vec![];
                fn outline(n: &Node, out: &mut Vec<u8>) {
                    out.extend((n.kids.len() as u32).to_le_bytes());
                    n.kids.iter().for_each(|k| outline(k, out));
                }
                outline(&root, &mut shape);
                trees.entry(rec.n).or_default().push(shape);
            }
        }
        for (n, mut t) in trees {
            t.sort();
            t.dedup();
            if t.len() > 1 {
                cx.count("values_laid_out_differently", 1);
                cx.sample(|| format!("{name} n={n}: {} chunk trees among the writing builds", t.len()));
            }
        }
        // Files nobody here would write.
        for i in 0..3 {
            let (v, mut q) = case::<T>(self.seed, name, 1000 + i);
            let lay = Layout::random(&mut q, i != 0);
            let b = refenc::encode(&v.shape(0, false), &lay, &mut q).file;
            cx.begin(format!("seed={} type={name} n={} foreign layout, read by {TAG}", self.seed, 1000 + i));
            if let Some(root) = cx.ok(refdec::parse(&b), "reference encoder") {
                cx.guard(|cx| self.read(cx, &v, &b, &root, &mut q));
                cx.count("foreign_layouts", 1);
                cx.distinct(&(name, TAG, &b));
            }
        }
        self.from = from;
    }
}
/// Files and chunks of many megabytes, by every way of reading.
fn large(cx: &mut Cx, v: &Verify) {
    let mut r = Rng::derive(v.seed, TAG, 77);
    cx.begin(format!("seed={} large file by {TAG}", v.seed));
    cx.guard(|cx| {
        let mut x: Vec<String> = value_of(&mut r, 400);
        for _ in 0..r.range(1, 3) {
            let n = [1 << 20, 1 << 24, 20 << 20, 40 << 20][r.below(4)] + r.below(3000);
            let s: String = (0..n / 8).map(|i| ["parcode.", "12345678", "abcdefgh"][(i.wrapping_mul(2_654_435_761) >> 16) % 3]).collect();
            let at = r.below(x.len() + 1);
            x.insert(at, s);
        }
        let path = v.dir.join("large.par");
        let w = r.below(WRITERS.len());
        let Some(b) = cx.ok(write_with(w, &x, &path), WRITERS[w]) else { return };
        let Some(root) = cx.ok(refdec::parse(&b), "format") else { return };
        cx.check(refdec::check(&root, &x.shape(0, false), Expect { global: writer_global(w), lz4: LZ4, flags: true }).is_ok(), "format", || WRITERS[w].into());
        drop(root);
        std::fs::write(&path, &b).unwrap();
        for k in 0..READERS.len() {
            if let Some(y) = cx.ok(read_with::<Vec<String>>(k, &path, &b), READERS[k]) {
                cx.check(x == y, "value", || format!("{} of {} bytes", READERS[k], b.len()));
            }
        }
        cx.max("max_large_file", b.len() as u64);
        let _ = std::fs::remove_file(&path);
    });
    cx.count("large_files", 1);
}
struct Once<'a, S>(&'a mut S, &'a mut Cx, &'a Args);
impl<S: Step> zoo::Each for Once<'_, S> {
    fn visit<T: Rooted>(&mut self, name: &'static str) {
        if self.2.get("type").is_some_and(|t| t != name) || !self.1.go() {
            return;
        }
        let s = &mut *self.0;
        let r = Rng::derive(self.2.seed, name, 3);
        self.1.begin(format!("type={name} by {TAG}"));
        self.1.guard(|cx| s.step::<T>(cx, name, r));
    }
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C14", &args, 400, 2400);
    let n = args.num("cpus", 64);
    cpus(n as usize);
    let dir = scratch(&args, "c14");
    std::fs::create_dir_all(&dir).unwrap();
    let reg = CompressorRegistry::new();
    cx.check(reg.get(0).is_ok() && reg.get(1).is_ok() == LZ4, "registry", || format!("algorithms of {TAG}"));
    if let Some(out) = args.get("emit") {
        let mut e = Emit { seed: args.seed, n: 0, path: dir.join("w.par"), out: vec![], cpus: n };
        for i in 0..args.num("rounds", 2) {
            e.n = i;
            zoo::each(&mut Once(&mut e, &mut cx, &args));
        }
        std::fs::write(out, &e.out).unwrap();
    } else {
        let from = args
            .get("verify")
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|p| {
                // FEATURES@CPUS.rec
                let (f, c) = p.rsplit('/').next().unwrap().trim_end_matches(".rec").split_once('@').unwrap();
                (f.to_string(), c.to_string(), records(&std::fs::read(p).unwrap()))
            })
            .collect();
        let mut v = Verify { seed: args.seed, from, dir };
        if args.get("type").is_none_or(|t| t == "large") {
            large(&mut cx, &v);
        }
        zoo::each(&mut Once(&mut v, &mut cx, &args));
        cx.check(true, "", String::new);
    }
    cx.finish();
}
