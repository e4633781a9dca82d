//! C17: compression. Compressors are driven directly, against an independent LZ4 codec; files
//! written with and without compression are compared chunk by chunk; chunks are relabelled with
//! algorithms nobody registered.
use parcode::compression::{Compressor, CompressorRegistry, Lz4Compressor, NoCompression};
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, catch};
use pcmon::probe::Probe;
use pcmon::refdec::{self, Expect, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Poke, Rooted, Walk};
use pcmon::work::*;
use pcmon::{guard, lz4};
use std::borrow::Cow;
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static A: guard::Capped = guard::Capped;

/// Bytes of every texture; true if any compressor worth its name must shrink them.
fn data(r: &mut Rng, big: bool) -> (Vec<u8>, bool) {
    let n = match r.below(10) {
        0 => r.below(4),
        1 => r.range(4, 20),
        2 => *r.pick(&[12, 13, 15, 16, 63, 64, 65, 255, 256, 270, 271, 4095, 4096, 65_535, 65_536, 65_537]),
        3..=5 => r.below(300),
        6..=7 => r.below(5000),
        8 => r.below(70_000),
        _ => r.below(if big { 3_000_000 } else { 300_000 }),
    };
    match r.below(7) {
        0 => (vec![r.u64() as u8; n], n >= 128),
        1 => {
            let k = r.range(1, 12);
            let p = r.bytes(k);
            ((0..n).map(|i| p[i % k]).collect(), n >= 256)
        }
        2 => (r.bytes(n), false),
        // Few symbols.
        3 => ((0..n).map(|_| r.below(3) as u8).collect(), n >= 4096),
        // Long matches at long distances.
        4 => {
            let k = n / 2;
            let mut v = r.bytes(k);
            let c = v.clone();
            v.extend(c);
            (v, false)
        }
        5 => ((0..n).map(|i| if i % 64 < 56 { 0 } else { r.u64() as u8 }).collect(), n >= 1024),
        _ => {
            let mut v = vec![];
            while v.len() < n {
                if r.chance(1, 2) || v.is_empty() {
                    let k = r.range(1, 40);
                    v.extend(r.bytes(k));
                } else {
                    let a = r.below(v.len());
                    let b = (a + r.range(1, 400)).min(v.len());
                    let c = v[a..b].to_vec();
                    v.extend(c);
                }
            }
            (v, false)
        }
    }
}
fn algebra(cx: &mut Cx, r: &mut Rng, big: bool) {
    let reg = CompressorRegistry::new();
    let (d, shrinks) = data(r, big);
    let k = r.below(4);
    let lz = k % 2 == 1;
    let c: &dyn Compressor = match k {
        0 => &NoCompression,
        1 => &Lz4Compressor,
        _ => match reg.get(u8::from(lz)) {
            Ok(c) => c,
            Err(e) => return cx.fail("registry", format!("algorithm {}: {e}", u8::from(lz))),
        },
    };
    cx.check(c.id() == u8::from(lz), "registry", || format!("algorithm {k} calls itself {}", c.id()));
    let what = |s: &str| format!("{s} of {} bytes with {c:?}", d.len());
    let Some(z) = cx.ok(c.compress(&d).map(Cow::into_owned), &what("compress")) else { return };
    match c.decompress(&z) {
        Ok(x) => {
            cx.check(*x == d[..], "reversible", || format!("{} comes back as {} bytes", what("compress"), x.len()));
        }
        Err(e) => cx.fail("reversible", format!("{}: {e}", what("decompress"))),
    }
    // Appending leaves what is there alone, however much room there is.
    let n = r.below(40);
    let pre = r.bytes(n);
    let mut out = Vec::with_capacity(*r.pick(&[0, 50, d.len() * 2 + 100]));
    out.extend_from_slice(&pre);
    if cx.ok(c.compress_append(&d, &mut out), &what("compress_append")).is_none() {
        return;
    }
    if !cx.check(out.len() >= pre.len() && out[..pre.len()] == pre[..], "append", || what("compress_append changed existing output")) {
        return;
    }
    let tail = &out[pre.len()..];
    match c.decompress(tail) {
        Ok(x) => {
            cx.check(*x == d[..], "reversible", || format!("{} comes back as {} bytes", what("compress_append"), x.len()));
        }
        Err(e) => cx.fail("reversible", format!("{}: {e}", what("decompress after compress_append"))),
    }
    for z in [&z[..], tail] {
        if lz {
            // The stored form is a plain LZ4 block, readable by anyone.
            match lz4::decode(z) {
                Ok(x) => {
                    cx.check(x == d, "lz4", || format!("{}: another decoder sees {} bytes", what("compress"), x.len()));
                }
                Err(e) => cx.fail("lz4", format!("{}: another decoder says {e}", what("compress"))),
            }
            if shrinks {
                cx.check(z.len() < d.len(), "size", || format!("{}: {} bytes", what("compress"), z.len()));
                cx.count("shrunk", 1);
            }
            // Worst case of the algorithm, generously.
            cx.check(z.len() <= d.len() + d.len() / 200 + 64, "size", || format!("{}: {} bytes", what("compress"), z.len()));
        } else {
            cx.check(z == &d[..], "identity", || what("no compression changed data:"));
        }
    }
    if lz {
        let other = lz4::encode(&d, r.chance(1, 2));
        match c.decompress(&other) {
            Ok(x) => {
                cx.check(*x == d[..], "lz4", || format!("another encoder's {} bytes come back as {}", d.len(), x.len()));
            }
            Err(e) => cx.fail("lz4", format!("another encoder's {} bytes: {e}", d.len())),
        }
        damage(cx, c, &z, &d, r);
    }
    cx.count("compressions", 2);
    cx.distinct(&(lz, &d));
}
fn damage(cx: &mut Cx, c: &dyn Compressor, z: &[u8], d: &[u8], r: &mut Rng) {
    for i in 0..12 {
        let mut b = z.to_vec();
        let what = match if i < 2 { i } else { r.below(7) } {
            0 => {
                b.truncate(r.below(z.len()));
                "truncated"
            }
            1 => {
                let v = *r.pick(&[0u32, 1, u32::MAX, u32::MAX / 2, d.len() as u32 + 1, (d.len() as u32).wrapping_sub(1), d.len() as u32 * 2 + 7]);
                b[..4].copy_from_slice(&v.to_le_bytes());
                "another size"
            }
            2 => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
                "one bit"
            }
            3 => {
                let k = r.range(1, 9);
                b.extend(r.bytes(k));
                "extended"
            }
            4 => {
                let k = r.below(b.len());
                let e = (k + r.range(1, 8)).min(b.len());
                b.drain(k..e);
                "cut out"
            }
            5 => {
                for _ in 0..r.range(1, 6) {
                    let k = r.below(b.len());
                    b[k] = *r.pick(&[0, 255, 15, 240, 1]);
                }
                "overwritten"
            }
            _ => {
                let k = r.below(60);
                b = r.bytes(k);
                "noise"
            }
        };
        guard::reset_peak();
        let base = guard::live();
        match catch(|| c.decompress(&b).map(Cow::into_owned)) {
            Err(m) => cx.fail("panic", format!("{what} ({} of {} bytes): {m}", b.len(), z.len())),
            Ok(Ok(x)) => {
                // Accepted: then it is all of what it says it is, and an LZ4 block says the same.
                let size = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                cx.check(x.len() == size, "partial", || format!("{what}: {} bytes restored of {size} declared", x.len()));
                cx.count("damage_accepted", 1);
            }
            Ok(Err(_)) => cx.count("damage_refused", 1),
        }
        let peak = guard::peak().saturating_sub(base);
        cx.check(peak <= 600 * b.len() + 65_536, "memory", || format!("{what}: {peak} bytes of memory for {} bytes of input", b.len()));
        cx.count("damaged_inputs", 1);
    }
}
#[derive(Debug)]
struct Own(u8, u8);
impl Compressor for Own {
    fn id(&self) -> u8 {
        self.0
    }
    fn compress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        Ok(d.iter().map(|b| b ^ self.1).collect())
    }
    fn decompress<'a>(&self, d: &'a [u8]) -> parcode::Result<Cow<'a, [u8]>> {
        self.compress(d)
    }
    fn compress_append(&self, d: &[u8], o: &mut Vec<u8>) -> parcode::Result<()> {
        o.extend(d.iter().map(|b| b ^ self.1));
        Ok(())
    }
}
fn registry(cx: &mut Cx, r: &mut Rng) {
    let mut reg = if r.chance(1, 2) { CompressorRegistry::new() } else { CompressorRegistry::default() };
    let mut own: std::collections::HashMap<u8, u8> = Default::default();
    for _ in 0..r.below(8) {
        let (id, key) = (*r.pick(&[0, 1, 2, 3, 6, 7, 8, 9, 16, 17, 100, 254, 255]), r.u64() as u8);
        reg.register(Box::new(Own(id, key)));
        own.insert(id, key);
    }
    for id in 0..=255u8 {
        let got = reg.get(id);
        match (own.get(&id), got) {
            (Some(k), Ok(c)) => {
                let out = c.compress(b"abc").map(Cow::into_owned);
                cx.check(c.id() == id && out.is_ok_and(|x| x == [b'a' ^ k, b'b' ^ k, b'c' ^ k]), "registry", || format!("algorithm {id} is not the one registered last"));
            }
            (None, Ok(c)) => {
                cx.check(id < 2 && c.id() == id, "registry", || format!("algorithm {id} exists, registered by nobody"));
            }
            (None, Err(_)) => {
                cx.check(id >= 2, "registry", || format!("built-in algorithm {id} is gone"));
            }
            (Some(_), Err(e)) => cx.fail("registry", format!("algorithm {id} was registered: {e}")),
        }
        cx.count("registry_lookups", 1);
    }
    cx.distinct(&own.iter().map(|(a, b)| (*a, *b)).collect::<std::collections::BTreeMap<_, _>>());
}
/// The tree without compression flags.
fn plain(n: &Node, out: &mut Vec<u8>) {
    out.extend((n.payload.len() as u64).to_le_bytes());
    out.extend(&n.payload);
    out.extend((n.kids.len() as u64).to_le_bytes());
    n.kids.iter().for_each(|k| plain(k, out));
}
fn relabel(file: &[u8], n: &Node, id: u8) -> Vec<u8> {
    let mut f = file.to_vec();
    let at = (n.off + n.len - 1) as usize;
    f[at] = f[at] & !0b1110 | id << 1;
    f
}
struct S {
    dir: std::path::PathBuf,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let r = &mut r;
        let v: T = value_large(r);
        let path = self.dir.join("f.par");
        let shape = v.shape(0, false);
        let mut trees = vec![];
        for on in [false, true] {
            let k = if on { *r.pick(&[9, 10, 11, 12]) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8]) };
            let Some(b) = cx.ok(write_with(k, &v, &path), WRITERS[k]) else { return };
            let root = match refdec::parse(&b) {
                Ok(n) => n,
                Err(e) => return cx.fail("format", format!("{}: {e}", WRITERS[k])),
            };
            // Requested where requested, and nowhere else.
            if let Err(e) = refdec::check(&root, &shape, Expect { global: on, lz4: true, flags: true }) {
                cx.fail("placement", format!("{} (compression {on}): {e}", WRITERS[k]));
            }
            let (mut stored, mut raw) = (0, 0);
            root.walk(
                &mut |n, _| {
                    if n.comp == 1 {
                        stored += n.raw_len;
                        raw += n.payload.len() as u64;
                        cx.count("compressed_chunks", 1);
                    } else {
                        cx.count("plain_chunks", 1);
                    }
                },
                0,
            );
            cx.check(stored <= raw + raw / 100 + 64 * root.count() as u64, "size", || format!("{}: {raw} bytes stored in {stored}", WRITERS[k]));
            for rk in [0, 1 + r.below(READERS.len() - 1)] {
                if let Some(x) = cx.ok(read_with::<T>(rk, &path, &b), READERS[rk]) {
                    cx.check(v.same(&x), "value", || format!("{} then {}", WRITERS[k], READERS[rk]));
                }
            }
            cx.count("files_compared", 1);
            trees.push((b, root));
        }
        let (mut a, mut b) = (vec![], vec![]);
        plain(&trees[0].1, &mut a);
        plain(&trees[1].1, &mut b);
        cx.check(a == b, "transparent", || format!("{} chunks without, {} with compression, or other contents", trees[0].1.count(), trees[1].1.count()));
        if let Some(f) = cx.ok(Parcode::open_bytes(std::mem::take(&mut trees[1].0)), "open") {
            let mut w = Walk { r: r.clone(), samples: 2, visits: 60 };
            v.lazy_root(&f, cx, &mut w);
        }
        cx.distinct(&(name, &a));
        cx.sample(|| format!("{name}: {} bytes of payload in {} chunks", a.len(), trees[0].1.count()));
        // Algorithms nobody registered.
        let file = if r.chance(1, 2) { std::mem::take(&mut trees[0].0) } else { refenc::encode(&shape, &Layout::random(r, true), r).file };
        let Ok(root) = refdec::parse(&file) else { return };
        let mut nodes = vec![];
        root.walk(&mut |n, _| nodes.push(n), 0);
        for _ in 0..4 {
            let n = nodes[r.below(nodes.len())];
            let id = r.range(2, 7) as u8;
            let g = relabel(&file, n, id);
            let Ok(f) = ParcodeFile::from_bytes(g) else { continue };
            match catch(|| f.load::<T>()) {
                Err(m) => cx.fail("panic", format!("{name}: chunk with algorithm {id}: {m}")),
                Ok(Ok(x)) => {
                    // Only a chunk whose payload is never looked at could go unnoticed.
                    let ignored = n.payload.is_empty() || n.payload.len() <= 12 && !n.kids.is_empty();
                    if !v.same(&x) {
                        cx.fail("wrong data", format!("{name}: chunk of {} bytes with algorithm {id} was read as something else", n.len));
                    } else if !ignored {
                        cx.fail("unnoticed", format!("{name}: chunk of {} bytes with algorithm {id}, which nobody registered, was read", n.len));
                    }
                    cx.count("unknown_algorithm_irrelevant", 1);
                }
                Ok(Err(_)) => cx.count("unknown_algorithm_refused", 1),
            }
            let mut w = Poke::new(r.clone(), 300);
            if let Err(m) = catch(|| T::poke_root(&f, &mut w)) {
                cx.fail("panic", format!("{name}: chunk with algorithm {id}: {m}"));
            }
        }
    }
}
/// Whole files of redundant data shrink.
fn shrinking(cx: &mut Cx, r: &mut Rng) {
    let n = r.range(2000, 60_000);
    let text: Vec<String> = (0..n).map(|i| format!("entry number {}", i % 10)).collect();
    let nums: Vec<u64> = (0..n).map(|i| i as u64 % 5).collect();
    let size = |c: bool| {
        let mut out = (vec![], vec![]);
        let ok = Parcode::builder().compression(c).write(&mut out.0, &text).is_ok() && Parcode::builder().compression(c).write_sync(&mut out.1, &nums).is_ok();
        ok.then_some((out.0.len(), out.1.len()))
    };
    match (size(false), size(true)) {
        (Some(a), Some(b)) => {
            cx.check(b.0 * 2 < a.0 && b.1 * 2 < a.1, "size", || format!("{n} redundant items: {a:?} bytes, compressed {b:?}"));
        }
        _ => cx.fail("error", "write"),
    }
    cx.count("shrinking_files", 2);
    cx.distinct(&("shrink", n));
}

fn main() {
    let args = Args::parse();
    guard::SINGLE.store(1 << 30, SeqCst);
    let mut cx = Cx::new("C17", &args, 24, 420);
    let dir = scratch(&args, "c17");
    std::fs::create_dir_all(&dir).unwrap();
    let part = args.num("part", 0);
    if part == 0 {
        // Heap is watched: one thread.
        let mut n = 0;
        while cx.go() {
            let mut r = Rng::derive(args.seed, "c17", n);
            cx.begin(format!("seed={} part=0 n={n}", args.seed));
            cx.guard(|cx| match n % 40 {
                0 => registry(cx, &mut r),
                1 => shrinking(cx, &mut r),
                2..=5 => {
                    let p = Probe::random(&mut r, *[1, 4, 30].get(n as usize % 3).unwrap());
                    let (global, sync) = (r.chance(1, 2), r.chance(1, 2));
                    p.clear();
                    let mut b = vec![];
                    let w = Parcode::builder().compression(global);
                    let res = if sync { w.write_sync(&mut b, &p) } else { w.write(&mut b, &p) };
                    if cx.ok(res, "write").is_some()
                        && let Err(e) = refdec::parse(&b).and_then(|root| p.check(&root, global, true))
                    {
                        cx.fail("placement", format!("graph (sync {sync}): {e}"));
                    }
                    cx.count("graphs", 1);
                }
                _ => algebra(cx, &mut r, args.thorough),
            });
            n += 1;
        }
    } else {
        cycle(&mut cx, &args, "c17", part, 16, S { dir });
    }
    cx.finish();
}
