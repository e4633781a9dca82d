//! C04: every file the writer produces is parsed by the reference decoder and compared, chunk by
//! chunk, with what the documented format says about the value.
use pcmon::big;
use pcmon::cx::{Args, Cx};
use pcmon::refdec::{self, Expect};
use pcmon::rng::Rng;
use pcmon::val::Rooted;
use pcmon::work::*;

struct S {
    dir: std::path::PathBuf,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let v: T = value_large(&mut r);
        self.one(cx, name, r, v);
    }
}
impl S {
    fn one<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng, v: T) {
        let shape = v.shape(0, false);
        let sig = shape.signature();
        let mut ws: Vec<usize> = (0..WRITERS.len()).collect();
        r.shuffle(&mut ws);
        for &k in ws.iter().take(3) {
            let bytes = match write_with(k, &v, &self.dir.join("f.par")) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("write", format!("{}: {e}", WRITERS[k]));
                    continue;
                }
            };
            let root = match refdec::parse(&bytes) {
                Ok(n) => n,
                Err(e) => {
                    cx.fail("format", format!("{}: {e}", WRITERS[k]));
                    continue;
                }
            };
            cx.count("files_parsed", 1);
            let n = root.count() as u64;
            cx.count("chunks_checked", n);
            cx.max("max_chunks", n);
            if let Err(e) = refdec::check_tiling(&bytes, &root) {
                cx.fail("placement", format!("{}: {e}", WRITERS[k]));
            }
            let ex = Expect { global: writer_global(k), lz4: cfg!(feature = "lz4"), flags: true };
            if let Err(e) = refdec::check(&root, &shape, ex) {
                cx.fail("payload", format!("{}: {e}", WRITERS[k]));
            }
            if sig.len() > 3 {
                cx.distinct(&(name, writer_global(k), writer_sync(k), &sig));
            }
            cx.sample(|| format!("{name} via {}: {} bytes, {n} chunks, placement {:?}", WRITERS[k], bytes.len(), root.placement().iter().take(20).collect::<Vec<_>>()));
        }
    }
}
/// A file of more than 4 GiB.
fn huge(cx: &mut Cx, args: &Args, dir: &std::path::Path, n: u64) {
    let mut r = Rng::derive(args.seed, "c04-huge", n);
    cx.begin(format!("seed={} type=huge n={n}", args.seed));
    let p = dir.join("huge.par");
    let (v, sync) = (big::value(&mut r), n % 2 == 1);
    cx.guard(|cx| {
        if cx.ok(big::write(&p, &v, sync), "write").is_some() {
            let f = big::Mapped::open(&p).unwrap();
            if let Err(e) = big::verify(&f, &v) {
                cx.fail("format", format!("{} bytes: {e}", f.len()));
            }
            cx.max("max_file_bytes", f.len() as u64);
        }
    });
    cx.count("huge_files", 1);
    let _ = std::fs::remove_file(&p);
}
/// Shards of more than 65 535 items.
fn millions(cx: &mut Cx, args: &Args, s: &mut S, n: u64) {
    let mut r = Rng::derive(args.seed, "c04-millions", n);
    cx.begin(format!("seed={} type=millions n={n}", args.seed));
    let k = r.range(2_200_000, 3_200_000);
    cx.guard(|cx| {
        let d = r.u64();
        match n % 3 {
            0 => s.one(cx, "millions of bool", r, big::millions(d, k, |x| x & 1 == 1)),
            1 => s.one(cx, "millions of i8", r, big::millions(d, k, |x| x as i8)),
            // (The first items are small, and the average size is taken from those.)
            _ => s.one(cx, "millions of u16", r, big::millions(d, k, |x| if x % 5 == 0 { x as u16 } else { x as u16 & 63 })),
        }
    });
    cx.count("million_item_values", 1);
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C04", &args, 22, 420);
    threads(&mut cx, 4, |t, cx| {
        let dir = scratch(&args, &format!("c04-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut s = S { dir: dir.clone() };
        match (args.get("type"), args.get("n")) {
            (Some("huge"), _) if t > 0 => return,
            (Some("huge"), _) => return huge(cx, &args, &dir, args.num("n", 0)),
            (Some("millions"), _) if t > 0 => return,
            (Some("millions"), _) => return millions(cx, &args, &mut s, args.num("n", 0)),
            (None, None) if t == 2 => (0..3).for_each(|n| millions(cx, &args, &mut s, n)),
            (None, None) if t < 2 => huge(cx, &args, &dir, t as u64),
            _ => {}
        }
        cycle(cx, &args, "c04", t as u64, 4, s);
    });
    cx.finish();
}
