//! C05: conforming files laid out by the reference encoder with every freedom the format leaves
//! (shard splits, run tables, bucket counts, chunk order, gaps, per-chunk compression) must read
//! back as the value they encode, eagerly and lazily.
use parcode::{Parcode, ParcodeFile};
use pcmon::big::Mapped;
use pcmon::cx::{Args, Cx};
use pcmon::refdec::{self, Expect};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Rooted, Walk};
use pcmon::work::*;

struct S {
    dir: std::path::PathBuf,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let b = [60, 60, 60, 900, 900, 9000][r.below(6)];
        let v: T = value_of(&mut r, b);
        // Files beyond 4 GiB, almost all of them a hole.
        let far = cfg!(feature = "mmap") && r.chance(1, 40);
        self.check(cx, name, r, &v, |l| (l.far, l.align) = (far, if far { 0 } else { l.align }), 2);
    }
}
impl S {
    fn check<T: Rooted>(&self, cx: &mut Cx, name: &str, mut r: Rng, v: &T, fix: impl Fn(&mut Layout), rounds: usize) {
        let shape = v.shape(0, false);
        let sig = shape.signature();
        for _ in 0..rounds {
            let mut lay = Layout::random(&mut r, cfg!(feature = "lz4"));
            fix(&mut lay);
            let lay = lay;
            let enc = refenc::encode(&shape, &lay, &mut r);
            // The two reference models must agree before either may judge the code.
            let path = self.dir.join("f.par");
            let far = if lay.far {
                enc.write(&path).unwrap();
                Some(Mapped::open(&path).unwrap())
            } else {
                None
            };
            let self_check = refdec::parse(far.as_deref().unwrap_or(&enc.file)).and_then(|n| refdec::check(&n, &shape, Expect { global: false, lz4: true, flags: false }));
            if let Err(e) = self_check {
                eprintln!("harness error: reference models disagree on {name}: {e}");
                std::process::exit(9);
            }
            cx.count("files_encoded", 1);
            cx.count("chunks_encoded", enc.chunks.len() as u64);
            cx.count("shards_encoded", enc.shards as u64);
            let mapped = lay.far || r.chance(1, 3);
            let f = if lay.far {
                cx.count("far_files", 1);
                Parcode::open(&path)
            } else if mapped {
                std::fs::write(&path, &enc.file).unwrap();
                Parcode::open(&path)
            } else {
                ParcodeFile::from_bytes(enc.file)
            };
            let desc = || format!("{lay:?} mapped={mapped} {} chunks", enc.chunks.len());
            let Some(f) = cx.ok(f, &desc()) else { return };
            match f.load::<T>() {
                Err(e) => cx.fail("eager", format!("{}: {e}", desc())),
                Ok(x) => {
                    cx.check(v.same(&x), "eager", || format!("{}: {v:.200?} became {x:.200?}", desc()));
                }
            }
            cx.at(desc(), |cx| v.lazy_root(&f, cx, &mut Walk::new(r.clone())));
            if sig.len() > 3 {
                cx.distinct(&(name, &sig, format!("{lay:?}")));
            }
            cx.sample(|| format!("{name}: {}", desc()));
        }
    }
}
/// More shards and more buckets than 16 bits can count.
fn wide(cx: &mut Cx, s: &S, args: &Args, n: u64) {
    let mut r = Rng::derive(args.seed, "c05-wide", n);
    cx.begin(format!("seed={} type=wide n={n}", args.seed));
    let k = r.range(65_500, 72_000);
    cx.guard(|cx| match n % 3 {
        0 => {
            let v: Vec<u64> = (0..k).map(|_| r.u64()).collect();
            let fix = |l: &mut Layout| (l.max_shards, l.split) = (usize::MAX, 1);
            s.check(cx, "wide vector", r, &v, fix, 1);
        }
        1 => {
            let v: Vec<String> = (0..k * 2).map(|i| i.to_string()).collect();
            let fix = |l: &mut Layout| (l.max_shards, l.split) = (k, 1);
            s.check(cx, "wide strings", r, &v, fix, 1);
        }
        _ => {
            let v: pcmon::zoo::Maps = value_of(&mut r, 900);
            s.check(cx, "wide maps", r, &v, |l| l.buckets = k, 1);
        }
    });
    cx.count("wide_layouts", 1);
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C05", &args, 22, 420);
    threads(&mut cx, 4, |t, cx| {
        let dir = scratch(&args, &format!("c05-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let s = S { dir: dir.clone() };
        match args.get("type") {
            Some("wide") if t > 0 => return,
            Some("wide") => return wide(cx, &s, &args, args.num("n", 0)),
            None if args.get("n").is_none() => (0..3).filter(|n| n % 4 == t as u64).for_each(|n| wide(cx, &s, &args, n)),
            _ => {}
        }
        cycle(cx, &args, "c05", t as u64, 4, s);
    });
    cx.finish();
}
