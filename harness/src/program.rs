//! C18: what every generated program does with its own types: writes each as a root, compares the
//! file with the documented shape, reads it back eagerly and lazily, and reads it again from
//! layouts of the reference encoder.
use crate::cx::{Args, Cx};
use crate::refdec::{self, Expect};
use crate::refenc::{self, Layout};
use crate::rng::Rng;
use crate::val::{Rooted, Walk};
use crate::work::*;
use parcode::{Parcode, ParcodeFile};
use std::path::PathBuf;

pub struct Program {
    dir: PathBuf,
    program: String,
}
impl Program {
    fn reads<T: Rooted>(&self, cx: &mut Cx, v: &T, f: &ParcodeFile, r: &Rng, what: &str) {
        match f.load::<T>() {
            Err(e) => cx.fail("eager", format!("{what}: {e}")),
            Ok(x) => {
                cx.check(v.same(&x), "eager", || format!("{what}: {v:.300?} became {x:.300?}"));
            }
        }
        cx.count("eager_reads", 1);
        cx.at(what, |cx| v.lazy_root(f, cx, &mut Walk { r: r.clone(), samples: 4, visits: 300 }));
        cx.count("lazy_reads", 1);
    }
}
impl Step for Program {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let b = [20, 60, 60, 200, 900, 6000][r.below(6)];
        let v: T = value_of(&mut r, b);
        let shape = v.shape(0, false);
        let sig = shape.signature();
        let path = self.dir.join("f.par");
        for _ in 0..2 {
            let k = r.below(WRITERS.len());
            let bytes = match write_with(k, &v, &path) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("write", format!("{}: {e}", WRITERS[k]));
                    continue;
                }
            };
            cx.count("files_written", 1);
            let ex = Expect { global: writer_global(k), lz4: cfg!(feature = "lz4"), flags: true };
            if let Err(e) = refdec::parse(&bytes).and_then(|n| refdec::check(&n, &shape, ex)) {
                cx.fail("shape", format!("{}: {e}", WRITERS[k]));
            }
            let f = if r.chance(1, 3) { Parcode::open(&path) } else { Parcode::open_bytes(bytes) };
            if let Some(f) = cx.ok(f, "open") {
                self.reads(cx, &v, &f, &r, WRITERS[k]);
            }
        }
        let lay = Layout::random(&mut r, cfg!(feature = "lz4"));
        let enc = refenc::encode(&shape, &lay, &mut r);
        let agree = refdec::parse(&enc.file).and_then(|n| refdec::check(&n, &shape, Expect { global: false, lz4: true, flags: false }));
        if let Err(e) = agree {
            eprintln!("harness error: reference models disagree on {name}: {e}");
            std::process::exit(9);
        }
        cx.count("foreign_layouts", 1);
        if let Some(f) = cx.ok(ParcodeFile::from_bytes(enc.file), "open foreign layout") {
            self.reads(cx, &v, &f, &r, "foreign layout");
        }
        if sig.len() > 3 {
            cx.distinct(&(&self.program, name, &sig));
        }
        cx.sample(|| format!("{name} of program {}: {:.160?}", self.program, v));
    }
}
pub fn main(each: impl Fn(&mut Loop<'_, Program>) + Sync) -> ! {
    let args = Args::parse();
    let mut cx = Cx::new("C18", &args, 15, 120);
    let program = args.get("program").unwrap_or("?").to_string();
    threads(&mut cx, 2, |t, cx| {
        let dir = scratch(&args, &format!("c18-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        cycle_over(cx, &args, "c18", t as u64, 2, Program { dir, program: program.clone() }, |l| each(l));
    });
    cx.finish();
}
