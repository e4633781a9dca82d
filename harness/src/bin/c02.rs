//! C02: walks the lazy view of saved values of every type, comparing everything it shows, in
//! random access order, over memory and mapped files, compressed or not.
use pcmon::cx::{Args, Cx};
use pcmon::rng::Rng;
use pcmon::val::{Rooted, Walk};
use pcmon::work::*;
use parcode::Parcode;

struct S {
    dir: std::path::PathBuf,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let v: T = value(&mut r);
        let path = self.dir.join("f.par");
        let k = r.below(WRITERS.len());
        let Some(bytes) = cx.ok(write_with(k, &v, &path), "write") else { return };
        let mapped = r.chance(1, 2);
        let f = if mapped { Parcode::open(&path) } else { Parcode::open_bytes(bytes) };
        let Some(f) = cx.ok(f, "open") else { return };
        cx.count(if mapped { "files_mapped" } else { "files_in_memory" }, 1);
        let mut w = Walk::new(r);
        v.lazy_root(&f, cx, &mut w);
        let sig = v.shape(0, false).signature();
        if sig.len() > 3 {
            cx.distinct(&(name, writer_global(k), &sig));
        }
        cx.sample(|| format!("{name} via {}: {:.160?}", WRITERS[k], v));
    }
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C02", &args, 22, 420);
    threads(&mut cx, 4, |t, cx| {
        let dir = scratch(&args, &format!("c02-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        cycle(cx, &args, "c02", t as u64, 4, S { dir });
    });
    cx.finish();
}
