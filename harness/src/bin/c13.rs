//! C13: the inspection report of every file against an independent decoder, field by field, through
//! every entry point, serialized and rendered.
use parcode::inspector::{ChunkInfo, DebugReport, ParcodeInspector};
use parcode::{Parcode, ParcodeFile};
use pcmon::big::Mapped;
use pcmon::cx::{Args, Cx, catch};
use pcmon::probe::Probe;
use pcmon::refdec::{self, Expect, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::Rooted;
use pcmon::work::*;
use serde::Deserialize;
use std::path::Path;

/// What the serialized report holds.
#[derive(Deserialize, PartialEq, Debug)]
struct Report {
    file_size: u64,
    root_offset: u64,
    global_version: u16,
    tree: Info,
}
#[derive(Deserialize, PartialEq, Debug)]
struct Info {
    offset: u64,
    total_length: u64,
    payload_size: u64,
    child_count: u32,
    compression_algo: String,
    is_chunkable: bool,
    node_type_hint: String,
    distribution_info: Option<String>,
    children: Vec<Info>,
}
fn mirror(c: &ChunkInfo) -> Info {
    Info {
        offset: c.offset,
        total_length: c.total_length,
        payload_size: c.payload_size,
        child_count: c.child_count,
        compression_algo: c.compression_algo.clone(),
        is_chunkable: c.is_chunkable,
        node_type_hint: c.node_type_hint.clone(),
        distribution_info: c.distribution_info.clone(),
        children: c.children.iter().map(mirror).collect(),
    }
}
/// All numbers in a text.
fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
enum Kind {
    Leaf,
    Vec(u64, u64),
    Map(u64),
    Other,
}
fn kind(n: &Node) -> Kind {
    if n.kids.is_empty() {
        return Kind::Leaf;
    }
    if let Ok((total, runs)) = refdec::vec_header(&n.payload) {
        let fits = runs.iter().all(|r| r.0.max(r.1) <= u64::from(u32::MAX));
        if fits {
            let shards: u64 = runs.iter().map(|r| r.1).sum();
            let items: u128 = runs.iter().map(|r| u128::from(r.0) * u128::from(r.1)).sum();
            if shards == n.kids.len() as u64 && items == u128::from(total) {
                return Kind::Vec(total, shards);
            }
        }
    }
    if n.payload.len() == 4 && n.payload[..] == (n.kids.len() as u32).to_le_bytes() {
        return Kind::Map(n.kids.len() as u64);
    }
    Kind::Other
}
fn compare(cx: &mut Cx, c: &ChunkInfo, n: &Node, readable: bool) -> bool {
    let at = n.off;
    let mut ok = true;
    let mut num = |cx: &mut Cx, what: &str, got: u64, want: u64| {
        ok &= cx.check(got == want, "field", || format!("chunk at {at}: {what} is reported as {got}, but is {want}"));
    };
    num(cx, "offset", c.offset, n.off);
    num(cx, "length", c.total_length, n.len);
    num(cx, "payload size", c.payload_size, n.raw_len);
    num(cx, "child count", u64::from(c.child_count), n.kids.len() as u64);
    num(cx, "flag", u64::from(c.is_chunkable), u64::from(n.has_kids));
    num(cx, "listed children", c.children.len() as u64, n.kids.len() as u64);
    let algo = &c.compression_algo;
    let known = match n.comp {
        0 => algo == "None",
        1 => algo == "LZ4",
        k => algo != "None" && algo != "LZ4" && numbers(algo) == [u64::from(k)],
    };
    ok &= cx.check(known, "field", || format!("chunk at {at}: algorithm {} is reported as {algo}", n.comp));
    let hint = c.node_type_hint.as_str();
    let (is_vec, is_map) = (hint.contains("Vec"), hint.contains("Map"));
    let nums = c.distribution_info.as_deref().map(numbers);
    let seen = || format!("chunk at {at} with {} bytes and {} children: {hint} {:?}", n.payload.len(), n.kids.len(), c.distribution_info);
    if readable {
        let good = match kind(n) {
            Kind::Vec(items, shards) => {
                cx.count("vec_containers", 1);
                is_vec && nums == Some(vec![items, shards])
            }
            Kind::Map(buckets) => {
                cx.count("map_containers", 1);
                is_map && nums == Some(vec![buckets])
            }
            Kind::Leaf => {
                cx.count("leaves", 1);
                !is_vec && !is_map && nums.is_none()
            }
            Kind::Other => {
                cx.count("other_nodes", 1);
                !is_vec && !is_map && nums.is_none()
            }
        };
        ok &= cx.check(good && !hint.contains("Corrupt"), "kind", seen);
    } else {
        ok &= cx.check(!is_vec && !is_map && nums.is_none(), "kind", seen);
    }
    cx.count("chunks_compared", 1);
    ok && c.children.iter().zip(&n.kids).all(|(a, b)| compare(cx, a, b, readable || b.comp < 2))
}
fn rendered(cx: &mut Cx, rep: &DebugReport, text: &str) {
    let mut want = vec![];
    fn list<'a>(c: &'a ChunkInfo, depth: usize, out: &mut Vec<(&'a ChunkInfo, usize)>) {
        out.push((c, depth));
        c.children.iter().for_each(|k| list(k, depth + 1, out));
    }
    list(&rep.tree, 0, &mut want);
    let lines: Vec<&str> = text.lines().filter(|l| l.contains("Algo:")).collect();
    if !cx.check(lines.len() == want.len(), "rendering", || format!("{} lines for {} chunks", lines.len(), want.len())) {
        return;
    }
    for (l, (c, depth)) in lines.iter().zip(want) {
        let indent = l.chars().position(|c| c == '[').unwrap_or(0);
        let parts = [
            c.node_type_hint.clone(),
            format!("{}b", c.payload_size),
            c.compression_algo.clone(),
            format!("Children: {}", c.child_count),
            c.distribution_info.clone().unwrap_or_default(),
        ];
        let good = parts.iter().all(|p| l.contains(p.as_str())) && indent == 4 * (depth + 1);
        if !cx.check(good, "rendering", || format!("chunk at {} (depth {depth}) rendered as {l}", c.offset)) {
            return;
        }
    }
    cx.count("lines_compared", lines.len() as u64);
}
fn inspect(cx: &mut Cx, name: &str, file: &[u8], root: &Node, path: &Path, r: &mut Rng) {
    const WAYS: [&str; 6] = ["inspect", "inspect_bytes", "Inspector::inspect", "open.inspect", "from_bytes.inspect", "inspect_file"];
    let mut first: Option<Vec<u8>> = None;
    // Enormous files are only read from where they are.
    let far = file.len() > 1 << 32;
    for w in if far { [*r.pick(&[0, 2, 3]), *r.pick(&[0, 2, 3])] } else { [r.below(6), r.below(6)] } {
        if !far && (w % 2 == 0 && w < 5 || w == 3) {
            if std::fs::write(path, file).is_err() {
                continue;
            }
        }
        let got = catch(|| match w {
            0 => Parcode::inspect(path),
            1 => Parcode::inspect_bytes(file.to_vec()),
            2 => ParcodeInspector::inspect(path),
            3 => ParcodeFile::open(path).and_then(|f| f.inspect()),
            4 => ParcodeFile::from_bytes(file.to_vec()).and_then(|f| f.inspect()),
            _ => ParcodeFile::from_bytes(file.to_vec()).and_then(|f| ParcodeInspector::inspect_file(&f)),
        });
        let rep = match got {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return cx.fail("error", format!("{name}: {}: {e}", WAYS[w])),
            Err(m) => return cx.fail("panic", format!("{name}: {}: {m}", WAYS[w])),
        };
        let head = (rep.file_size, rep.root_offset, rep.global_version);
        cx.check(head == (file.len() as u64, root.off, 4), "header", || format!("{name}: {head:?} for {} bytes with the root at {}", file.len(), root.off));
        compare(cx, &rep.tree, root, root.comp < 2);
        match catch(|| rep.to_string()) {
            Ok(t) => {
                cx.check(numbers(&t).contains(&root.off), "rendering", || format!("{name}: root offset {} is not shown", root.off));
                rendered(cx, &rep, &t);
            }
            Err(m) => cx.fail("rendering", format!("{name}: {m}")),
        }
        // Serialized, it says the same.
        let cfg = bincode::config::standard();
        match bincode::serde::encode_to_vec(&rep, cfg) {
            Ok(b) => {
                let back: Result<(Report, usize), _> = bincode::serde::decode_from_slice(&b, cfg);
                let want = Report { file_size: rep.file_size, root_offset: rep.root_offset, global_version: rep.global_version, tree: mirror(&rep.tree) };
                cx.check(back.is_ok_and(|x| x.0 == want), "serialized", || format!("{name}: the serialized report differs"));
                if let Some(f) = &first {
                    cx.check(*f == b, "agreement", || format!("{name}: {} reports something else", WAYS[w]));
                }
                first = Some(b);
            }
            Err(e) => cx.fail("serialized", format!("{name}: {e}")),
        }
        cx.count("reports", 1);
    }
    cx.max("max_chunks", root.count() as u64);
    cx.max("max_file_bytes", file.len() as u64);
    if !far {
        cx.distinct(&(name, file));
    }
}
struct S {
    dir: std::path::PathBuf,
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let r = &mut r;
        let v: T = value(r);
        let path = self.dir.join("f.par");
        if cfg!(feature = "mmap") && r.chance(1, 20) {
            // Beyond 4 GiB, almost all of it a hole.
            let v: T = value_of(r, 400);
            let enc = refenc::encode(&v.shape(0, false), &Layout { far: true, ..Layout::random(r, true) }, r);
            enc.write(&path).unwrap();
            let file = Mapped::open(&path).unwrap();
            match refdec::parse(&file) {
                Ok(root) => inspect(cx, name, &file, &root, &path, r),
                Err(e) => cx.fail("format", format!("{name}: {e}")),
            }
            cx.count("far_files", 1);
            let _ = std::fs::remove_file(&path);
            return;
        }
        let k = r.below(WRITERS.len());
        let own = r.chance(1, 2);
        let shape = v.shape(0, false);
        let file = if own {
            match write_with(k, &v, &path) {
                Ok(b) => b,
                Err(e) => return cx.fail("write", format!("{name}: {}: {e}", WRITERS[k])),
            }
        } else {
            cx.count("foreign_layouts", 1);
            refenc::encode(&shape, &Layout::random(r, true), r).file
        };
        let root = match refdec::parse(&file) {
            Ok(x) => x,
            Err(e) => return cx.fail("format", format!("{name}: {e}")),
        };
        // The containers of the file are those of the value.
        if let Err(e) = refdec::check(&root, &shape, Expect { global: false, lz4: true, flags: false }) {
            return cx.fail("format", format!("{name}: {e}"));
        }
        inspect(cx, name, &file, &root, &path, r);
        cx.sample(|| format!("{name}: {} bytes, {} chunks", file.len(), root.count()));
        // Algorithms of a future version: still reported.
        if r.chance(1, 4) {
            let mut nodes = vec![];
            root.walk(&mut |n, _| if n.kids.is_empty() { nodes.push(n.off + n.len - 1) }, 0);
            let mut g = file.clone();
            let at = nodes[r.below(nodes.len())];
            let id = r.range(2, 7) as u8;
            g[at as usize] = g[at as usize] & !0b1110 | id << 1;
            fn relabelled(n: &Node, at: u64, id: u8) -> Node {
                Node {
                    comp: if n.off + n.len - 1 == at { id } else { n.comp },
                    payload: n.payload.clone(),
                    kids: n.kids.iter().map(|k| relabelled(k, at, id)).collect(),
                    ..*n
                }
            }
            inspect(cx, name, &g, &relabelled(&root, at, id), &path, r);
            cx.count("unknown_algorithms", 1);
        }
    }
}
fn graph(cx: &mut Cx, r: &mut Rng, path: &Path) {
    let n = *r.pick(&[1, 5, 40, 400, 400, 3000, 20_000]);
    let p = Probe::random(r, n);
    let mut b = vec![];
    if cx.ok(Parcode::builder().compression(r.chance(1, 2)).write(&mut b, &p), "write").is_none() {
        return;
    }
    match refdec::parse(&b) {
        Ok(root) => inspect(cx, "graph", &b, &root, path, r),
        Err(e) => cx.fail("format", format!("graph: {e}")),
    }
    cx.count("graphs", 1);
}
fn main() {
    let args = Args::parse();
    let mut cx = Cx::new("C13", &args, 24, 420);
    threads(&mut cx, 6, |t, cx| {
        let dir = scratch(&args, &format!("c13-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        if t == 0 {
            let mut n = 0;
            while cx.go() {
                let mut r = Rng::derive(args.seed, "c13g", n);
                cx.begin(format!("seed={} graph n={n}", args.seed));
                cx.guard(|cx| graph(cx, &mut r, &dir.join("g.par")));
                n += 1;
            }
        } else {
            cycle(cx, &args, "c13", t as u64, 5, S { dir });
        }
    });
    cx.finish();
}
