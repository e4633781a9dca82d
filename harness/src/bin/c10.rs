//! C10: what is left of a file after a crash or an interrupted copy, and what never was a file of
//! ours, must be refused by every entry point. Every strict prefix, every version, every damage to
//! the magic number, root references outside the file, foreign formats, and real crashes: writing
//! processes killed at a chosen byte, over fresh paths and over older files.
use parcode::{Parcode, ParcodeFile};
use pcmon::cx::{Args, Cx, catch};
use pcmon::refdec::{self, HEADER};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Poke, Rooted};
use pcmon::work::*;
use pcmon::zoo;
use std::path::{Path, PathBuf};

const ENTRIES: [&str; 9] = [
    "load", "load_bytes", "open", "open_bytes", "ParcodeFile::open", "ParcodeFile::from_bytes", "inspect", "inspect_bytes", "open twice",
];
/// What entry point `k` makes of the file; `Err` if it is refused. Opening may succeed as long as
/// everything that reads through the handle is refused.
fn attempt<T: Rooted>(k: usize, path: &Path, bytes: &[u8], r: &mut Rng) -> Result<String, String> {
    let vec = || bytes.to_vec();
    let e = |e: parcode::ParcodeError| e.to_string();
    let through = |f: ParcodeFile, r: &mut Rng| -> Result<String, String> {
        let mut shown = vec![];
        if f.load::<T>().is_ok() {
            shown.push("load".to_string());
        }
        if let Ok(n) = f.root_node() {
            shown.push(format!("root_node at {}+{}", n.offset(), n.length()));
        }
        if f.inspect().is_ok() {
            shown.push("inspect".into());
        }
        let mut w = Poke::new(r.clone(), 200);
        T::poke_root(&f, &mut w);
        if w.oks > 0 {
            shown.push(format!("lazy view showed {} things", w.oks));
        }
        if shown.is_empty() { Err("opened, then refused".into()) } else { Ok(shown.join(", ")) }
    };
    match k {
        0 => Parcode::load::<T, _>(path).map(|v| format!("{v:.100?}")).map_err(e),
        1 => Parcode::load_bytes::<T>(vec()).map(|v| format!("{v:.100?}")).map_err(e),
        2 => through(Parcode::open(path).map_err(e)?, r),
        3 => through(Parcode::open_bytes(vec()).map_err(e)?, r),
        4 => through(ParcodeFile::open(path).map_err(e)?, r),
        5 => through(ParcodeFile::from_bytes(vec()).map_err(e)?, r),
        6 => Parcode::inspect(path).map(|x| format!("report of {} bytes", x.file_size)).map_err(e),
        7 => Parcode::inspect_bytes(vec()).map(|x| format!("report of {} bytes", x.file_size)).map_err(e),
        _ => {
            let a = Parcode::open(path);
            let b = Parcode::open(path);
            match (a, b) {
                (Ok(f), _) | (_, Ok(f)) => through(f, r),
                (Err(x), Err(_)) => Err(x.to_string()),
            }
        }
    }
}
fn by_path(k: usize) -> bool {
    matches!(k, 0 | 2 | 4 | 6 | 8)
}
/// The bytes end in a trailer of their own with a root inside: the format cannot tell.
fn genuine(b: &[u8]) -> bool {
    refdec::header(b).is_ok_and(|h| h.root_len > 0 && h.root_off.checked_add(h.root_len).is_some_and(|e| e <= b.len() as u64))
}
struct S {
    dir: PathBuf,
}
impl S {
    fn refused<T: Rooted>(&self, cx: &mut Cx, ks: &[usize], bytes: &[u8], r: &mut Rng, what: &dyn Fn() -> String) {
        let path = self.dir.join("bad.par");
        if ks.iter().any(|k| by_path(*k)) {
            std::fs::write(&path, bytes).unwrap();
        }
        for &k in ks {
            cx.count("refusals_checked", 1);
            match catch(|| attempt::<T>(k, &path, bytes, r)) {
                Err(m) => cx.fail("panic", format!("{} on {}: {m}", ENTRIES[k], what())),
                Ok(Ok(shown)) => cx.fail("accepted", format!("{} on {}: {shown}", ENTRIES[k], what())),
                Ok(Err(e)) => {
                    cx.check(!e.is_empty(), "silent", || format!("{} on {}: empty error", ENTRIES[k], what()));
                    cx.count(if e == "opened, then refused" { "refused_at_first_read" } else { "refused_at_once" }, 1);
                }
            }
        }
    }
}
fn some(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..ENTRIES.len()).collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
impl Step for S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, mut r: Rng) {
        let b = [20, 60, 60, 300, 900, 9000][r.below(6)];
        let v: T = value_of(&mut r, b);
        let (bytes, from) = if r.chance(1, 4) {
            let l = Layout::random(&mut r, cfg!(feature = "lz4"));
            (refenc::encode(&v.shape(0, false), &l, &mut r).file, "reference layout")
        } else {
            let k = r.below(WRITERS.len());
            let Some(b) = cx.ok(write_with(k, &v, &self.dir.join("w.par")), "write") else { return };
            (b, WRITERS[k])
        };
        let n = bytes.len();
        cx.count("files", 1);
        cx.distinct(&(name, &bytes));
        // Sanity: the whole file is accepted, so that refusals below mean something.
        if let Err(e) = attempt::<T>(3, Path::new(""), &bytes, &mut r) {
            cx.fail("refused", format!("the complete file ({from}, {n} bytes): {e}"));
            return;
        }
        // Prefixes: all of them in small files; in larger ones all ends near structure, plus a sample.
        let mut cuts: Vec<usize> = if n <= 1500 { (0..n).collect() } else { vec![] };
        if n > 1500 {
            cuts.extend(0..60);
            cuts.extend(n - 60..n);
            if let Ok(root) = refdec::parse(&bytes) {
                let mut ends = vec![];
                root.walk(&mut |c, _| ends.push((c.off + c.len) as usize), 0);
                r.shuffle(&mut ends);
                for e in ends.into_iter().take(20) {
                    cuts.extend([e.saturating_sub(1), e, e + 1, e + HEADER]);
                }
            }
            for _ in 0..200 {
                cuts.push(r.below(n));
            }
            cuts.retain(|c| *c < n);
            cuts.sort_unstable();
            cuts.dedup();
        }
        let all_entries = r.chance(1, 8);
        for c in cuts {
            if genuine(&bytes[..c]) {
                cx.count("prefixes_with_a_trailer_of_their_own", 1);
                continue;
            }
            cx.count("prefixes", 1);
            let ks = if all_entries || c + HEADER + 2 > n && c % 7 == 0 { (0..ENTRIES.len()).collect() } else { some(&mut r, 1) };
            self.refused::<T>(cx, &ks, &bytes[..c], &mut r, &|| format!("the first {c} of {n} bytes ({from})"));
        }
        // Lost beginning, zero-filled tail (blocks never written), holes at the end.
        for _ in 0..6 {
            let c = r.range(0, n - 1);
            let mut f = bytes.clone();
            f[c..].fill(0);
            if !genuine(&f) {
                self.refused::<T>(cx, &some(&mut r, 2), &f, &mut r, &|| format!("zeros from byte {c} of {n}"));
                cx.count("zero_tails", 1);
            }
        }
        // More after the end: padding to a block, appended text, the beginning of another file.
        for _ in 0..8 {
            let k = match r.below(6) {
                0 => r.range(1, 3),
                1 => HEADER,
                2 => 512 - n % 512,
                3 => 4096 - n % 4096,
                4 => r.range(1, 2 * HEADER),
                _ => r.range(1, 70_000),
            };
            let mut f = bytes.clone();
            let kind = r.below(6);
            match kind {
                0..3 => f.resize(n + k, [0, 0xff, b'\n'][kind]),
                3 => f.extend(r.bytes(k)),
                4 => f.extend_from_within(..k.min(n - 1)),
                _ => f.extend_from_within(n - HEADER..n - 1),
            }
            if !genuine(&f) {
                let more = f.len() - n;
                self.refused::<T>(cx, &some(&mut r, 2), &f, &mut r, &|| format!("{more} more bytes (kind {kind}) after the {n} of a file ({from})"));
                cx.count("longer_files", 1);
            }
        }
        // Trailer: magic, version, root reference.
        let h = n - HEADER;
        let put = |p: usize, v: &[u8]| {
            let mut f = bytes.clone();
            f[h + p..h + p + v.len()].copy_from_slice(v);
            f
        };
        for i in 0..4 {
            for _ in 0..4 {
                let x = bytes[h + i] ^ (r.range(1, 255) as u8);
                self.refused::<T>(cx, &some(&mut r, 1), &put(i, &[x]), &mut r, &|| format!("magic byte {i} = {x:#x}"));
                cx.count("magic_damage", 1);
            }
        }
        for m in [*b"PAR3", *b"PAR1", *b"par4", *b"4RAP", [0; 4], *b"PAR5"] {
            self.refused::<T>(cx, &some(&mut r, 1), &put(0, &m), &mut r, &|| format!("magic {m:?}"));
        }
        let mut versions: Vec<u16> = vec![0, 1, 2, 3, 5, 6, 0x0400, 0x0104, 0x8004, 0xff04, u16::MAX];
        for _ in 0..30 {
            versions.push(r.u64() as u16);
        }
        if n < 200 && r.chance(1, 20) {
            versions = (0..=u16::MAX).collect();
            cx.count("all_versions", 1);
        }
        versions.retain(|v| *v != 4);
        for v in versions {
            self.refused::<T>(cx, &[*r.pick(&[1, 3, 5, 7])], &put(4, &v.to_le_bytes()), &mut r, &|| format!("version {v}"));
            cx.count("versions", 1);
        }
        let hd = refdec::header(&bytes).unwrap();
        let len = n as u64;
        let mut roots = vec![(hd.root_off, 0), (len, 1), (len - 1, 2), (u64::MAX, 1), (1, u64::MAX), (hd.root_off, (u64::MAX - hd.root_off).wrapping_add(1)), (len + 1, 0), (0, len + 1), (u64::MAX, u64::MAX), (1 << 63, 1 << 63), (u64::MAX - 1, 2)];
        for _ in 0..24 {
            let o = pcmon::mutate::number(&mut r, hd.root_off);
            let l = pcmon::mutate::number(&mut r, hd.root_len);
            roots.push((o, l));
        }
        roots.push((hd.root_off, len - hd.root_off + 1));
        roots.push((hd.root_off + HEADER as u64 + hd.root_len, hd.root_len));
        for (o, l) in roots {
            // A root inside the file is another matter (C09).
            if l > 0 && o.checked_add(l).is_some_and(|e| e <= len) {
                continue;
            }
            let mut x = o.to_le_bytes().to_vec();
            x.extend(l.to_le_bytes());
            self.refused::<T>(cx, &some(&mut r, 2), &put(6, &x), &mut r, &|| format!("root {o}+{l} in a file of {len} bytes"));
            cx.count("roots_outside", 1);
        }
        cx.sample(|| format!("{name} via {from}: {n} bytes"));
    }
}
fn foreign(cx: &mut Cx, s: &S, r: &mut Rng) {
    cx.begin("foreign files".to_string());
    let mut files: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]),
        ("PNG".into(), b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x01\0\0\0\x01\x08\x06\0\0\0\x1f\x15\xc4\x89IEND".to_vec()),
        ("zip".into(), b"PK\x03\x04\x14\0\0\0\0\0PK\x05\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec()),
        ("gzip".into(), [&[0x1f, 0x8b, 8, 0][..], &[0; 40]].concat()),
        ("json".into(), br#"{"magic":"PAR4","version":4,"root":[0,10]}"#.to_vec()),
        ("header first".into(), [&b"PAR4\x04\0"[..], &[0; 40]].concat()),
        ("self".into(), std::fs::read("/proc/self/exe").map(|b| b[..b.len().min(1 << 20)].to_vec()).unwrap_or_default()),
    ];
    for n in 0..60 {
        files.push((format!("zeros {n}"), vec![0; n]));
        files.push((format!("noise {n}"), r.bytes(n)));
        files.push((format!("0xff {n}"), vec![0xff; n]));
    }
    for (what, f) in files {
        cx.distinct(&f);
        cx.count("foreign_files", 1);
        s.refused::<zoo::Mixed>(cx, &(0..ENTRIES.len()).collect::<Vec<_>>(), &f, r, &|| what.clone());
        s.refused::<Vec<u8>>(cx, &[0, 1, 2, 3], &f, r, &|| what.clone());
    }
    // Things that are not files.
    for p in [s.dir.clone(), s.dir.join("missing"), s.dir.join("missing/er"), PathBuf::from("/dev/null"), PathBuf::from("")] {
        for k in (0..ENTRIES.len()).filter(|k| by_path(*k)) {
            match catch(|| attempt::<Vec<u8>>(k, &p, &[], r)) {
                Err(m) => cx.fail("panic", format!("{} on {}: {m}", ENTRIES[k], p.display())),
                Ok(Ok(x)) => cx.fail("accepted", format!("{} on {}: {x}", ENTRIES[k], p.display())),
                Ok(Err(_)) => cx.count("non_files", 1),
            }
        }
    }
}

// --- Real crashes -----------------------------------------------------------------------------

fn crash_value(seed: u64) -> zoo::Mixed {
    let mut r = Rng::derive(seed, "c10crash", 0);
    value_of(&mut r, [60, 900, 9000, 40000][(seed % 4) as usize])
}
fn save(k: usize, v: &zoo::Mixed, path: &Path) -> R<()> {
    match k {
        0 => Parcode::save(path, v),
        1 => Parcode::save_sync(path, v),
        2 => Parcode::builder().compression(true).save(path, v),
        _ => Parcode::builder().compression(true).save_sync(path, v),
    }
}
/// Child: saves under a file size limit whose signal kills it in the middle of a write.
fn crash_child(args: &Args) -> ! {
    let at = args.num("at", 0);
    let v = crash_value(args.num("value", 0));
    let l = libc::rlimit { rlim_cur: at, rlim_max: at };
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
    let r = save(args.num("entry", 0) as usize, &v, Path::new(args.get("path").unwrap()));
    std::process::exit(i32::from(r.is_err()));
}
fn crashes(cx: &mut Cx, args: &Args, s: &S, r: &mut Rng, count: usize) {
    let exe = std::env::current_exe().unwrap();
    let path = s.dir.join("crash.par");
    for i in 0..count {
        if !cx.go() {
            break;
        }
        let seed = args.seed * 1000 + r.below(40) as u64;
        let v = crash_value(seed);
        let k = i % 4;
        let whole = match Parcode::builder().compression(k >= 2).write_sync(std::io::sink(), &v).and_then(|()| Parcode::serialize(&v)) {
            Ok(b) => b.len() as u64,
            Err(e) => {
                cx.fail("error", e.to_string());
                continue;
            }
        };
        let at = match r.below(4) {
            0 => r.below(40) as u64,
            1 => whole.saturating_sub(r.below(60) as u64),
            _ => r.below(whole as usize + 1) as u64,
        };
        // An older, complete file of the same type at that path, longer or shorter, or nothing.
        let before = r.below(3);
        let _ = std::fs::remove_file(&path);
        if before > 0 {
            let old: zoo::Mixed = value_of(r, if before == 1 { 20 } else { 60_000 });
            if Parcode::save(&path, &old).is_err() {
                continue;
            }
        }
        cx.begin(format!("crash value={seed} at={at} entry={k} before={before}"));
        let st = std::process::Command::new(&exe)
            .args(["--crash", "1", "--value", &seed.to_string(), "--at", &at.to_string(), "--entry", &k.to_string(), "--path"])
            .arg(&path)
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        use std::os::unix::process::ExitStatusExt;
        let left = std::fs::read(&path).unwrap_or_default();
        if st.success() {
            // The limit was not reached: then the file must be complete.
            match Parcode::load::<zoo::Mixed, _>(&path) {
                Ok(x) if pcmon::val::Val::same(&v, &x) => cx.count("crash_not_reached", 1),
                Ok(_) => cx.fail("wrong", "a save that reported success left another value".to_string()),
                Err(e) => cx.fail("lost", format!("a save that reported success left an unreadable file: {e}")),
            }
            continue;
        }
        cx.check(st.signal() == Some(libc::SIGXFSZ) || st.code() == Some(1), "crash", || format!("child ended by {st:?}"));
        cx.count(if st.signal().is_some() { "killed_while_writing" } else { "failed_while_writing" }, 1);
        cx.distinct(&(seed, at, k, before));
        s.refused::<zoo::Mixed>(cx, &(0..ENTRIES.len()).collect::<Vec<_>>(), &left, r, &|| {
            format!("{} bytes left by a save (entry {k}) killed at byte {at}, over {}", left.len(), ["nothing", "a shorter file", "a longer file"][before])
        });
        // And through the path as the crash left it, not a copy of it.
        if let Ok(x) = attempt::<zoo::Mixed>(0, &path, &left, r) {
            cx.fail("accepted", format!("file killed at byte {at}: {x}"));
        }
    }
}

fn main() {
    let args = Args::parse();
    if args.get("crash").is_some() {
        crash_child(&args);
    }
    let mut cx = Cx::new("C10", &args, 30, 420);
    threads(&mut cx, 5, |t, cx| {
        let dir = scratch(&args, &format!("c10-{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut s = S { dir };
        let mut r = Rng::derive(args.seed, "c10", t as u64);
        if t == 4 {
            foreign(cx, &s, &mut r);
            crashes(cx, &args, &s, &mut r, if args.thorough { 20_000 } else { 1500 });
        } else {
            cycle(cx, &args, "c10", t as u64, 4, &mut s);
        }
    });
    cx.finish();
}
impl Step for &mut S {
    fn step<T: Rooted>(&mut self, cx: &mut Cx, name: &str, r: Rng) {
        (**self).step::<T>(cx, name, r);
    }
}
