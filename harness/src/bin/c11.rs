//! C11: what lazy access reads. Two monitors watch every operation on a large file:
//! a page tracer (the mapping, or the caller's buffer, is made inaccessible; a fault handler
//! records each page touched and opens it) and a poison test (every byte the operation is not
//! entitled to is replaced by garbage in a copy of the file; the result must not change).
//! What an operation is entitled to is computed from the file by the reference decoder.
use parcode::rt::ParcodeLazyRef;
use parcode::{Parcode, ParcodeCollectionPromise, ParcodeFile, ParcodeMapPromise, ParcodePromise};
use pcmon::cx::{Args, Cx, catch};
use pcmon::refdec::{self, HEADER, Node};
use pcmon::refenc::{self, Layout};
use pcmon::rng::Rng;
use pcmon::val::{Item, Key, Remote, Rooted, Val, key_hash};
use pcmon::work::scratch;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[path = "../lazyzoo.rs"]
mod lazyzoo;
use lazyzoo::{Doc, Inner, Rec, Sub};

// --- The page tracer ----------------------------------------------------------------------------

const PAGE: usize = 4096;
const MAX_PAGES: usize = 1 << 15;
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static TOUCHED: [AtomicU8; MAX_PAGES] = [const { AtomicU8::new(0) }; MAX_PAGES];
static FAULTS: AtomicU64 = AtomicU64::new(0);
/// Traps the next mapping of a file.
static ARMED: AtomicBool = AtomicBool::new(false);
static MAPPED: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_fault(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let a = unsafe { (*info).si_addr() } as usize;
    let (lo, hi) = (LO.load(SeqCst), HI.load(SeqCst));
    if a >= lo && a < hi {
        let p = (a - lo) / PAGE;
        TOUCHED[p].store(1, SeqCst);
        FAULTS.fetch_add(1, SeqCst);
        unsafe { libc::mprotect((lo + p * PAGE) as *mut libc::c_void, PAGE, libc::PROT_READ) };
        return;
    }
    unsafe { libc::signal(sig, libc::SIG_DFL) };
}
fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
}
fn protect(lo: usize, hi: usize, how: i32) {
    if hi > lo {
        assert_eq!(unsafe { libc::mprotect(lo as *mut libc::c_void, hi - lo, how) }, 0, "mprotect");
    }
}
fn watch(lo: usize, hi: usize) {
    assert!((hi - lo) / PAGE <= MAX_PAGES, "file too large for the tracer");
    LO.store(lo, SeqCst);
    HI.store(hi, SeqCst);
    reset();
}
/// Forgets what was touched and closes every page again.
fn reset() {
    let (lo, hi) = (LO.load(SeqCst), HI.load(SeqCst));
    for t in &TOUCHED[..hi.saturating_sub(lo) / PAGE] {
        t.store(0, SeqCst);
    }
    protect(lo, hi, libc::PROT_NONE);
}
fn unwatch(how: i32) {
    protect(LO.load(SeqCst), HI.load(SeqCst), how);
    LO.store(0, SeqCst);
    HI.store(0, SeqCst);
}
unsafe fn map(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let p = unsafe { libc::syscall(libc::SYS_mmap, a, len, prot, flags, fd, off) };
    if fd >= 0 && p > 0 && ARMED.swap(false, SeqCst) {
        MAPPED.fetch_add(1, SeqCst);
        watch(p as usize, p as usize + len.div_ceil(PAGE) * PAGE);
        if flags & (libc::MAP_POPULATE | libc::MAP_LOCKED) != 0 {
            fetched(p as usize, len);
        }
    }
    p as *mut libc::c_void
}
/// Pages the kernel was asked to read at once count as touched.
fn fetched(p: usize, len: usize) {
    let (lo, hi) = (LO.load(SeqCst), HI.load(SeqCst));
    let (a, b) = (p.max(lo), p.saturating_add(len).min(hi));
    if a < b {
        for t in &TOUCHED[(a - lo) / PAGE..(b - lo).div_ceil(PAGE)] {
            t.store(1, SeqCst);
        }
    }
}
// The crate's file mapping goes through these.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap64(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    unsafe { map(a, len, prot, flags, fd, off) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap(a: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    unsafe { map(a, len, prot, flags, fd, off) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn madvise(a: *mut libc::c_void, len: usize, how: i32) -> i32 {
    if matches!(how, libc::MADV_WILLNEED | libc::MADV_POPULATE_READ | libc::MADV_POPULATE_WRITE) {
        fetched(a as usize, len);
    }
    unsafe { libc::syscall(libc::SYS_madvise, a, len, how) as i32 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mlock(a: *const libc::c_void, len: usize) -> i32 {
    fetched(a as usize, len);
    unsafe { libc::syscall(libc::SYS_mlock, a, len) as i32 }
}
/// Bytes this process obtained through read-like system calls so far.
fn read_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/io")
        .ok()
        .and_then(|s| s.lines().find_map(|l| l.strip_prefix("rchar: ").and_then(|v| v.parse().ok())))
        .unwrap_or(0)
}

// --- What an operation may read -----------------------------------------------------------------

type Ranges = Vec<(u64, u64)>;
fn chunk(n: &Node, out: &mut Ranges) {
    out.push((n.off, n.off + n.len));
}
/// The meta byte and child count at the end of a chunk.
fn foot(n: &Node, out: &mut Ranges) {
    out.push(((n.off + n.len).saturating_sub(5).max(n.off), n.off + n.len));
}
fn feet(n: &Node, out: &mut Ranges) {
    n.kids.iter().for_each(|k| foot(k, out));
}
fn tree(n: &Node, out: &mut Ranges) {
    n.walk(&mut |c, _| chunk(c, out), 0);
}
/// How the mirror of a remote field is made: from its own chunk (nested structs: their local
/// fields; collections: their shard table), or from nothing but the end of its chunk.
enum Kind {
    Blob,
    Coll,
    Struct(&'static [Kind]),
}
use Kind::*;
const INNER: &[Kind] = &[Coll, Blob, Coll, Coll];
const SUB: &[Kind] = &[Coll, Struct(INNER), Blob, Coll];
const DOC: &[Kind] = &[Coll, Coll, Blob, Struct(INNER), Coll, Coll, Coll, Blob, Blob, Coll, Struct(&[])];
fn mirror(n: &Node, k: &Kind, out: &mut Ranges) {
    match k {
        Blob => foot(n, out),
        Coll => chunk(n, out),
        Struct(ks) => {
            chunk(n, out);
            n.kids.iter().zip(*ks).for_each(|(c, k)| mirror(c, k, out));
        }
    }
}
/// A shard read lazily: its own bytes, and the mirrors of its items' remote fields.
fn lazy_shard(sh: &Node, ks: &'static [Kind], out: &mut Ranges) {
    chunk(sh, out);
    for (i, c) in sh.kids.iter().enumerate() {
        mirror(c, &ks[i % ks.len()], out);
    }
}
/// (shard, index in the shard) of item i, by the container's run table.
fn shard_of(c: &Node, i: usize) -> (usize, usize) {
    let (_, runs) = refdec::vec_header(&c.payload).unwrap();
    let (mut s, mut left) = (0, i as u64);
    for (n, rep) in runs {
        if left < n * rep {
            return (s + (left / n) as usize, (left % n) as usize);
        }
        left -= n * rep;
        s += rep as usize;
    }
    unreachable!()
}

struct Op {
    name: String,
    may: Ranges,
    /// Does the operation show what it should?
    run: Box<dyn Fn(&ParcodeFile) -> Result<bool, String>>,
}
type Res<T> = Result<T, String>;
fn es<T>(r: parcode::Result<T>) -> Res<T> {
    r.map_err(|e| e.to_string())
}
struct Ops<'r> {
    v: Vec<Op>,
    base: Ranges,
    r: &'r mut Rng,
}
impl Ops<'_> {
    fn add(&mut self, name: String, more: Ranges, run: impl Fn(&ParcodeFile) -> Res<bool> + 'static) {
        let mut may = self.base.clone();
        may.extend(more);
        self.v.push(Op { name, may, run: Box::new(run) });
    }
    fn index(&mut self, n: usize) -> usize {
        match self.r.below(6) {
            0 => 0,
            1 => n - 1,
            _ => self.r.below(n),
        }
    }
    fn one<T: Val>(&mut self, name: &str, c: &Node, orig: &T, p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodePromise<'f, T>>)
    where
        T: parcode::reader::ParcodeNative,
    {
        let o = orig.clone();
        let mut m = vec![];
        chunk(c, &mut m);
        self.add(format!("{name}.load"), m, move |f| Ok(o.same(&es(p(f)?.load())?)));
    }
    fn vec<T: Item>(&mut self, name: &str, c: &Node, orig: &[T], p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodeCollectionPromise<'f, T>>) {
        let n = orig.len();
        let mut head = vec![];
        chunk(c, &mut head);
        self.add(format!("{name}.len"), head.clone(), move |f| {
            let p = p(f)?;
            Ok(p.len() == n && p.is_empty() == (n == 0))
        });
        self.add(format!("{name}.get(outside)"), head.clone(), move |f| Ok(p(f)?.get(n + 3).is_err()));
        if n == 0 {
            return;
        }
        for _ in 0..3 {
            let i = self.index(n);
            let (s, _) = shard_of(c, i);
            let mut m = head.clone();
            tree(&c.kids[s], &mut m);
            let o = orig[i].clone();
            self.add(format!("{name}.get({i})"), m.clone(), move |f| Ok(o.same(&es(p(f)?.get(i))?)));
            for k in &c.kids[..s] {
                tree(k, &mut m);
            }
            let o = orig[i].clone();
            self.add(format!("{name}.iter.nth({i})"), m.clone(), move |f| {
                let mut it = es(p(f)?.iter())?;
                Ok(o.same(&es(it.nth(i).ok_or("ended early")?)?))
            });
            let o = orig[..=i].to_vec();
            self.add(format!("{name}.iter.take({})", i + 1), m, move |f| {
                let mut k = 0;
                for x in es(p(f)?.iter())?.take(i + 1) {
                    if !o[k].same(&es(x)?) {
                        return Ok(false);
                    }
                    k += 1;
                }
                Ok(k == i + 1)
            });
        }
        let mut m = vec![];
        tree(c, &mut m);
        let o = orig.to_vec();
        self.add(format!("{name}.load"), m, move |f| Ok(pcmon::val::same_slice(&o, &es(p(f)?.load())?).is_none()));
    }
    fn vec_lazy<T: Locals>(
        &mut self,
        name: &str,
        c: &Node,
        orig: &[T],
        ks: &'static [Kind],
        p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodeCollectionPromise<'f, T>>,
    ) {
        let n = orig.len();
        if n == 0 {
            return;
        }
        let mut head = vec![];
        chunk(c, &mut head);
        for (what, i) in [("first", 0), ("last", n - 1), ("get_lazy", self.index(n)), ("get_lazy", self.index(n))] {
            let (s, _) = shard_of(c, i);
            let mut m = head.clone();
            lazy_shard(&c.kids[s], ks, &mut m);
            let o = orig[i].clone();
            self.add(format!("{name}.{what}({i})"), m, move |f| {
                let p = p(f)?;
                let l = match what {
                    "first" => es(p.first())?.ok_or("none")?,
                    "last" => es(p.last())?.ok_or("none")?,
                    _ => es(p.get_lazy(i))?,
                };
                Ok(o.locals(&l))
            });
        }
        let i = self.index(n);
        let (s, _) = shard_of(c, i);
        let mut m = head;
        feet(c, &mut m);
        for k in &c.kids[..=s] {
            lazy_shard(k, ks, &mut m);
        }
        let o = orig[..=i].to_vec();
        self.add(format!("{name}.iter_lazy.take({})", i + 1), m, move |f| {
            let mut k = 0;
            for x in es(p(f)?.iter_lazy())?.take(i + 1) {
                if !o[k].locals(&es(x)?) {
                    return Ok(false);
                }
                k += 1;
            }
            Ok(k == i + 1)
        });
    }
    /// A remote field of one lazily fetched item of a vector of `Sub`.
    fn sub_fields(&mut self, name: &str, c: &Node, orig: &[Sub], p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodeCollectionPromise<'f, Sub>>) {
        if orig.is_empty() {
            return;
        }
        for _ in 0..3 {
            let i = self.index(orig.len());
            let (s, li) = shard_of(c, i);
            let sh = &c.kids[s];
            let kid = |k: usize| &sh.kids[li * SUB.len() + k];
            let mut m = vec![];
            chunk(c, &mut m);
            lazy_shard(sh, SUB, &mut m);
            let (mut a, mut b, mut d) = (m.clone(), m.clone(), m.clone());
            tree(kid(0), &mut a);
            chunk(kid(2), &mut b);
            tree(&kid(1).kids[0], &mut d);
            let o = orig[i].clone();
            self.add(format!("{name}.get_lazy({i}).data.load"), a, move |f| Ok(o.data == es(es(p(f)?.get_lazy(i))?.data.load())?));
            let o = orig[i].clone();
            self.add(format!("{name}.get_lazy({i}).note.load"), b, move |f| Ok(o.note == es(es(p(f)?.get_lazy(i))?.note.load())?));
            let o = orig[i].clone();
            self.add(format!("{name}.get_lazy({i}).inner.big.load"), d, move |f| Ok(o.inner.big == es(es(p(f)?.get_lazy(i))?.inner.big.load())?));
        }
    }
    fn map<K: Key, V: Item>(&mut self, name: &str, c: &Node, orig: &HashMap<K, V>, other: K, p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodeMapPromise<'f, K, V>>) {
        let mut keys: Vec<&K> = orig.keys().collect();
        self.r.shuffle(&mut keys);
        let mut look: Vec<K> = keys.into_iter().take(3).cloned().collect();
        look.push(other);
        for k in look {
            let mut m = vec![];
            chunk(c, &mut m);
            if !c.kids.is_empty() {
                tree(&c.kids[(key_hash(&k) % c.kids.len() as u64) as usize], &mut m);
            }
            let want = orig.get(&k).cloned();
            let shown = format!("{k:?}");
            self.add(format!("{name}.get({shown:.40})"), m, move |f| {
                Ok(match (&want, es(p(f)?.get(&k))?) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.same(&b),
                    _ => false,
                })
            });
        }
        let mut m = vec![];
        tree(c, &mut m);
        let o = orig.clone();
        self.add(format!("{name}.load"), m, move |f| Ok(pcmon::val::same_map(&o, &es(p(f)?.load())?).is_none()));
    }
    fn map_lazy<K: Key, V: Locals>(
        &mut self,
        name: &str,
        c: &Node,
        orig: &HashMap<K, V>,
        ks: &'static [Kind],
        other: K,
        p: for<'f> fn(&'f ParcodeFile) -> Res<ParcodeMapPromise<'f, K, V>>,
    ) {
        let mut keys: Vec<&K> = orig.keys().collect();
        self.r.shuffle(&mut keys);
        let mut look: Vec<K> = keys.into_iter().take(3).cloned().collect();
        look.push(other);
        for k in look {
            let mut m = vec![];
            chunk(c, &mut m);
            if !c.kids.is_empty() {
                lazy_shard(&c.kids[(key_hash(&k) % c.kids.len() as u64) as usize], ks, &mut m);
            }
            let want = orig.get(&k).cloned();
            let shown = format!("{k:?}");
            self.add(format!("{name}.get_lazy({shown:.40})"), m, move |f| {
                Ok(match (&want, es(p(f)?.get_lazy(&k))?) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.locals(&b),
                    _ => false,
                })
            });
        }
    }
}
macro_rules! at {
    ($f:ident => $($p:tt)+) => { |$f| { let l = es($f.root::<Doc>())?; Ok(l.$($p)+) } };
}
/// Compares the local fields with those of a mirror.
trait Locals: Remote {
    fn locals<'f>(&self, l: &<Self as ParcodeLazyRef<'f>>::Lazy) -> bool;
}
impl Locals for Rec {
    fn locals<'f>(&self, l: &<Self as ParcodeLazyRef<'f>>::Lazy) -> bool {
        self.id == l.id && self.name == l.name && self.tags == l.tags
    }
}
impl Locals for Sub {
    fn locals<'f>(&self, l: &<Self as ParcodeLazyRef<'f>>::Lazy) -> bool {
        self.n == l.n && self.label == l.label && self.inner.a == l.inner.a && self.inner.s == l.inner.s
    }
}
fn operations(d: &Doc, root: &Node, len: u64, r: &mut Rng) -> Vec<Op> {
    let mut base = vec![(len - HEADER as u64, len)];
    mirror(root, &Struct(DOC), &mut base);
    let mut o = Ops { v: vec![], base, r };
    let k = &root.kids;
    let (a, b, c, e) = (d.id, d.title.clone(), d.inner.a, d.inner.s.clone());
    let rc = d.rec.clone();
    o.add("local fields".into(), vec![], move |f| {
        let l = es(f.root::<Doc>())?;
        Ok(l.id == a && l.title == b && l.inner.a == c && l.inner.s == e && rc.locals(&l.rec))
    });
    o.vec("bytes", &k[0], &d.bytes, at!(f => bytes));
    o.vec("recs", &k[1], &d.recs, at!(f => recs));
    o.vec_lazy("recs", &k[1], &d.recs, &[Blob], at!(f => recs));
    o.one("text", &k[2], &d.text, at!(f => text));
    o.vec("inner.big", &k[3].kids[0], &d.inner.big, at!(f => inner.big));
    o.one("inner.text", &k[3].kids[1], &d.inner.text, at!(f => inner.text));
    o.map("inner.m", &k[3].kids[2], &d.inner.m, u32::MAX, at!(f => inner.m));
    o.vec("inner.packed", &k[3].kids[3], &d.inner.packed, at!(f => inner.packed));
    o.map("people", &k[4], &d.people, u64::MAX, at!(f => people));
    o.map_lazy("people", &k[4], &d.people, &[Blob], u64::MAX - 1, at!(f => people));
    o.map("subs_by", &k[5], &d.subs_by, "nobody".into(), at!(f => subs_by));
    o.map_lazy("subs_by", &k[5], &d.subs_by, SUB, "no one".into(), at!(f => subs_by));
    o.vec("subs", &k[6], &d.subs, at!(f => subs));
    o.vec_lazy("subs", &k[6], &d.subs, SUB, at!(f => subs));
    o.sub_fields("subs", &k[6], &d.subs, at!(f => subs));
    o.map("plain", &k[7], &d.plain, u32::MAX, at!(f => plain));
    o.one("num", &k[8], &d.num, at!(f => num));
    o.vec("packed", &k[9], &d.packed, at!(f => packed));
    o.v
}

// --- Values ------------------------------------------------------------------------------------

fn text(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| char::from(b'a' + r.below(26) as u8)).collect()
}
fn rec(r: &mut Rng, i: u64) -> Rec {
    let n = r.below(30);
    Rec { id: i, name: text(r, n), tags: (0..r.below(12)).map(|_| r.u64() as u16).collect() }
}
fn inner(r: &mut Rng, scale: usize) -> Inner {
    let n = |r: &mut Rng, k: usize| r.below(k + 1);
    Inner {
        a: r.u64() as u32,
        big: (0..n(r, scale)).map(|_| r.u64()).collect(),
        s: text(r, 9),
        text: {
            let k = n(r, scale);
            text(r, k)
        },
        m: (0..n(r, scale / 4)).map(|i| (i as u32, format!("v{i}"))).collect(),
        packed: (0..n(r, scale)).map(|i| i as u64 / 7).collect(),
    }
}
fn sub(r: &mut Rng, i: usize, scale: usize) -> Sub {
    let n = r.below(scale * 4 + 1);
    Sub { n: i as u32, data: r.bytes(n), inner: inner(r, scale), label: format!("sub {i}"), note: text(r, scale), tail: (0..scale as u32).collect() }
}
fn doc(r: &mut Rng, size: usize) -> Doc {
    let big = |r: &mut Rng, k: usize| if size == 0 { r.below(40) } else { r.below(k * size) + 1 };
    let per = [20, 60, 600][size.min(2)];
    Doc {
        id: r.u64(),
        bytes: {
            let n = big(r, 150_000);
            r.bytes(n)
        },
        recs: (0..big(r, 6000)).map(|i| rec(r, i as u64)).collect(),
        text: {
            let n = big(r, 60_000);
            text(r, n)
        },
        inner: inner(r, if size == 0 { 30 } else { 12_000 * size }),
        title: text(r, 20),
        people: (0..big(r, 7000)).map(|i| (i as u64 * 3, rec(r, i as u64))).collect(),
        subs_by: (0..big(r, 60)).map(|i| (format!("k{i}"), sub(r, i, per))).collect(),
        subs: (0..big(r, 90)).map(|i| sub(r, i, per)).collect(),
        plain: (0..big(r, 6000)).map(|i| (i as u32, i as u32 ^ 5)).collect(),
        num: r.u64(),
        packed: (0..big(r, 20_000)).map(|i| format!("line {}", i / 3)).collect(),
        rec: rec(r, 7),
    }
}

// --- Monitors ----------------------------------------------------------------------------------

fn merge(mut v: Ranges) -> Ranges {
    v.sort_unstable();
    let mut o: Ranges = vec![];
    for (a, b) in v {
        match o.last_mut() {
            Some(l) if l.1 >= a => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    o
}
/// Pages touched since the reset that hold none of the bytes in `may`, and how many were touched.
/// `base` is the address of the first byte of the file.
fn strays(base: usize, may: &Ranges) -> (Vec<u64>, usize) {
    let (lo, hi) = (LO.load(SeqCst), HI.load(SeqCst));
    let mut ok = vec![false; (hi - lo) / PAGE];
    for (a, b) in may {
        let (a, b) = (base + *a as usize, base + *b as usize);
        if b > lo && a < hi && b > a {
            let (x, y) = (a.max(lo) - lo, b.min(hi) - lo);
            ok[x / PAGE..=(y - 1) / PAGE].fill(true);
        }
    }
    let mut bad = vec![];
    let mut n = 0;
    for (p, ok) in ok.iter().enumerate() {
        if TOUCHED[p].load(SeqCst) != 0 {
            n += 1;
            if !ok {
                bad.push((lo + p * PAGE).saturating_sub(base) as u64);
            }
        }
    }
    (bad, n)
}
/// Names the chunks at a file offset, for reports.
fn whose(root: &Node, at: u64) -> String {
    fn go(n: &Node, path: String, at: u64, out: &mut Vec<String>) {
        if n.off < at + PAGE as u64 && n.off + n.len > at {
            out.push(format!("{path}({}+{})", n.off, n.len));
        }
        for (i, k) in n.kids.iter().enumerate() {
            go(k, format!("{path}/{i}"), at, out);
        }
    }
    let mut v = vec![];
    go(root, "root".into(), at, &mut v);
    v.truncate(4);
    v.join(", ")
}
fn judge(cx: &mut Cx, root: &Node, base: usize, op: &str, may: &Ranges, io0: u64) {
    let io = read_bytes() - io0;
    let (bad, n) = strays(base, may);
    cx.count("operations_traced", 1);
    cx.count("pages_touched", n as u64);
    cx.max("max_pages_of_one_operation", n as u64);
    if let Some(p) = bad.first() {
        cx.fail("read", format!("{op} read {} pages it has no business with, e.g. the one at byte {p}: {}", bad.len(), whose(root, *p)));
    }
    let size: u64 = merge(may.clone()).iter().map(|(a, b)| b - a).sum();
    cx.check(io <= size + 65_536, "read", || format!("{op} obtained {io} bytes through read calls; its data has {size}"));
    cx.distinct(&(op.split('(').next().unwrap_or(op), n, size));
}
fn run(cx: &mut Cx, f: &ParcodeFile, name: &str, ops: &[&Op]) {
    for op in ops {
        match catch(|| (op.run)(f)) {
            Err(m) => cx.fail("panic", format!("{name}: {}: {m}", op.name)),
            Ok(Err(e)) => cx.fail("error", format!("{name}: {}: {e}", op.name)),
            Ok(Ok(false)) => cx.fail("wrong", format!("{name}: {} shows something else", op.name)),
            Ok(Ok(true)) => {}
        }
    }
}
fn file_case(cx: &mut Cx, dir: &std::path::Path, d: &Doc, bytes: &[u8], r: &mut Rng, quick: bool) {
    let root = match refdec::parse(bytes) {
        Ok(n) => n,
        Err(e) => return cx.fail("unreadable", e),
    };
    let len = bytes.len() as u64;
    cx.count("files", 1);
    cx.count("file_bytes", len);
    cx.max("max_file_bytes", len);
    let path = dir.join("f.par");
    std::fs::write(&path, bytes).unwrap();
    let mut ops = operations(d, &root, len, r);
    r.shuffle(&mut ops);
    let n = if quick { 40 } else { ops.len() };
    let mapped = r.chance(2, 3);
    let mut trailer = vec![(len - HEADER as u64, len)];
    foot(&root, &mut trailer);
    let (f, base) = if mapped {
        let io = read_bytes();
        let m0 = MAPPED.load(SeqCst);
        ARMED.store(true, SeqCst);
        let f = Parcode::open(&path);
        ARMED.store(false, SeqCst);
        let Some(f) = cx.ok(f, "open") else { return };
        if MAPPED.load(SeqCst) == m0 {
            let io = read_bytes() - io;
            cx.check(io <= 65_536, "read", || format!("open read {io} bytes of a file of {len}"));
            cx.count("opened_without_mapping", 1);
        }
        let base = LO.load(SeqCst);
        judge(cx, &root, base, "open", &trailer, io);
        cx.count("files_mapped", 1);
        (f, base)
    } else {
        // The caller's own buffer, traced page by page where it covers whole pages.
        let v = bytes.to_vec();
        let base = v.as_ptr() as usize;
        watch(base.next_multiple_of(PAGE), ((base + v.len()) / PAGE * PAGE).max(base.next_multiple_of(PAGE)));
        let io = read_bytes();
        let f = Parcode::open_bytes(v);
        let Some(f) = cx.ok(f, "open_bytes") else {
            unwatch(libc::PROT_READ | libc::PROT_WRITE);
            return;
        };
        judge(cx, &root, base, "open_bytes", &trailer, io);
        cx.count("files_in_memory", 1);
        (f, base)
    };
    let mut i = 0;
    while i < n.min(ops.len()) && cx.go() {
        // One operation, or a short history of several.
        let k = if r.chance(1, 4) { r.range(2, 4).min(ops.len() - i) } else { 1 };
        let group: Vec<&Op> = ops[i..i + k].iter().collect();
        i += k;
        let name = group.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(" then ");
        let may = merge(group.iter().flat_map(|o| o.may.iter().copied()).collect());
        reset();
        let io = read_bytes();
        run(cx, &f, "traced", &group);
        judge(cx, &root, base, &name, &may, io);
        cx.evaluations += 1;
        // The same with everything else turned to garbage.
        let mut p = bytes.to_vec();
        let mut at = 0usize;
        let x = r.range(1, 255) as u8;
        for (a, b) in may.iter().chain([&(len, len)]) {
            p[at..*a as usize].iter_mut().enumerate().for_each(|(i, y)| *y ^= x.wrapping_add((i as u8) & 0x3e) | 1);
            at = *b as usize;
        }
        match Parcode::open_bytes(p) {
            Ok(g) => run(cx, &g, "with the rest of the file damaged", &group),
            Err(e) => cx.fail("error", format!("open with the rest of the file damaged: {e}")),
        }
        cx.count("poison_runs", 1);
        cx.sample(|| format!("{name}: may read {} of {len} bytes", may.iter().map(|(a, b)| b - a).sum::<u64>()));
        if !cx.clean() {
            break;
        }
    }
    unwatch(if mapped { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE });
    drop(f);
}

/// The shard fetched for one uniformly sized item or key does not grow with the collection.
fn bounds<T: Item + Clone>(cx: &mut Cx, what: &str, one: T, size: usize, ns: &[usize]) {
    for &n in ns {
        cx.begin(format!("shard size of {n} x {what}"));
        let Some(b) = cx.ok(Parcode::serialize(&vec![one.clone(); n]), "serialize") else { return };
        let Ok(root) = refdec::parse(&b) else { return cx.fail("unreadable", what) };
        let top = root.kids.iter().map(|k| k.len).max().unwrap_or(0);
        cx.max("max_shard_bytes", top);
        cx.check(top <= (256 << 10) + 2 * size as u64, "shard size", || format!("{n} items of {size} bytes ({what}): a shard of {top} bytes"));
        cx.distinct(&(what, n));
        cx.count("shard_bounds", 1);
    }
}
fn map_bounds(cx: &mut Cx, ns: &[usize]) {
    #[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
    struct M {
        #[parcode(map)]
        m: HashMap<u64, u32>,
    }
    for &n in ns {
        cx.begin(format!("bucket size of {n} keys"));
        let v = M { m: (0..n as u64).map(|i| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15), i as u32)).collect() };
        let Some(b) = cx.ok(Parcode::serialize(&v), "serialize") else { return };
        let Ok(root) = refdec::parse(&b) else { return cx.fail("unreadable", "map") };
        let top = root.kids[0].kids.iter().map(|k| k.len).max().unwrap_or(0);
        cx.max("max_bucket_bytes", top);
        // At most 2 x 2000 keys on average; 26 bytes each; and some spread.
        cx.check(top <= 6000 * 26, "bucket size", || format!("{n} keys: a bucket of {top} bytes"));
        cx.distinct(&("map", n));
        cx.count("shard_bounds", 1);
    }
}

fn main() {
    let args = Args::parse();
    install();
    let mut cx = Cx::new("C11", &args, 24, 420);
    let dir = scratch(&args, "c11");
    std::fs::create_dir_all(&dir).unwrap();
    let part = args.num("part", 0);
    if part == 0 {
        let big = args.thorough;
        let ns = if big { vec![10, 5000, 200_000, 4_000_000, 20_000_000] } else { vec![10, 5000, 200_000, 3_000_000] };
        bounds(&mut cx, "u8", 7u8, 1, &ns);
        bounds(&mut cx, "u64", u64::MAX, 9, &ns);
        bounds(&mut cx, "100-byte strings", "x".repeat(100), 101, &ns[..3]);
        bounds(&mut cx, "5 kB strings", "x".repeat(5000), 5003, &[1, 10, 300, 8000]);
        bounds(&mut cx, "300 kB strings", "x".repeat(300_000), 300_005, &[1, 10, 60]);
        map_bounds(&mut cx, if big { &[1, 1999, 2001, 40_000, 400_000, 1_900_000] } else { &[1, 1999, 2001, 40_000, 200_000] });
    }
    let mut r = Rng::derive(args.seed, "c11", part);
    let mut n = 0u64;
    while cx.go() {
        let size = [0, 1, 1, 2][r.below(4)];
        let d = doc(&mut r, size);
        cx.begin(format!("seed={} part={part} n={n} size={size}", args.seed));
        let bytes = match r.below(4) {
            0 | 1 => match Parcode::builder().compression(r.chance(1, 4)).write_sync_vec(&d) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("error", e);
                    continue;
                }
            },
            _ => {
                // Every chunk on pages of its own: the tracer sees single chunks.
                let mut lay = Layout::random(&mut r, true);
                lay.align = if size < 2 { PAGE } else { 0 };
                cx.count(if lay.align > 0 { "chunk_aligned_files" } else { "foreign_layouts" }, 1);
                refenc::encode(&d.shape(0, false), &lay, &mut r).file
            }
        };
        if bytes.len() / PAGE + 2 < MAX_PAGES {
            file_case(&mut cx, &dir, &d, &bytes, &mut r, !args.thorough);
        }
        n += 1;
    }
    cx.count("page_faults_observed", FAULTS.load(SeqCst));
    cx.finish();
}
trait Vecs {
    fn write_sync_vec(&self, d: &Doc) -> Result<Vec<u8>, String>;
}
impl Vecs for parcode::ParcodeOptions {
    fn write_sync_vec(&self, d: &Doc) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        self.write(&mut v, d).map_err(|e| e.to_string())?;
        Ok(v)
    }
}
