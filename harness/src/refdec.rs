//! Reference decoder of the V4 format, written from the documentation, sharing no code with the
//! crate. Parses a file into a chunk tree and checks the tree against an expected `Shape`.
use crate::lz4;
use crate::shape::{Items, Shape, read_varint, varint};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Node {
    pub off: u64,
    pub len: u64,
    pub raw_len: u64,
    pub comp: u8,
    pub has_kids: bool,
    pub payload: Vec<u8>,
    pub kids: Vec<Node>,
}
pub const HEADER: usize = 26;

pub struct Header {
    pub root_off: u64,
    pub root_len: u64,
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | u64::from(*x))
}

pub fn header(file: &[u8]) -> Result<Header, String> {
    if file.len() < HEADER {
        return Err("file shorter than the trailer".into());
    }
    let h = &file[file.len() - HEADER..];
    if &h[0..4] != b"PAR4" {
        return Err(format!("magic {:?}", &h[0..4]));
    }
    if le(&h[4..6]) != 4 {
        return Err(format!("version {}", le(&h[4..6])));
    }
    if le(&h[22..26]) != 0 {
        return Err(format!("reserved checksum field is {:#x}", le(&h[22..26])));
    }
    Ok(Header { root_off: le(&h[6..14]), root_len: le(&h[14..22]) })
}

pub fn parse(file: &[u8]) -> Result<Node, String> {
    let h = header(file)?;
    let mut budget = file.len() as u64;
    chunk(file, h.root_off, h.root_len, (file.len() - HEADER) as u64, &mut budget)
}

fn chunk(file: &[u8], off: u64, len: u64, limit: u64, budget: &mut u64) -> Result<Node, String> {
    let end = off.checked_add(len).filter(|e| *e <= limit && len > 0).ok_or(format!("chunk {off}+{len} outside {limit}"))?;
    *budget = budget.checked_sub(len).ok_or("chunks are shared or overlap")?;
    let c = &file[off as usize..end as usize];
    let meta = c[c.len() - 1];
    if meta & 0xF0 != 0 {
        return Err(format!("chunk {off}: reserved meta bits set: {meta:#x}"));
    }
    let has_kids = meta & 1 == 1;
    let comp = meta >> 1 & 7;
    let mut raw_end = c.len() - 1;
    let mut kids = vec![];
    if has_kids {
        raw_end = raw_end.checked_sub(4).ok_or("chunk too small for its child count")?;
        let n = le(&c[raw_end..raw_end + 4]) as usize;
        let table_end = raw_end;
        raw_end = raw_end.checked_sub(n * 16).ok_or("chunk too small for its child table")?;
        for e in c[raw_end..table_end].chunks_exact(16) {
            kids.push(chunk(file, le(&e[..8]), le(&e[8..]), limit, budget)?);
        }
        if n == 0 {
            return Err(format!("chunk {off}: flagged as having children, has none"));
        }
    }
    let raw = &c[..raw_end];
    let payload = match comp {
        0 => raw.to_vec(),
        1 => lz4::decode(raw).map_err(|e| format!("chunk {off}: {e}"))?,
        x => return Err(format!("chunk {off}: unknown compression {x}")),
    };
    Ok(Node { off, len, raw_len: raw_end as u64, comp, has_kids, payload, kids })
}

impl Node {
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node, usize), depth: usize) {
        f(self, depth);
        for k in &self.kids {
            k.walk(f, depth + 1);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(Node::count).sum::<usize>()
    }
    /// The tree without physical placement.
    pub fn canon(&self, out: &mut Vec<u8>) {
        out.push(self.comp);
        varint(self.payload.len() as u64, out);
        out.extend_from_slice(&self.payload);
        varint(self.kids.len() as u64, out);
        self.kids.iter().for_each(|k| k.canon(out));
    }
    pub fn canonical(&self) -> Vec<u8> {
        let mut v = vec![];
        self.canon(&mut v);
        v
    }
    /// Chunk identities (pre-order numbers) in file order: the visible trace of the schedule.
    pub fn placement(&self) -> Vec<u32> {
        let mut v = vec![];
        let mut i = 0u32;
        self.walk(
            &mut |n, _| {
                v.push((n.off, i));
                i += 1;
            },
            0,
        );
        v.sort_unstable();
        v.into_iter().map(|x| x.1).collect()
    }
}

/// Chunks tile the file up to the trailer, children precede parents, the root comes last.
pub fn check_tiling(file: &[u8], root: &Node) -> Result<(), String> {
    let mut v = vec![];
    let mut order = Ok(());
    root.walk(
        &mut |n, _| {
            v.push((n.off, n.len));
            for k in &n.kids {
                if k.off + k.len > n.off {
                    order = Err(format!("child at {} lies after its parent at {}", k.off, n.off));
                }
            }
        },
        0,
    );
    order?;
    v.sort_unstable();
    let mut pos = 0;
    for (o, l) in &v {
        if *o != pos {
            return Err(format!("gap or overlap: chunk at {o}, expected at {pos}"));
        }
        pos = o + l;
    }
    if pos != (file.len() - HEADER) as u64 {
        return Err(format!("{} bytes between the last chunk and the trailer", file.len() - HEADER - pos as usize));
    }
    if v.last() != Some(&(root.off, root.len)) {
        return Err("the root chunk is not the last one".into());
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub struct Expect {
    pub global: bool,
    pub lz4: bool,
    /// Check compression flags at all (reference-written files mix them freely).
    pub flags: bool,
}
impl Expect {
    pub fn comp(&self, req: u8) -> u8 {
        let id = if self.global && req == 0 { 1 } else { req };
        if id == 1 && self.lz4 { 1 } else { 0 }
    }
}

fn flag(n: &Node, req: u8, ex: Expect) -> Result<(), String> {
    let want = ex.comp(req);
    if ex.flags && n.comp != want {
        return Err(format!("chunk at {}: compression id {}, expected {want}", n.off, n.comp));
    }
    Ok(())
}
fn same_bytes(what: &str, n: &Node, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Err(format!("{what} of chunk at {}: {} bytes, expected {}, first difference at {p}", n.off, a.len(), b.len()))
}
fn kids(n: &Node, shapes: &[Shape], ex: Expect) -> Result<(), String> {
    if n.kids.len() != shapes.len() {
        return Err(format!("chunk at {}: {} children, expected {}", n.off, n.kids.len(), shapes.len()));
    }
    for (i, (k, s)) in n.kids.iter().zip(shapes).enumerate() {
        check(k, s, ex).map_err(|e| format!("child {i}: {e}"))?;
    }
    Ok(())
}

/// Parses `[u64 total][varint runs][(count, repeat)...]`.
pub fn vec_header(p: &[u8]) -> Result<(u64, Vec<(u64, u64)>), String> {
    let total = le(p.get(0..8).ok_or("vector payload shorter than 8 bytes")?);
    let mut pos = 8;
    let mut next = || -> Result<u64, String> {
        let (v, n) = read_varint(&p[pos..]).ok_or("run table truncated")?;
        pos += n;
        Ok(v)
    };
    let n = next()?;
    let mut runs = vec![];
    for _ in 0..n {
        runs.push((next()?, next()?));
    }
    if pos != p.len() {
        return Err(format!("{} stray bytes after the run table", p.len() - pos));
    }
    Ok((total, runs))
}

pub fn check(n: &Node, s: &Shape, ex: Expect) -> Result<(), String> {
    match s {
        Shape::Blob { bytes, comp } => {
            flag(n, *comp, ex)?;
            kids(n, &[], ex)?;
            same_bytes("payload", n, &n.payload, bytes)
        }
        Shape::Struct { bytes, kids: ks, comp } => {
            flag(n, *comp, ex)?;
            same_bytes("local fields", n, &n.payload, bytes)?;
            kids(n, ks, ex)
        }
        Shape::BlobMap { entries, comp } => {
            kids(n, &[], ex)?;
            if entries.is_empty() {
                // Any encoding of zero: one varint byte or a zero shard count.
                if n.payload.iter().all(|b| *b == 0) && !n.payload.is_empty() {
                    return Ok(());
                }
                return Err(format!("empty map stored as {:?}", n.payload));
            }
            flag(n, *comp, ex)?;
            let (c, mut pos) = read_varint(&n.payload).ok_or("map blob truncated")?;
            if c != entries.len() as u64 {
                return Err(format!("map blob declares {c} entries, expected {}", entries.len()));
            }
            // Entries are distinct and prefix-free, so greedy matching by content is exact.
            let mut want: HashMap<&[u8], u32> = HashMap::new();
            let mut lens: Vec<usize> = vec![];
            for e in entries {
                *want.entry(e).or_insert(0) += 1;
                lens.push(e.len());
            }
            lens.sort_unstable();
            lens.dedup();
            for _ in 0..c {
                let mut hit = false;
                for l in &lens {
                    if let Some(b) = n.payload.get(pos..pos + l)
                        && let Some(k) = want.get_mut(b)
                        && *k > 0
                    {
                        *k -= 1;
                        pos += l;
                        hit = true;
                        break;
                    }
                }
                if !hit {
                    return Err(format!("map blob: unexpected entry at byte {pos}"));
                }
            }
            if pos != n.payload.len() {
                return Err("map blob: stray bytes".into());
            }
            Ok(())
        }
        Shape::Vec { items, comp } => {
            flag(n, *comp, ex)?;
            let (total, runs) = vec_header(&n.payload).map_err(|e| format!("chunk at {}: {e}", n.off))?;
            if total != items.len() as u64 {
                return Err(format!("vector declares {total} items, expected {}", items.len()));
            }
            let shards: u64 = runs.iter().map(|r| r.1).sum();
            if shards != n.kids.len() as u64 {
                return Err(format!("run table describes {shards} shards, chunk has {}", n.kids.len()));
            }
            let mut i = 0;
            let mut k = n.kids.iter();
            for (cnt, rep) in runs {
                for _ in 0..rep {
                    let sh = k.next().ok_or("missing shard")?;
                    let j = i + cnt as usize;
                    if j > items.len() || cnt == 0 {
                        return Err(format!("run table: shard of {cnt} items at item {i} of {}", items.len()));
                    }
                    shard(sh, items, i, j, *comp, ex).map_err(|e| format!("shard of items {i}..{j}: {e}"))?;
                    i = j;
                }
            }
            if i != items.len() {
                return Err(format!("run table covers {i} items of {}", items.len()));
            }
            Ok(())
        }
        Shape::Map { hashes, items, comp } => {
            flag(n, *comp, ex)?;
            let b = le(n.payload.get(0..4).ok_or("map payload shorter than 4 bytes")?) as usize;
            if n.payload.len() != 4 {
                return Err(format!("map container payload has {} bytes", n.payload.len()));
            }
            if b != n.kids.len() {
                return Err(format!("map declares {b} buckets, chunk has {}", n.kids.len()));
            }
            if items.is_empty() {
                return if n.kids.iter().all(|k| k.payload.is_empty()) { Ok(()) } else { Err("empty map with entries".into()) };
            }
            if b == 0 {
                return Err("non-empty map without buckets".into());
            }
            let mut want: HashMap<&[u8], usize> = HashMap::new();
            for i in 0..items.len() {
                want.insert(items.bytes(i, i + 1), i);
            }
            for (bi, sh) in n.kids.iter().enumerate() {
                flag(sh, *comp, ex)?;
                bucket(sh, bi, b, hashes, items, &mut want, ex).map_err(|e| format!("bucket {bi}: {e}"))?;
            }
            if !want.is_empty() {
                return Err(format!("{} entries missing", want.len()));
            }
            Ok(())
        }
    }
}

fn shard(sh: &Node, items: &Items, i: usize, j: usize, comp: u8, ex: Expect) -> Result<(), String> {
    flag(sh, comp, ex)?;
    let mut want = vec![];
    varint((j - i) as u64, &mut want);
    want.extend_from_slice(items.bytes(i, j));
    same_bytes("shard payload", sh, &sh.payload, &want)?;
    kids(sh, items.kids(i, j), ex)
}

fn bucket(sh: &Node, bi: usize, b: usize, hashes: &[u64], items: &Items, want: &mut HashMap<&[u8], usize>, ex: Expect) -> Result<(), String> {
    if sh.payload.is_empty() {
        return kids(sh, &[], ex);
    }
    let p = &sh.payload;
    let n = le(p.get(0..4).ok_or("short")?) as usize;
    if p.get(4..8) != Some(&[0, 0, 0, 0]) {
        return Err("padding is not zero".into());
    }
    let ho = 8;
    let oo = ho + 8 * n;
    let d = oo + 4 * n;
    if d > p.len() {
        return Err("tables exceed payload".into());
    }
    let offs: Vec<usize> = (0..n).map(|i| le(&p[oo + 4 * i..oo + 4 * i + 4]) as usize).collect();
    let mut k = 0;
    for i in 0..n {
        let e = if i + 1 < n { offs[i + 1] } else { p.len() - d };
        let bytes = p.get(d + offs[i]..d + e).filter(|_| offs[0] == 0).ok_or("offsets are not consecutive")?;
        let idx = want.remove(bytes).ok_or_else(|| format!("entry {i} is unknown or repeated"))?;
        let h = le(&p[ho + 8 * i..ho + 8 * i + 8]);
        if h != hashes[idx] {
            return Err(format!("entry {i}: stored hash {h:#x}, expected {:#x}", hashes[idx]));
        }
        if (h % b as u64) as usize != bi {
            return Err(format!("entry {i} with hash {h:#x} is in the wrong bucket of {b}"));
        }
        let ks = items.kids(idx, idx + 1);
        for s in ks {
            let c = sh.kids.get(k).ok_or("too few children")?;
            check(c, s, ex).map_err(|e| format!("entry {i}: {e}"))?;
            k += 1;
        }
    }
    if k != sh.kids.len() {
        return Err(format!("{} children, expected {k}", sh.kids.len()));
    }
    Ok(())
}
