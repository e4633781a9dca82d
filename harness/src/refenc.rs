//! Reference encoder: lays a `Shape` out as a conforming V4 file, with every freedom the format
//! leaves to a producer (shard splits, run-length tables, bucket counts, chunk placement, unused
//! gaps, per-chunk compression) chosen at random.
use crate::lz4;
use crate::rng::Rng;
use crate::shape::{Items, Shape, varint};

#[derive(Clone, Debug)]
pub struct Layout {
    pub lz4: bool,
    /// 0 never, 1 as requested by the shape, 2 random per chunk, 3 always
    pub comp: u8,
    pub gaps: bool,
    pub shuffle: bool,
    /// 0 single shard, 1 one item per shard, 2 uniform, 3 random lengths
    pub split: u8,
    pub max_shards: usize,
    /// Start every chunk at a multiple of this (0: anywhere).
    pub align: usize,
    /// Buckets of every map that is not empty (0: as `split` says).
    pub buckets: usize,
    /// Put gigabytes of unused bytes between two chunks.
    pub far: bool,
}
impl Encoded {
    /// The file with its hole.
    pub fn write(&self, p: &std::path::Path) -> std::io::Result<()> {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(p)?;
        let (a, b) = self.file.split_at(self.hole.0);
        f.write_all_at(a, 0)?;
        f.write_all_at(b, a.len() as u64 + self.hole.1)
    }
}
impl Layout {
    pub fn random(r: &mut Rng, lz4: bool) -> Self {
        Self {
            lz4,
            comp: r.below(4) as u8,
            gaps: r.chance(1, 3),
            shuffle: r.chance(1, 2),
            split: r.below(4) as u8,
            max_shards: if r.chance(1, 8) { 400 } else { 40 },
            align: 0,
            buckets: 0,
            far: false,
        }
    }
}

pub struct Chunk {
    pub raw: Vec<u8>,
    pub comp: u8,
    pub kids: Vec<usize>,
}
impl Chunk {
    pub fn len(&self) -> usize {
        self.raw.len() + 1 + if self.kids.is_empty() { 0 } else { 4 + 16 * self.kids.len() }
    }
    pub fn is_empty(&self) -> bool {
        false
    }
}

pub struct Enc<'r> {
    pub chunks: Vec<Chunk>,
    pub r: &'r mut Rng,
    pub lay: Layout,
    pub shards: usize,
}

impl Enc<'_> {
    fn push(&mut self, payload: &[u8], req: u8, kids: Vec<usize>) -> usize {
        let want = match self.lay.comp {
            0 => false,
            1 => req == 1,
            2 => self.r.chance(1, 2),
            _ => true,
        };
        let comp = u8::from(want && self.lay.lz4);
        let raw = if comp == 1 { lz4::encode(payload, self.r.chance(1, 2)) } else { payload.to_vec() };
        self.chunks.push(Chunk { raw, comp, kids });
        self.chunks.len() - 1
    }
    fn all(&mut self, s: &[Shape]) -> Vec<usize> {
        s.iter().map(|k| self.shape(k)).collect()
    }
    pub fn splits(&mut self, n: usize) -> Vec<usize> {
        if n == 0 {
            return vec![];
        }
        let min = n.div_ceil(self.lay.max_shards).max(1);
        let mut v = vec![];
        let uni = self.r.range(min, n.max(min));
        let mut left = n;
        while left > 0 {
            let k = match self.lay.split {
                0 => n,
                1 => min,
                2 => uni,
                _ => self.r.range(min, (min * 3).max(n / 6).max(min)),
            };
            let k = k.min(left);
            v.push(k);
            left -= k;
        }
        v
    }
    fn shape(&mut self, s: &Shape) -> usize {
        match s {
            Shape::Blob { bytes, comp } => self.push(bytes, *comp, vec![]),
            Shape::BlobMap { entries, comp } => {
                let mut e: Vec<&Vec<u8>> = entries.iter().collect();
                self.r.shuffle(&mut e);
                let mut p = vec![];
                varint(e.len() as u64, &mut p);
                e.iter().for_each(|x| p.extend_from_slice(x));
                self.push(&p, *comp, vec![])
            }
            Shape::Struct { bytes, kids, comp } => {
                let k = self.all(kids);
                self.push(bytes, *comp, k)
            }
            Shape::Vec { items, comp } => {
                let sp = self.splits(items.len());
                let mut runs: Vec<(usize, usize)> = vec![];
                let mut kids = vec![];
                let mut i = 0;
                for n in sp {
                    let k = self.all(items.kids(i, i + n));
                    let mut p = vec![];
                    varint(n as u64, &mut p);
                    p.extend_from_slice(items.bytes(i, i + n));
                    kids.push(self.push(&p, *comp, k));
                    self.shards += 1;
                    i += n;
                    match runs.last_mut() {
                        // A run may be written as several runs of the same count.
                        Some(x) if x.0 == n && !self.r.chance(1, 12) => x.1 += 1,
                        _ => runs.push((n, 1)),
                    }
                }
                let mut p = (items.len() as u64).to_le_bytes().to_vec();
                varint(runs.len() as u64, &mut p);
                for (a, b) in runs {
                    varint(a as u64, &mut p);
                    varint(b as u64, &mut p);
                }
                self.push(&p, *comp, kids)
            }
            Shape::Map { hashes, items, comp } => {
                let n = items.len();
                let b = if n == 0 {
                    0
                } else if self.lay.buckets > 0 {
                    self.lay.buckets
                } else {
                    match self.lay.split {
                        0 => 1,
                        1 => self.r.range(1, n.min(30)),
                        2 => self.r.range(1, 5),
                        _ => self.r.range(n, n + 7).min(64),
                    }
                };
                let mut kids = vec![];
                let mut of = vec![vec![]; b];
                (0..n).for_each(|i| of[(hashes[i] % b as u64) as usize].push(i));
                for mut idx in of {
                    self.r.shuffle(&mut idx);
                    let (p, k) = self.bucket(hashes, items, &idx);
                    kids.push(self.push(&p, *comp, k));
                }
                self.push(&(b as u32).to_le_bytes(), *comp, kids)
            }
        }
    }
    fn bucket(&mut self, hashes: &[u64], items: &Items, idx: &[usize]) -> (Vec<u8>, Vec<usize>) {
        if idx.is_empty() {
            return (vec![], vec![]);
        }
        let mut p = (idx.len() as u32).to_le_bytes().to_vec();
        p.extend_from_slice(&[0; 4]);
        let mut kids = vec![];
        let mut data = vec![];
        let mut offs = vec![];
        for &i in idx {
            p.extend_from_slice(&hashes[i].to_le_bytes());
            offs.extend_from_slice(&(data.len() as u32).to_le_bytes());
            data.extend_from_slice(items.bytes(i, i + 1));
            let k = self.all(items.kids(i, i + 1));
            kids.extend(k);
        }
        p.extend_from_slice(&offs);
        p.extend_from_slice(&data);
        (p, kids)
    }
}

pub struct Encoded {
    /// Without the hole.
    pub file: Vec<u8>,
    /// Unused bytes to be put in before `file[hole.0]`.
    pub hole: (usize, u64),
    pub chunks: Vec<(u64, u64)>,
    pub shards: usize,
}

pub fn encode(s: &Shape, lay: &Layout, r: &mut Rng) -> Encoded {
    let mut e = Enc { chunks: vec![], r, lay: lay.clone(), shards: 0 };
    let root = e.shape(s);
    let shards = e.shards;
    let chunks = e.chunks;
    place(&chunks, root, lay, r, shards)
}

pub fn place(chunks: &[Chunk], root: usize, lay: &Layout, r: &mut Rng, shards: usize) -> Encoded {
    let mut order: Vec<usize> = (0..chunks.len()).collect();
    if lay.shuffle {
        r.shuffle(&mut order);
    }
    let mut at = vec![0u64; chunks.len()];
    let mut pos = 0;
    let mut gaps = vec![0usize; chunks.len()];
    let far = lay.far.then(|| *r.pick(&order));
    let size = (1 << 32) + r.below(1 << 30) as u64;
    for &i in &order {
        if far == Some(i) {
            pos += size;
        }
        if lay.gaps && r.chance(1, 4) {
            gaps[i] = r.range(1, 40);
        }
        if lay.align > 0 {
            gaps[i] = (lay.align - pos as usize % lay.align) % lay.align;
        }
        pos += gaps[i] as u64;
        at[i] = pos;
        pos += chunks[i].len() as u64;
    }
    let mut f = vec![];
    let mut hole = (0, 0);
    for &i in &order {
        if far == Some(i) {
            hole = (f.len(), size);
        }
        let junk = r.bytes(gaps[i]);
        f.extend_from_slice(&junk);
        let c = &chunks[i];
        f.extend_from_slice(&c.raw);
        if !c.kids.is_empty() {
            for &k in &c.kids {
                f.extend_from_slice(&at[k].to_le_bytes());
                f.extend_from_slice(&(chunks[k].len() as u64).to_le_bytes());
            }
            f.extend_from_slice(&(c.kids.len() as u32).to_le_bytes());
        }
        f.push(u8::from(!c.kids.is_empty()) | c.comp << 1);
    }
    if lay.gaps && r.chance(1, 3) {
        let n = r.range(1, 20);
        f.extend(r.bytes(n));
    }
    f.extend_from_slice(b"PAR4");
    f.extend_from_slice(&4u16.to_le_bytes());
    f.extend_from_slice(&at[root].to_le_bytes());
    f.extend_from_slice(&(chunks[root].len() as u64).to_le_bytes());
    f.extend_from_slice(&0u32.to_le_bytes());
    let spans = at.iter().zip(chunks).map(|(a, c)| (*a, c.len() as u64)).collect();
    Encoded { file: f, hole, chunks: spans, shards }
}
