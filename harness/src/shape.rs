//! `Shape`: what the documented V4 format says a value looks like, independent of how the crate
//! computes it. Shared by the conformance checker (`refdec`) and the reference writer (`refenc`).
use serde::Serialize;

/// A sequence of inlined items: their local bytes, and the chunks of their remote fields.
#[derive(Clone, Debug, Default)]
pub struct Items {
    pub flat: Vec<u8>,
    pub ends: Vec<usize>,
    pub kids: Vec<Shape>,
    pub kends: Vec<usize>,
}
impl Items {
    pub fn len(&self) -> usize {
        self.ends.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ends.is_empty()
    }
    pub fn bytes(&self, i: usize, j: usize) -> &[u8] {
        let a = if i == 0 { 0 } else { self.ends[i - 1] };
        let b = if j == 0 { 0 } else { self.ends[j - 1] };
        &self.flat[a..b]
    }
    pub fn kids(&self, i: usize, j: usize) -> &[Shape] {
        let a = if i == 0 { 0 } else { self.kends[i - 1] };
        let b = if j == 0 { 0 } else { self.kends[j - 1] };
        &self.kids[a..b]
    }
    pub fn close(&mut self) {
        self.ends.push(self.flat.len());
        self.kends.push(self.kids.len());
    }
}

#[derive(Clone, Debug)]
pub enum Shape {
    /// One chunk without children holding exactly these bytes.
    Blob { bytes: Vec<u8>, comp: u8 },
    /// A map stored as one serde blob: entries in any order.
    BlobMap { entries: Vec<Vec<u8>>, comp: u8 },
    /// Local fields in order, then one child per remote field in order.
    Struct { bytes: Vec<u8>, kids: Vec<Shape>, comp: u8 },
    Vec { items: Items, comp: u8 },
    /// Hash-sharded map: `hashes[i]` belongs to item i, whose bytes are key then local value.
    Map { hashes: Vec<u64>, items: Items, comp: u8 },
}
impl Shape {
    pub fn comp(&self) -> u8 {
        match self {
            Shape::Blob { comp, .. }
            | Shape::BlobMap { comp, .. }
            | Shape::Struct { comp, .. }
            | Shape::Vec { comp, .. }
            | Shape::Map { comp, .. } => *comp,
        }
    }
    /// Number of chunks a minimal encoding needs (size measure for evidence).
    pub fn weight(&self) -> usize {
        match self {
            Shape::Blob { .. } | Shape::BlobMap { .. } => 1,
            Shape::Struct { kids, .. } => 1 + kids.iter().map(Shape::weight).sum::<usize>(),
            Shape::Vec { items, .. } | Shape::Map { items, .. } => {
                2 + items.kids.iter().map(Shape::weight).sum::<usize>()
            }
        }
    }
    /// Structural fingerprint: kinds and sizes, not contents.
    pub fn sig(&self, out: &mut Vec<u64>) {
        match self {
            Shape::Blob { bytes, comp } => out.extend([1, bytes.len() as u64, u64::from(*comp)]),
            Shape::BlobMap { entries, comp } => out.extend([2, entries.len() as u64, u64::from(*comp)]),
            Shape::Struct { bytes, kids, comp } => {
                out.extend([3, bytes.len() as u64, kids.len() as u64, u64::from(*comp)]);
                kids.iter().for_each(|k| k.sig(out));
            }
            Shape::Vec { items, comp } => {
                out.extend([4, items.len() as u64, items.flat.len() as u64, u64::from(*comp)]);
                items.kids.iter().take(8).for_each(|k| k.sig(out));
            }
            Shape::Map { items, comp, .. } => {
                out.extend([5, items.len() as u64, items.flat.len() as u64, u64::from(*comp)]);
                items.kids.iter().take(8).for_each(|k| k.sig(out));
            }
        }
    }
    pub fn signature(&self) -> Vec<u64> {
        let mut v = vec![];
        self.sig(&mut v);
        v
    }
}

pub fn bin<T: Serialize + ?Sized>(t: &T, out: &mut Vec<u8>) {
    bincode::serde::encode_into_std_write(t, out, bincode::config::standard()).expect("bincode");
}
pub fn varint(n: u64, out: &mut Vec<u8>) {
    match n {
        0..=250 => out.push(n as u8),
        251..=0xffff => {
            out.push(251);
            out.extend_from_slice(&(n as u16).to_le_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            out.push(252);
            out.extend_from_slice(&(n as u32).to_le_bytes());
        }
        _ => {
            out.push(253);
            out.extend_from_slice(&n.to_le_bytes());
        }
    }
}
/// Reads a bincode varint; returns (value, bytes used).
pub fn read_varint(b: &[u8]) -> Option<(u64, usize)> {
    match *b.first()? {
        x @ 0..=250 => Some((u64::from(x), 1)),
        251 => Some((u64::from(u16::from_le_bytes(b.get(1..3)?.try_into().ok()?)), 3)),
        252 => Some((u64::from(u32::from_le_bytes(b.get(1..5)?.try_into().ok()?)), 5)),
        253 => Some((u64::from_le_bytes(b.get(1..9)?.try_into().ok()?), 9)),
        _ => None,
    }
}
