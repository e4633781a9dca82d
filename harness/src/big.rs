//! Files beyond 4 GiB that take next to no disk space and memory: items that are almost only
//! zeros, and destinations that leave holes for them.
use crate::rng::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fs::File;
use std::io::{self, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::path::Path;

const BODY: usize = 1 << 20;
static ZEROS: [u8; BODY] = [0; BODY];

/// A megabyte of zeros in a file, nothing in memory.
#[derive(Clone, Debug, PartialEq)]
pub struct Body;
impl Serialize for Body {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&ZEROS)
    }
}
impl<'de> Deserialize<'de> for Body {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Body;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("a megabyte of zeros")
            }
            fn visit_bytes<E: serde::de::Error>(self, b: &[u8]) -> Result<Body, E> {
                if *b == ZEROS { Ok(Body) } else { Err(E::custom("another body")) }
            }
        }
        d.deserialize_byte_buf(V)
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, parcode::ParcodeObject)]
pub struct Big {
    pub id: u32,
    pub body: Body,
}
/// More than 4 GiB of them.
pub fn value(r: &mut Rng) -> Vec<Big> {
    let first = r.below(1000) as u32;
    (0..r.range(4120, 4200) as u32).map(|i| Big { id: first + i, body: Body }).collect()
}

/// Many items, without a generator call for each.
pub fn millions<T>(seed: u64, n: usize, f: impl Fn(u64) -> T) -> Vec<T> {
    let mut x = seed | 1;
    let mut next = || {
        x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        f(x >> 40)
    };
    (0..n).map(|_| next()).collect()
}

/// A file written with holes where there are only zeros.
pub struct Holes(File);
impl Holes {
    pub fn create(p: &Path) -> io::Result<Self> {
        File::create(p).map(Self)
    }
}
impl Write for Holes {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for part in b.chunks(1 << 14) {
            if *part == ZEROS[..part.len()] {
                self.0.seek(SeekFrom::Current(part.len() as i64))?;
            } else {
                self.0.write_all(part)?;
            }
        }
        Ok(b.len())
    }
    /// The end is never a hole (a trailer ends in zeros, but is shorter than a part).
    fn flush(&mut self) -> io::Result<()> {
        let at = self.0.stream_position()?;
        self.0.set_len(at)
    }
}

/// A file's bytes, mapped.
pub struct Mapped(*mut libc::c_void, usize);
unsafe impl Sync for Mapped {}
impl Mapped {
    pub fn open(p: &Path) -> io::Result<Self> {
        let f = File::open(p)?;
        let n = f.metadata()?.len() as usize;
        let a = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if a == libc::MAP_FAILED { Err(io::Error::last_os_error()) } else { Ok(Self(a, n)) }
    }
}
impl std::ops::Deref for Mapped {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.cast(), self.1) }
    }
}
impl Drop for Mapped {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0, self.1) };
    }
}

/// The file of `v`, chunk by chunk.
pub fn verify(f: &[u8], v: &[Big]) -> Result<(), String> {
    use crate::refdec;
    use crate::shape::read_varint;
    let h = refdec::header(f)?;
    let (off, len) = (h.root_off as usize, h.root_len as usize);
    if off.checked_add(len) != Some(f.len() - refdec::HEADER) {
        return Err(format!("root chunk {off}+{len} of {} bytes is not the last one", f.len()));
    }
    let root = &f[off..off + len];
    if root[len - 1] != 1 {
        return Err(format!("root meta byte {}", root[len - 1]));
    }
    let n = u32::from_le_bytes(root[len - 5..len - 1].try_into().unwrap()) as usize;
    let Some(table) = (len - 5).checked_sub(n * 16) else { return Err(format!("{n} children in a root of {len} bytes")) };
    let (total, runs) = refdec::vec_header(&root[..table])?;
    if total != v.len() as u64 || runs.iter().map(|r| r.1).sum::<u64>() != n as u64 {
        return Err(format!("{total} items in {runs:?} declared of {} in {n} shards", v.len()));
    }
    let mut runs = runs.into_iter().flat_map(|(k, rep)| (0..rep).map(move |_| k as usize));
    let mut spans = vec![];
    let mut id = v.iter().map(|b| u64::from(b.id));
    for e in root[table..len - 5].chunks_exact(16) {
        let (o, l) = (u64::from_le_bytes(e[..8].try_into().unwrap()) as usize, u64::from_le_bytes(e[8..].try_into().unwrap()) as usize);
        spans.push((o, l));
        let mut c = f.get(o..o.saturating_add(l)).ok_or_else(|| format!("chunk {o}+{l} is outside the file"))?;
        let bad = |what: &str| format!("shard at {o}: {what}");
        let num = |c: &mut &[u8]| {
            let (x, k) = read_varint(c)?;
            *c = &c[k..];
            Some(x)
        };
        let k = num(&mut c).ok_or(bad("too short"))?;
        if runs.next() != Some(k as usize) {
            return Err(bad("its length is not the declared one"));
        }
        for _ in 0..k {
            if num(&mut c) != id.next() {
                return Err(bad("another item"));
            }
            if num(&mut c) != Some(BODY as u64) || c.get(..BODY) != Some(&ZEROS[..]) {
                return Err(bad("another body"));
            }
            c = &c[BODY..];
        }
        if c != [0] {
            return Err(bad("meta byte"));
        }
    }
    if id.next().is_some() {
        return Err("items are missing".into());
    }
    spans.sort_unstable();
    let end = spans.iter().try_fold(0, |at, &(o, l)| (o == at).then_some(o + l));
    if end != Some(off) {
        return Err("gaps or overlaps between the shards".into());
    }
    Ok(())
}
/// Writes `v` to `p` with holes, in parallel or not.
pub fn write(p: &Path, v: &Vec<Big>, sync: bool) -> Result<(), parcode::ParcodeError> {
    let w = Holes::create(p)?;
    if sync { parcode::Parcode::write_sync(w, v) } else { parcode::Parcode::write(w, v) }
}
