//! Hostile files: structure-aware edits of well-formed ones. The file is taken apart into editable
//! chunks, some of its tables, references and bytes are changed, and it is put together again, so
//! that edits reach past the first validity check instead of failing at the trailer.
use crate::lz4;
use crate::refdec::{self, HEADER, Node};
use crate::rng::Rng;
use crate::shape::{read_varint, varint};

#[derive(Clone, Copy, Debug)]
pub enum Ref {
    To(usize),
    Raw(u64, u64),
    /// A chunk, with offset and length off by so much.
    Off(usize, i64, i64),
}
#[derive(Clone)]
pub struct Ed {
    pub payload: Vec<u8>,
    pub comp: u8,
    /// Stored bytes, if they are not the encoding of `payload`.
    pub raw: Option<Vec<u8>>,
    pub kids: Vec<Ref>,
    pub count: Option<u32>,
    pub meta: Option<u8>,
}
pub struct Ast {
    pub chunks: Vec<Ed>,
    pub root: Ref,
}

pub fn take_apart(root: &Node) -> Ast {
    fn go(n: &Node, out: &mut Vec<Ed>) -> usize {
        let kids = n.kids.iter().map(|k| Ref::To(go(k, out))).collect();
        out.push(Ed { payload: n.payload.clone(), comp: n.comp, raw: None, kids, count: None, meta: None });
        out.len() - 1
    }
    let mut chunks = vec![];
    let r = go(root, &mut chunks);
    Ast { chunks, root: Ref::To(r) }
}

pub fn put_together(a: &Ast) -> Vec<u8> {
    let stored: Vec<Vec<u8>> = a
        .chunks
        .iter()
        .map(|c| match &c.raw {
            Some(r) => r.clone(),
            None if c.comp == 1 => lz4::encode(&c.payload, false),
            None => c.payload.clone(),
        })
        .collect();
    let table = |c: &Ed| !c.kids.is_empty() || c.count.is_some();
    let mut at = vec![];
    let mut len = vec![];
    let mut pos = 0u64;
    for (c, s) in a.chunks.iter().zip(&stored) {
        let l = s.len() as u64 + 1 + if table(c) { 4 + 16 * c.kids.len() as u64 } else { 0 };
        at.push(pos);
        len.push(l);
        pos += l;
    }
    let at_ref = |r: &Ref| match *r {
        Ref::To(i) => (at[i], len[i]),
        Ref::Raw(o, l) => (o, l),
        Ref::Off(i, o, l) => (at[i].wrapping_add_signed(o), len[i].wrapping_add_signed(l)),
    };
    let mut f = Vec::with_capacity(pos as usize + HEADER);
    for (c, s) in a.chunks.iter().zip(&stored) {
        f.extend_from_slice(s);
        if table(c) {
            for k in &c.kids {
                let (o, l) = at_ref(k);
                f.extend_from_slice(&o.to_le_bytes());
                f.extend_from_slice(&l.to_le_bytes());
            }
            f.extend_from_slice(&c.count.unwrap_or(c.kids.len() as u32).to_le_bytes());
        }
        f.push(c.meta.unwrap_or(u8::from(table(c)) | c.comp << 1));
    }
    let (o, l) = at_ref(&a.root);
    f.extend_from_slice(b"PAR4");
    f.extend_from_slice(&4u16.to_le_bytes());
    f.extend_from_slice(&o.to_le_bytes());
    f.extend_from_slice(&l.to_le_bytes());
    f.extend_from_slice(&0u32.to_le_bytes());
    f
}

/// Numbers at which counts, lengths and offsets are likely to be mishandled.
pub fn number(r: &mut Rng, near: u64) -> u64 {
    const N: [u64; 26] = [
        0, 1, 2, 3, 7, 8, 0x7f, 0xff, 250, 251, 252, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000,
        0x1_5555_5556, 0x0fff_ffff, 0x1000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_fff0, 0xffff_ffff_ffff_ffff,
        0x1fff_ffff_ffff_ffff,
    ];
    match r.below(8) {
        0 => near.wrapping_add(1),
        1 => near.wrapping_sub(1),
        2 => near.wrapping_mul(2),
        3 => near.wrapping_add(r.below(40) as u64),
        4 => 1u64 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(r.below(20) as u64),
        _ => *r.pick(&N),
    }
}

fn bytes_edit(r: &mut Rng, b: &mut Vec<u8>) -> String {
    let n = b.len();
    let p = r.below(n + 1).min(n.saturating_sub(1));
    match r.below(9) {
        0 if n > 0 => {
            b[p] ^= 1 << r.below(8);
            format!("flip@{p}")
        }
        1 if n > 0 => {
            b[p] = *r.pick(&[0, 1, 0x7f, 0x80, 250, 251, 252, 253, 254, 255]);
            format!("set@{p}={}", b[p])
        }
        2 if n > 0 => {
            let k = r.range(1, (n - p).min(9).max(1)).min(n - p);
            b.drain(p..p + k);
            format!("delete@{p}+{k}")
        }
        3 => {
            let k = r.range(1, 9);
            let ins = r.bytes(k);
            b.splice(p..p, ins);
            format!("insert@{p}+{k}")
        }
        4 if n > 0 => {
            b.truncate(p);
            format!("truncate@{p}")
        }
        5 => {
            let k = r.range(1, 20);
            let fill = *r.pick(&[0u8, 1, 0xff]);
            b.resize(n + k, fill);
            format!("extend+{k}")
        }
        6 if n >= 4 => {
            let p = r.below(n - 3);
            let v = number(r, u64::from(u32::from_le_bytes(b[p..p + 4].try_into().unwrap()))) as u32;
            b[p..p + 4].copy_from_slice(&v.to_le_bytes());
            format!("u32@{p}={v}")
        }
        7 if n >= 8 => {
            let p = r.below(n - 7);
            let v = number(r, u64::from_le_bytes(b[p..p + 8].try_into().unwrap()));
            b[p..p + 8].copy_from_slice(&v.to_le_bytes());
            format!("u64@{p}={v}")
        }
        _ => {
            // Replace the variable-length number at a random place (often the start).
            let p = if r.chance(1, 2) { 0 } else { p };
            let (v, k) = read_varint(&b[p.min(n)..]).unwrap_or((0, 0));
            let v = number(r, v);
            let mut e = vec![];
            varint(v, &mut e);
            b.splice(p..p + k, e);
            format!("varint@{p}={v}")
        }
    }
}

fn payload_edit(r: &mut Rng, c: &mut Ed) -> String {
    let p = &mut c.payload;
    // Vector container: total and run table.
    if p.len() >= 9 && r.chance(3, 4)
        && let Ok((total, mut runs)) = refdec::vec_header(p)
    {
        let mut total = total;
        let sum = |runs: &[(u64, u64)]| runs.iter().fold(0u64, |a, x| a.wrapping_add(x.0.wrapping_mul(x.1)));
        let before = sum(&runs);
        let mut fix = r.chance(1, 3);
        let mut n_runs = None;
        let d = match r.below(9) {
            0 => {
                total = number(r, total);
                fix = false;
                "total".to_string()
            }
            1 | 2 if !runs.is_empty() => {
                let i = r.below(runs.len());
                runs[i].0 = number(r, runs[i].0);
                if r.chance(3, 4) {
                    runs[i].0 &= 0xffff_ffff;
                }
                "run count".into()
            }
            3 | 4 if !runs.is_empty() => {
                let i = r.below(runs.len());
                runs[i].1 = number(r, runs[i].1);
                if r.chance(3, 4) {
                    runs[i].1 &= 0xffff_ffff;
                }
                "run repeat".into()
            }
            5 => {
                let i = r.below(runs.len() + 1);
                let x = (number(r, 1) & 0xffff_ffff, number(r, 1) & 0xffff_ffff);
                runs.insert(i, x);
                "new run".into()
            }
            6 if !runs.is_empty() => {
                let i = r.below(runs.len());
                runs.remove(i);
                "drop run".into()
            }
            7 => {
                // Runs whose products overflow together.
                for _ in 0..r.range(1, 4) {
                    runs.push((0xffff_ffff, 0xffff_ffff));
                }
                "huge runs".into()
            }
            _ => {
                n_runs = Some(number(r, runs.len() as u64));
                "number of runs".into()
            }
        };
        if fix {
            total = total.wrapping_sub(before).wrapping_add(sum(&runs));
        }
        let mut q = total.to_le_bytes().to_vec();
        varint(n_runs.unwrap_or(runs.len() as u64), &mut q);
        for (a, b) in runs {
            varint(a, &mut q);
            varint(b, &mut q);
        }
        *p = q;
        return format!("vec {d}{}", if fix { " (total adjusted)" } else { "" });
    }
    // Map container: number of buckets.
    if p.len() == 4 && !c.kids.is_empty() && r.chance(3, 4) {
        let v = number(r, c.kids.len() as u64) as u32;
        p.copy_from_slice(&v.to_le_bytes());
        return format!("buckets={v}");
    }
    // Map bucket: count, hash and offset tables.
    if p.len() >= 20 && r.chance(3, 4) {
        let n = u32::from_le_bytes(p[0..4].try_into().unwrap()) as usize;
        if n > 0 && p[4..8] == [0; 4] && p.len() >= 8 + 12 * n {
            let i = r.below(n);
            return match r.below(6) {
                0 => {
                    let v = number(r, n as u64) as u32;
                    p[0..4].copy_from_slice(&v.to_le_bytes());
                    format!("bucket count={v}")
                }
                1 => {
                    let v = *r.pick(&[0, u64::MAX, 1]);
                    p[8 + 8 * i..16 + 8 * i].copy_from_slice(&v.to_le_bytes());
                    format!("hash {i}")
                }
                2 => {
                    let j = r.below(n);
                    let h: [u8; 8] = p[8 + 8 * j..16 + 8 * j].try_into().unwrap();
                    p[8 + 8 * i..16 + 8 * i].copy_from_slice(&h);
                    format!("hash {i}:=hash {j}")
                }
                3 | 4 => {
                    let o = 8 + 8 * n + 4 * i;
                    let size = p.len() - 8 - 12 * n;
                    let near = *r.pick(&[size as u64, 0, u64::from(u32::from_le_bytes(p[o..o + 4].try_into().unwrap()))]);
                    let v = number(r, near) as u32;
                    p[o..o + 4].copy_from_slice(&v.to_le_bytes());
                    format!("offset {i}={v}")
                }
                _ => {
                    let o = 8 + 12 * n;
                    let mut data = p.split_off(o);
                    let d = bytes_edit(r, &mut data);
                    p.extend(data);
                    format!("bucket data {d}")
                }
            };
        }
    }
    bytes_edit(r, p)
}

/// One hostile variant of the file `n` was parsed from. `tame` leaves out references that make
/// the same chunk reachable twice (they multiply the legitimate size of the value).
pub fn mutate(r: &mut Rng, n: &Node, other: &[u8], tame: bool) -> (Vec<u8>, String) {
    let mut a = take_apart(n);
    let mut desc = vec![];
    let mut trailer: Vec<(usize, Vec<u8>)> = vec![];
    let edits = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    for _ in 0..edits {
        let k = a.chunks.len();
        // The root and its neighbours matter most.
        let i = if r.chance(1, 3) { k - 1 } else { r.below(k) };
        let size: u64 = a.chunks.iter().map(|c| c.payload.len() as u64 + 21).sum();
        let d = match r.below(20) {
            0..=8 => format!("chunk {i}: {}", payload_edit(r, &mut a.chunks[i])),
            9 => {
                let mut raw = if a.chunks[i].comp == 1 { lz4::encode(&a.chunks[i].payload, false) } else { a.chunks[i].payload.clone() };
                let d = if a.chunks[i].comp == 1 && raw.len() >= 4 && r.chance(1, 2) {
                    let v = number(r, a.chunks[i].payload.len() as u64) as u32;
                    raw[0..4].copy_from_slice(&v.to_le_bytes());
                    format!("lz4 size={v}")
                } else {
                    bytes_edit(r, &mut raw)
                };
                a.chunks[i].raw = Some(raw);
                format!("chunk {i} stored: {d}")
            }
            10 => {
                let c = &mut a.chunks[i];
                let base = c.meta.unwrap_or(u8::from(!c.kids.is_empty()) | c.comp << 1);
                let m = match r.below(4) {
                    0 => base ^ 1,
                    1 => base & 1 | (r.below(8) as u8) << 1,
                    2 => base ^ (0x10 << r.below(4)),
                    _ => r.u64() as u8,
                };
                c.meta = Some(m);
                format!("chunk {i} meta={m:#x}")
            }
            11 => {
                let c = &mut a.chunks[i];
                let v = number(r, c.kids.len() as u64) as u32;
                c.count = Some(v);
                format!("chunk {i} child count={v}")
            }
            12 => {
                // Change the compression honestly.
                let c = &mut a.chunks[i];
                c.comp ^= 1;
                format!("chunk {i} compression={}", c.comp)
            }
            13..=16 => {
                let with: Vec<usize> = (0..k).filter(|j| !a.chunks[*j].kids.is_empty()).collect();
                if with.is_empty() {
                    let l = number(r, size);
                    let o = number(r, size);
                    a.root = Ref::Raw(o, l);
                    format!("root={o}+{l}")
                } else {
                    let i = *r.pick(&with);
                    let m = a.chunks[i].kids.len();
                    let s = r.below(m);
                    let what = r.below(if tame { 6 } else { 9 });
                    match what {
                        0 => {
                            let t = r.below(m);
                            a.chunks[i].kids.swap(s, t);
                            format!("chunk {i}: swap children {s} {t}")
                        }
                        1 => {
                            a.chunks[i].kids.remove(s);
                            if a.chunks[i].kids.is_empty() && r.chance(1, 2) {
                                a.chunks[i].count = Some(0);
                            }
                            format!("chunk {i}: drop child {s}")
                        }
                        2 => {
                            let (o, l) = (number(r, size), number(r, size));
                            a.chunks[i].kids[s] = Ref::Raw(o, l);
                            format!("chunk {i}: child {s}={o}+{l}")
                        }
                        3 => {
                            let l = number(r, 8);
                            let o = r.below(size as usize) as u64;
                            a.chunks[i].kids[s] = Ref::Raw(o, l);
                            format!("chunk {i}: child {s}={o}+{l}")
                        }
                        4 => {
                            if let Ref::To(t) = a.chunks[i].kids[s] {
                                let (x, y) = (r.below(41) as i64 - 20, r.below(41) as i64 - 20);
                                a.chunks[i].kids[s] = Ref::Off(t, x, if r.chance(1, 2) { -x } else { y });
                            }
                            format!("chunk {i}: child {s} shifted")
                        }
                        5 => {
                            // Off the end of the address space.
                            let back = r.below(300) as u64;
                            let l = back.wrapping_add(r.below(300) as u64);
                            a.chunks[i].kids[s] = Ref::Raw(0u64.wrapping_sub(back), l);
                            format!("chunk {i}: child {s} wraps")
                        }
                        6 => {
                            let t = r.below(k);
                            a.chunks[i].kids[s] = Ref::To(t);
                            format!("chunk {i}: child {s}=chunk {t}")
                        }
                        7 => {
                            a.chunks[i].kids[s] = Ref::To(i);
                            format!("chunk {i}: child {s}=itself")
                        }
                        _ => {
                            let x = a.chunks[i].kids[s];
                            a.chunks[i].kids.insert(s, x);
                            format!("chunk {i}: child {s} twice")
                        }
                    }
                }
            }
            17 => {
                let near = r.below(size as usize) as u64;
                let (pos, v) = match r.below(4) {
                    0 => (6, number(r, near).to_le_bytes().to_vec()),
                    1 => (14, number(r, near).to_le_bytes().to_vec()),
                    2 => (4, (number(r, 4) as u16).to_le_bytes().to_vec()),
                    _ => (22, (number(r, 0) as u32).to_le_bytes().to_vec()),
                };
                let d = format!("trailer@{pos}={v:?}");
                trailer.push((pos, v));
                d
            }
            18 => {
                // A chunk of another file.
                let c = &mut a.chunks[i];
                let from = r.below(other.len().max(1)).min(other.len());
                let to = (from + r.range(0, 64)).min(other.len());
                c.payload = other[from..to].to_vec();
                format!("chunk {i}: foreign payload {from}..{to}")
            }
            _ => {
                // Another chunk's payload or children.
                let j = r.below(k);
                let o = a.chunks[j].clone();
                a.chunks[i].payload = o.payload;
                format!("chunk {i}: payload of chunk {j}")
            }
        };
        desc.push(d);
    }
    let mut f = put_together(&a);
    let h = f.len() - HEADER;
    for (p, v) in trailer {
        f[h + p..h + p + v.len()].copy_from_slice(&v);
    }
    (f, desc.join("; "))
}

/// Unstructured damage: bit flips, cuts, splices, noise.
pub fn scramble(r: &mut Rng, file: &[u8], other: &[u8]) -> (Vec<u8>, String) {
    let mut f = file.to_vec();
    match r.below(6) {
        0 => {
            let n = r.range(1, 6);
            let mut d = vec![];
            for _ in 0..n {
                d.push(bytes_edit(r, &mut f));
            }
            (f, d.join("; "))
        }
        1 => {
            // Keep the trailer, damage the rest.
            let h = f.len() - HEADER;
            let t = f.split_off(h);
            let d = bytes_edit(r, &mut f);
            f.extend(t);
            (f, format!("body {d}"))
        }
        2 => {
            let c = r.below(f.len() + 1);
            f.truncate(c);
            (f, format!("cut at {c}"))
        }
        3 => {
            // The end of another file, or its trailer, after this body.
            let c = r.below(f.len() + 1);
            let o = if r.chance(1, 2) { other.len().saturating_sub(HEADER) } else { r.below(other.len() + 1) };
            f.truncate(c);
            f.extend_from_slice(&other[o..]);
            (f, format!("splice {c} with other@{o}"))
        }
        4 => {
            let n = r.below(120);
            let mut f = r.bytes(n);
            let l = number(r, n as u64);
            f.extend_from_slice(b"PAR4\x04\0");
            let o = number(r, n as u64 / 2);
            let (o, l) = if r.chance(3, 4) && n > 0 {
                let o = r.below(n) as u64;
                (o, (n as u64 - o).max(1))
            } else {
                (o, l)
            };
            f.extend_from_slice(&o.to_le_bytes());
            f.extend_from_slice(&l.to_le_bytes());
            f.extend_from_slice(&[0; 4]);
            (f, format!("noise {n} root {o}+{l}"))
        }
        _ => {
            let n = r.below(60);
            (r.bytes(n), format!("noise {n}"))
        }
    }
}

/// Consistent lies about item counts: the checks that keep uninitialised memory from being handed
/// out, and items from being dropped twice or never, live where these tables disagree.
pub fn lies(n: &Node, r: &mut Rng) -> Vec<(Vec<u8>, String)> {
    let mut out = vec![];
    let base = take_apart(n);
    let k = base.chunks.len();
    let mut vecs = vec![];
    let mut maps = vec![];
    for i in 0..k {
        let c = &base.chunks[i];
        if c.kids.is_empty() {
            continue;
        }
        if refdec::vec_header(&c.payload).is_ok_and(|(t, _)| t > 0) {
            vecs.push(i);
        } else if c.payload.len() == 4 {
            maps.push(i);
        }
    }
    let mut emit = |f: &dyn Fn(&mut Ast), d: String| {
        let mut a = Ast { chunks: base.chunks.clone(), root: base.root };
        f(&mut a);
        out.push((put_together(&a), d));
    };
    let child = |i: usize, s: usize| match base.chunks[i].kids[s] {
        Ref::To(j) => j,
        _ => i,
    };
    fn set_count(c: &mut Ed, v: u64) {
        if let Some((_, k)) = read_varint(&c.payload) {
            let mut e = vec![];
            varint(v, &mut e);
            c.payload.splice(0..k, e);
        }
    }
    fn set_vec(c: &mut Ed, total: u64, runs: &[(u64, u64)]) {
        let mut q = total.to_le_bytes().to_vec();
        varint(runs.len() as u64, &mut q);
        for (a, b) in runs {
            varint(*a, &mut q);
            varint(*b, &mut q);
        }
        c.payload = q;
    }
    r.shuffle(&mut vecs);
    for &i in vecs.iter().take(3) {
        let (total, runs) = refdec::vec_header(&base.chunks[i].payload).unwrap();
        let m = base.chunks[i].kids.len();
        for s in [0, m - 1, r.below(m)] {
            let j = child(i, s);
            let have = read_varint(&base.chunks[j].payload).map_or(0, |x| x.0);
            for v in [have.wrapping_sub(1), have.wrapping_add(1), 0, 1, have / 2] {
                emit(&|a| set_count(&mut a.chunks[j], v), format!("vector {i} shard {s}: {v} items instead of {have}"));
            }
            // Items of the shard cut off in the middle.
            let len = base.chunks[j].payload.len();
            for cut in [len.saturating_sub(1), len / 2, 1] {
                emit(&|a| a.chunks[j].payload.truncate(cut), format!("vector {i} shard {s}: {cut} bytes of {len}"));
            }
            if !base.chunks[j].kids.is_empty() {
                emit(
                    &|a| {
                        a.chunks[j].kids.pop();
                    },
                    format!("vector {i} shard {s}: last child gone"),
                );
            }
        }
        for e in [0, runs.len().saturating_sub(1)] {
            for (dc, dr) in [(1i64, 0i64), (-1, 0), (0, 1), (0, -1), (2, 0)] {
                let mut rs = runs.clone();
                if rs.is_empty() {
                    continue;
                }
                rs[e].0 = rs[e].0.wrapping_add_signed(dc) & 0xffff_ffff;
                rs[e].1 = rs[e].1.wrapping_add_signed(dr) & 0xffff_ffff;
                let sum = rs.iter().fold(0u64, |a, x| a.wrapping_add(x.0.wrapping_mul(x.1)));
                emit(&|a| set_vec(&mut a.chunks[i], sum, &rs), format!("vector {i}: run {e} {dc:+}/{dr:+}, total adjusted"));
                emit(&|a| set_vec(&mut a.chunks[i], total, &rs), format!("vector {i}: run {e} {dc:+}/{dr:+}"));
            }
        }
        for t in [total.wrapping_add(1), total.wrapping_sub(1), 0, total.wrapping_mul(2)] {
            emit(&|a| set_vec(&mut a.chunks[i], t, &runs), format!("vector {i}: total {t} instead of {total}"));
        }
        emit(
            &|a| {
                a.chunks[i].kids.pop();
            },
            format!("vector {i}: last shard gone"),
        );
        emit(
            &|a| {
                let x = a.chunks[i].kids[0];
                a.chunks[i].kids.push(x);
            },
            format!("vector {i}: one shard more"),
        );
        if m > 1 {
            emit(&|a| a.chunks[i].kids.swap(0, m - 1), format!("vector {i}: shards swapped"));
        }
    }
    r.shuffle(&mut maps);
    for &i in maps.iter().take(3) {
        let m = base.chunks[i].kids.len();
        let s = r.below(m);
        let j = child(i, s);
        let p = &base.chunks[j].payload;
        let c = p.first_chunk().map_or(0, |c| u32::from_le_bytes(*c));
        // Local data may look like a map's.
        if p.len() >= 20 && p.len() >= 8 + 12 * c as usize {
            for v in [c.wrapping_sub(1), c + 1, 0, c * 2, u32::MAX, 0x2000_0000, 0x1555_5556] {
                emit(&|a| a.chunks[j].payload[0..4].copy_from_slice(&v.to_le_bytes()), format!("map {i} bucket {s}: {v} entries instead of {c}"));
            }
            let len = p.len();
            for cut in [len - 1, 8 + 12 * c as usize, 8 + 8 * c as usize, 9, 7] {
                emit(&|a| a.chunks[j].payload.truncate(cut.min(len)), format!("map {i} bucket {s}: {cut} bytes of {len}"));
            }
            let o = 8 + 8 * c as usize;
            for v in [u32::MAX, (len - 8 - 12 * c as usize) as u32, (len - 8 - 12 * c as usize) as u32 + 1] {
                emit(&|a| a.chunks[j].payload[o..o + 4].copy_from_slice(&v.to_le_bytes()), format!("map {i} bucket {s}: offset {v}"));
            }
            if !base.chunks[j].kids.is_empty() {
                emit(
                    &|a| {
                        a.chunks[j].kids.pop();
                    },
                    format!("map {i} bucket {s}: last child gone"),
                );
            }
        }
        for v in [0u32, 1, m as u32 - 1, m as u32 + 1, u32::MAX] {
            emit(&|a| a.chunks[i].payload.copy_from_slice(&v.to_le_bytes()), format!("map {i}: {v} buckets instead of {m}"));
        }
    }
    out
}
