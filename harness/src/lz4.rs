//! Independent LZ4 block codec (the reference decoder and encoder must not share code with the
//! crate under test, and must work in builds without LZ4).

/// Decodes `[u32 LE size][block]`.
pub fn decode(data: &[u8]) -> Result<Vec<u8>, String> {
    if data.len() < 4 {
        return Err("lz4: missing size".into());
    }
    let size = u32::from_le_bytes([data[0], data[1], data[2], data[3]]) as usize;
    let d = &data[4..];
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    let next = |i: &mut usize| -> Result<u8, String> {
        let b = *d.get(*i).ok_or("lz4: truncated")?;
        *i += 1;
        Ok(b)
    };
    if d.is_empty() && size == 0 {
        return Ok(out);
    }
    loop {
        let tok = next(&mut i)?;
        let mut lit = (tok >> 4) as usize;
        if lit == 15 {
            loop {
                let b = next(&mut i)?;
                lit += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        let l = d.get(i..i + lit).ok_or("lz4: literal overrun")?;
        out.extend_from_slice(l);
        i += lit;
        if i >= d.len() {
            break;
        }
        let off = next(&mut i)? as usize | (next(&mut i)? as usize) << 8;
        let mut m = (tok & 15) as usize;
        if m == 15 {
            loop {
                let b = next(&mut i)?;
                m += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        m += 4;
        if off == 0 || off > out.len() {
            return Err("lz4: bad offset".into());
        }
        if out.len() + m > size {
            return Err("lz4: output overrun".into());
        }
        let start = out.len() - off;
        for k in 0..m {
            let b = out[start + k];
            out.push(b);
        }
    }
    if out.len() != size {
        return Err(format!("lz4: size {} declared {}", out.len(), size));
    }
    Ok(out)
}

fn put_len(out: &mut Vec<u8>, mut n: usize) {
    while n >= 255 {
        out.push(255);
        n -= 255;
    }
    out.push(n as u8);
}

/// Encodes `[u32 LE size][block]`: a simple but genuine LZ4 block (runs become matches when
/// `matches` is set, everything else is literal).
pub fn encode(data: &[u8], matches: bool) -> Vec<u8> {
    let mut out = (data.len() as u32).to_le_bytes().to_vec();
    let mut i = 0;
    let mut lit_start = 0;
    let emit = |out: &mut Vec<u8>, lits: &[u8], m: Option<(usize, usize)>| {
        let l = lits.len();
        let ml = m.map_or(0, |(_, n)| n - 4);
        out.push((l.min(15) as u8) << 4 | ml.min(15) as u8);
        if l >= 15 {
            put_len(out, l - 15);
        }
        out.extend_from_slice(lits);
        if let Some((off, _)) = m {
            out.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 {
                put_len(out, ml - 15);
            }
        }
    };
    if matches {
        // Last match must start >= 12 bytes before the end, last 5 bytes are literals.
        while i + 13 < data.len() {
            let mut best = (0, 0);
            for off in [1usize, 2, 4, 8] {
                if off > i {
                    continue;
                }
                let mut n = 0;
                while i + n + 5 < data.len() && data[i + n] == data[i + n - off] {
                    n += 1;
                }
                if n > best.1 {
                    best = (off, n);
                }
            }
            if best.1 >= 6 {
                emit(&mut out, &data[lit_start..i], Some(best));
                i += best.1;
                lit_start = i;
            } else {
                i += 1;
            }
        }
    }
    emit(&mut out, &data[lit_start..], None);
    out
}
