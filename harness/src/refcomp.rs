//! The compressed fingerprint format, written from its definition: one byte of algorithm id, the
//! number of items as 24 bits big-endian, 3-bit codes, then 5-bit codes, each group packed from the
//! lowest bit of a byte upwards and padded with zeros to a whole byte. Every item is replaced by its
//! XOR with the previous one and written as the distances between its set bits (counted from 1,
//! lowest first) ended by 0; a distance of 7 or more is written as 7 with the rest as a 5-bit code.

struct Bits {
    bytes: Vec<u8>,
    n: usize,
}

impl Bits {
    fn push(&mut self, v: u32, width: usize) {
        for k in 0..width {
            if self.n % 8 == 0 {
                self.bytes.push(0);
            }
            if v >> k & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 1 << (self.n % 8);
            }
            self.n += 1;
        }
    }
}

pub fn encode(id: u8, fp: &[u32]) -> Vec<u8> {
    let mut normal = Bits { bytes: vec![], n: 0 };
    let mut extra = Bits { bytes: vec![], n: 0 };
    let mut prev = 0;
    for &x in fp {
        let d = x ^ prev;
        prev = x;
        let mut last = 0;
        for bit in 1..=32u32 {
            if d >> (bit - 1) & 1 == 1 {
                let gap = bit - last;
                last = bit;
                normal.push(gap.min(7), 3);
                if gap >= 7 {
                    extra.push(gap - 7, 5);
                }
            }
        }
        normal.push(0, 3);
    }
    let n = fp.len() as u32;
    let mut out = vec![id, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    out.extend(normal.bytes);
    out.extend(extra.bytes);
    out
}

/// Decodes a compressed fingerprint; an error says what is malformed.
pub fn decode(data: &[u8]) -> Result<(u8, Vec<u32>), String> {
    if data.len() < 4 {
        return Err("shorter than a header".into());
    }
    let n = usize::from(data[1]) << 16 | usize::from(data[2]) << 8 | usize::from(data[3]);
    let body = &data[4..];
    let get = |start: usize, width: usize| -> Result<u32, String> {
        let mut v = 0;
        for k in 0..width {
            let p = start + k;
            let byte = body.get(p / 8).ok_or("truncated")?;
            v |= u32::from(byte >> (p % 8) & 1) << k;
        }
        Ok(v)
    };
    let mut gaps: Vec<Vec<u32>> = Vec::with_capacity(n.min(1 << 24));
    let mut pos = 0;
    for _ in 0..n {
        let mut item = Vec::new();
        loop {
            let v = get(pos, 3)?;
            pos += 3;
            if v == 0 {
                break;
            }
            item.push(v);
            if item.len() > 32 {
                return Err("an item has more than 32 bits".into());
            }
        }
        gaps.push(item);
    }
    let check_padding = |pos: usize| -> Result<usize, String> {
        let end = pos.div_ceil(8) * 8;
        for p in pos..end {
            if get(p, 1)? != 0 {
                return Err("the padding is not zero".into());
            }
        }
        Ok(end)
    };
    pos = check_padding(pos)?;
    let mut out = Vec::with_capacity(n);
    let mut prev = 0u32;
    for item in gaps {
        let mut bit = 0;
        let mut d = 0u32;
        for mut g in item {
            if g == 7 {
                g += get(pos, 5)?;
                pos += 5;
            }
            bit += g;
            if bit > 32 {
                return Err("a bit beyond the 32nd".into());
            }
            d |= 1 << (bit - 1);
        }
        prev ^= d;
        out.push(prev);
    }
    pos = check_padding(pos)?;
    if pos / 8 != body.len() {
        return Err(format!("{} bytes after the end", body.len() - pos / 8));
    }
    Ok((data[0], out))
}
