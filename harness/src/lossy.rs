//! Files in lossy codecs, made from random spectra: what they sound like is for the decoder to say.

use crate::audio::hash2;
use crate::cli::crc;
use crate::media::Pcm;

fn h(seed: u32, a: usize, b: usize) -> u64 {
    hash2(u64::from(seed) << 32 | a as u64, b as u64)
}

// ---------------------------------------------------------------- Vorbis

/// Bits from the least significant one on.
#[derive(Default)]
struct Low {
    out: Vec<u8>,
    filled: u32,
}

impl Low {
    fn put(&mut self, value: u32, n: u32) {
        for k in 0..n {
            if self.filled % 8 == 0 {
                self.out.push(0);
            }
            *self.out.last_mut().unwrap() |= ((value >> k & 1) as u8) << (self.filled % 8);
            self.filled += 1;
        }
    }

    /// A codeword, from its most significant bit on.
    fn code(&mut self, word: u32, n: u32) {
        for k in (0..n).rev() {
            self.put(word >> k & 1, 1);
        }
    }
}

pub struct Vorbis {
    pub rate: u32,
    pub channels: u8,
    /// Exponents of the block sizes.
    pub sizes: (u8, u8),
    pub blocks: usize,
    pub seed: u32,
    /// 0 to 2.
    pub residue: u8,
    /// Of 8 blocks, so many are short.
    pub short: u8,
    /// Indices of packets that are empty.
    pub empty: Vec<usize>,
}

/// The headers and the packets, each with the position after it.
pub struct Coded {
    pub headers: [Vec<u8>; 3],
    pub packets: Vec<(Vec<u8>, u64)>,
}

const CLASSES: usize = 16;

impl Vorbis {
    fn headers(&self) -> [Vec<u8>; 3] {
        let mut ident = b"\x01vorbis\0\0\0\0".to_vec();
        ident.push(self.channels);
        ident.extend(self.rate.to_le_bytes());
        ident.extend([0; 12]);
        ident.push(self.sizes.0 | self.sizes.1 << 4);
        ident.push(1);
        let comment = b"\x03vorbis\x02\0\0\0vh\0\0\0\0\x01".to_vec();
        let mut b = Low::default();
        // Three codebooks: classes of partitions (one bit, whether there is anything), and values of 8 bits.
        b.put(1, 8);
        b.put(0x564342, 24);
        b.put(1, 16);
        b.put(2, 24);
        b.put(0, 2);
        b.put(0, 5);
        b.put(0, 5);
        b.put(0, 4);
        b.put(0x564342, 24);
        b.put(1, 16);
        b.put(256, 24);
        b.put(0, 2);
        for _ in 0..256 {
            b.put(7, 5);
        }
        b.put(1, 4);
        // -128 and 1 as mantissa and exponent (of 788 more)
        b.put(1 << 31 | 788 << 21 | 128, 32);
        b.put(788 << 21 | 1, 32);
        b.put(7, 4);
        b.put(0, 1);
        for x in 0..256 {
            b.put(x, 8);
        }
        // Time: nothing.
        b.put(0, 6);
        b.put(0, 16);
        // A floor of a straight line.
        b.put(0, 6);
        b.put(1, 16);
        b.put(0, 5);
        b.put(0, 2);
        b.put(10, 4);
        // Residue.
        b.put(0, 6);
        b.put(u32::from(self.residue), 16);
        b.put(0, 24);
        b.put(1 << 20, 24);
        b.put(CLASSES as u32 - 1, 24);
        b.put(1, 6);
        b.put(0, 8);
        b.put(0, 3);
        b.put(0, 1);
        b.put(1, 3);
        b.put(0, 1);
        b.put(1, 8);
        // Mapping.
        b.put(0, 6);
        b.put(0, 16);
        b.put(0, 1);
        if self.channels == 2 && self.seed % 2 == 0 {
            b.put(1, 1);
            b.put(0, 8);
            b.put(0, 1);
            b.put(1, 1);
        } else {
            b.put(0, 1);
        }
        b.put(0, 2);
        b.put(0, 24);
        // Two modes.
        b.put(1, 6);
        for long in 0..2 {
            b.put(long, 1);
            b.put(0, 32);
            b.put(0, 8);
        }
        b.put(1, 1);
        let mut setup = b"\x05vorbis".to_vec();
        setup.extend(b.out);
        [ident, comment, setup]
    }

    fn is_long(&self, k: usize) -> bool {
        // (in runs)
        h(self.seed, 1, k / 3) % 8 >= u64::from(self.short)
    }

    fn block(&self, k: usize) -> Vec<u8> {
        let long = self.is_long(k);
        let n = 1usize << (if long { self.sizes.1 } else { self.sizes.0 }) >> 1;
        let mut b = Low::default();
        b.put(0, 1);
        b.put(u32::from(long), 1);
        if long {
            b.put(u32::from(k > 0 && self.is_long(k - 1)), 1);
            b.put(u32::from(self.is_long(k + 1)), 1);
        }
        // A note lasts for about a fifth of a second.
        let note = k * n / (self.rate as usize / 5).max(1);
        let mut used = Vec::new();
        let mut spectrum = vec![vec![0i32; n]; usize::from(self.channels)];
        for (c, s) in spectrum.iter_mut().enumerate() {
            let unused = h(self.seed, 2, note * 8 + c) % 8 == 0;
            used.push(!unused);
            b.put(u32::from(!unused), 1);
            if !unused {
                for e in 0..2 {
                    b.put(120 + (h(self.seed, 3 + e, note * 8 + c) % 60) as u32, 8);
                }
            }
            for p in 0..6 {
                // Partials from 80 to 3500 Hz.
                let r = h(self.seed, 5 + p, note * 4 + c / 2);
                let hz = 80.0 * 43.0f64.powf((r % 1000) as f64 / 1000.0);
                let bin = (hz / f64::from(self.rate) * 2.0 * n as f64) as usize;
                if bin < n {
                    s[bin] = (r >> 20) as i32 % 256 - 128;
                }
            }
        }
        let part = |b: &mut Low, v: &[i32]| {
            for &x in v {
                b.code((x.clamp(-128, 127) + 128) as u32, 8);
            }
        };
        let coupled = self.channels == 2 && self.seed % 2 == 0;
        if coupled && used.iter().any(|&u| u) {
            used.fill(true);
        }
        if self.residue == 2 {
            if used.iter().any(|&u| u) {
                let all: Vec<i32> = (0..n).flat_map(|i| spectrum.iter().map(move |s| s[i])).collect();
                for v in all.chunks_exact(CLASSES) {
                    let some = v.iter().any(|&x| x != 0);
                    b.code(u32::from(some), 1);
                    if some {
                        part(&mut b, v);
                    }
                }
            }
        } else {
            for p in 0..n / CLASSES {
                let v: Vec<&[i32]> = spectrum.iter().zip(&used).filter(|x| *x.1).map(|(s, _)| &s[p * CLASSES..(p + 1) * CLASSES]).collect();
                for s in &v {
                    b.code(u32::from(s.iter().any(|&x| x != 0)), 1);
                }
                for s in v {
                    if s.iter().any(|&x| x != 0) {
                        part(&mut b, s);
                    }
                }
            }
        }
        b.out
    }

    pub fn encode(&self) -> Coded {
        let mut packets = Vec::new();
        let mut position = 0u64;
        let size = |k: usize| 1u64 << if self.is_long(k) { self.sizes.1 } else { self.sizes.0 };
        for k in 0..self.blocks {
            if k > 0 {
                position += (size(k - 1) + size(k)) / 4;
            }
            let body = if self.empty.contains(&k) { Vec::new() } else { self.block(k) };
            packets.push((body, position));
        }
        Coded { headers: self.headers(), packets }
    }
}

/// Ogg pages with as many packets on each. `trim` samples are cut from the end.
pub fn ogg_pages(c: &Coded, per_page: usize, trim: u64, serial: u32) -> Vec<u8> {
    let mut out = Vec::new();
    let mut sequence = 0u32;
    let mut page = |segments: &[u8], body: &[u8], granule: u64, flags: u8| {
        let mut p = b"OggS\0".to_vec();
        p.push(flags);
        p.extend(granule.to_le_bytes());
        p.extend(serial.to_le_bytes());
        p.extend(sequence.to_le_bytes());
        p.extend([0; 4]);
        p.push(segments.len() as u8);
        p.extend(segments);
        p.extend(body);
        let sum = crc(&p, 0x04C1_1DB7, 32);
        p[22..26].copy_from_slice(&sum.to_le_bytes());
        sequence += 1;
        out.extend(p);
    };
    let lacing = |b: &[u8]| {
        let mut l = vec![255u8; b.len() / 255];
        l.push((b.len() % 255) as u8);
        l
    };
    // Groups of packets that end with a page; what is longer than a page goes on with the next.
    let none = u64::MAX;
    let mut group = |packets: &[&[u8]], granule: u64, first: bool, last: bool| {
        let segments: Vec<u8> = packets.iter().flat_map(|p| lacing(p)).collect();
        let body = packets.concat();
        // Where packets end, in segments.
        let mut at = 0;
        let mut from = 0;
        while from < segments.len() {
            let to = (from + 255).min(segments.len());
            let n: usize = segments[from..to].iter().map(|&s| usize::from(s)).sum();
            let continued = from > 0 && segments[from - 1] == 255;
            let end = to == segments.len();
            let flags = u8::from(continued) | if first && from == 0 { 2 } else { 0 } | if last && end { 4 } else { 0 };
            page(&segments[from..to], &body[at..at + n], if end { granule } else { none }, flags);
            at += n;
            from = to;
        }
    };
    group(&[&c.headers[0]], 0, true, false);
    group(&[&c.headers[1], &c.headers[2]], 0, false, false);
    let count = c.packets.chunks(per_page.max(1)).count();
    for (k, part) in c.packets.chunks(per_page.max(1)).enumerate() {
        let last = k + 1 == count;
        let mut granule = part.last().unwrap().1;
        if last {
            granule = granule.saturating_sub(trim);
        }
        group(&part.iter().map(|p| &p.0[..]).collect::<Vec<_>>(), granule, false, last);
    }
    out
}

// ---------------------------------------------------------------- MPEG audio

/// Bits from the most significant one on.
#[derive(Default)]
struct High {
    out: Vec<u8>,
    filled: u32,
}

impl High {
    fn put(&mut self, value: u32, n: u32) {
        for k in (0..n).rev() {
            if self.filled % 8 == 0 {
                self.out.push(0);
            }
            *self.out.last_mut().unwrap() |= ((value >> k & 1) as u8) << (7 - self.filled % 8);
            self.filled += 1;
        }
    }
}

pub struct Mpeg {
    /// 1 or 3.
    pub layer: u8,
    /// 0 to 2: 44100, 48000 or 32000 Hz; and half of it with `half`.
    pub rate: u8,
    pub half: bool,
    pub stereo: bool,
    pub frames: usize,
    pub seed: u32,
    /// Frames (by their index) that are overwritten with noise after the header.
    pub noise: Vec<usize>,
}

impl Mpeg {
    fn rate(&self) -> u32 {
        [44100, 48000, 32000][usize::from(self.rate % 3)] >> u32::from(self.half)
    }

    /// The header, and the size of the frame.
    fn head(&self) -> (u32, usize) {
        let version = if self.half { 2 } else { 3 };
        let (layer, index, kbps) = match (self.layer, self.half) {
            (1, false) => (3, 12, 384),
            (1, true) => (3, 13, 224),
            (_, false) => (1, 11, 192),
            (_, true) => (1, 12, 128),
        };
        let mode = if self.stereo { 0 } else { 3 };
        let word = 0xFFE0_0000 | version << 19 | layer << 17 | 1 << 16 | index << 12 | u32::from(self.rate % 3) << 10 | mode << 6;
        let size = match (self.layer, self.half) {
            (1, _) => 12 * kbps * 1000 / self.rate() * 4,
            (_, false) => 144 * kbps * 1000 / self.rate(),
            (_, true) => 72 * kbps * 1000 / self.rate(),
        };
        (word, size as usize)
    }

    /// Which of the lines (of 576, up to the one at 4 kHz) sound.
    fn line(&self, note: usize, ch: usize, i: usize) -> bool {
        h(self.seed, 11 + ch, note << 12 | i) % 12 == 0
    }

    fn layer3(&self, k: usize, head: u32, size: usize) -> Vec<u8> {
        let ch = 1 + usize::from(self.stereo);
        let granules = if self.half { 1 } else { 2 };
        let note = k / 4;
        let lines = (4000 * 576 * 2 / self.rate() as usize) / 4 * 4;
        let mut side = High::default();
        let mut main = High::default();
        if self.half {
            side.put(0, 8);
            side.put(0, if self.stereo { 2 } else { 1 });
        } else {
            side.put(0, 9);
            side.put(0, if self.stereo { 3 } else { 5 });
            side.put(0, 4 * ch as u32);
        }
        for _ in 0..granules {
            for c in 0..ch {
                let begin = main.filled;
                for q in (0..lines).step_by(4) {
                    let v: Vec<bool> = (q..q + 4).map(|i| self.line(note, c, i)).collect();
                    let code = v.iter().fold(0, |x, &b| x << 1 | u32::from(b));
                    main.put(15 - code, 4);
                    for (j, &b) in v.iter().enumerate() {
                        if b {
                            main.put((h(self.seed, 13 + c, note << 12 | (q + j)) & 1) as u32, 1);
                        }
                    }
                }
                side.put(main.filled - begin, 12);
                side.put(0, 9);
                side.put(170 + (h(self.seed, 15 + c, note) % 25) as u32, 8);
                side.put(0, if self.half { 9 } else { 4 });
                side.put(0, 1);
                side.put(0, 15 + 4 + 3);
                if !self.half {
                    side.put(0, 1);
                }
                side.put(0, 1);
                side.put(1, 1);
            }
        }
        let mut f = head.to_be_bytes().to_vec();
        f.extend(side.out);
        f.extend(main.out);
        f.resize(size, 0);
        f
    }

    fn layer1(&self, k: usize, head: u32, size: usize) -> Vec<u8> {
        let ch = 1 + usize::from(self.stereo);
        let note = k / 12;
        let bits = |sb: usize, c: usize| if sb < 6 && h(self.seed, 21 + c, note << 6 | sb) % 3 > 0 { 8u32 } else { 0 };
        let mut b = High::default();
        for sb in 0..32 {
            for c in 0..ch {
                b.put(bits(sb, c).saturating_sub(1), 4);
            }
        }
        for sb in 0..32 {
            for c in 0..ch {
                if bits(sb, c) > 0 {
                    b.put(3 + (h(self.seed, 23 + c, note << 6 | sb) % 20) as u32, 6);
                }
            }
        }
        for s in 0..12 {
            for sb in 0..32 {
                for c in 0..ch {
                    let n = bits(sb, c);
                    if n > 0 {
                        let step = (h(self.seed, 25 + c, note << 6 | sb) % 97) as f64 / 97.0 * 3.0;
                        let x = ((k * 12 + s) as f64 * step).sin() * 120.0 + 127.0;
                        b.put(x as u32, n);
                    }
                }
            }
        }
        let mut f = head.to_be_bytes().to_vec();
        f.extend(b.out);
        f.resize(size, 0);
        f
    }

    pub fn encode(&self) -> Vec<u8> {
        let (head, size) = self.head();
        let mut out = Vec::new();
        for k in 0..self.frames {
            let mut f = if self.layer == 1 { self.layer1(k, head, size) } else { self.layer3(k, head, size) };
            if self.noise.contains(&k) {
                for (i, b) in f.iter_mut().enumerate().skip(4) {
                    // (no header may appear in it)
                    *b = (h(self.seed, 31, k << 16 | i) % 255) as u8;
                }
            }
            out.extend(f);
        }
        out
    }
}

/// An ID3v2 tag with a picture of so many bytes.
pub fn id3(size: usize, seed: u32) -> Vec<u8> {
    let picture: Vec<u8> = (0..size).map(|i| h(seed, 41, i) as u8 & 0x7F).collect();
    let mut frame = b"TIT2\0\0\0\x03\0\0\0vh".to_vec();
    let mut apic = b"\0image/png\0\x03\0".to_vec();
    apic.extend(picture);
    frame.extend(b"APIC");
    frame.extend((apic.len() as u32).to_be_bytes());
    frame.extend([0, 0]);
    frame.extend(apic);
    let n = frame.len() as u32;
    let mut out = b"ID3\x03\0\0".to_vec();
    out.extend([(n >> 21 & 127) as u8, (n >> 14 & 127) as u8, (n >> 7 & 127) as u8, (n & 127) as u8]);
    out.extend(frame);
    out
}

// ---------------------------------------------------------------- companded and differential WAV

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Old {
    ALaw,
    MuLaw,
    ImaAdpcm,
    MsAdpcm,
}

pub fn old_wav(kind: Old, rate: u32, channels: usize, blocks: usize, seed: u32) -> Vec<u8> {
    let mut body = Vec::new();
    let ch = channels;
    let level = |i: usize| {
        // Steps that change every 64 samples, so that there is something to hear.
        h(seed, 51, i / 64) as usize % 24 + 2
    };
    let (tag, align, per_block, bits): (u16, usize, usize, u16) = match kind {
        Old::ALaw => (6, ch, 1, 8),
        Old::MuLaw => (7, ch, 1, 8),
        Old::ImaAdpcm => (0x11, 256 * ch, (256 - 4) * 2 + 1, 4),
        Old::MsAdpcm => (2, 256 * ch, (256 * ch - 7 * ch) * 2 / ch + 2, 4),
    };
    let mut extra: Vec<u8> = Vec::new();
    match kind {
        Old::ALaw | Old::MuLaw => {
            for i in 0..blocks * 200 {
                for _ in 0..ch {
                    let s = if i / level(i) % 2 == 0 { 0x0F } else { 0x8F };
                    body.push(s ^ (h(seed, 52, i / 64) as u8 & 0x30));
                }
            }
        }
        Old::ImaAdpcm => {
            extra.extend((per_block as u16).to_le_bytes());
            for k in 0..blocks {
                for c in 0..ch {
                    body.extend(((h(seed, 53, k * 8 + c) % 2000) as i16 - 1000).to_le_bytes());
                    body.push((h(seed, 54, k * 8 + c) % 89) as u8);
                    body.push(0);
                }
                for i in 0..align - 4 * ch {
                    let s = if i / level(k * 8 + i / 64) % 2 == 0 { 0x33 } else { 0xBB };
                    body.push(s ^ (h(seed, 55, i) & 0x11) as u8);
                }
            }
        }
        Old::MsAdpcm => {
            extra.extend((per_block as u16).to_le_bytes());
            extra.extend(7u16.to_le_bytes());
            for (a, b) in [(256i16, 0i16), (512, -256), (0, 0), (192, 64), (240, 0), (460, -208), (392, -232)] {
                extra.extend(a.to_le_bytes());
                extra.extend(b.to_le_bytes());
            }
            for k in 0..blocks {
                for c in 0..ch {
                    body.push((h(seed, 56, k * 8 + c) % 7) as u8);
                }
                for f in 0..3 {
                    for c in 0..ch {
                        let x = if f == 0 { 16 + (h(seed, 57, k * 8 + c) % 400) as i16 } else { (h(seed, 58 + f, k * 8 + c) % 2000) as i16 - 1000 };
                        body.extend(x.to_le_bytes());
                    }
                }
                for i in 0..align - 7 * ch {
                    let s = if i / level(k * 8 + i / 64) % 2 == 0 { 0x22 } else { 0xEE };
                    body.push(s ^ (h(seed, 61, i) & 0x11) as u8);
                }
            }
        }
    }
    let mut fmt = tag.to_le_bytes().to_vec();
    fmt.extend((ch as u16).to_le_bytes());
    fmt.extend(rate.to_le_bytes());
    fmt.extend(((u64::from(rate) * align as u64 / per_block as u64) as u32).to_le_bytes());
    fmt.extend((align as u16).to_le_bytes());
    fmt.extend(bits.to_le_bytes());
    fmt.extend((extra.len() as u16).to_le_bytes());
    fmt.extend(extra);
    let frames = if per_block == 1 { body.len() / ch } else { blocks * per_block };
    let mut chunks = Vec::new();
    for (id, b) in [(b"fmt ", &fmt), (b"fact", &(frames as u32).to_le_bytes().to_vec()), (b"data", &body)] {
        chunks.extend(id);
        chunks.extend((b.len() as u32).to_le_bytes());
        chunks.extend(b);
        if b.len() % 2 == 1 {
            chunks.push(0);
        }
    }
    let mut out = b"RIFF".to_vec();
    out.extend((chunks.len() as u32 + 4).to_le_bytes());
    out.extend(b"WAVE");
    out.extend(chunks);
    out
}

// ---------------------------------------------------------------- PCM of all bits

/// Notes as PCM whose samples use all bits; floating-point ones also go beyond full scale, to infinity, or are no numbers.
pub fn wide_wav(pcm: Pcm, rate: u32, channels: usize, frames: usize, seed: u32, percent: u16, odd: bool) -> Vec<u8> {
    let gain = f64::from(percent) / 100.0;
    let bytes = pcm.bytes();
    let float = matches!(pcm, Pcm::F32 | Pcm::F64);
    let mut data = Vec::with_capacity(frames * channels * bytes);
    let step = (rate as usize / 4).max(1);
    for i in 0..frames {
        let note = i / step;
        for c in 0..channels {
            let hz = |k: usize| 80.0 * 40.0f64.powf((h(seed, 71 + k, note * 8 + c) % 1000) as f64 / 1000.0);
            let t = i as f64 / f64::from(rate) * std::f64::consts::TAU;
            let noise = (h(seed, 73 + c, i) % 20_001) as f64 / 1e4 - 1.0;
            let mut x = gain * (0.45 * (t * hz(0)).sin() + 0.45 * (t * hz(1)).sin() + 0.1 * noise);
            if float && odd && h(seed, 81 + c, i) % 5000 == 0 {
                x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e30, -1e-310][(h(seed, 91, i) % 6) as usize];
            }
            match pcm {
                Pcm::U8 => data.push((x * 128.0 + 128.0) as u8),
                Pcm::S16 => data.extend(((x * 32768.0) as i16).to_le_bytes()),
                Pcm::S24 => data.extend(&(((x * 8_388_608.0) as i64).clamp(-8_388_608, 8_388_607) as i32).to_le_bytes()[..3]),
                Pcm::S32 => data.extend(((x * 2_147_483_648.0) as i32).to_le_bytes()),
                Pcm::F32 => data.extend((x as f32).to_le_bytes()),
                Pcm::F64 => data.extend(x.to_le_bytes()),
            }
        }
    }
    let align = bytes * channels;
    let mut fmt = if float { 3u16 } else { 1 }.to_le_bytes().to_vec();
    fmt.extend((channels as u16).to_le_bytes());
    fmt.extend(rate.to_le_bytes());
    fmt.extend((rate * align as u32).to_le_bytes());
    fmt.extend((align as u16).to_le_bytes());
    fmt.extend((8 * bytes as u16).to_le_bytes());
    let mut out = b"RIFF".to_vec();
    out.extend((data.len() as u32 + 36).to_le_bytes());
    out.extend(b"WAVEfmt ");
    out.extend(16u32.to_le_bytes());
    out.extend(fmt);
    out.extend(b"data");
    out.extend((data.len() as u32).to_le_bytes());
    out.extend(data);
    out
}
