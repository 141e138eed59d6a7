//! Writers for the containers and sample formats that the tools read.

use crate::cli::crc;
use serde::{Deserialize, Serialize};

/// How a sample is stored. Every form but `U8` holds 16-bit samples exactly;
/// `U8` holds those whose low byte is zero.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pcm {
    U8,
    S16,
    S24,
    S32,
    F32,
    F64,
}

impl Pcm {
    pub fn bytes(self) -> usize {
        match self {
            Pcm::U8 => 1,
            Pcm::S16 => 2,
            Pcm::S24 => 3,
            Pcm::S32 | Pcm::F32 => 4,
            Pcm::F64 => 8,
        }
    }

    /// The sample as the tools see it.
    pub fn quantised(self, s: i16) -> i16 {
        if self == Pcm::U8 {
            s & !0xFF
        } else {
            s
        }
    }

    fn put(self, s: i16, big: bool, signed8: bool, out: &mut Vec<u8>) {
        let v: Vec<u8> = match self {
            Pcm::U8 => vec![((s >> 8) as u8).wrapping_add(if signed8 { 0 } else { 128 })],
            Pcm::S16 => s.to_be_bytes().to_vec(),
            Pcm::S24 => (i32::from(s) << 8).to_be_bytes()[1..].to_vec(),
            Pcm::S32 => (i32::from(s) << 16).to_be_bytes().to_vec(),
            Pcm::F32 => (f32::from(s) / 32768.0).to_be_bytes().to_vec(),
            Pcm::F64 => (f64::from(s) / 32768.0).to_be_bytes().to_vec(),
        };
        if big {
            out.extend(v);
        } else {
            out.extend(v.iter().rev());
        }
    }

    fn body(self, data: &[i16], big: bool, signed8: bool) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len() * self.bytes());
        for &s in data {
            self.put(s, big, signed8, &mut out);
        }
        out
    }

    fn is_float(self) -> bool {
        matches!(self, Pcm::F32 | Pcm::F64)
    }
}

#[derive(Clone, Copy)]
pub struct Sound<'a> {
    pub rate: u32,
    pub channels: usize,
    pub data: &'a [i16],
}

impl Sound<'_> {
    fn frames(&self) -> usize {
        self.data.len() / self.channels
    }
}

// ---------------------------------------------------------------- WAV, AIFF, CAF

fn riff_chunk(out: &mut Vec<u8>, id: &[u8], body: &[u8], big: bool) {
    out.extend(id);
    let n = body.len() as u32;
    out.extend(if big { n.to_be_bytes() } else { n.to_le_bytes() });
    out.extend(body);
    if body.len() % 2 == 1 {
        out.push(0);
    }
}

/// `extensible` picks the WAVEFORMATEXTENSIBLE header; `junk` bytes of foreign chunks precede the audio.
pub fn wav_pcm(s: &Sound, pcm: Pcm, extensible: bool, junk: usize) -> Vec<u8> {
    let ext = extensible || s.channels > 2;
    let tag: u16 = if pcm.is_float() { 3 } else { 1 };
    let align = s.channels * pcm.bytes();
    let mut fmt = Vec::new();
    fmt.extend((if ext { 0xFFFE } else { tag }).to_le_bytes());
    fmt.extend((s.channels as u16).to_le_bytes());
    fmt.extend(s.rate.to_le_bytes());
    fmt.extend((s.rate * align as u32).to_le_bytes());
    fmt.extend((align as u16).to_le_bytes());
    fmt.extend((pcm.bytes() as u16 * 8).to_le_bytes());
    if ext {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend((pcm.bytes() as u16 * 8).to_le_bytes());
        fmt.extend(((1u32 << s.channels) - 1).to_le_bytes());
        fmt.extend([tag as u8, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
    } else if pcm.is_float() {
        fmt.extend(0u16.to_le_bytes());
    }
    let mut chunks = Vec::new();
    riff_chunk(&mut chunks, b"fmt ", &fmt, false);
    if pcm.is_float() {
        riff_chunk(&mut chunks, b"fact", &(s.frames() as u32).to_le_bytes(), false);
    }
    if junk > 0 {
        riff_chunk(&mut chunks, b"JUNK", &vec![0x5A; junk], false);
    }
    riff_chunk(&mut chunks, b"data", &pcm.body(s.data, false, false), false);
    let mut out = b"RIFF".to_vec();
    out.extend((chunks.len() as u32 + 4).to_le_bytes());
    out.extend(b"WAVE");
    out.extend(chunks);
    out
}

fn extended(rate: u32) -> [u8; 10] {
    let shift = rate.leading_zeros();
    let mut out = [0; 10];
    out[..2].copy_from_slice(&(16383 + 31 - shift as u16).to_be_bytes());
    out[2..6].copy_from_slice(&(rate << shift).to_be_bytes());
    out
}

/// AIFF, or AIFF-C with the `sowt` (little endian) or a floating point form.
pub fn aiff(s: &Sound, pcm: Pcm, sowt: bool) -> Vec<u8> {
    let kind: Option<&[u8; 4]> = match (pcm, sowt) {
        (Pcm::S16, true) => Some(b"sowt"),
        (Pcm::F32, _) => Some(b"fl32"),
        (Pcm::F64, _) => Some(b"fl64"),
        _ => None,
    };
    let mut comm = Vec::new();
    comm.extend((s.channels as u16).to_be_bytes());
    comm.extend((s.frames() as u32).to_be_bytes());
    comm.extend((pcm.bytes() as u16 * 8).to_be_bytes());
    comm.extend(extended(s.rate));
    if let Some(k) = kind {
        comm.extend(k);
        comm.extend([0, 0]);
    }
    let mut ssnd = vec![0; 8];
    ssnd.extend(pcm.body(s.data, kind != Some(b"sowt"), true));
    let mut chunks = Vec::new();
    if kind.is_some() {
        riff_chunk(&mut chunks, b"FVER", &0xA280_5140u32.to_be_bytes(), true);
    }
    riff_chunk(&mut chunks, b"COMM", &comm, true);
    riff_chunk(&mut chunks, b"SSND", &ssnd, true);
    let mut out = b"FORM".to_vec();
    out.extend((chunks.len() as u32 + 4).to_be_bytes());
    out.extend(if kind.is_some() { b"AIFC" } else { b"AIFF" });
    out.extend(chunks);
    out
}

pub fn caf(s: &Sound, pcm: Pcm, little: bool) -> Vec<u8> {
    let mut desc = Vec::new();
    desc.extend(f64::from(s.rate).to_be_bytes());
    desc.extend(b"lpcm");
    desc.extend((u32::from(pcm.is_float()) | if little { 2 } else { 0 }).to_be_bytes());
    desc.extend(((pcm.bytes() * s.channels) as u32).to_be_bytes());
    desc.extend(1u32.to_be_bytes());
    desc.extend((s.channels as u32).to_be_bytes());
    desc.extend((pcm.bytes() as u32 * 8).to_be_bytes());
    let mut data = vec![0; 4];
    data.extend(pcm.body(s.data, !little, true));
    let mut out = b"caff".to_vec();
    out.extend([0, 1, 0, 0]);
    let mut chunk = |id: &[u8], body: &[u8]| {
        out.extend(id);
        out.extend((body.len() as i64).to_be_bytes());
        out.extend(body);
    };
    chunk(b"desc", &desc);
    if s.channels > 2 {
        // The bitmap form of a channel layout.
        let mut chan = (0x10000u32).to_be_bytes().to_vec();
        chan.extend(((1u32 << s.channels) - 1).to_be_bytes());
        chan.extend(0u32.to_be_bytes());
        chunk(b"chan", &chan);
    }
    chunk(b"data", &data);
    out
}

// ---------------------------------------------------------------- FLAC

pub fn utf8_number(n: u64, out: &mut Vec<u8>) {
    if n < 0x80 {
        out.push(n as u8);
        return;
    }
    let mut more = 1;
    while more < 6 && n >> (6 * more + (6 - more)) != 0 {
        more += 1;
    }
    out.push(!(0xFFu32 >> (more + 1)) as u8 | (n >> (6 * more)) as u8);
    for k in (0..more).rev() {
        out.push(0x80 | (n >> (6 * k) & 63) as u8);
    }
}

pub struct Flac {
    pub info: [u8; 34],
    /// Encoded frames, with the number of samples in each.
    pub frames: Vec<(Vec<u8>, usize)>,
}

/// Uncompressed FLAC frames. `sizes` are the block sizes, repeated as needed;
/// a single one gives a stream of fixed block size.
pub fn flac_frames(s: &Sound, sizes: &[u16]) -> Flac {
    let sizes: Vec<usize> = sizes.iter().map(|&b| usize::from(b.max(16))).collect();
    let (min, max) = (*sizes.iter().min().unwrap(), *sizes.iter().max().unwrap());
    let variable = min != max;
    let mut info = [0u8; 34];
    info[..2].copy_from_slice(&(min as u16).to_be_bytes());
    info[2..4].copy_from_slice(&(max as u16).to_be_bytes());
    let packed: u64 =
        u64::from(s.rate) << 44 | (s.channels as u64 - 1) << 41 | 15 << 36 | s.frames() as u64;
    info[10..18].copy_from_slice(&packed.to_be_bytes());
    let mut frames = Vec::new();
    let (mut at, mut k) = (0, 0);
    while at < s.frames() {
        let n = sizes[k % sizes.len()].min(s.frames() - at);
        let chunk = &s.data[at * s.channels..(at + n) * s.channels];
        let mut f = vec![0xFF, 0xF8 | u8::from(variable), 0x70, (s.channels as u8 - 1) << 4 | 0x08];
        utf8_number(if variable { at as u64 } else { k as u64 }, &mut f);
        f.extend(((n - 1) as u16).to_be_bytes());
        f.push(crc(&f, 0x07, 8) as u8);
        for c in 0..s.channels {
            f.push(0x02);
            for i in 0..n {
                f.extend(chunk[i * s.channels + c].to_be_bytes());
            }
        }
        let sum = crc(&f, 0x8005, 16) as u16;
        f.extend(sum.to_be_bytes());
        frames.push((f, n));
        at += n;
        k += 1;
    }
    Flac { info, frames }
}

pub fn flac_file(s: &Sound, sizes: &[u16]) -> Vec<u8> {
    let f = flac_frames(s, sizes);
    let mut v = b"fLaC".to_vec();
    v.extend([0x80, 0, 0, 34]);
    v.extend(f.info);
    for (b, _) in f.frames {
        v.extend(b);
    }
    v
}

// ---------------------------------------------------------------- ALAC

#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    filled: u32,
}

impl Bits {
    fn put(&mut self, value: u32, n: u32) {
        for k in (0..n).rev() {
            if self.filled % 8 == 0 {
                self.out.push(0);
            }
            *self.out.last_mut().unwrap() |= ((value >> k & 1) as u8) << (7 - self.filled % 8);
            self.filled += 1;
        }
    }
}

/// Uncompressed ALAC frames (with their number of samples) and the magic cookie.
pub fn alac_frames(s: &Sound, sizes: &[u16]) -> ([u8; 24], Vec<(Vec<u8>, usize)>) {
    let sizes: Vec<usize> = sizes.iter().map(|&b| usize::from(b.max(16))).collect();
    let most = *sizes.iter().max().unwrap();
    let mut cookie = [0u8; 24];
    cookie[..4].copy_from_slice(&(most as u32).to_be_bytes());
    cookie[5..10].copy_from_slice(&[16, 40, 10, 14, s.channels as u8]);
    cookie[10..12].copy_from_slice(&255u16.to_be_bytes());
    cookie[20..].copy_from_slice(&s.rate.to_be_bytes());
    let mut frames = Vec::new();
    let (mut at, mut k) = (0, 0);
    while at < s.frames() {
        let n = sizes[k % sizes.len()].min(s.frames() - at);
        let chunk = &s.data[at * s.channels..(at + n) * s.channels];
        let mut b = Bits::default();
        let mut c = 0;
        while c < s.channels {
            // Pairs where there are two channels left, in every other frame of more than two.
            let pair = c + 2 <= s.channels && (s.channels == 2 || (k + c) % 2 == 0);
            b.put(u32::from(pair), 3);
            b.put(0, 4);
            b.put(0, 12);
            b.put(u32::from(n != most), 1);
            b.put(0, 2);
            b.put(1, 1);
            if n != most {
                b.put(n as u32, 32);
            }
            for f in chunk.chunks(s.channels) {
                b.put(f[c] as u16 as u32, 16);
                if pair {
                    b.put(f[c + 1] as u16 as u32, 16);
                }
            }
            c += 1 + usize::from(pair);
        }
        b.put(7, 3);
        frames.push((b.out, n));
        at += n;
        k += 1;
    }
    (cookie, frames)
}

fn variable_length(x: usize, out: &mut Vec<u8>) {
    for k in (1..4).rev() {
        if x >> (7 * k) != 0 {
            out.push(0x80 | (x >> (7 * k) & 127) as u8);
        }
    }
    out.push((x & 127) as u8);
}

/// Why a packet cannot be decoded.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// It contradicts itself.
    Content,
    /// It ends early: that much is left of it.
    Cut(u16),
    /// It uses what the decoder does not support (FLAC only, else as `Content`).
    Unsupported,
}

/// Keeps at most nine tenths of a packet, and at least a byte.
fn shorten(body: &mut Vec<u8>, to: u16) {
    let most = body.len() * 9 / 10;
    body.truncate(1 + most.saturating_sub(1) * usize::from(to) / 65536);
}

/// `bad` tells which packets are made undecodable, and `how`.
pub fn caf_alac(s: &Sound, sizes: &[u16], bad: &[usize], how: Bad) -> Vec<u8> {
    let (cookie, mut frames) = alac_frames(s, sizes);
    for &k in bad {
        if let Some(f) = frames.get_mut(k) {
            match how {
                Bad::Cut(c) => shorten(&mut f.0, c),
                // Bits that must be zero.
                _ => f.0[1] = 0xFF,
            }
        }
    }
    let mut desc = Vec::new();
    desc.extend(f64::from(s.rate).to_be_bytes());
    desc.extend(b"alac");
    for x in [1u32, 0, 0, s.channels as u32, 0] {
        desc.extend(x.to_be_bytes());
    }
    let mut table = Vec::new();
    table.extend((frames.len() as i64).to_be_bytes());
    table.extend((s.frames() as i64).to_be_bytes());
    table.extend([0; 8]);
    let mut data = vec![0; 4];
    for (b, n) in &frames {
        variable_length(b.len(), &mut table);
        variable_length(*n, &mut table);
        data.extend(b);
    }
    let mut out = b"caff".to_vec();
    out.extend([0, 1, 0, 0]);
    for (id, body) in [(b"desc", &desc), (b"kuki", &cookie.to_vec()), (b"pakt", &table), (b"data", &data)] {
        out.extend(id);
        out.extend((body.len() as i64).to_be_bytes());
        out.extend(body);
    }
    out
}

// ---------------------------------------------------------------- containers of several tracks

/// A track that is no audio, or one whose codec nobody knows.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Foreign {
    Subtitles,
    Video,
    UnknownAudio,
    /// Audio in a codec for which there is no decoder.
    Opus,
}

const OPUS_HEAD: &[u8] = b"OpusHead\x01\x02\x38\x01\x80\xbb\0\0\0\0\0";

pub enum Track<'a> {
    Foreign(Foreign),
    Audio(Sound<'a>, &'a [u16]),
}

/// The packets of a track with their time in microseconds.
fn packets(t: &Track, until: u64) -> (Option<Flac>, Vec<(u64, Vec<u8>)>) {
    match t {
        Track::Foreign(_) => {
            let step = 400_000;
            (None, (0..=until / step).map(|k| (k * step, vec![0xFF, 0xF8, 0x70, k as u8, 1, 2, 3])).collect())
        }
        Track::Audio(s, sizes) => {
            let mut f = flac_frames(s, sizes);
            let mut at = 0u64;
            let list = f
                .frames
                .iter_mut()
                .map(|(b, n)| {
                    let time = at * 1_000_000 / u64::from(s.rate);
                    at += *n as u64;
                    (time, std::mem::take(b))
                })
                .collect();
            (Some(f), list)
        }
    }
}

/// All packets by time: (track, time, body).
fn muxed(tracks: &[Track]) -> (Vec<Option<Flac>>, Vec<(usize, u64, Vec<u8>)>) {
    let until = tracks
        .iter()
        .map(|t| match t {
            Track::Audio(s, _) => s.frames() as u64 * 1_000_000 / u64::from(s.rate),
            Track::Foreign(_) => 0,
        })
        .max()
        .unwrap_or(0);
    let mut infos = Vec::new();
    let mut all = Vec::new();
    for (k, t) in tracks.iter().enumerate() {
        let (info, list) = packets(t, until);
        infos.push(info);
        all.extend(list.into_iter().map(|(time, b)| (k, time, b)));
    }
    all.sort_by_key(|p| (p.1, p.0));
    (infos, all)
}

fn el(id: u32, body: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = id.to_be_bytes().iter().copied().skip_while(|&b| b == 0).collect();
    let n = body.len() as u64 | 1 << 56;
    v.extend(n.to_be_bytes());
    v.extend(body);
    v
}

fn el_uint(id: u32, x: u64) -> Vec<u8> {
    let b: Vec<u8> = x.to_be_bytes().iter().copied().skip_while(|&b| b == 0).collect();
    el(id, if b.is_empty() { &[0] } else { &b })
}

/// Matroska with FLAC tracks; a cluster spans `cluster_ms` milliseconds.
/// `bad` tells which packets of the audio are made undecodable.
/// `claim` replaces what the container says of the rate and the channels of FLAC tracks.
pub fn mkv(tracks: &[Track], cluster_ms: u64, claim: Option<(u32, u8)>, bad: &[usize], how: Bad) -> Vec<u8> {
    let (infos, mut all) = muxed(tracks);
    let mut count = 0;
    for (k, _, body) in &mut all {
        if infos[*k].is_some() {
            if bad.contains(&count) {
                match how {
                    Bad::Cut(c) => shorten(body, c),
                    // Contradicts the checksum of the header.
                    Bad::Content => body[3] ^= 0x10,
                    Bad::Unsupported => {
                        // Linear prediction of order 1 with a negative shift.
                        let at = 7 + (body[4].leading_ones().max(1) as usize);
                        if let Some(b) = body.get_mut(at..at + 5) {
                            b.copy_from_slice(&[0x40, 0, 0, 0x1F, 0x80]);
                        }
                    }
                }
            }
            count += 1;
        }
    }
    let mut out = el(
        0x1A45_DFA3,
        &[el_uint(0x4286, 1), el_uint(0x42F7, 1), el_uint(0x42F2, 4), el_uint(0x42F3, 8), el(0x4282, b"matroska"), el_uint(0x4287, 4), el_uint(0x4285, 2)]
            .concat(),
    );
    let mut entries = Vec::new();
    for (k, t) in tracks.iter().enumerate() {
        let mut e = [el_uint(0xD7, k as u64 + 1), el_uint(0x73C5, k as u64 + 77)].concat();
        match t {
            Track::Foreign(Foreign::Subtitles) => {
                e.extend(el_uint(0x83, 0x11));
                e.extend(el(0x86, b"S_TEXT/UTF8"));
            }
            Track::Foreign(Foreign::Video) => {
                e.extend(el_uint(0x83, 1));
                e.extend(el(0x86, b"V_VP8"));
                e.extend(el(0xE0, &[el_uint(0xB0, 64), el_uint(0xBA, 64)].concat()));
            }
            Track::Foreign(Foreign::UnknownAudio) => {
                e.extend(el_uint(0x83, 2));
                e.extend(el(0x86, b"A_TTA1"));
                e.extend(el(0xE1, &[el(0xB5, &22050f64.to_be_bytes()), el_uint(0x9F, 2)].concat()));
            }
            Track::Foreign(Foreign::Opus) => {
                e.extend(el_uint(0x83, 2));
                e.extend(el(0x86, b"A_OPUS"));
                e.extend(el(0x63A2, OPUS_HEAD));
                e.extend(el(0xE1, &[el(0xB5, &48000f64.to_be_bytes()), el_uint(0x9F, 2)].concat()));
            }
            Track::Audio(s, _) => {
                e.extend(el_uint(0x83, 2));
                e.extend(el(0x86, b"A_FLAC"));
                let (rate, channels) = claim.unwrap_or((s.rate, s.channels as u8));
                let mut private = b"fLaC\x80\0\0\x22".to_vec();
                private.extend(infos[k].as_ref().unwrap().info);
                e.extend(el(0x63A2, &private));
                e.extend(el(
                    0xE1,
                    &[el(0xB5, &f64::from(rate).to_be_bytes()), el_uint(0x9F, u64::from(channels)), el_uint(0x6264, 16)].concat(),
                ));
            }
        }
        entries.extend(el(0xAE, &e));
    }
    let mut segment = el(0x1549_A966, &[el_uint(0x2A_D7B1, 1_000_000), el(0x4D80, b"vh"), el(0x5741, b"vh")].concat());
    segment.extend(el(0x1654_AE6B, &entries));
    let mut cluster: Option<(u64, Vec<u8>)> = None;
    let flush = |c: &mut Option<(u64, Vec<u8>)>, segment: &mut Vec<u8>| {
        if let Some((start, blocks)) = c.take() {
            segment.extend(el(0x1F43_B675, &[el_uint(0xE7, start), blocks].concat()));
        }
    };
    for (k, time, body) in all {
        let ms = time / 1000;
        if cluster.as_ref().is_some_and(|c| ms - c.0 >= cluster_ms.clamp(1, 30_000)) {
            flush(&mut cluster, &mut segment);
        }
        let c = cluster.get_or_insert_with(|| (ms, Vec::new()));
        let mut b = vec![0x80 | (k as u8 + 1)];
        b.extend(((ms - c.0) as i16).to_be_bytes());
        b.push(0x80);
        b.extend(body);
        c.1.extend(el(0xA3, &b));
    }
    flush(&mut cluster, &mut segment);
    out.extend(el(0x1853_8067, &segment));
    out
}

struct OggStream {
    serial: u32,
    sequence: u32,
    out: Vec<Vec<u8>>,
}

impl OggStream {
    /// Writes a packet, on pages of at most `segments` lacing values.
    fn packet(&mut self, body: &[u8], granule: u64, segments: usize, first: bool, last: bool) {
        let mut lacing = vec![255u8; body.len() / 255];
        lacing.push((body.len() % 255) as u8);
        let segments = segments.clamp(1, 255);
        let parts: Vec<&[u8]> = lacing.chunks(segments).collect();
        let mut at = 0;
        for (k, part) in parts.iter().enumerate() {
            let n: usize = part.iter().map(|&x| usize::from(x)).sum();
            let end = k + 1 == parts.len();
            let mut p = b"OggS\0".to_vec();
            p.push(u8::from(k > 0) | if first { 2 } else { 0 } | if last && end { 4 } else { 0 });
            p.extend((if end { granule } else { u64::MAX }).to_le_bytes());
            p.extend(self.serial.to_le_bytes());
            p.extend(self.sequence.to_le_bytes());
            p.extend([0; 4]);
            p.push(part.len() as u8);
            p.extend(*part);
            p.extend(&body[at..at + n]);
            let sum = crc(&p, 0x04C1_1DB7, 32);
            p[22..26].copy_from_slice(&sum.to_le_bytes());
            self.sequence += 1;
            self.out.push(p);
            at += n;
        }
    }
}

/// Ogg with FLAC streams. Foreign streams are ones no reader knows.
pub fn ogg(tracks: &[Track], segments: usize) -> Vec<u8> {
    let (infos, all) = muxed(tracks);
    let mut streams: Vec<OggStream> =
        (0..tracks.len()).map(|k| OggStream { serial: 1000 + 77 * k as u32, sequence: 0, out: Vec::new() }).collect();
    let mut out = Vec::new();
    let opus = |k: usize| matches!(tracks[k], Track::Foreign(Foreign::Opus));
    for (k, (s, info)) in streams.iter_mut().zip(&infos).enumerate() {
        let head = match info {
            Some(f) => {
                let mut h = b"\x7fFLAC\x01\x00\x00\x01fLaC\x00\x00\x00\x22".to_vec();
                h.extend(f.info);
                h
            }
            None if opus(k) => OPUS_HEAD.to_vec(),
            None => b"unknown stream".to_vec(),
        };
        s.packet(&head, 0, 255, true, false);
    }
    for s in &mut streams {
        out.extend(s.out.drain(..).flatten());
    }
    for (k, (s, info)) in streams.iter_mut().zip(&infos).enumerate() {
        if opus(k) {
            s.packet(b"OpusTags\x02\0\0\0vh\0\0\0\0", 0, 255, false, false);
        }
        if info.is_some() {
            s.packet(b"\x84\x00\x00\x0a\x02\0\0\0vh\0\0\0\0", 0, 255, false, false);
        }
    }
    for s in &mut streams {
        out.extend(s.out.drain(..).flatten());
    }
    let mut left: Vec<usize> = (0..tracks.len()).map(|k| all.iter().filter(|p| p.0 == k).count()).collect();
    let mut seen: Vec<u64> = vec![0; tracks.len()];
    let mut sizes: Vec<std::collections::VecDeque<usize>> =
        infos.iter().map(|i| i.iter().flat_map(|f| f.frames.iter().map(|x| x.1)).collect()).collect();
    for (k, _, body) in all {
        left[k] -= 1;
        seen[k] += sizes[k].pop_front().unwrap_or(1) as u64;
        let s = &mut streams[k];
        s.packet(&body, seen[k], segments, false, left[k] == 0);
        out.extend(s.out.drain(..).flatten());
    }
    out
}

fn atom(id: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32 + 8).to_be_bytes().to_vec();
    v.extend(id);
    v.extend(body);
    v
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mp4Codec {
    /// 16-bit little or big endian samples, every frame a packet of its own.
    Pcm { little: bool },
    Flac,
    Alac,
}

/// MP4 (or QuickTime). The audio of all tracks is interleaved in chunks of `per_chunk` packets.
pub fn mp4(tracks: &[Track], codec: Mp4Codec, per_chunk: usize) -> Vec<u8> {
    struct T {
        samples: Vec<Vec<u8>>,
        durations: Vec<u32>,
        scale: u32,
        entry: Vec<u8>,
        handler: [u8; 4],
    }
    let until = tracks
        .iter()
        .map(|t| match t {
            Track::Audio(s, _) => s.frames() as u64 * 1_000_000 / u64::from(s.rate),
            Track::Foreign(_) => 0,
        })
        .max()
        .unwrap_or(0);
    let list: Vec<T> = tracks
        .iter()
        .map(|t| match t {
            Track::Foreign(f) => {
                let p = packets(t, until).1;
                let (id, handler) = match f {
                    Foreign::Subtitles => (b"tx3g", *b"text"),
                    Foreign::Video => (b"vp09", *b"vide"),
                    Foreign::UnknownAudio => (b"spex", *b"soun"),
                    Foreign::Opus => (b"Opus", *b"soun"),
                };
                let mut e = vec![0, 0, 0, 0, 0, 0, 0, 1];
                if *f == Foreign::Opus {
                    e.extend([0; 8]);
                    e.extend([0, 2, 0, 16, 0, 0, 0, 0, 0xBB, 0x80, 0, 0]);
                    e.extend(atom(b"dOps", b"\0\x02\x01\x38\0\0\xbb\x80\0\0\0"));
                } else {
                    e.extend([0; 60]);
                }
                T {
                    durations: vec![400; p.len()],
                    samples: p.into_iter().map(|x| x.1).collect(),
                    scale: 1000,
                    entry: atom(id, &e),
                    handler,
                }
            }
            Track::Audio(s, sizes) => {
                let mut e = vec![0, 0, 0, 0, 0, 0, 0, 1];
                e.extend([0; 8]);
                e.extend((s.channels as u16).to_be_bytes());
                e.extend(16u16.to_be_bytes());
                e.extend([0; 4]);
                // 16 bits for the rate.
                e.extend((if s.rate < 65536 { s.rate << 16 } else { 0 }).to_be_bytes());
                let (id, samples, durations): (&[u8; 4], Vec<Vec<u8>>, Vec<u32>) = match codec {
                    Mp4Codec::Pcm { little } => (
                        if little { b"sowt" } else { b"twos" },
                        Pcm::S16.body(s.data, !little, true).chunks(s.channels * 2).map(<[u8]>::to_vec).collect(),
                        vec![1; s.frames()],
                    ),
                    Mp4Codec::Flac => {
                        let f = flac_frames(s, sizes);
                        let mut d = vec![0, 0, 0, 0, 0x80, 0, 0, 34];
                        d.extend(f.info);
                        e.extend(atom(b"dfLa", &d));
                        let (b, n): (Vec<_>, Vec<_>) = f.frames.into_iter().map(|(b, n)| (b, n as u32)).unzip();
                        (b"fLaC", b, n)
                    }
                    Mp4Codec::Alac => {
                        let (cookie, frames) = alac_frames(s, sizes);
                        e.extend(atom(b"alac", &[&[0; 4], &cookie[..]].concat()));
                        let (b, n): (Vec<_>, Vec<_>) = frames.into_iter().map(|(b, n)| (b, n as u32)).unzip();
                        (b"alac", b, n)
                    }
                };
                T { samples, durations, scale: s.rate, entry: atom(id, &e), handler: *b"soun" }
            }
        })
        .collect();
    // Chunks of the tracks by their start time.
    let per_chunk = per_chunk.max(1);
    let mut chunks: Vec<(u64, usize, usize)> = Vec::new();
    for (k, t) in list.iter().enumerate() {
        let mut at = 0u64;
        for (c, d) in t.durations.chunks(per_chunk).enumerate() {
            chunks.push((at * 1_000_000 / u64::from(t.scale), k, c));
            at += d.iter().map(|&x| u64::from(x)).sum::<u64>();
        }
    }
    chunks.sort_unstable();
    let ftyp = atom(b"ftyp", b"isom\0\0\0\0isom");
    let mut data = Vec::new();
    let mut offsets: Vec<Vec<u32>> = vec![Vec::new(); list.len()];
    for (_, k, c) in chunks {
        offsets[k].push((ftyp.len() + 8 + data.len()) as u32);
        let t = &list[k];
        for s in &t.samples[c * per_chunk..((c + 1) * per_chunk).min(t.samples.len())] {
            data.extend(s);
        }
    }
    let mut moov = Vec::new();
    let mut mvhd = vec![0; 12];
    mvhd.extend(1000u32.to_be_bytes());
    mvhd.extend(((until / 1000) as u32).to_be_bytes());
    mvhd.extend(0x0001_0000u32.to_be_bytes());
    mvhd.extend(0x0100u16.to_be_bytes());
    mvhd.extend([0; 10 + 36 + 24]);
    mvhd.extend((list.len() as u32 + 1).to_be_bytes());
    moov.extend(atom(b"mvhd", &mvhd));
    for (k, t) in list.iter().enumerate() {
        let total: u64 = t.durations.iter().map(|&x| u64::from(x)).sum();
        let mut tkhd = vec![0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0];
        tkhd.extend((k as u32 + 1).to_be_bytes());
        tkhd.extend([0; 4]);
        tkhd.extend(((total * 1000 / u64::from(t.scale)) as u32).to_be_bytes());
        tkhd.extend([0; 8 + 8 + 36 + 8]);
        let mut mdhd = vec![0; 12];
        mdhd.extend(t.scale.to_be_bytes());
        mdhd.extend((total as u32).to_be_bytes());
        mdhd.extend([0x55, 0xC4, 0, 0]);
        let mut hdlr = vec![0; 8];
        hdlr.extend(t.handler);
        hdlr.extend([0; 13]);
        let mut stsd = vec![0, 0, 0, 0, 0, 0, 0, 1];
        stsd.extend(&t.entry);
        let mut runs: Vec<(u32, u32)> = Vec::new();
        for &d in &t.durations {
            match runs.last_mut() {
                Some(r) if r.1 == d => r.0 += 1,
                _ => runs.push((1, d)),
            }
        }
        let mut stts = vec![0; 4];
        stts.extend((runs.len() as u32).to_be_bytes());
        for (n, d) in runs {
            stts.extend(n.to_be_bytes());
            stts.extend(d.to_be_bytes());
        }
        let full = (t.samples.len() / per_chunk) as u32;
        let rest = (t.samples.len() % per_chunk) as u32;
        let mut rows = Vec::new();
        if full > 0 {
            rows.push((1u32, per_chunk as u32));
        }
        if rest > 0 {
            rows.push((full + 1, rest));
        }
        let mut stsc = vec![0; 4];
        stsc.extend((rows.len() as u32).to_be_bytes());
        for (first, n) in rows {
            stsc.extend(first.to_be_bytes());
            stsc.extend(n.to_be_bytes());
            stsc.extend(1u32.to_be_bytes());
        }
        let mut stsz = vec![0; 4];
        let equal = t.samples.windows(2).all(|w| w[0].len() == w[1].len()) && !t.samples.is_empty();
        stsz.extend((if equal { t.samples[0].len() as u32 } else { 0 }).to_be_bytes());
        stsz.extend((t.samples.len() as u32).to_be_bytes());
        if !equal {
            for s in &t.samples {
                stsz.extend((s.len() as u32).to_be_bytes());
            }
        }
        let mut stco = vec![0; 4];
        stco.extend((offsets[k].len() as u32).to_be_bytes());
        for o in &offsets[k] {
            stco.extend(o.to_be_bytes());
        }
        let stbl = [atom(b"stsd", &stsd), atom(b"stts", &stts), atom(b"stsc", &stsc), atom(b"stsz", &stsz), atom(b"stco", &stco)].concat();
        let minf = if t.handler == *b"soun" { atom(b"smhd", &[0; 8]) } else { Vec::new() };
        let minf = [minf, atom(b"stbl", &stbl)].concat();
        let mdia = [atom(b"mdhd", &mdhd), atom(b"hdlr", &hdlr), atom(b"minf", &minf)].concat();
        moov.extend(atom(b"trak", &[atom(b"tkhd", &tkhd), atom(b"mdia", &mdia)].concat()));
    }
    let mut out = ftyp;
    out.extend(atom(b"mdat", &data));
    out.extend(atom(b"moov", &moov));
    out
}
