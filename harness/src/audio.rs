//! Synthetic audio described by small, shrinkable recipes, and configurations.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::Configuration;
use serde::{Deserialize, Serialize};

pub const NATIVE: u32 = 11025;

/// Deterministic hash used to expand seeds into samples.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD134_2543_DE82_EF95))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Silence,
    Const(i16),
    Tones { freqs: Vec<f64>, amp: i16 },
    Noise { seed: u16, amp: i16 },
    Sweep { f0: f64, f1: f64, amp: i16 },
    Square { half: u16, amp: i16 },
    Clicks { period: u16, amp: i16 },
    /// Notes of `note_ms` each, one to three partials plus a bit of noise.
    Melody { seed: u16, amp: i16, note_ms: u16 },
    /// Samples from the edges of the value range.
    Extremes { seed: u16 },
}

impl Kind {
    pub fn is_silent(&self) -> bool {
        matches!(self, Kind::Silence | Kind::Const(0))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Piece {
    pub kind: Kind,
    pub weight: u8,
}

/// `len` samples made of `pieces`, each taking a share proportional to its weight.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Clip {
    pub pieces: Vec<Piece>,
    pub len: usize,
}

fn clamp(x: f64) -> i16 {
    x.round().clamp(-32768.0, 32767.0) as i16
}

fn render_piece(kind: &Kind, rate: f64, n: usize, out: &mut Vec<i16>) {
    use std::f64::consts::TAU;
    match kind {
        Kind::Silence => out.resize(out.len() + n, 0),
        Kind::Const(v) => out.resize(out.len() + n, *v),
        Kind::Tones { freqs, amp } => {
            let a = f64::from(*amp) / freqs.len().max(1) as f64;
            for i in 0..n {
                let t = i as f64 / rate;
                out.push(clamp(freqs.iter().map(|f| a * (TAU * f * t).sin()).sum()));
            }
        }
        Kind::Noise { seed, amp } => {
            let a = i64::from(*amp).max(0);
            for i in 0..n {
                let h = hash2(u64::from(*seed), i as u64);
                out.push(((h % (2 * a as u64 + 1)) as i64 - a) as i16);
            }
        }
        Kind::Sweep { f0, f1, amp } => {
            let dur = n as f64 / rate;
            for i in 0..n {
                let t = i as f64 / rate;
                let ph = TAU * (f0 * t + (f1 - f0) * t * t / (2.0 * dur.max(1e-9)));
                out.push(clamp(f64::from(*amp) * ph.sin()));
            }
        }
        Kind::Square { half, amp } => {
            let h = usize::from(*half).max(1);
            for i in 0..n {
                out.push(if (i / h) % 2 == 0 { *amp } else { -amp.saturating_abs() });
            }
        }
        Kind::Clicks { period, amp } => {
            let p = usize::from(*period).max(1);
            for i in 0..n {
                out.push(if i % p == 0 { *amp } else { 0 });
            }
        }
        Kind::Melody { seed, amp, note_ms } => {
            let note_s = f64::from(*note_ms).max(1.0) / 1000.0;
            let mut cur = u64::MAX;
            let mut partials: Vec<(f64, f64)> = Vec::new();
            for i in 0..n {
                let t = i as f64 / rate;
                let k = (t / note_s) as u64;
                if k != cur {
                    cur = k;
                    partials = melody_note(u64::from(*seed), k);
                }
                let x: f64 = partials.iter().map(|(f, w)| w * (TAU * f * t).sin()).sum();
                out.push(clamp(f64::from(*amp) * x));
            }
        }
        Kind::Extremes { seed } => {
            for i in 0..n {
                let h = hash2(u64::from(*seed) + 77, i as u64);
                out.push([-32768, 32767, 0, -1, 1, -32767, 32766, -32768][(h % 8) as usize]);
            }
        }
    }
}

/// The partials (frequency, weight) of one note of a melody.
pub fn melody_note(seed: u64, k: u64) -> Vec<(f64, f64)> {
    let h = hash2(seed ^ 0xABCD_0000, k);
    let n = 1 + (h % 3) as usize;
    (0..n)
        .map(|j| {
            let g = hash2(h, j as u64 + 1);
            // 80 Hz .. about 1900 Hz, log-uniform
            let f = 80.0 * 2f64.powf((g % 10_000) as f64 / 10_000.0 * 4.57);
            (f, 1.0 / n as f64)
        })
        .collect()
}

impl Clip {
    pub fn render(&self, rate: u32) -> Vec<i16> {
        let mut out = Vec::with_capacity(self.len);
        let total: usize = self.pieces.iter().map(|p| usize::from(p.weight)).sum();
        let mut acc = 0usize;
        for p in &self.pieces {
            acc += usize::from(p.weight);
            let end = if total == 0 { 0 } else { (self.len as u128 * acc as u128 / total as u128) as usize };
            let n = end - out.len();
            render_piece(&p.kind, f64::from(rate), n, &mut out);
        }
        out.resize(self.len, 0);
        out
    }

    pub fn single(kind: Kind, len: usize) -> Self {
        Clip { pieces: vec![Piece { kind, weight: 1 }], len }
    }
}

/// How the channels of a stream are derived from one mono clip.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spread {
    /// Every channel is the clip.
    Same,
    /// Channel c is the clip delayed (circularly) by c*977 samples.
    Delayed,
    /// Channel c is the clip plus noise of its own.
    Noisy(u16),
    /// Odd channels have the opposite sign (saturating).
    Alternate,
    /// Only the first channel is audible.
    First,
}

/// Interleaves `channels` channels derived from `mono`.
pub fn interleave(mono: &[i16], channels: usize, spread: &Spread) -> Vec<i16> {
    let n = mono.len();
    if channels == 1 && !matches!(spread, Spread::Noisy(_)) {
        return mono.to_vec();
    }
    let mut out = Vec::with_capacity(n * channels);
    for i in 0..n {
        for c in 0..channels {
            out.push(match spread {
                Spread::Same => mono[i],
                Spread::Delayed => mono[(i + c * 977) % n],
                Spread::Noisy(seed) => {
                    let h = hash2(u64::from(*seed) << 20 | c as u64, i as u64);
                    (i32::from(mono[i]) + (h % 20001) as i32 - 10000).clamp(-32768, 32767) as i16
                }
                Spread::Alternate => {
                    if c % 2 == 0 {
                        mono[i]
                    } else {
                        mono[i].saturating_neg()
                    }
                }
                Spread::First => {
                    if c == 0 {
                        mono[i]
                    } else {
                        0
                    }
                }
            });
        }
    }
    out
}

/// The documented downmix: integer mean of the channels, rounded toward zero.
pub fn downmix(data: &[i16], channels: usize) -> Vec<i16> {
    data.chunks_exact(channels)
        .map(|f| {
            let s: i128 = f.iter().map(|&x| i128::from(x)).sum();
            (s / channels as i128) as i16
        })
        .collect()
}

/// Calls `f` with consecutive parts of `data`, of sizes (in frames) taken cyclically from `sizes`.
pub fn chunks(data: &[i16], channels: usize, sizes: &[usize], mut f: impl FnMut(&[i16])) {
    let frames = data.len() / channels;
    if sizes.iter().all(|&s| s == 0) {
        for _ in sizes {
            f(&[]);
        }
        f(data);
        return;
    }
    let mut pos = 0;
    let mut k = 0;
    while pos < frames {
        let n = sizes[k % sizes.len()].min(frames - pos);
        k += 1;
        f(&data[pos * channels..(pos + n) * channels]);
        pos += n;
    }
}

// ---------------------------------------------------------------- configurations

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CfgSpec {
    /// 0..=4: the preset of that algorithm id.
    pub preset: u8,
    /// (frame size, overlap)
    pub frame: Option<(usize, usize)>,
    pub coeffs: Option<Vec<f64>>,
    pub interpolate: Option<bool>,
    pub silence: Option<u32>,
    pub id: Option<u8>,
}

impl CfgSpec {
    pub fn preset(p: u8) -> Self {
        CfgSpec { preset: p, frame: None, coeffs: None, interpolate: None, silence: None, id: None }
    }

    pub fn with_frame(mut self, size: usize, overlap: usize) -> Self {
        self.frame = Some((size, overlap));
        self
    }

    pub fn base(&self) -> Configuration {
        match self.preset {
            0 => Configuration::preset_test1(),
            1 => Configuration::preset_test2(),
            2 => Configuration::preset_test3(),
            3 => Configuration::preset_test4(),
            _ => Configuration::preset_test5(),
        }
    }

    pub fn build(&self) -> Configuration {
        let mut c = self.base();
        if let Some((s, o)) = self.frame {
            c = c.with_frame_size(s).with_frame_overlap(o);
        }
        if let Some(k) = &self.coeffs {
            c = c.with_coefficients(k.clone());
        }
        if let Some(i) = self.interpolate {
            c = c.with_interpolation(i);
        }
        if let Some(t) = self.silence {
            c = c.with_removed_silence(t);
        }
        if let Some(id) = self.id {
            c = c.with_id(id);
        }
        c
    }

    pub fn frame_size(&self) -> usize {
        self.frame.map(|f| f.0).unwrap_or(if self.preset == 4 { 2048 } else { 4096 })
    }

    pub fn overlap(&self) -> usize {
        self.frame.map(|f| f.1).unwrap_or(if self.preset == 4 { 1024 } else { 2731 })
    }

    pub fn step(&self) -> usize {
        self.frame_size() - self.overlap()
    }

    pub fn coefficients(&self) -> Vec<f64> {
        self.coeffs.clone().unwrap_or_else(|| vec![0.25, 0.75, 1.0, 0.75, 0.25])
    }

    pub fn interpolates(&self) -> bool {
        self.interpolate.unwrap_or(self.preset == 2)
    }

    pub fn silence_threshold(&self) -> Option<u32> {
        self.silence.or(if self.preset == 3 { Some(50) } else { None })
    }

    pub fn algorithm_id(&self) -> u8 {
        self.id.unwrap_or(self.preset)
    }

    /// Samples (at 11025 Hz) that pass before the first item is complete, less one step.
    pub fn delay(&self) -> usize {
        (self.coefficients().len() - 1 + 15) * self.step() + self.overlap()
    }

    /// Items produced from `n` samples at 11025 Hz (without silence removal).
    pub fn items(&self, n: usize) -> usize {
        n.saturating_sub(self.delay()) / self.step()
    }
}

// ---------------------------------------------------------------- strategies

fn amp() -> BoxedStrategy<i16> {
    prop_oneof![
        6 => 1000i16..=32767,
        2 => 10i16..1000,
        1 => Just(32767i16),
        1 => 1i16..10,
    ]
    .boxed()
}

pub fn loud_amp() -> BoxedStrategy<i16> {
    (8000i16..=30000).boxed()
}

pub fn melody(amp: BoxedStrategy<i16>) -> BoxedStrategy<Kind> {
    (any::<u16>(), amp, 40u16..600).prop_map(|(seed, amp, note_ms)| Kind::Melody { seed, amp, note_ms }).boxed()
}

pub fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        6 => melody(amp()),
        3 => (any::<u16>(), amp()).prop_map(|(seed, amp)| Kind::Noise { seed, amp }),
        3 => (proptest::collection::vec(20.0f64..5000.0, 1..5), amp()).prop_map(|(freqs, amp)| Kind::Tones { freqs, amp }),
        2 => (20.0f64..5000.0, 20.0f64..5000.0, amp()).prop_map(|(f0, f1, amp)| Kind::Sweep { f0, f1, amp }),
        1 => (1u16..300, amp()).prop_map(|(half, amp)| Kind::Square { half, amp }),
        1 => (1u16..3000, amp()).prop_map(|(period, amp)| Kind::Clicks { period, amp }),
        1 => any::<u16>().prop_map(|seed| Kind::Extremes { seed }),
        1 => any::<i16>().prop_map(Kind::Const),
        1 => Just(Kind::Silence),
    ]
    .boxed()
}

pub fn pieces_of(kind: BoxedStrategy<Kind>, max: usize) -> BoxedStrategy<Vec<Piece>> {
    proptest::collection::vec((kind, 1u8..8).prop_map(|(kind, weight)| Piece { kind, weight }), 1..=max).boxed()
}

pub fn pieces() -> BoxedStrategy<Vec<Piece>> {
    pieces_of(kind(), 5)
}

/// Stream lengths (at 11025 Hz) biased to where something changes: item boundaries, the internal
/// buffer size and its multiples.
pub fn lengths(delay: usize, step: usize, max: usize) -> BoxedStrategy<usize> {
    let max = max.max(delay + 3 * step);
    let kmax = ((max - delay) / step).max(2);
    prop_oneof![
        4 => (0..=kmax, 0..3usize).prop_map(move |(k, d)| (delay + k * step + d).saturating_sub(1)),
        2 => (1..=(max / 32768).max(1), 0..3usize).prop_map(|(m, d)| m * 32768 + d - 1),
        5 => (delay + step)..=max,
        1 => 0..=(delay + step),
    ]
    .boxed()
}

pub fn clip(delay: usize, step: usize, max: usize) -> BoxedStrategy<Clip> {
    (pieces(), lengths(delay, step, max)).prop_map(|(pieces, len)| Clip { pieces, len }).boxed()
}

pub fn preset_cfg() -> BoxedStrategy<CfgSpec> {
    (0u8..5).prop_map(CfgSpec::preset).boxed()
}

/// Chunk sizes in frames.
pub fn chunk_sizes() -> BoxedStrategy<Vec<usize>> {
    let one = prop_oneof![
        2 => Just(0usize),
        2 => 1usize..8,
        3 => 8usize..2000,
        2 => prop_oneof![Just(1152usize), Just(1365), Just(4096), Just(2731)],
        3 => (32768usize - 3)..=(32768 + 3),
        2 => 2000usize..100_000,
    ];
    prop_oneof![
        6 => proptest::collection::vec(one, 1..7),
        1 => Just(vec![usize::MAX / 2]),
        1 => Just(vec![1usize]),
    ]
    .boxed()
}

pub fn spread() -> BoxedStrategy<Spread> {
    prop_oneof![
        Just(Spread::Same),
        Just(Spread::Delayed),
        any::<u16>().prop_map(Spread::Noisy),
        Just(Spread::Alternate),
        Just(Spread::First)
    ]
    .boxed()
}

pub fn rates() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => Just(NATIVE),
        6 => proptest::sample::select(vec![8000u32, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000]),
        2 => 5000u32..60000,
        1 => 1001u32..200_000,
        1 => 11_015u32..11_036,
        1 => proptest::sample::select(vec![1001u32, 192_000]),
    ]
    .boxed()
}

pub fn small_coeffs() -> BoxedStrategy<Vec<f64>> {
    proptest::collection::vec((0u32..=16).prop_map(|k| f64::from(k) / 8.0), 1..14)
        .prop_filter("not all zero", |v| v.iter().any(|&x| x > 0.0))
        .boxed()
}

/// Frame geometries other than the presets'.
pub fn frames() -> BoxedStrategy<(usize, usize)> {
    let size = prop_oneof![
        3 => 64usize..1200,
        3 => proptest::sample::select(vec![128usize, 256, 512, 1000, 1024, 2048, 3000, 4096]),
        1 => proptest::sample::select(vec![4095usize, 4097, 6000, 8192]),
    ];
    (size, 0u32..=20)
        .prop_map(|(s, o)| {
            // a hop of at least a 16th of a frame keeps the cost bounded
            let overlap = match o {
                0 => 0,
                20 => s - (s / 16).max(1),
                _ => s * o as usize / 21,
            };
            (s, overlap)
        })
        .boxed()
}
