//! C08..C13 and C20: relations between fingerprints of related audio, limits, resources.

use crate::alloc;
use crate::audio::*;
use crate::engine::*;
use crate::ensure;
use crate::refmodel;
use crate::session::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{match_fingerprints, Fingerprinter, ResetError};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C08

pub struct C08;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GainCase {
    cfg: CfgSpec,
    rate: u32,
    clip: Clip,
    shift: u32,
    invert: bool,
}

impl Prop for C08 {
    type Case = GainCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A clip, the same clip amplified by a power of two (so that no rounding differs) and its inversion; fingerprints must be equal, except for items that involve a row whose energy crosses the silence floor between the two (found with the reference model at 11025 Hz). At other rates only steadily loud clips are used. Non-trivial: at least two different items are compared and the samples differ."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(3200, 40000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<GainCase> {
        let max = t.pick(100_000, 250_000);
        let cfg = prop_oneof![
            3 => prop_oneof![Just(0u8), Just(1), Just(2), Just(4)].prop_map(CfgSpec::preset),
            1 => (0u8..3, frames()).prop_map(|(p, (s, o))| CfgSpec::preset(p).with_frame(s, o)),
        ];
        let steady = prop_oneof![
            melody((2000i16..16000).boxed()),
            (any::<u16>(), 2000i16..16000).prop_map(|(seed, amp)| Kind::Noise { seed, amp }),
        ]
        .boxed();
        let native = (pieces(), Just(NATIVE));
        let other = (pieces_of(steady, 4), rates());
        (cfg, prop_oneof![3 => native, 1 => other], lengths(28666, 1365, max), 0u32..9, any::<bool>())
            .prop_map(|(cfg, (pieces, rate), len, shift, invert)| {
                let len = (len as u64 * u64::from(rate) / u64::from(NATIVE)) as usize;
                GainCase { cfg, rate, clip: Clip { pieces, len: len.min(1_000_000) }, shift, invert }
            })
            .boxed()
    }
    fn check(&self, c: &GainCase, obs: &mut Obs) -> Outcome {
        let mut x = c.clip.render(c.rate);
        let peak = x.iter().map(|v| v.unsigned_abs()).max().unwrap_or(0).max(1);
        // The quiet version keeps its lowest bits; the loud one uses the remaining headroom.
        let mut shift = c.shift;
        if c.rate == NATIVE {
            // make room for the requested gain
            for v in &mut x {
                *v = (i32::from(*v) >> shift) as i16;
            }
        } else {
            while shift > 0 && (u32::from(peak) << shift) > 32767 {
                shift -= 1;
            }
        }
        for v in &mut x {
            *v = (*v).max(-(32767 >> shift));
        }
        let sign = if c.invert { -1 } else { 1 };
        let y: Vec<i16> = x.iter().map(|&v| (sign * (i32::from(v) << shift)) as i16).collect();
        let cfg = c.cfg.build();
        let a = fp(&cfg, c.rate, 1, &x)?;
        let b = fp(&cfg, c.rate, 1, &y)?;
        ensure!(a.len() == b.len(), "{} items for the original, {} for the scaled stream", a.len(), b.len());
        let mut compared = Vec::new();
        if c.rate == NATIVE {
            let gain = 4f64.powi(shift as i32);
            let norms = refmodel::rows(&x, &c.cfg).norms;
            let crosses: Vec<bool> = norms.iter().map(|&n| n < 0.01 * 1.000_001 && n * gain > 0.01 * 0.999_999).collect();
            for i in 0..a.len() {
                if crosses[i..(i + 16).min(crosses.len())].iter().any(|&c| c) {
                    continue;
                }
                ensure!(a[i] == b[i], "item {i} of {}: {:#010x} and {:#010x} after a gain of {} (inverted: {})", a.len(), a[i], b[i], 1 << shift, c.invert);
                compared.push(a[i]);
            }
        } else {
            if let Some(d) = first_diff(&a, &b) {
                return Err(Fail::Violation(format!("a gain of {} (inverted: {}) changes the fingerprint at {} Hz: {d}", 1 << shift, c.invert, c.rate)));
            }
            compared = a.clone();
        }
        obs.label_if(c.rate != NATIVE, "resampled");
        obs.label_if(shift > 0, "gain");
        obs.label_if(c.invert, "inverted");
        obs.count("items", a.len() as u64);
        obs.count("items_at_the_silence_floor", (a.len() - compared.len()) as u64);
        obs.nontrivial = distinct(&compared) > 1 && x != y;
        Ok(())
    }
}

// ------------------------------------------------------------------ C09

pub struct C09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShiftCase {
    cfg: CfgSpec,
    pieces: Vec<Piece>,
    items: usize,
    extra: usize,
    /// Whole items of unrelated audio put in front.
    skip: usize,
    before: Kind,
    /// Unrelated audio at the end.
    after: Kind,
    after_len: usize,
}

impl Prop for C09 {
    type Case = ShiftCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "At 11025 Hz, a clip alone and the same clip embedded in unrelated audio, a whole number of items after the start; the items lying entirely within the clip must be those of the clip alone (bits undecided by the reference model within 1e-7 are exempt). Small frame geometries make streams of thousands of items cheap. Non-trivial: at least two different common items and something put in front."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(16000, 200000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ShiftCase> {
        let long = t.pick(1200usize, 6000);
        let geo = prop_oneof![
            2 => (prop_oneof![Just(0u8), Just(1), Just(2), Just(4)].prop_map(CfgSpec::preset), 1usize..40, 0usize..60),
            3 => ((0u8..3, proptest::sample::select(vec![(64usize, 32usize), (128, 64), (256, 128), (200, 133), (100, 0)]))
                    .prop_map(|(p, (s, o))| CfgSpec::preset(p).with_frame(s, o)), 1usize..400, 0usize..long),
            1 => ((0u8..3, frames()).prop_map(|(p, (s, o))| CfgSpec::preset(p).with_frame(s, o)), 1usize..40, 0usize..60),
        ];
        let many = ((0u8..3, 60usize..200, 1usize..4).prop_map(|(p, s, hop)| CfgSpec::preset(p).with_frame(s, s - hop)), 1usize..400, 0usize..140_000);
        let geo = prop_oneof![200 => geo, 1 => many];
        (geo, pieces(), 0usize..9000, kind(), kind(), 0usize..20_000)
            .prop_map(|((cfg, items, skip), pieces, extra, before, after, after_len)| ShiftCase { cfg, pieces, items, extra, skip, before, after, after_len })
            .boxed()
    }
    fn check(&self, c: &ShiftCase, obs: &mut Obs) -> Outcome {
        let spec = &c.cfg;
        let step = spec.step();
        let len = spec.delay() + c.items * step + c.extra % step;
        let clip = Clip { pieces: c.pieces.clone(), len }.render(NATIVE);
        let mut whole = Clip::single(c.before.clone(), c.skip * step).render(NATIVE);
        whole.extend_from_slice(&clip);
        whole.extend(Clip::single(c.after.clone(), c.after_len).render(NATIVE));
        let cfg = spec.build();
        let alone = fp(&cfg, NATIVE, 1, &clip)?;
        let within = fp(&cfg, NATIVE, 1, &whole)?;
        ensure!(alone.len() == c.items, "{} items instead of {}", alone.len(), c.items);
        ensure!(within.len() >= c.skip + c.items, "{} items instead of at least {}", within.len(), c.skip + c.items);
        let part = &within[c.skip..c.skip + c.items];
        if part != &alone[..] {
            let model = refmodel::fingerprint(&clip, spec);
            for i in 0..alone.len() {
                let m = model.mask.get(i).copied().unwrap_or(u32::MAX);
                ensure!(
                    (alone[i] ^ part[i]) & m == 0,
                    "item {i} of {} is {:#010x} alone and {:#010x} after {} items of other audio",
                    c.items,
                    alone[i],
                    part[i],
                    c.skip
                );
            }
            obs.label("undecided_bits");
        }
        obs.label_if(c.skip + c.items > 256, "more_than_256_items");
        obs.label_if(c.skip + c.items > 1000, "more_than_1000_items");
        obs.label_if(c.skip + c.items > 65536, "more_than_65536_items");
        obs.nontrivial = c.skip > 0 && distinct(&alone) > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ C10

pub struct C10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RateCase {
    preset: u8,
    rate: u32,
    seed: u16,
    amp: i16,
    note_ms: u16,
    native_len: usize,
    channels: usize,
    sizes: Vec<usize>,
    /// Items of silence put in front (when the rate is a multiple of 11025 Hz).
    lead: usize,
}

/// Of the bits whose classifier value is at least this far from a threshold, this share and this number
/// may differ after resampling. (Over 18000 cases, the highest are 3 of 59 beyond 0.1 and none beyond 0.2.)
const ROBUST: [(f64, f64, f64); 2] = [(0.1, 0.02, 6.0), (0.3, 0.001, 2.0)];

impl Prop for C10 {
    type Case = RateCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "The same melody (partials below 2 kHz) synthesised at a rate from 8 to 192 kHz and at 11025 Hz; among the bits whose classifier value at 11025 Hz is at least 0.1 (0.3) away from a threshold, at most 2% plus 6 (0.1% plus 2) may differ, and leading silence of k items at a multiple of 11025 Hz must shift the fingerprint by exactly k items. Non-trivial: at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(3600, 40000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<RateCase> {
        let rate = prop_oneof![
            5 => proptest::sample::select(vec![8000u32, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192_000]),
            2 => 8000u32..60_000,
            2 => proptest::sample::select(vec![22050u32, 33075, 44100, 88200]),
            1 => proptest::sample::select(vec![11024u32, 11026, 10000, 11025]),
        ];
        (
            prop_oneof![Just(0u8), Just(1), Just(2), Just(4)],
            rate,
            any::<u16>(),
            3000i16..30000,
            60u16..700,
            lengths(28666, 1365, t.pick(120_000, 300_000)),
            1usize..4,
            chunk_sizes(),
            1usize..40,
        )
            .prop_map(|(preset, rate, seed, amp, note_ms, native_len, channels, sizes, lead)| RateCase {
                preset,
                rate,
                seed,
                amp,
                note_ms,
                native_len,
                channels,
                sizes,
                lead,
            })
            .boxed()
    }
    fn check(&self, c: &RateCase, obs: &mut Obs) -> Outcome {
        let spec = CfgSpec::preset(c.preset);
        let cfg = spec.build();
        let kind = Kind::Melody { seed: c.seed, amp: c.amp, note_ms: c.note_ms };
        let native = Clip::single(kind.clone(), c.native_len).render(NATIVE);
        let frames = (c.native_len as u64 * u64::from(c.rate) / u64::from(NATIVE)) as usize;
        let mono = Clip::single(kind, frames).render(c.rate);
        let data = interleave(&mono, c.channels, &Spread::Same);
        let actual = fp_chunked(&cfg, c.rate, c.channels, &data, &c.sizes)?;
        let rows = refmodel::rows(&native, &spec);
        for (margin, share, extra) in ROBUST {
            let model = refmodel::classify(&rows, c.preset, margin);
            ensure!(
                actual.len().abs_diff(model.items.len()) <= 1,
                "{} items at {} Hz, {} at 11025 Hz",
                actual.len(),
                c.rate,
                model.items.len()
            );
            let (mut wrong, mut total) = (0u64, 0u64);
            for (a, (e, m)) in actual.iter().zip(model.items.iter().zip(&model.mask)) {
                wrong += u64::from(((a ^ e) & m).count_ones());
                total += u64::from(m.count_ones());
            }
            obs.count(if margin < 0.2 { "bits_beyond_0.1" } else { "bits_beyond_0.3" }, total);
            obs.count(if margin < 0.2 { "different_bits_beyond_0.1" } else { "different_bits_beyond_0.3" }, wrong);
            ensure!(
                wrong as f64 <= share * total as f64 + extra,
                "{wrong} of {total} bits that are {margin} away from a threshold differ between {} Hz and 11025 Hz",
                c.rate
            );
        }
        if c.rate % NATIVE == 0 {
            let mut late = vec![0i16; c.lead * spec.step() * (c.rate / NATIVE) as usize * c.channels];
            late.extend_from_slice(&data);
            let shifted = fp(&cfg, c.rate, c.channels, &late)?;
            let tail = shifted.get(c.lead..).unwrap_or(&[]);
            ensure!(
                tail.len().abs_diff(actual.len()) <= 1,
                "{} items of leading silence at {} Hz turn {} items into {}",
                c.lead,
                c.rate,
                actual.len(),
                shifted.len()
            );
            // (the last few input samples may or may not complete an item)
            let common = tail.len().min(actual.len());
            if let Some(d) = first_diff(&tail[..common], &actual[..common]) {
                return Err(Fail::Violation(format!("{} items of leading silence at {} Hz do not just shift the fingerprint: {d}", c.lead, c.rate)));
            }
            obs.label("shift_by_silence");
        }
        obs.label_if(frames > 32768 && c.rate != NATIVE, "longer_than_internal_buffer");
        obs.nontrivial = c.rate != NATIVE && distinct(&actual) > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ C11

pub struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SilenceCase {
    preset: u8,
    frame: Option<(usize, usize)>,
    threshold: Option<u32>,
    rate: u32,
    lead: Vec<Piece>,
    lead_len: usize,
    body: Vec<Piece>,
    body_len: usize,
    channels: usize,
    sizes: Vec<usize>,
}

impl Prop for C11 {
    type Case = SilenceCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A quiet lead-in whose level is near the threshold (constant, noise, square, clicks, silence) followed by a body that may contain further silence, with silence removal by the preset or by a threshold (most below 3000, up to the largest); the fingerprint must be that of the stream cut at the first sample where the mean level of the last 55 samples exceeds the threshold, without silence removal. At multiples of 11025 Hz, more leading digital silence must change nothing. Non-trivial: something was cut and at least two different items remain."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(9600, 120000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<SilenceCase> {
        let near = |t: u32| {
            let t = t.min(40_000) as i32;
            let lvl = prop_oneof![
                3 => (t - 2)..=(t + 2),
                2 => 0..=(2 * t + 2),
            ]
            .prop_map(|v| v.clamp(-32768, 32767) as i16);
            let pos = lvl.clone().prop_map(|v| v.max(0));
            prop_oneof![
                3 => Just(Kind::Silence),
                2 => (lvl, any::<bool>()).prop_map(|(v, n)| Kind::Const(if n { -v } else { v })),
                2 => (any::<u16>(), pos.clone()).prop_map(|(seed, amp)| Kind::Noise { seed, amp: amp.saturating_mul(2) }),
                2 => (1u16..60, pos.clone()).prop_map(|(half, amp)| Kind::Square { half, amp }),
                2 => (1u16..200, 1u32..70, pos).prop_map(|(period, k, amp)| Kind::Clicks { period, amp: (i32::from(amp) * k as i32).min(32767) as i16 }),
            ]
            .boxed()
        };
        let threshold = prop_oneof![3 => Just(None), 2 => (0u32..300).prop_map(Some), 1 => (0u32..3000).prop_map(Some), 1 => (0u32..33_000).prop_map(Some), 1 => proptest::sample::select(vec![32_766u32, 32_767, 32_768, 65_535, 65_536, 65_636, u32::MAX]).prop_map(Some)];
        let rate = prop_oneof![4 => Just(NATIVE), 1 => proptest::sample::select(vec![22050u32, 33075, 44100])];
        (
            threshold.prop_flat_map(move |th| {
                let t = th.unwrap_or(50);
                (Just(th), pieces_of(near(t), 3), pieces_of(prop_oneof![4 => kind(), 1 => near(t)].boxed(), 4))
            }),
            0u8..5,
            proptest::option::weighted(0.4, proptest::sample::select(vec![(512usize, 342usize), (1024, 512), (256, 0)])),
            rate,
            prop_oneof![1 => 0usize..200, 3 => 0usize..40_000, 1 => 30_000usize..t.pick(100_000, 250_000)],
            lengths(28666, 1365, 70_000),
            prop_oneof![3 => Just(1usize), 1 => 2usize..4],
            chunk_sizes(),
        )
            .prop_map(|((threshold, lead, body), preset, frame, rate, lead_len, body_len, channels, sizes)| SilenceCase {
                preset: if threshold.is_none() { 3 } else { preset },
                frame,
                threshold,
                rate,
                lead,
                lead_len,
                body,
                body_len,
                channels,
                sizes,
            })
            .boxed()
    }
    fn check(&self, c: &SilenceCase, obs: &mut Obs) -> Outcome {
        let spec = CfgSpec { frame: c.frame, silence: c.threshold, ..CfgSpec::preset(c.preset) };
        let threshold = c.threshold.unwrap_or(50);
        let cfg = spec.build();
        // The same calculation without silence removal.
        let plain = CfgSpec { silence: None, preset: if c.preset == 3 { 1 } else { c.preset }, ..spec.clone() }.build();
        let ratio = (c.rate / NATIVE) as usize;
        let mut mono = Clip { pieces: c.lead.clone(), len: c.lead_len * ratio }.render(c.rate);
        mono.extend(Clip { pieces: c.body.clone(), len: c.body_len * ratio }.render(c.rate));
        let data = interleave(&mono, c.channels, &Spread::Same);
        let actual = fp_chunked(&cfg, c.rate, c.channels, &data, &c.sizes)?;
        if c.rate == NATIVE {
            let cut = refmodel::leading_silence(&mono, threshold);
            let expected = fp(&plain, NATIVE, 1, &mono[cut..])?;
            if let Some(d) = first_diff(&actual, &expected) {
                return Err(Fail::Violation(format!(
                    "threshold {threshold}: the fingerprint is not that of the stream without its first {cut} samples: {d}"
                )));
            }
            obs.label_if(cut == mono.len(), "all_silent");
            obs.label_if(cut > 0 && cut < c.lead_len, "cut_within_lead");
            obs.nontrivial = cut > 0 && distinct(&actual) > 1;
        } else {
            // Both fill the averaging window with zeros before the stream begins.
            let after_silence = |samples: usize| {
                let mut v = vec![0i16; samples * ratio * c.channels];
                v.extend_from_slice(&data);
                fp_chunked(&cfg, c.rate, c.channels, &v, &c.sizes)
            };
            let a = after_silence(80)?;
            let b = after_silence(80 + 8 * c.lead_len)?;
            if let Some(d) = first_diff(&a, &b) {
                return Err(Fail::Violation(format!("threshold {threshold}: leading digital silence at {} Hz changes the fingerprint: {d}", c.rate)));
            }
            obs.label("resampled");
            obs.nontrivial = distinct(&actual) > 1;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C12

pub struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcceptCase {
    cfg: CfgSpec,
    starts: Vec<(u32, u32)>,
    kind: Kind,
    frames: usize,
    sizes: Vec<usize>,
}

impl Prop for C12 {
    type Case = AcceptCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Sequences of start() with any sample rate (boundary at 1000 Hz, usual rates, up to 4294967295) and any number of channels (0, usual, up to 4294967295), each followed by consuming whole frames of any content and finishing. start must succeed exactly when there is a channel and the rate exceeds 1000 Hz, report the right error otherwise, and nothing may panic. Non-trivial: some accepted start was given audio."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(20000, 300000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<AcceptCase> {
        let rate = prop_oneof![
            3 => rates(),
            3 => 990u32..=1010,
            2 => proptest::sample::select(vec![0u32, 1, 999, 1000, 1001, 1002, u32::MAX, u32::MAX - 1, 1 << 31, 768_000, 11025 * 32768]),
            2 => any::<u32>(),
            1 => 0u32..20_000,
        ];
        let channels = prop_oneof![
            6 => 1u32..9,
            2 => Just(0u32),
            1 => 1u32..100_000,
            1 => proptest::sample::select(vec![65535u32, 65536, 65537, u32::MAX, 1 << 31]),
        ];
        let cfg = prop_oneof![
            2 => any_cfg(),
            1 => (0u8..5, frames(), proptest::option::of(small_coeffs()), any::<bool>(), proptest::option::of(0u32..40000))
                .prop_map(|(p, f, coeffs, i, silence)| CfgSpec { coeffs, interpolate: Some(i), silence, ..CfgSpec::preset(p).with_frame(f.0, f.1) }),
        ];
        (
            cfg,
            proptest::collection::vec((rate, channels), 1..5),
            kind(),
            prop_oneof![2 => 0usize..2000, 2 => 0usize..60_000, 1 => 32767usize..=32769],
            chunk_sizes(),
        )
            .prop_map(|(cfg, starts, kind, frames, sizes)| AcceptCase { cfg, starts, kind, frames, sizes })
            .boxed()
    }
    fn check(&self, c: &AcceptCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let mut p = lib("new", || Fingerprinter::new(&cfg))?;
        for &(rate, ch) in &c.starts {
            let r = lib("start", || p.start(rate, ch))?;
            let legal = ch >= 1 && rate > 1000;
            match &r {
                Ok(()) => ensure!(legal, "start({rate}, {ch}) was accepted"),
                Err(e) => {
                    ensure!(!legal, "start({rate}, {ch}) failed: {e}");
                    let right = match e {
                        ResetError::NoChannels => ch == 0,
                        ResetError::SampleRateTooLow => rate <= 1000,
                        ResetError::CannotResample(_) => false,
                    };
                    ensure!(right, "start({rate}, {ch}) failed with the wrong error: {e:?}");
                    ensure!(!e.to_string().trim().is_empty(), "the error has no message");
                    obs.label("rejected");
                    continue;
                }
            }
            let frames = c.frames.min((600_000 / ch as usize).max(3)).min(if ch > 2_000_000 { 0 } else { usize::MAX });
            // At low rates every frame becomes several samples.
            let mono = Clip::single(c.kind.clone(), frames).render(rate.min(1 << 30));
            let data = interleave(&mono, ch as usize, &Spread::Alternate);
            lib("consume", || chunks(&data, ch as usize, &c.sizes, |d| p.consume(d)))?;
            lib("consume of nothing", || p.consume(&[]))?;
            lib("finish", || p.finish())?;
            lib("fingerprint()", || p.fingerprint().len())?;
            obs.nontrivial |= frames > 0;
            obs.label_if(rate > 200_000, "rate_above_200_kHz");
            obs.label_if(rate < 5000, "rate_below_5_kHz");
            obs.label_if(ch > 1000, "more_than_1000_channels");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C13

pub struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    cfg: CfgSpec,
    rate: u32,
    channels: usize,
    kind: Kind,
    /// Frames of the block that is fed again and again, and the chunking of a block.
    block: usize,
    sizes: Vec<usize>,
    sessions: usize,
    /// Millions of samples in a single call of a last session.
    huge: Option<u8>,
}

/// What one fingerprinter may hold besides the fingerprint: buffers of 32768 samples and of a few
/// frames, tables of a few frames, the resampler's filter.
const CONSTANT_BYTES: i64 = 6 << 20;

impl Prop for C13 {
    type Case = MemCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Streams of hundreds of thousands to millions of samples at any rate, in any chunking, over one or more sessions of one fingerprinter, with the heap of the thread measured by a counting allocator: live bytes may grow between a third and the whole of a session (and from session to session) only by what the fingerprint takes and 64 KB, or at least not in proportion when the stream is four times as long (or eight sessions follow), and the peak must stay below 6 MB plus that; some streams come in a single call of millions of samples. Non-trivial: at least 300000 frames per session and at least one item."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1200, 12000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<MemCase> {
        (
            any_cfg(),
            rates(),
            prop_oneof![3 => Just(1usize), 1 => 2usize..6],
            prop_oneof![3 => melody(loud_amp()), 1 => Just(Kind::Silence), 1 => kind()],
            prop_oneof![1000usize..70_000, 32767usize..=32769],
            chunk_sizes(),
            1usize..4,
            proptest::option::weighted(0.15, 2u8..6),
        )
            .prop_map(|(cfg, rate, channels, kind, block, sizes, sessions, huge)| MemCase { cfg, rate, channels, kind, block, sizes, sessions, huge })
            .boxed()
    }
    fn check(&self, c: &MemCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let mono = Clip::single(c.kind.clone(), c.block).render(c.rate);
        let data = interleave(&mono, c.channels, &Spread::Same);
        let frames = 900_000usize;
        let rounds = (frames / c.block).max(6);
        // Single-frame chunks are slow; a block of them is enough.
        let sizes: Vec<usize> = c.sizes.iter().map(|&s| s.max(64)).collect();
        let mut p = lib("new", || Fingerprinter::new(&cfg))?;
        let mut first_session = 0;
        for session in 0..c.sessions {
            let r = lib("start", || p.start(c.rate, c.channels as u32))?;
            ensure!(r.is_ok(), "start was rejected");
            let mut early = 0;
            let (res, peak) = alloc::peak_over(|| {
                lib("consume", || {
                    for k in 0..rounds {
                        chunks(&data, c.channels, &sizes, |d| p.consume(d));
                        if k + 1 == rounds / 3 {
                            early = alloc::live();
                        }
                    }
                    p.finish();
                })
            });
            res?;
            let late = alloc::live();
            let items = lib("fingerprint()", || p.fingerprint().len())? as i64;
            // A growing vector holds at most twice its contents, and both copies while it moves.
            let fp_bytes = items * 4 * 2 + 64;
            let growth = late - early;
            let excess = growth - fp_bytes;
            if excess > 65_536 {
                // A buffer may have found its final size late; growth goes on in a longer stream.
                obs.label("longer_stream");
                lib("start", || p.start(c.rate, c.channels as u32))?.map_err(|e| Fail::Violation(format!("start was rejected: {e}")))?;
                lib("consume", || {
                    for k in 0..4 * rounds {
                        chunks(&data, c.channels, &sizes, |d| p.consume(d));
                        if k + 1 == 4 * rounds / 3 {
                            early = alloc::live();
                        }
                    }
                })?;
                let grown = alloc::live() - early;
                let items = lib("fingerprint()", || p.fingerprint().len())? as i64;
                ensure!(
                    grown - (items * 4 * 2 + 64) <= 65_536.max(excess * 2),
                    "the heap grew by {} and {grown} bytes over the last two thirds of {} and {} frames at {} Hz while the fingerprint takes {} bytes",
                    growth,
                    rounds * c.block,
                    4 * rounds * c.block,
                    c.rate,
                    items * 4
                );
                break;
            }
            ensure!(
                peak <= CONSTANT_BYTES + fp_bytes * 2,
                "the heap rose by {peak} bytes within {} frames at {} Hz ({items} items)",
                rounds * c.block,
                c.rate
            );
            if session == 0 {
                first_session = late;
            }
            if late - first_session > fp_bytes + 65_536 {
                // (as above)
                obs.label("more_sessions");
                lib("sessions", || {
                    for _ in 0..8 {
                        p.start(c.rate, c.channels as u32).expect("start");
                        chunks(&data, c.channels, &sizes, |d| p.consume(d));
                        p.finish();
                    }
                })?;
                let more = alloc::live();
                ensure!(
                    more - late <= fp_bytes + 65_536,
                    "the heap grew by {} bytes from the first session to session {}, and by {} in 8 further ones",
                    late - first_session,
                    session + 1,
                    more - late
                );
                break;
            }
            obs.nontrivial |= items > 0 && rounds * c.block >= 300_000;
        }
        if let Some(n) = c.huge {
            let frames = usize::from(n) * 1_000_000 / c.channels;
            let one: Vec<i16> = data.iter().copied().cycle().take(frames * c.channels).collect();
            lib("start", || p.start(c.rate, c.channels as u32))?.map_err(|e| Fail::Violation(format!("start was rejected: {e}")))?;
            let (res, peak) = alloc::peak_over(|| {
                lib("consume", || {
                    p.consume(&one);
                    p.finish();
                })
            });
            res?;
            let items = lib("fingerprint()", || p.fingerprint().len())? as i64;
            ensure!(
                peak <= CONSTANT_BYTES + (items * 4 * 2 + 64) * 2,
                "the heap rose by {peak} bytes within one call of {frames} frames at {} Hz ({items} items)",
                c.rate
            );
            obs.label("huge_call");
        }
        obs.label_if(c.sessions > 1, "several_sessions");
        obs.label_if(c.rate != NATIVE, "resampled");
        Ok(())
    }
}

// ------------------------------------------------------------------ C20

pub struct C20;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FindCase {
    preset: u8,
    seed: u16,
    note_ms: u16,
    rate1: u32,
    rate2: u32,
    channels2: usize,
    /// Length of the recording, start and length of the excerpt, in samples at 11025 Hz.
    len: usize,
    cut: usize,
    excerpt: usize,
    gain_percent: u8,
    noise: i16,
    /// Unrelated audio before the excerpt in the second stream.
    prefix: usize,
    swap: bool,
}

fn performance(seed: u16, note_ms: u16, rate: u32, t0: f64, n: usize) -> Vec<f64> {
    let note_s = f64::from(note_ms) / 1000.0;
    let mut cur = u64::MAX;
    let mut partials = Vec::new();
    (0..n)
        .map(|i| {
            let t = t0 + i as f64 / f64::from(rate);
            let k = (t / note_s) as u64;
            if k != cur {
                cur = k;
                partials = melody_note(u64::from(seed), k);
            }
            partials.iter().map(|(f, w)| w * (std::f64::consts::TAU * f * t).sin()).sum()
        })
        .collect()
}

impl Prop for C20 {
    type Case = FindCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "A synthetic recording of 20 to 60 s and a second stream with an excerpt of at least 15 s of it at another rate, number of channels and level, with noise 30 dB or more below it and unrelated audio in front; matching the fingerprints must report the excerpt at the right position (within two items) over at least 80% of its items. Non-trivial: the streams differ in rate, start, level or noise."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1000, 12000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<FindCase> {
        let rate = || proptest::sample::select(vec![11025u32, 8000, 16000, 22050, 32000, 44100, 48000]);
        (
            (prop_oneof![Just(0u8), Just(1), Just(2), Just(4)], any::<u16>(), 150u16..600, rate(), rate(), 1usize..3),
            (220_000usize..660_000, any::<u16>(), any::<u16>()),
            (10u8..=100, 0i16..300, prop_oneof![Just(0usize), 0usize..150_000], any::<bool>()),
        )
            .prop_map(|((preset, seed, note_ms, rate1, rate2, channels2), (len, a, b), (gain_percent, noise, prefix, swap))| {
                let min = 165_000;
                let excerpt = min + (len - min) * usize::from(a) / 65536;
                let cut = (len - excerpt) * usize::from(b) / 65536;
                FindCase { preset, seed, note_ms, rate1, rate2, channels2, len, cut, excerpt, gain_percent, noise, prefix, swap }
            })
            .boxed()
    }
    fn check(&self, c: &FindCase, obs: &mut Obs) -> Outcome {
        let spec = CfgSpec::preset(c.preset);
        let cfg = spec.build();
        let at = |rate: u32, n: usize| (n as u64 * u64::from(rate) / u64::from(NATIVE)) as usize;
        let amp = 24_000.0;
        let one: Vec<i16> =
            performance(c.seed, c.note_ms, c.rate1, 0.0, at(c.rate1, c.len)).iter().map(|x| (x * amp).round() as i16).collect();
        let gain = f64::from(c.gain_percent) / 100.0;
        let t0 = c.cut as f64 / f64::from(NATIVE);
        let mut x: Vec<f64> = performance(c.seed.wrapping_add(1) ^ 0x5555, c.note_ms, c.rate2, 0.0, at(c.rate2, c.prefix));
        let prefix_frames = x.len();
        x.extend(performance(c.seed, c.note_ms, c.rate2, t0, at(c.rate2, c.excerpt)));
        let noise = (f64::from(c.noise) * gain).floor().max(0.0) as i64;
        let two: Vec<i16> = x
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let n = (hash2(u64::from(c.seed) + 9999, i as u64) % (2 * noise as u64 + 1)) as i64 - noise;
                (x * amp * gain + n as f64).round() as i16
            })
            .collect();
        let two = interleave(&two, c.channels2, &Spread::Same);
        let fp1 = fp(&cfg, c.rate1, 1, &one)?;
        let fp2 = fp(&cfg, c.rate2, c.channels2, &two)?;
        let (a, b) = if c.swap { (&fp2, &fp1) } else { (&fp1, &fp2) };
        let segs = lib("match_fingerprints", || match_fingerprints(a, b, &cfg))?;
        let segs = match segs {
            Ok(s) => s,
            Err(e) => return Err(Fail::Violation(format!("match_fingerprints failed: {e}"))),
        };
        // position in the recording minus position in the second stream, in items
        let want = (c.cut as f64 - prefix_frames as f64 * f64::from(NATIVE) / f64::from(c.rate2)) / spec.step() as f64;
        let covered: usize = segs
            .iter()
            .filter(|s| {
                let (r, o) = if c.swap { (s.offset2, s.offset1) } else { (s.offset1, s.offset2) };
                (r as f64 - o as f64 - want).abs() <= 2.0
            })
            .map(|s| s.items_count)
            .sum();
        let items = spec.items(c.excerpt);
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("TRACE {:.3} segs {}", covered as f64 / items as f64, segs.len());
        }
        ensure!(
            covered as f64 >= 0.8 * items as f64,
            "only {covered} of the {items} items of the excerpt were found at an offset of {want:.1} items: {segs:?}"
        );
        obs.count("excerpt_items", items as u64);
        obs.count("covered_items", covered as u64);
        obs.label_if(c.rate1 != c.rate2, "different_rates");
        obs.label_if(c.prefix > 0, "unrelated_prefix");
        obs.label_if(segs.len() > 1, "several_segments");
        obs.nontrivial = c.rate1 != c.rate2 || c.cut > 0 || c.gain_percent != 100 || noise > 0;
        Ok(())
    }
}
