//! C01..C07: what a fingerprint is a function of.

use crate::audio::*;
use crate::engine::*;
use crate::ensure;
use crate::refmodel;
use crate::session::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::Configuration;
use rusty_chromaprint::Fingerprinter;
use serde::{Deserialize, Serialize};

fn check_model(spec: &CfgSpec, actual: &[u32], mono: &[i16], obs: &mut Obs) -> Outcome {
    let expected = refmodel::fingerprint(mono, spec);
    let undecided = refmodel::undecided_bits(&expected);
    obs.count("items", actual.len() as u64);
    obs.count("undecided_bits", undecided);
    if let Some(d) = refmodel::diff(actual, &expected) {
        return Err(Fail::Violation(format!("fingerprint differs from the reference model: {d}")));
    }
    obs.nontrivial = distinct(actual) > 1 && undecided * 100 <= actual.len() as u64 * 32;
    obs.label_if(actual.is_empty(), "no_items");
    obs.label_if(distinct(actual) > 1, "varied_fingerprint");
    Ok(())
}

// ------------------------------------------------------------------ C01

pub struct C01;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelCase {
    cfg: CfgSpec,
    clip: Clip,
    channels: usize,
    spread: Spread,
    sizes: Vec<usize>,
}

impl Prop for C01 {
    type Case = ModelCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "A preset, a synthetic clip at 11025 Hz (melodies, noise, tones, sweeps, square waves, clicks, extremes, silence; lengths biased to item and buffer boundaries), 1..39 channels and a chunking; the library's fingerprint is compared bit by bit with an independent model. Non-trivial: at least two different items and the model decides at least 99% of the bits."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(6400, 80000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ModelCase> {
        let max = t.pick(110_000, 260_000);
        (preset_cfg(), clip(28666, 1365, max), channel_count(), spread(), chunk_sizes())
            .prop_map(|(cfg, clip, channels, spread, sizes)| ModelCase { cfg, clip, channels, spread, sizes })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<ModelCase> {
        // Half an hour: more than 2^24 samples.
        (0..t.pick(2u8, 5))
            .map(|p| ModelCase {
                cfg: CfgSpec::preset([1, 4, 2, 0, 3][usize::from(p)]),
                clip: Clip {
                    pieces: vec![
                        Piece { kind: Kind::Melody { seed: 77 + u16::from(p), amp: 20_000, note_ms: 301 }, weight: 5 },
                        Piece { kind: Kind::Silence, weight: 1 },
                        Piece { kind: Kind::Noise { seed: 3, amp: 9000 }, weight: 1 },
                        Piece { kind: Kind::Melody { seed: 7 + u16::from(p), amp: 2000, note_ms: 97 }, weight: 2 },
                    ],
                    len: (1 << 24) + 700_000,
                },
                channels: 1,
                spread: Spread::Same,
                sizes: vec![100_000],
            })
            .collect()
    }
    fn check(&self, c: &ModelCase, obs: &mut Obs) -> Outcome {
        let mono = c.clip.render(NATIVE);
        let data = interleave(&mono, c.channels, &c.spread);
        let actual = fp_chunked(&c.cfg.build(), NATIVE, c.channels, &data, &c.sizes)?;
        check_model(&c.cfg, &actual, &downmix(&data, c.channels), obs)
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Bits whose classifier value lies within 1e-7 of a threshold, and items over rows whose norm is within 1e-8 of 0.01, are left undecided by the model (counted as undecided_bits).".into(),
            "The classifier tables of the model are those of upstream Chromaprint.".into(),
        ]
    }
}

// ------------------------------------------------------------------ C02

pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgCase {
    preset: u8,
    /// Calls of the builder on the preset, in this order; the last call of a kind counts.
    calls: Vec<Setting>,
    pieces: Vec<Piece>,
    steps: usize,
    extra: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Setting {
    FrameSize(usize),
    /// Overlap as a fraction (of 65536) of the final frame size.
    Overlap(u16),
    /// A hop of so many samples less one.
    Hop(u8),
    Coefficients(Vec<f64>),
    Interpolation(bool),
    Silence(u32),
    Id(u8),
}

impl CfgCase {
    /// The settings that should result, and the configuration that the library builds.
    fn build(&self) -> (CfgSpec, Configuration) {
        let base = CfgSpec::preset(self.preset);
        let (mut size, mut overlap) = (base.frame_size(), base.overlap());
        let last_size = self.calls.iter().rev().find_map(|c| if let Setting::FrameSize(n) = c { Some(*n) } else { None }).unwrap_or(size);
        let mut spec = base.clone();
        let mut cfg = base.base();
        for call in &self.calls {
            match call {
                Setting::FrameSize(n) => {
                    size = *n;
                    cfg = cfg.with_frame_size(size);
                }
                Setting::Overlap(f) => {
                    overlap = last_size * usize::from(*f) / 65536;
                    cfg = cfg.with_frame_overlap(overlap);
                }
                Setting::Hop(h) => {
                    overlap = last_size.saturating_sub(1 + usize::from(*h));
                    cfg = cfg.with_frame_overlap(overlap);
                }
                Setting::Coefficients(k) => {
                    spec.coeffs = Some(k.clone());
                    cfg = cfg.with_coefficients(k.clone());
                }
                Setting::Interpolation(i) => {
                    spec.interpolate = Some(*i);
                    cfg = cfg.with_interpolation(*i);
                }
                Setting::Silence(t) => {
                    spec.silence = Some(*t);
                    cfg = cfg.with_removed_silence(*t);
                }
                Setting::Id(i) => {
                    spec.id = Some(*i);
                    cfg = cfg.with_id(*i);
                }
            }
        }
        if overlap >= size {
            overlap = size / 2;
            cfg = cfg.with_frame_overlap(overlap);
        }
        if (size, overlap) != (base.frame_size(), base.overlap()) {
            spec.frame = Some((size, overlap));
        }
        (spec, cfg)
    }
}

impl Prop for C02 {
    type Case = CfgCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "A configuration derived from a preset by up to 8 builder calls in any order (frame size, overlap, smoothing coefficients, interpolation, silence threshold, id; the last of a kind counts), and a synthetic clip at 11025 Hz; accessors and fingerprint are compared with an independent model of those settings. Non-trivial: at least one setting of the calculation changed, at least two different items, at least 99% of the bits decided by the model."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(4800, 60000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<CfgCase> {
        let size = prop_oneof![
            2 => 2usize..200,
            4 => 64usize..1200,
            3 => proptest::sample::select(vec![128usize, 256, 512, 1000, 1024, 2048, 3000, 4096]),
            1 => prop_oneof![4 => proptest::sample::select(vec![4095usize, 4097, 6000, 8192]), 1 => 4000usize..10_000, 2 => proptest::sample::select(vec![16_384usize, 32_768, 65_536])],
        ];
        let coeffs = prop_oneof![
            4 => small_coeffs(),
            1 => proptest::collection::vec((1u32..=16).prop_map(|k| f64::from(k) / 8.0), 1..41),
        ];
        let setting = prop_oneof![
            4 => size.prop_map(Setting::FrameSize),
            3 => any::<u16>().prop_map(Setting::Overlap),
            1 => (0u8..4).prop_map(Setting::Hop),
            3 => coeffs.prop_map(Setting::Coefficients),
            3 => any::<bool>().prop_map(Setting::Interpolation),
            1 => prop_oneof![5 => 0u32..2000, 1 => any::<u32>(), 1 => proptest::sample::select(vec![32_767u32, 32_768, 65_536])].prop_map(Setting::Silence),
            2 => any::<u8>().prop_map(Setting::Id),
        ];
        (0u8..5, proptest::collection::vec(setting, 0..8), pieces(), 0usize..60, 0usize..9000)
            .prop_map(|(preset, calls, pieces, steps, extra)| CfgCase { preset, calls, pieces, steps, extra })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<CfgCase> {
        // More than 2^16 (2^17) items.
        let many = |preset, size, hop: u8, steps| CfgCase {
            preset,
            calls: vec![Setting::FrameSize(size), Setting::Hop(hop), Setting::Interpolation(preset == 2)],
            pieces: vec![
                Piece { kind: Kind::Melody { seed: 9, amp: 9000, note_ms: 70 }, weight: 3 },
                Piece { kind: Kind::Noise { seed: 9, amp: 9000 }, weight: 1 },
            ],
            steps,
            extra: 0,
        };
        // Several hundred coefficients.
        let mut smooth = many(1, 256, 30, 700);
        smooth.calls.push(Setting::Coefficients((0..300).map(|k| f64::from(k % 7 + 1) / 8.0).collect()));
        vec![smooth, many(1, 128, 3, 66_500), many(2, 64, 1, t.pick(132_000, 1 << 20)), many(4, 100, 0, 66_000), many(0, 200, 2, 99_000)]
    }
    fn check(&self, c: &CfgCase, obs: &mut Obs) -> Outcome {
        let (spec, cfg) = lib("building a configuration", || c.build())?;
        let spec = &spec;
        ensure!(cfg.id() == spec.algorithm_id(), "id() is {} instead of {}", cfg.id(), spec.algorithm_id());
        ensure!(cfg.sample_rate() == NATIVE, "sample_rate() is {}", cfg.sample_rate());
        ensure!(cfg.delay() == spec.delay(), "delay() is {} instead of {}", cfg.delay(), spec.delay());
        let dur = spec.step() as f64 / f64::from(NATIVE);
        ensure!(
            (f64::from(cfg.item_duration_in_seconds()) - dur).abs() <= dur * 1e-6,
            "item_duration_in_seconds() is {} instead of {dur}",
            cfg.item_duration_in_seconds()
        );
        let max = if c.steps > 60 { usize::MAX } else { 400_000usize.max(spec.delay() + 3 * spec.step()) };
        // (the reference model is slow for large frames of odd sizes)
        let steps = if spec.frame_size() > 1500 && !spec.frame_size().is_power_of_two() { c.steps % 12 } else { c.steps };
        let len = (spec.delay() + steps * spec.step() + c.extra % spec.step().max(1)).min(max);
        let mono = Clip { pieces: c.pieces.clone(), len }.render(NATIVE);
        let actual = fp(&cfg, NATIVE, 1, &mono)?;
        obs.label_if(spec.frame.is_some(), "frame");
        obs.label_if(spec.coeffs.is_some(), "coefficients");
        obs.label_if(spec.coeffs.as_ref().is_some_and(|k| k.len() > 8), "more_than_8_coefficients");
        obs.label_if(spec.interpolates(), "interpolation");
        obs.label_if(spec.silence.is_some(), "silence");
        check_model(spec, &actual, &mono, obs)?;
        obs.nontrivial &= spec.frame.is_some() || spec.coeffs.is_some() || spec.interpolate.is_some() || spec.silence.is_some();
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Coefficients are non-negative and not all zero; the overlap is smaller than the frame; frame sizes from 2 to 10000, and powers of two up to 65536.".into()]
    }
}

// ------------------------------------------------------------------ C03

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChunkCase {
    cfg: CfgSpec,
    stream: Stream,
    sizes: Vec<usize>,
}

impl Prop for C03 {
    type Case = ChunkCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "A configuration (presets and small-framed variants), a stream at any rate from 1001 Hz with 1..39 channels, and a cyclic list of chunk sizes including 0, 1 and values around 32768; the fingerprint of the chunked stream must equal that of one call. Non-trivial: the stream is cut at least once and the fingerprint has at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(12000, 120000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ChunkCase> {
        (any_cfg(), stream(rates(), 28666, 1365, t.pick(90_000, 250_000)), chunk_sizes())
            .prop_map(|(cfg, stream, sizes)| ChunkCase { cfg, stream, sizes })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<ChunkCase> {
        let long = |preset, rate, channels, native_len, sizes: &[usize]| ChunkCase {
            cfg: CfgSpec::preset(preset),
            stream: Stream {
                rate,
                channels,
                spread: Spread::Delayed,
                pieces: vec![Piece { kind: Kind::Melody { seed: 5, amp: 20_000, note_ms: 170 }, weight: 1 }],
                native_len,
                as_is: true,
            },
            sizes: sizes.to_vec(),
        };
        let n = t.pick(1usize, 4) << 24;
        vec![
            long(1, NATIVE, 1, n + 60_001, &[1152]),
            long(4, 44100, 1, n + 60_001, &[65536, 1, 77_777]),
            long(1, 8000, 2, n / 4, &[1 << 20, 5, 40_000]),
            long(0, 48000, 2, n / 2 + 5, &[4096]),
        ]
    }
    fn check(&self, c: &ChunkCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let s = &c.stream;
        let data = s.data();
        let whole = fp(&cfg, s.rate, s.channels, &data)?;
        let parts = fp_chunked(&cfg, s.rate, s.channels, &data, &c.sizes)?;
        if let Some(d) = first_diff(&whole, &parts) {
            return Err(Fail::Violation(format!("one call and chunked calls give different fingerprints: {d}")));
        }
        let cut = c.sizes.iter().all(|&n| n == 0) || c.sizes.iter().any(|&n| n > 0 && n < s.frames());
        obs.label_if(s.rate != NATIVE, "resampled");
        obs.label_if(s.frames() > 32768, "longer_than_internal_buffer");
        obs.label_if(c.sizes.contains(&0), "empty_chunks");
        obs.label_if(c.sizes.iter().any(|&n| n > 32768 && n < s.frames()), "chunk_larger_than_internal_buffer");
        obs.nontrivial = cut && distinct(&whole) > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ C04

pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Start { rate: u32, channels: usize },
    /// A start that must be rejected.
    Reject { rate: u32, channels: u32 },
    Consume { piece: Kind, frames: usize, sizes: Vec<usize> },
    Finish,
    Read,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistoryCase {
    cfgs: Vec<CfgSpec>,
    /// (index of the fingerprinter, operation)
    ops: Vec<(u8, Op)>,
}

fn op() -> BoxedStrategy<Op> {
    let frames = prop_oneof![
        2 => 0usize..3000,
        3 => 3000usize..50_000,
        1 => (32768usize - 1)..=(32768 + 1),
        1 => 50_000usize..80_000,
    ];
    let small_sizes = prop_oneof![3 => Just(vec![1usize << 40]), 1 => proptest::collection::vec(1usize..9000, 1..3)];
    prop_oneof![
        3 => (prop_oneof![2 => Just(NATIVE), 3 => rates()], prop_oneof![3 => Just(1usize), 2 => Just(2usize), 1 => 3usize..6])
            .prop_map(|(rate, channels)| Op::Start { rate, channels }),
        1 => prop_oneof![
            (0u32..=1000, 1u32..4).prop_map(|(rate, channels)| Op::Reject { rate, channels }),
            (1001u32..100_000).prop_map(|rate| Op::Reject { rate, channels: 0 }),
        ],
        6 => (kind(), frames, small_sizes).prop_map(|(piece, frames, sizes)| Op::Consume { piece, frames, sizes }),
        1 => Just(Op::Finish),
        1 => Just(Op::Read),
    ]
    .boxed()
}

struct Live {
    printer: Fingerprinter,
    cfg: rusty_chromaprint::Configuration,
    session: Option<(u32, usize)>,
    /// Steps since the accepted start: data chunks, or None for finish.
    steps: Vec<Option<Vec<i16>>>,
    starts: usize,
    dirty: bool,
}

impl Live {
    fn compare(&self, which: usize, at: usize) -> Result<usize, Fail> {
        let Some((rate, ch)) = self.session else { return Ok(0) };
        let fresh = lib("replaying the session on a new fingerprinter", || {
            let mut p = Fingerprinter::new(&self.cfg);
            p.start(rate, ch as u32).map_err(|e| format!("start({rate}, {ch}) failed: {e}"))?;
            for s in &self.steps {
                match s {
                    Some(d) => p.consume(d),
                    None => p.finish(),
                }
            }
            Ok::<_, String>(p.fingerprint().to_vec())
        })?
        .map_err(Fail::Violation)?;
        let actual = lib("fingerprint()", || self.printer.fingerprint().to_vec())?;
        if let Some(d) = first_diff(&actual, &fresh) {
            return Err(Fail::Violation(format!(
                "after operation {at}, fingerprinter {which} (session {}) differs from a new one given the same session: {d}",
                self.starts
            )));
        }
        Ok(distinct(&actual))
    }
}

impl Prop for C04 {
    type Case = HistoryCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A history of start / rejected start / consume / finish / read operations over one to three interleaved fingerprinters of different configurations; after every read, before every start and at the end each one is compared with a new fingerprinter that saw only the operations since the last accepted start. Non-trivial: some second or later session, begun on a used instance, has at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(10000, 150000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<HistoryCase> {
        let n = t.pick(24, 50);
        (proptest::collection::vec(any_cfg(), 1..4), proptest::collection::vec((0u8..3, op()), 2..n))
            .prop_map(|(cfgs, ops)| HistoryCase { cfgs, ops })
            .boxed()
    }
    fn check(&self, c: &HistoryCase, obs: &mut Obs) -> Outcome {
        let mut lives: Vec<Live> = Vec::new();
        for spec in &c.cfgs {
            let cfg = spec.build();
            lives.push(Live { printer: lib("new", || Fingerprinter::new(&cfg))?, cfg, session: None, steps: vec![], starts: 0, dirty: false });
        }
        let mut reused = false;
        for (at, (w, op)) in c.ops.iter().enumerate() {
            let which = usize::from(*w) % lives.len();
            let l = &mut lives[which];
            match op {
                Op::Start { rate, channels } => {
                    let d = l.compare(which, at)?;
                    reused |= d > 1 && l.starts > 1 && l.dirty;
                    l.dirty |= !l.steps.is_empty();
                    let r = lib("start", || l.printer.start(*rate, *channels as u32))?;
                    ensure!(r.is_ok(), "start({rate}, {channels}) was rejected");
                    let fp = lib("fingerprint()", || l.printer.fingerprint().to_vec())?;
                    ensure!(fp.is_empty(), "the fingerprint has {} items right after start", fp.len());
                    l.session = Some((*rate, *channels));
                    l.steps.clear();
                    l.starts += 1;
                }
                Op::Reject { rate, channels } => {
                    let before = lib("fingerprint()", || l.printer.fingerprint().to_vec())?;
                    let r = lib("start", || l.printer.start(*rate, *channels))?;
                    ensure!(r.is_err(), "start({rate}, {channels}) was accepted");
                    let after = lib("fingerprint()", || l.printer.fingerprint().to_vec())?;
                    ensure!(before == after, "a rejected start changed the fingerprint");
                    obs.label_if(l.steps.iter().any(|s| s.is_some()), "rejected_start_within_session");
                }
                Op::Consume { piece, frames, sizes } => {
                    let Some((rate, ch)) = l.session else { continue };
                    let mono = Clip::single(piece.clone(), *frames).render(rate);
                    let data = interleave(&mono, ch, &Spread::Delayed);
                    let mut parts = Vec::new();
                    chunks(&data, ch, sizes, |d| parts.push(d.to_vec()));
                    lib("consume", || parts.iter().for_each(|d| l.printer.consume(d)))?;
                    l.steps.extend(parts.into_iter().map(Some));
                }
                Op::Finish => {
                    if l.session.is_none() {
                        continue;
                    }
                    lib("finish", || l.printer.finish())?;
                    l.steps.push(None);
                }
                Op::Read => {
                    l.compare(which, at)?;
                }
            }
        }
        for (which, l) in lives.iter_mut().enumerate() {
            if l.session.is_some() {
                lib("finish", || l.printer.finish())?;
                l.steps.push(None);
            }
            let d = l.compare(which, c.ops.len())?;
            reused |= d > 1 && l.starts > 1 && l.dirty;
        }
        obs.label_if(lives.len() > 1, "several_instances");
        obs.label_if(reused, "reused_instance_with_items");
        obs.nontrivial = reused;
        Ok(())
    }
}

// ------------------------------------------------------------------ C05

pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DownmixCase {
    cfg: CfgSpec,
    rate: u32,
    channels: Vec<Kind>,
    len: usize,
    /// Rotation applied to the order of the channels.
    rotate: usize,
    /// Every channel is repeated so many times.
    repeat: usize,
    sizes: Vec<usize>,
}

fn quiet_kind() -> BoxedStrategy<Kind> {
    let small = || (1i16..60).boxed();
    prop_oneof![
        3 => melody(small()),
        3 => (any::<u16>(), small()).prop_map(|(seed, amp)| Kind::Noise { seed, amp }),
        1 => (-3i16..=3).prop_map(Kind::Const),
        1 => (1u16..40, small()).prop_map(|(half, amp)| Kind::Square { half, amp }),
    ]
    .boxed()
}

impl Prop for C05 {
    type Case = DownmixCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Up to 24 channels with independent contents (half of the cases only a few units loud, where rounding shows), at any rate, in any chunking; also with the channels reordered or repeated (up to tens of thousands of channels in fixed cases). The fingerprint must equal that of the mono stream of truncated channel means. Non-trivial: two or more channels that differ, and at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(12000, 120000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<DownmixCase> {
        let channels = prop_oneof![
            1 => proptest::collection::vec(kind(), 1..7),
            1 => proptest::collection::vec(quiet_kind(), 1..7),
            1 => (quiet_kind(), quiet_kind()).prop_map(|(a, b)| vec![a, b]),
        ];
        (
            any_cfg(),
            prop_oneof![2 => Just(NATIVE), 1 => rates()],
            channels,
            lengths(28666, 1365, 45_000),
            0usize..8,
            prop_oneof![4 => Just(1usize), 1 => 2usize..5],
            chunk_sizes(),
        )
            .prop_map(|(cfg, rate, channels, len, rotate, repeat, sizes)| DownmixCase { cfg, rate, channels, len, rotate, repeat, sizes })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<DownmixCase> {
        let noise = |seed| Kind::Noise { seed, amp: 32767 };
        let mut v = Vec::new();
        for repeat in [128usize, 32768, 35000, t.pick(33000, 65536)] {
            v.push(DownmixCase {
                cfg: CfgSpec::preset(1).with_frame(64, 48),
                rate: NATIVE,
                channels: vec![noise(1), Kind::Const(32767)],
                len: 420,
                rotate: 0,
                repeat,
                sizes: vec![100],
            });
            v.push(DownmixCase {
                cfg: CfgSpec::preset(1).with_frame(64, 48),
                rate: NATIVE,
                channels: vec![noise(1), Kind::Const(-32768)],
                len: 420,
                rotate: 0,
                repeat,
                sizes: vec![100],
            });
        }
        v
    }
    fn check(&self, c: &DownmixCase, obs: &mut Obs) -> Outcome {
        let len = if c.rate == NATIVE { c.len } else { (c.len as u64 * u64::from(c.rate) / u64::from(NATIVE)) as usize };
        let len = len.min(400_000);
        let base: Vec<Vec<i16>> = c.channels.iter().map(|k| Clip::single(k.clone(), len).render(c.rate)).collect();
        let n = base.len();
        let total = n * c.repeat;
        let mut data = Vec::with_capacity(len * total);
        let mut mono = Vec::with_capacity(len);
        for i in 0..len {
            for k in 0..total {
                data.push(base[(k + c.rotate) % n][i]);
            }
            let sum: i128 = base.iter().map(|b| i128::from(b[i])).sum();
            mono.push((sum / n as i128) as i16);
        }
        let cfg = c.cfg.build();
        let expected = fp(&cfg, c.rate, 1, &mono)?;
        let actual = fp_chunked(&cfg, c.rate, total, &data, &c.sizes)?;
        if let Some(d) = first_diff(&actual, &expected) {
            return Err(Fail::Violation(format!("{total} channels and their mean give different fingerprints: {d}")));
        }
        let quiet = mono.iter().all(|x| x.unsigned_abs() < 60);
        obs.label_if(quiet, "quiet");
        obs.label_if(total == 2, "stereo");
        obs.label_if(total > 2, "more_than_two_channels");
        obs.label_if(quiet && distinct(&actual) > 1, "quiet_with_items");
        obs.nontrivial = n > 1 && distinct(&actual) > 1 && base.iter().any(|b| b != &base[0]);
        Ok(())
    }
}

// ------------------------------------------------------------------ C06

pub struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CountCase {
    cfg: CfgSpec,
    stream: Stream,
    sizes: Vec<usize>,
}

impl Prop for C06 {
    type Case = CountCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A configuration (presets, other frame geometries, numbers of coefficients) without silence removal, any rate, any contents including silence, lengths biased to item boundaries; the number of items must be floor((n - delay) / step) for n samples at 11025 Hz, with the slack of the resampler's filter at other rates. Non-trivial: at least one item expected."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(12000, 150000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<CountCase> {
        let cfg = prop_oneof![
            3 => prop_oneof![Just(0u8), Just(1), Just(2), Just(4)].prop_map(CfgSpec::preset),
            2 => (0u8..3, frames(), proptest::option::of(small_coeffs()))
                .prop_map(|(p, f, coeffs)| CfgSpec { coeffs, ..CfgSpec::preset(p).with_frame(f.0, f.1) }),
            // Hops of few samples resolve time finely.
            1 => (0u8..3, 4usize..64, 1usize..9).prop_map(|(p, s, hop)| CfgSpec::preset(p).with_frame(s, s.saturating_sub(hop))),
        ];
        let max = t.pick(100_000usize, 250_000);
        (cfg, rates(), channel_count(), pieces(), (0usize..2000, 0usize..5, any::<bool>()), 0usize..max, chunk_sizes())
            .prop_map(move |(cfg, rate, channels, pieces, (k, d, near), any_len, sizes)| {
                // lengths right at the boundary of an item, or anything
                let at = cfg.delay() + k % (max / cfg.step()).max(2) * cfg.step();
                let native_len = if near { (at + d).saturating_sub(2).min(400_000) } else { any_len };
                let channels = if u64::from(rate) * native_len as u64 / u64::from(NATIVE) > 200_000 { 1 } else { channels };
                let stream = Stream { rate, channels, spread: Spread::Same, pieces, native_len, as_is: false };
                CountCase { cfg, stream, sizes }
            })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<CountCase> {
        // A quarter of an hour in steps of few samples: the clock must not drift.
        let rates = [8001u32, 44100, 48000, 7999, 22050, 22051, 11024, 11026, 5003, 32000, 96001, 16000, 12345, 37800];
        rates[..t.pick(10, rates.len())]
            .iter()
            .enumerate()
            .map(|(i, &rate)| CountCase {
                cfg: CfgSpec::preset(i as u8 % 3).with_frame(8, [4, 5, 2, 6][i % 4]),
                stream: Stream {
                    rate,
                    channels: 1,
                    spread: Spread::Same,
                    pieces: vec![Piece { kind: Kind::Square { half: 40, amp: 9000 }, weight: 1 }],
                    native_len: t.pick(10_000_000, 40_000_000),
                    as_is: false,
                },
                sizes: vec![100_000, 33_333],
            })
            .collect()
    }
    fn check(&self, c: &CountCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let s = &c.stream;
        let frames = s.frames();
        let actual = fp_chunked(&cfg, s.rate, s.channels, &s.data(), &c.sizes)?.len();
        let step = c.cfg.step() as f64;
        let delay = cfg.delay() as f64;
        let n = frames as f64 * f64::from(NATIVE) / f64::from(s.rate);
        // The resampling filter holds back up to 17 input samples and 2 of its output.
        let (late, early) = if s.rate == NATIVE { (0.0, 0.0) } else { (20.0 * f64::from(NATIVE) / f64::from(s.rate) + 4.0, 2.0) };
        let lo = ((n - late - delay) / step).floor().max(0.0) as usize;
        let hi = ((n + early - delay) / step).floor().max(0.0) as usize;
        ensure!(
            (lo..=hi).contains(&actual),
            "{frames} frames at {} Hz give {actual} items, expected {lo}..={hi} (delay {delay}, step {step})",
            s.rate
        );
        if s.rate == NATIVE {
            ensure!(actual == c.cfg.items(frames), "{actual} items instead of {}", c.cfg.items(frames));
            // The same in terms of the public timing of the configuration.
            let dur = f64::from(cfg.item_duration_in_seconds());
            let by_time = (frames as f64 - delay) / f64::from(cfg.sample_rate()) / dur;
            let k = actual as f64;
            let eps = 1e-5 * (k + 1.0);
            ensure!(
                k <= by_time.max(0.0) + eps && by_time < k + 1.0 + eps,
                "{actual} items, {by_time} by the item duration"
            );
        }
        obs.label_if(s.rate != NATIVE, "resampled");
        obs.label_if(lo == hi, "exactly_one_count_allowed");
        obs.label_if(hi == 0, "too_short_for_an_item");
        obs.label_if(s.is_silent(), "digital_silence");
        obs.nontrivial = hi > 0;
        Ok(())
    }
}

// ------------------------------------------------------------------ C07

pub struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrefixCase {
    cfg: CfgSpec,
    stream: Stream,
    sizes: Vec<usize>,
    /// Calls of finish() after these chunks (cyclic pattern).
    finish: Vec<bool>,
}

impl Prop for C07 {
    type Case = PrefixCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A stream at any rate consumed in chunks with the fingerprint read after every chunk and finish() called at arbitrary points and repeatedly; every reading must be a prefix of every later one, and the last one must equal the fingerprint of one uninterrupted pass. Non-trivial: some reading before the end is non-empty and shorter than the final fingerprint."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(9600, 120000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<PrefixCase> {
        let sizes = prop_oneof![
            4 => proptest::collection::vec(prop_oneof![500usize..30_000, (32768usize - 2)..=(32768 + 2), 30_000usize..200_000], 1..6),
            1 => chunk_sizes(),
        ];
        (
            any_cfg(),
            stream(rates(), 28666, 1365, t.pick(100_000, 250_000)),
            sizes,
            proptest::collection::vec(proptest::bool::weighted(0.3), 1..6),
        )
            .prop_map(|(cfg, stream, sizes, finish)| PrefixCase { cfg, stream, sizes, finish })
            .boxed()
    }
    fn check(&self, c: &PrefixCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let s = &c.stream;
        let data = s.data();
        let whole = fp(&cfg, s.rate, s.channels, &data)?;
        let mut p = lib("new", || Fingerprinter::new(&cfg))?;
        let r = lib("start", || p.start(s.rate, s.channels as u32))?;
        ensure!(r.is_ok(), "start was rejected");
        let mut parts: Vec<&[i16]> = Vec::new();
        {
            // (the chunk iterator borrows data only during the call)
            let mut ranges = Vec::new();
            let mut pos = 0;
            chunks(&data, s.channels, &c.sizes, |d| {
                ranges.push((pos, pos + d.len()));
                pos += d.len();
            });
            for (a, b) in ranges {
                parts.push(&data[a..b]);
            }
        }
        // Reading (and finishing) after every single frame would be quadratic.
        let every = parts.len() / 200 + 1;
        let mut last: Vec<u32> = Vec::new();
        let mut partial = false;
        let mut finishes = 0;
        for (k, d) in parts.iter().enumerate() {
            lib("consume", || p.consume(d))?;
            if k % every != 0 {
                continue;
            }
            let fin = c.finish[(k / every) % c.finish.len()];
            for round in 0..(1 + 2 * usize::from(fin)) {
                if round > 0 {
                    lib("finish", || p.finish())?;
                    finishes += 1;
                }
                let now = lib("fingerprint()", || p.fingerprint().to_vec())?;
                ensure!(
                    now.len() >= last.len() && now[..last.len()] == last[..],
                    "a later reading (chunk {k}, {} items) does not extend an earlier one ({} items)",
                    now.len(),
                    last.len()
                );
                ensure!(round != 2 || now == last, "a second finish() changed the fingerprint ({} items -> {})", last.len(), now.len());
                last = now;
            }
            partial |= !last.is_empty() && last.len() < whole.len();
        }
        for _ in 0..2 {
            lib("finish", || p.finish())?;
            let now = lib("fingerprint()", || p.fingerprint().to_vec())?;
            ensure!(now.len() >= last.len() && now[..last.len()] == last[..], "finish() did not extend the earlier reading of {} items", last.len());
            if let Some(d) = first_diff(&now, &whole) {
                return Err(Fail::Violation(format!("interrupted and uninterrupted passes differ after {finishes} intermediate finish() calls: {d}")));
            }
            last = now;
        }
        obs.label_if(s.rate != NATIVE, "resampled");
        obs.label_if(finishes > 0 && partial, "finish_mid_stream_with_partial_fingerprint");
        obs.nontrivial = partial && distinct(&whole) > 1;
        Ok(())
    }
}
