//! C21..C25: the command line tools.

use crate::audio::*;
use crate::cli::run as run_tool;
use crate::cli::*;
use crate::decode::{decode, Decoded};
use crate::engine::*;
use crate::ensure;
use crate::media::{Bad, aiff, caf, caf_alac, mkv, mp4, ogg, Foreign, Mp4Codec, Pcm, Sound, Track};
use crate::session::{distinct, first_diff, fp};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{match_fingerprints, Configuration};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Container {
    Wav,
    /// FLAC frames of so many samples.
    Flac(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AudioFile {
    container: Container,
    rate: u32,
    channels: usize,
    spread: Spread,
    pieces: Vec<Piece>,
    frames: usize,
}

impl AudioFile {
    fn samples(&self) -> Vec<i16> {
        let mono = Clip { pieces: self.pieces.clone(), len: self.frames }.render(self.rate);
        interleave(&mono, self.channels, &self.spread)
    }

    fn encode(&self, data: &[i16]) -> Vec<u8> {
        match self.container {
            Container::Wav => wav(self.rate, self.channels, data),
            Container::Flac(block) => flac(self.rate, self.channels, data, usize::from(block.max(16))),
        }
    }

    fn write(&self, data: &[i16]) -> Result<Scratch, Fail> {
        let ext = if self.container == Container::Wav { "wav" } else { "flac" };
        Scratch::file(ext, &self.encode(data))
    }
}

fn container() -> BoxedStrategy<Container> {
    prop_oneof![
        1 => Just(Container::Wav),
        1 => prop_oneof![Just(4096u16), Just(65535), 16u16..2000, 2000u16..65535].prop_map(Container::Flac),
    ]
    .boxed()
}

pub fn loud_pieces() -> BoxedStrategy<Vec<Piece>> {
    let k = prop_oneof![
        5 => melody(loud_amp()),
        2 => (any::<u16>(), loud_amp()).prop_map(|(seed, amp)| Kind::Noise { seed, amp }),
        1 => kind(),
    ];
    pieces_of(k.boxed(), 4)
}

fn file_rate() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(NATIVE),
        4 => proptest::sample::select(vec![8000u32, 16000, 22050, 32000, 44100, 48000]),
        1 => 4000u32..20_000,
        // Whole seconds of these are whole packets of a WAV file.
        1 => proptest::sample::select(vec![4608u32, 5760, 11520, 1152 * 25]),
    ]
    .boxed()
}

/// Files of up to `max_ms` milliseconds.
fn audio_file(max_ms: usize) -> BoxedStrategy<AudioFile> {
    let len = prop_oneof![
        5 => 3000..max_ms,
        1 => 0..3000usize,
    ];
    let channels = prop_oneof![3 => Just(1usize), 3 => Just(2usize), 1 => 3usize..7];
    (container(), file_rate(), channels, spread(), loud_pieces(), len, 0usize..4)
        .prop_map(|(container, rate, channels, spread, pieces, ms, odd)| {
            let mut frames = (ms as u64 * u64::from(rate) / 1000) as usize;
            if odd == 0 {
                // whole seconds, plus or minus a sample
                frames = ((ms / 1000) * rate as usize + ms % 3).saturating_sub(1);
            }
            let mut container = container;
            if let (Container::Flac(b), true) = (&mut container, ms % 4 == 0) {
                // Packets that divide a second, or are one.
                let near = (1..=rate).filter(|n| rate % n == 0 && *n >= 16 && *n < 65536);
                *b = near.min_by_key(|n| n.abs_diff(u32::from(*b))).unwrap_or(4096) as u16;
            }
            AudioFile { container, rate, channels, spread, pieces, frames: frames.max(1) }
        })
        .boxed()
}

/// Files of about two minutes, at a low rate to keep them small.
fn long_file() -> BoxedStrategy<AudioFile> {
    (container(), 3000u32..6000, loud_pieces(), 100_000usize..140_000)
        .prop_map(|(container, rate, pieces, ms)| AudioFile {
            container,
            rate,
            channels: 1,
            spread: Spread::Same,
            pieces,
            frames: (ms as u64 * u64::from(rate) / 1000) as usize,
        })
        .boxed()
}

/// The long names of the options.
fn lengthen(args: &mut [String]) {
    for a in args {
        let name = match a.as_str() {
            "-a" => "--algorithm",
            "-l" => "--length",
            "-C" => "--chunk",
            "-o" => "--overlap",
            "-T" => "--ts",
            "-R" => "--raw",
            "-s" => "--signed",
            "-F" => "--output-format",
            _ => continue,
        };
        *a = name.into();
    }
}

fn algorithm() -> BoxedStrategy<Option<u8>> {
    prop_oneof![1 => Just(None), 3 => (0u8..5).prop_map(Some)].boxed()
}

fn config(a: Option<u8>) -> (u8, Configuration) {
    let id = a.unwrap_or(1);
    (id, CfgSpec::preset(id).build())
}

fn fpcalc(args: &[String], file: &Scratch) -> Result<Run, Fail> {
    run_tool("fpcalc", args, &[&file.0])
}

pub fn entries(r: &Run, args: &[String], format: Format, form: Form) -> Result<Vec<Entry>, Fail> {
    ensure!(r.code == Some(0) && !r.panicked(), "fpcalc {args:?} failed: {}", r.describe());
    parse(&r.stdout, format, form).map_err(|e| Fail::Violation(format!("fpcalc {args:?} printed something malformed ({e}): {}", r.describe())))
}

pub fn opt<T: ToString>(args: &mut Vec<String>, flag: &str, v: Option<T>) {
    if let Some(v) = v {
        args.push(flag.into());
        args.push(v.to_string());
    }
}

// ------------------------------------------------------------------ C21

pub struct C21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WholeCase {
    file: AudioFile,
    algorithm: Option<u8>,
    length: Option<u64>,
    long_flags: bool,
    format: Format,
    form: Form,
}

fn form() -> BoxedStrategy<Form> {
    prop_oneof![Just(Form::Raw), Just(Form::Signed), Just(Form::Compressed)].boxed()
}

fn format() -> BoxedStrategy<Format> {
    prop_oneof![Just(Format::Default), Just(Format::Text), Just(Format::Json), Just(Format::Plain)].boxed()
}

/// A long file at a low rate.
fn hours_file(container: Container, rate: u32, seconds: usize) -> AudioFile {
    AudioFile {
        container,
        rate,
        channels: 1,
        spread: Spread::Same,
        pieces: vec![
            Piece { kind: Kind::Melody { seed: 21, amp: 15_000, note_ms: 300 }, weight: 3 },
            Piece { kind: Kind::Noise { seed: 22, amp: 9000 }, weight: 1 },
        ],
        frames: seconds * rate as usize + 77,
    }
}

impl Prop for C21 {
    type Case = WholeCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "A 16-bit WAV or FLAC file (FLAC frames of 16 to 65535 samples) of any usual rate and 1..6 channels, an algorithm or none, a length limit or none (files longer than the default 120 s included), any output form; fpcalc must print one result with the library's fingerprint of the samples within the limit and their duration. Non-trivial: at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(4800, 40000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<WholeCase> {
        let length = prop_oneof![
            3 => Just(None),
            2 => Just(Some(0u64)),
            5 => (1u64..20).prop_map(Some),
            1 => prop_oneof![Just(u64::MAX), Just(1 << 40), 100u64..1000].prop_map(Some),
        ];
        // Beyond the default limit of 120 s, at a low rate to keep files small.
        let long = (container(), 3000u32..6000, loud_pieces(), 118_000usize..124_000)
            .prop_map(|(container, rate, pieces, ms)| AudioFile {
                container,
                rate,
                channels: 1,
                spread: Spread::Same,
                pieces,
                frames: (ms as u64 * u64::from(rate) / 1000) as usize,
            });
        let file = prop_oneof![9 => audio_file(t.pick(14_000, 30_000)), 1 => long];
        (file, algorithm(), length, overflowing(0.06), any::<bool>(), format(), form())
            .prop_map(|(file, algorithm, length, over, long_flags, format, form)| {
                let length = over.map(|o| seconds_beyond(o, file.rate)).or(length);
                WholeCase { file, algorithm, length, long_flags, format, form }
            })
            .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<WholeCase> {
        // Results of hundreds of kilobytes, and more than 65536 items.
        let long = |algorithm, seconds, length, format, form| WholeCase {
            file: hours_file(Container::Wav, 1100, seconds),
            algorithm,
            length: Some(length),
            long_flags: false,
            format,
            form,
        };
        vec![
            long(Some(4), 7000, 0, Format::Text, Form::Raw),
            long(Some(4), 7000, 6500, Format::Plain, Form::Compressed),
            long(None, 1800, 1500, Format::Json, Form::Signed),
            long(Some(0), 1800, 0, Format::Default, Form::Compressed),
            long(Some(2), 1000, 0, Format::Json, Form::Compressed),
        ]
    }
    fn check(&self, c: &WholeCase, obs: &mut Obs) -> Outcome {
        let data = c.file.samples();
        let file = c.file.write(&data)?;
        let (id, cfg) = config(c.algorithm);
        let mut args = form_args(c.format, c.form);
        opt(&mut args, if c.long_flags { "--algorithm" } else { "-a" }, c.algorithm);
        opt(&mut args, if c.long_flags { "--length" } else { "-l" }, c.length);
        let r = fpcalc(&args, &file)?;
        let got = entries(&r, &args, c.format, c.form)?;
        let limit = match c.length.unwrap_or(120) {
            0 => u64::MAX,
            l => l.saturating_mul(u64::from(c.file.rate)),
        };
        let used = (c.file.frames as u64).min(limit) as usize;
        let expected = fp(&cfg, c.file.rate, c.file.channels, &data[..used * c.file.channels])?;
        ensure!(got.len() == 1, "fpcalc {args:?} printed {} results: {}", got.len(), r.describe());
        if let Some(d) = first_diff(&got[0].fp, &expected) {
            return Err(Fail::Violation(format!(
                "fpcalc {args:?} and the library differ over {used} of {} frames at {} Hz: {d}",
                c.file.frames, c.file.rate
            )));
        }
        if c.form == Form::Compressed {
            ensure!(got[0].id == Some(id), "the compressed fingerprint carries id {:?} instead of {id}", got[0].id);
        }
        if c.format != Format::Plain {
            let want = used as f64 / f64::from(c.file.rate);
            let Some(d) = got[0].duration else {
                return Err(Fail::Violation(format!("no duration: {}", r.describe())));
            };
            let tol = if c.format == Format::Json { 0.005_001 } else { 1e-4 };
            ensure!((d - want).abs() <= tol, "duration {d} instead of {want}");
        }
        obs.label_if(used < c.file.frames, "limited");
        obs.label_if(c.length.is_none() && used < c.file.frames, "limited_by_default");
        obs.label_if(matches!(c.file.container, Container::Flac(_)), "flac");
        obs.label_if(c.file.rate != NATIVE, "resampled");
        obs.nontrivial = distinct(&expected) > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ C22

pub struct C22;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChunkedCase {
    file: AudioFile,
    algorithm: Option<u8>,
    length: Option<u64>,
    chunk: u64,
    overlap: bool,
    json: bool,
}

impl Prop for C22 {
    type Case = ChunkedCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "The files of C21 split into chunks of 1 to 12 s (or absurdly long ones), with and without overlap and a length limit. Without overlap every result must be the library's fingerprint of its own part of the samples; with overlap the results must concatenate to the fingerprint of the whole, each covering its share of the items; durations and timestamps must follow. Non-trivial: at least two results and two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(4800, 40000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ChunkedCase> {
        let length = prop_oneof![3 => Just(None), 1 => Just(Some(0u64)), 2 => (1u64..20).prop_map(Some)];
        let chunk = prop_oneof![8 => 1u64..7, 2 => 7u64..13, 1 => prop_oneof![Just(u64::MAX), Just(1u64 << 50), 100u64..1000]];
        let file = prop_oneof![15 => audio_file(t.pick(18_000, 40_000)), 1 => long_file()];
        (file, algorithm(), (length, overflowing(0.03)), (chunk, overflowing(0.05)), any::<bool>(), any::<bool>())
            .prop_map(|(file, algorithm, (length, a), (chunk, b), overlap, json)| {
                let length = a.map(|o| seconds_beyond(o, file.rate)).or(length);
                let chunk = b.map_or(chunk, |o| seconds_beyond(o, file.rate));
                ChunkedCase { file, algorithm, length, chunk, overlap, json }
            })
            .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<ChunkedCase> {
        // Long chunks, more than 65536 items, more than a thousand results.
        let long = |seconds, chunk, overlap, json| ChunkedCase {
            file: hours_file(if json { Container::Flac(4000) } else { Container::Wav }, 1100, seconds),
            algorithm: Some(4),
            length: Some(0),
            chunk,
            overlap,
            json,
        };
        vec![long(7000, 3300, true, true), long(7000, 6500, false, false), long(1100, 1, true, true), long(1100, 1, false, false)]
    }
    fn check(&self, c: &ChunkedCase, obs: &mut Obs) -> Outcome {
        let data = c.file.samples();
        let file = c.file.write(&data)?;
        let (id, cfg) = config(c.algorithm);
        let format = if c.json { Format::Json } else { Format::Default };
        let mut args = form_args(format, Form::Raw);
        opt(&mut args, "-a", c.algorithm);
        opt(&mut args, "-l", c.length);
        opt(&mut args, "-C", Some(c.chunk));
        if c.overlap {
            args.push("-o".into());
        }
        let r = fpcalc(&args, &file)?;
        let got = entries(&r, &args, format, Form::Raw)?;

        let rate = u64::from(c.file.rate);
        let limit = match c.length.unwrap_or(120) {
            0 => u64::MAX,
            l => l.saturating_mul(rate),
        };
        let used = (c.file.frames as u64).min(limit);
        let ch = c.file.channels;
        let size = c.chunk.saturating_mul(rate);
        let chunk_s = c.chunk as f64;
        let total_s = used as f64 / rate as f64;
        let tol = if c.json { 0.006 } else { 1e-3 };

        if !c.overlap {
            let mut pos = 0;
            let mut k = 0;
            while pos < used {
                let end = used.min(pos.saturating_add(size));
                let Some(e) = got.get(k) else {
                    return Err(Fail::Violation(format!("fpcalc {args:?}: only {} results for {total_s} s", got.len())));
                };
                let expected = fp(&cfg, c.file.rate, ch, &data[pos as usize * ch..end as usize * ch])?;
                if let Some(d) = first_diff(&e.fp, &expected) {
                    return Err(Fail::Violation(format!(
                        "fpcalc {args:?}: result {k} differs from the library's fingerprint of frames {pos}..{end} of {}: {d}",
                        c.file.frames
                    )));
                }
                let want = (end - pos) as f64 / rate as f64;
                let Some(dur) = e.duration else { return Err(Fail::Violation("no duration".into())) };
                ensure!((dur - want).abs() <= tol, "result {k}: duration {dur} instead of {want}");
                if let Some(ts) = e.timestamp {
                    let want = pos as f64 / rate as f64;
                    ensure!((ts - want).abs() <= tol + 1e-6 * want, "result {k}: timestamp {ts} instead of {want}");
                } else {
                    ensure!(!c.json, "a JSON result without a timestamp: {}", r.describe());
                }
                pos = end;
                k += 1;
            }
            ensure!(got.len() == k, "fpcalc {args:?}: {} results instead of {k}", got.len());
        } else {
            let whole = fp(&cfg, c.file.rate, ch, &data[..used as usize * ch])?;
            let joined: Vec<u32> = got.iter().flat_map(|e| e.fp.iter().copied()).collect();
            if let Some(d) = first_diff(&joined, &whole) {
                return Err(Fail::Violation(format!(
                    "fpcalc {args:?}: the {} overlapping results do not concatenate to the fingerprint of the whole: {d}",
                    got.len()
                )));
            }
            // Every chunk but the last one covers its own share of the items: with its chunk and the
            // overlap, all those that the audio so far determines.
            let overlap_s = cfg.delay() as f64 / f64::from(NATIVE);
            let per = chunk_s * f64::from(NATIVE) / CfgSpec::preset(id).step() as f64;
            let mut items = 0;
            for (k, e) in got.iter().enumerate() {
                let last = k + 1 == got.len();
                items += e.fp.len();
                if !last && id != 3 {
                    let want = (per * (k + 1) as f64).floor();
                    let slack = if c.file.rate == NATIVE { 0.0 } else { 1.0 };
                    ensure!(
                        (items as f64 - want).abs() <= slack,
                        "fpcalc {args:?}: results 0 to {k} have {items} items together instead of {want}"
                    );
                }
                let Some(dur) = e.duration else { return Err(Fail::Violation("no duration".into())) };
                let start = if k == 0 { 0.0 } else { k as f64 * chunk_s };
                let want = if last { total_s - start } else { chunk_s + overlap_s };
                ensure!((dur - want).abs() <= tol + 2.0 / rate as f64, "result {k} of {}: duration {dur} instead of {want}", got.len());
                if let Some(ts) = e.timestamp {
                    ensure!((ts - start).abs() <= tol + 2.0 / rate as f64, "result {k}: timestamp {ts} instead of {start}");
                } else {
                    ensure!(!c.json, "a JSON result without a timestamp: {}", r.describe());
                }
            }
            // The number of results, up to the rounding of the overlap to samples.
            let extra = (overlap_s * rate as f64).round() as u64;
            let count = |used: u64| 1 + used.saturating_sub(size.saturating_add(extra)).div_ceil(size);
            let (least, most) = (count(used.saturating_sub(2)), count(used + 2));
            ensure!(
                (least..=most).contains(&(got.len() as u64)),
                "fpcalc {args:?}: {} results instead of {least} to {most} for {used} frames at {rate} Hz",
                got.len()
            );
        }
        let all: Vec<u32> = got.iter().flat_map(|e| e.fp.iter().copied()).collect();
        obs.label_if(c.overlap, "overlap");
        obs.label_if(c.overlap && got.len() > 1, "overlap_with_several_results");
        obs.label_if(!c.overlap && got.len() > 1, "several_results_without_overlap");
        obs.label_if(got.iter().filter(|e| !e.fp.is_empty()).count() > 1, "several_results_with_items");
        obs.label_if(matches!(c.file.container, Container::Flac(b) if u64::from(b) > size), "packets_longer_than_chunks");
        obs.label_if(matches!(c.file.container, Container::Flac(b) if size % u64::from(b) == 0), "chunks_of_whole_packets");
        obs.label_if(got.len() > 32, "more_than_32_results");
        obs.label_if(c.file.rate != NATIVE, "resampled");
        obs.nontrivial = got.len() > 1 && distinct(&all) > 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ C23

pub struct C23;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FormsCase {
    file: AudioFile,
    algorithm: Option<u8>,
    chunk: Option<u64>,
    overlap: bool,
    ts: bool,
    long_flags: bool,
    zone: Option<String>,
    #[serde(default)]
    length: Option<u64>,
}

impl Prop for C23 {
    type Case = FormsCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "One file with one set of options (algorithm, chunks, overlap, UNIX timestamps) printed in all twelve combinations of text (explicit and default), JSON and plain with compressed, raw and signed items; every output must be well-formed and carry the same items, durations and, in chunked JSON, timestamps; UNIX timestamps must lie within the run in any time zone; the long options must do the same as the short ones. Non-trivial: at least two different items, some above 2^31."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(960, 9000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<FormsCase> {
        (
            prop_oneof![30 => audio_file(t.pick(12_000, 30_000)), 1 => long_file()],
            algorithm(),
            proptest::option::of(1u64..8),
            any::<bool>(),
            proptest::bool::weighted(0.3),
            any::<bool>(),
            proptest::option::of(proptest::sample::select(vec!["UTC0", "XYZ-14", "ABC12:30", "EST5EDT,M3.2.0,M11.1.0", "Asia/Kolkata", ":/nothing"])),
        )
            .prop_map(|(file, algorithm, chunk, overlap, ts, long_flags, zone)| FormsCase {
                file,
                algorithm,
                chunk,
                overlap,
                ts,
                long_flags,
                zone: zone.map(str::to_string),
                length: None,
            })
            .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<FormsCase> {
        let long = |algorithm, seconds, chunk, overlap| FormsCase {
            file: hours_file(Container::Wav, 1100, seconds),
            algorithm,
            chunk,
            overlap,
            ts: false,
            long_flags: false,
            zone: None,
            length: Some(0),
        };
        vec![long(Some(4), 2500, None, false), long(None, 1500, Some(700), true)]
    }
    fn check(&self, c: &FormsCase, obs: &mut Obs) -> Outcome {
        let data = c.file.samples();
        let file = c.file.write(&data)?;
        let (id, cfg) = config(c.algorithm);
        // Overlapping results are stamped with the time at which their shared audio began.
        let slack = 1.0 + if c.overlap { cfg.delay() as f64 / f64::from(NATIVE) } else { 0.0 };
        let mut reference: Option<Vec<Entry>> = None;
        for form in [Form::Raw, Form::Signed, Form::Compressed] {
            for format in [Format::Text, Format::Default, Format::Json, Format::Plain] {
                let mut args = form_args(format, form);
                opt(&mut args, "-a", c.algorithm);
                opt(&mut args, "-C", c.chunk);
                opt(&mut args, "-l", c.length);
                if c.overlap {
                    args.push("-o".into());
                }
                if c.ts {
                    args.push("-T".into());
                }
                if c.long_flags {
                    lengthen(&mut args);
                }
                let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs_f64()).unwrap_or(0.0);
                let before = now();
                let env: Vec<(&str, &str)> = c.zone.iter().map(|z| ("TZ", z.as_str())).collect();
                let r = run_env("fpcalc", &args, &[&file.0], &env)?;
                let after = now();
                let got = entries(&r, &args, format, form)?;
                for e in &got {
                    if form == Form::Compressed {
                        ensure!(e.id == Some(id), "fpcalc {args:?}: id {:?} instead of {id}", e.id);
                    }
                    ensure!((format == Format::Plain) == e.duration.is_none(), "fpcalc {args:?}: durations {:?}", e.duration);
                    let wants_ts = match format {
                        Format::Plain => false,
                        Format::Json => c.chunk.is_some(),
                        _ => c.ts,
                    };
                    ensure!(wants_ts == e.timestamp.is_some(), "fpcalc {args:?}: timestamp {:?}", e.timestamp);
                    if let (true, Some(t)) = (c.ts, e.timestamp) {
                        ensure!(
                            t >= before - slack && (t <= after + 1.0 || after < before),
                            "fpcalc {args:?}: the UNIX timestamp {t} is not within the run ({before} to {after})"
                        );
                    }
                }
                match &reference {
                    None => reference = Some(got),
                    Some(want) => {
                        ensure!(got.len() == want.len(), "fpcalc {args:?}: {} results instead of {}", got.len(), want.len());
                        for (k, (a, b)) in got.iter().zip(want).enumerate() {
                            if let Some(d) = first_diff(&a.fp, &b.fp) {
                                return Err(Fail::Violation(format!("fpcalc {args:?}: result {k} differs from the one with -R -F text: {d}")));
                            }
                            if let (Some(x), Some(y)) = (a.duration, b.duration) {
                                ensure!((x - y).abs() <= 0.005_001, "fpcalc {args:?}: duration {x} instead of {y}");
                            }
                            if !c.ts {
                                if let (Some(t), Some(_)) = (a.timestamp, c.chunk) {
                                    let start: f64 = c.chunk.unwrap_or(0) as f64 * k as f64;
                                    ensure!((t - start).abs() <= 0.006, "fpcalc {args:?}: timestamp {t} instead of {start}");
                                }
                            }
                        }
                    }
                }
            }
        }
        let all: Vec<u32> = reference.iter().flatten().flat_map(|e| e.fp.iter().copied()).collect();
        obs.label_if(c.chunk.is_some(), "chunked");
        obs.label_if(c.ts, "unix_timestamps");
        obs.label_if(reference.iter().flatten().count() > 1, "several_results");
        obs.nontrivial = distinct(&all) > 1 && all.iter().any(|&x| x >= 1 << 31);
        Ok(())
    }
}

// ------------------------------------------------------------------ C24

pub struct C24;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// Cut to this fraction (of 65536) of its length.
    Truncate(u16),
    /// The header of the file alone.
    Head(u8),
    Overwrite { at: u16, bytes: Vec<u8> },
    Append(Vec<u8>),
    Garbage { seed: u16, len: u16 },
    Empty,
    Missing,
    Directory,
    /// A rate that the fingerprinter does not accept.
    LowRate(u16),
    /// As `Truncate`, in another container.
    /// To 65536ths of the file, or to so many bytes.
    TruncateMedia { container: u8, size: u16, to: u16, bytes: Option<u16> },
    /// Tracks without a decoder only.
    NoCodec { container: u8, tracks: Vec<Foreign> },
    /// The audio as packets of so many samples, some of them undecodable.
    BadPackets { alac: bool, size: u16, bad: Vec<u16>, how: Bad },
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamageCase {
    file: AudioFile,
    damage: Damage,
    args: Vec<String>,
    /// Which file of `compare` is damaged.
    second: bool,
    /// The output cannot be written: to a full device or, if `true`, to a closed pipe.
    unwritable: Option<bool>,
}

impl Prop for C24 {
    type Case = DamageCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Valid, truncated, overwritten, extended, garbage, empty and missing WAV and FLAC files, truncated Matroska, Ogg, MP4, CAF and AIFF files, directories, unusable sample rates, Matroska, Ogg and MP4 files without a decodable track, Matroska and CAF files with undecodable packets, and invalid arguments given to fpcalc and compare, and output to a full device or closed pipe: the tools must end by themselves with code 0 or a failure code and a message, never by a panic or signal; unusable input must fail and print no result, unwritable output must fail, and a truncated file may only give a prefix of the fingerprint of the whole. Non-trivial: something is wrong with the input or the arguments."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(7200, 80000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<DamageCase> {
        let how = prop_oneof![1 => Just(Bad::Content), 1 => any::<u16>().prop_map(Bad::Cut), 1 => Just(Bad::Unsupported)];
        let damage = prop_oneof![
            4 => any::<u16>().prop_map(Damage::Truncate),
            1 => any::<u8>().prop_map(Damage::Head),
            4 => (prop_oneof![2 => 0u16..100, 1 => any::<u16>()], proptest::collection::vec(any::<u8>(), 1..9))
                .prop_map(|(at, bytes)| Damage::Overwrite { at, bytes }),
            1 => proptest::collection::vec(any::<u8>(), 1..200).prop_map(Damage::Append),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(seed, len)| Damage::Garbage { seed, len }),
            1 => Just(Damage::Empty),
            1 => Just(Damage::Missing),
            1 => Just(Damage::Directory),
            2 => (1u16..=1000).prop_map(Damage::LowRate),
            3 => (0u8..7, 200u16..10_000, any::<u16>(), proptest::option::of(0u16..1200)).prop_map(|(container, size, to, bytes)| Damage::TruncateMedia { container, size, to, bytes }),
            1 => (0u8..3, proptest::collection::vec(
                proptest::sample::select(vec![Foreign::Subtitles, Foreign::Video, Foreign::UnknownAudio, Foreign::Opus, Foreign::Opus]),
                1..4,
            )).prop_map(|(container, tracks)| Damage::NoCodec { container, tracks }),
            3 => (any::<bool>(), 200u16..10_000, proptest::collection::vec(any::<u16>(), 1..4), how)
                .prop_map(|(alac, size, bad, how)| Damage::BadPackets { alac, size, bad, how }),
            2 => Just(Damage::None),
        ];
        let good = prop_oneof![
            4 => Just(vec![]),
            1 => (1u8..5).prop_map(|c| vec!["-C".into(), c.to_string()]),
            1 => (1u8..5).prop_map(|c| vec!["-C".into(), c.to_string(), "-o".into()]),
            1 => (0u8..9).prop_map(|c| vec!["-l".into(), c.to_string()]),
        ];
        let bad = proptest::sample::select(
            [
                "-a 5", "-a -1", "-a 255", "-a 256", "-a x", "-a", "-F xml", "-F JSON", "-l -1", "-l x", "-l 99999999999999999999999", "-C -3",
                "-C 1.5", "--nonsense", "-C",
            ]
            .map(|s| s.split(' ').map(str::to_string).collect::<Vec<_>>())
            .to_vec(),
        );
        let args = prop_oneof![4 => good, 1 => bad];
        (audio_file(9000), damage, args, any::<bool>(), any::<bool>(), any::<bool>())
            .prop_map(|(mut file, damage, args, second, unwritable, closed)| {
                file.frames = file.frames.min(200_000);
                let unwritable = (unwritable && matches!(damage, Damage::None | Damage::Truncate(_))).then_some(closed);
                DamageCase { file, damage, args, second, unwritable }
            })
            .boxed()
    }
    fn check(&self, c: &DamageCase, obs: &mut Obs) -> Outcome {
        let mut spec = c.file.clone();
        if let Damage::LowRate(r) = c.damage {
            spec.rate = u32::from(r);
            spec.container = Container::Wav;
        }
        let data = spec.samples();
        let good = spec.encode(&data);
        let mut body = good.clone();
        let mut missing = false;
        // Whether the input is certainly unusable.
        let mut unusable = false;
        match &c.damage {
            Damage::Truncate(f) => body.truncate((good.len() as u64 * u64::from(*f) / 65536) as usize),
            Damage::Head(n) => body.truncate(usize::from(*n)),
            Damage::Overwrite { at, bytes } => {
                let at = if *at < 100 { usize::from(*at) } else { good.len() * usize::from(*at) / 65536 };
                for (k, b) in bytes.iter().enumerate() {
                    if let Some(x) = body.get_mut(at + k) {
                        *x = *b;
                    }
                }
            }
            Damage::Append(bytes) => body.extend(bytes),
            Damage::Garbage { seed, len } => {
                // Bytes below 0x20 hold no marker of any container.
                body = (0..usize::from(*len)).map(|i| (hash2(u64::from(*seed), i as u64) % 32) as u8).collect();
                unusable = true;
            }
            Damage::Empty => {
                body.clear();
                unusable = true;
            }
            Damage::Missing | Damage::Directory => {
                missing = true;
                unusable = true;
            }
            Damage::LowRate(_) => unusable = true,
            Damage::TruncateMedia { container, size, to, bytes } => {
                let sound = Sound { rate: spec.rate, channels: spec.channels, data: &data };
                let tracks = || [Track::Foreign(Foreign::Video), Track::Audio(sound, std::slice::from_ref(size))];
                body = match container {
                    0 => mkv(&tracks(), 1000, None, &[], Bad::Content),
                    1 => ogg(&tracks(), 255),
                    2 => mp4(&tracks(), Mp4Codec::Flac, 3),
                    3 => caf_alac(&sound, &[*size], &[], Bad::Content),
                    4 => caf(&sound, Pcm::S24, true),
                    5 => aiff(&sound, Pcm::S16, true),
                    _ => mp4(&tracks(), Mp4Codec::Alac, 2),
                };
                body.truncate(bytes.map_or((body.len() as u64 * u64::from(*to) / 65536) as usize, usize::from));
            }
            Damage::NoCodec { container, tracks } => {
                let tracks: Vec<Track> = tracks.iter().map(|&f| Track::Foreign(f)).collect();
                body = match container {
                    0 => mkv(&tracks, 1000, None, &[], Bad::Content),
                    1 => ogg(&tracks, 255),
                    _ => mp4(&tracks, Mp4Codec::Flac, 3),
                };
                unusable = true;
            }
            Damage::BadPackets { alac, size, bad, how } => {
                let sound = Sound { rate: spec.rate, channels: spec.channels, data: &data };
                let count = spec.frames.div_ceil(usize::from(*size));
                let bad: Vec<usize> = bad.iter().map(|&b| usize::from(b) * count / 65536).collect();
                body = if *alac {
                    caf_alac(&sound, &[*size], &bad, *how)
                } else {
                    mkv(&[Track::Audio(sound, &[*size])], 1000, None, &bad, *how)
                };
                return bad_packets(c, &data, &body, &bad, count, obs);
            }
            Damage::None => {}
        }
        let ext = match c.damage {
            Damage::NoCodec { container, .. } => ["mkv", "ogg", "mp4"][usize::from(container).min(2)],
            Damage::TruncateMedia { .. } => "bin",
            _ if spec.container == Container::Wav => "wav",
            _ => "flac",
        };
        let file = if missing { Scratch::path(ext)? } else { Scratch::file(ext, &body)? };
        let mut target = file.0.clone();
        if matches!(c.damage, Damage::Directory) {
            target = target.parent().map(|p| p.to_path_buf()).unwrap_or(target);
        }

        let mut args = c.args.clone();
        let bad_args = matches!(c.args.first().map(|s| s.as_str()), Some("-a" | "-F" | "--nonsense"))
            || (c.args.len() == 1 && c.args[0] == "-C")
            || c.args.get(1).is_some_and(|v| v.parse::<u64>().is_err());
        let fmt_args = if bad_args { vec![] } else { form_args(Format::Json, Form::Raw) };
        args.splice(0..0, fmt_args);
        // A flag without its value must not swallow the path.
        let dangling = c.args.len() == 1 && matches!(c.args[0].as_str(), "-a" | "-C");
        let r = if dangling { run_tool("fpcalc", &args, &[])? } else { run_tool("fpcalc", &args, &[&target])? };
        if r.panicked() && !missing && matches!(decode(&target)?, Decoded::Unknown) {
            obs.label("symphonia_crashes");
            return Ok(());
        }
        ensure!(!r.panicked(), "fpcalc {args:?} crashed on {:?}: {}", c.damage, r.describe());
        if r.code != Some(0) {
            ensure!(!r.stderr.trim().is_empty(), "fpcalc {args:?} failed without a message: {}", r.describe());
        }
        if bad_args || unusable {
            ensure!(r.code != Some(0), "fpcalc {args:?} succeeded on {:?}: {}", c.damage, r.describe());
            ensure!(r.stdout.trim().is_empty(), "fpcalc {args:?} printed a result for {:?}: {}", c.damage, r.describe());
        } else {
            let got = parse(&r.stdout, Format::Json, Form::Raw)
                .map_err(|e| Fail::Violation(format!("fpcalc {args:?} printed something malformed ({e}): {}", r.describe())))?;
            let intact = matches!(c.damage, Damage::None);
            ensure!(!intact || r.code == Some(0), "fpcalc {args:?} failed on a valid file: {}", r.describe());
            if c.args.is_empty() && matches!(c.damage, Damage::Truncate(_) | Damage::TruncateMedia { .. } | Damage::Head(_) | Damage::None | Damage::Append(_)) {
                let whole = fp(&Configuration::default(), spec.rate, spec.channels, &data)?;
                ensure!(got.len() <= 1, "{} results", got.len());
                if let Some(e) = got.first() {
                    ensure!(
                        e.fp.len() <= whole.len() && e.fp[..] == whole[..e.fp.len()] && (!intact || e.fp.len() == whole.len()),
                        "fpcalc {args:?} gives {} items for a file after {:?} that are not a prefix of the {} items of the whole",
                        e.fp.len(),
                        c.damage,
                        whole.len()
                    );
                    obs.label_if(!intact && !e.fp.is_empty(), "items_from_a_truncated_file");
                }
            }
        }
        if let (Some(closed), false, false) = (c.unwritable, dangling, r.stdout.is_empty()) {
            let sink = if closed { Sink::Closed } else { Sink::Full };
            let q = run_to("fpcalc", &args, &[&target], sink)?;
            ensure!(
                !q.panicked() && q.code != Some(0) && !q.stderr.trim().is_empty(),
                "fpcalc {args:?} whose output cannot be written ({sink:?}): {}",
                q.describe()
            );
            let q = run_to("compare", &[], &[&target, &target], sink)?;
            ensure!(
                !q.panicked() && q.code != Some(0) && !q.stderr.trim().is_empty(),
                "compare whose output cannot be written ({sink:?}): {}",
                q.describe()
            );
            obs.label("unwritable_output");
        }
        obs.label_if(r.code == Some(0), "fpcalc_succeeds");
        obs.label_if(r.code != Some(0), "fpcalc_fails");

        if c.args.is_empty() {
            let ok = Scratch::file(ext, &wav_or(&c.file, &c.file.samples()))?;
            let files: [&std::path::Path; 2] = if c.second { [&ok.0, &target] } else { [&target, &ok.0] };
            let r = run_tool("compare", &[], &files)?;
            ensure!(!r.panicked(), "compare crashed on {:?}: {}", c.damage, r.describe());
            if r.code != Some(0) {
                ensure!(!r.stderr.trim().is_empty(), "compare failed without a message: {}", r.describe());
            }
            if unusable {
                ensure!(r.code != Some(0), "compare succeeded on {:?}: {}", c.damage, r.describe());
                ensure!(r.stdout.trim().is_empty(), "compare printed a result for {:?}: {}", c.damage, r.describe());
            }
            obs.label("compare");
            // Any other number of files is a mistake.
            if matches!(c.damage, Damage::None) {
                let wrong: &[&std::path::Path] = match c.file.frames % 3 {
                    0 => &[],
                    1 => &[&ok.0],
                    _ => &[&ok.0, &target, &ok.0],
                };
                let r = run_tool("compare", &[], wrong)?;
                ensure!(!r.panicked() && r.code != Some(0), "compare with {} files: {}", wrong.len(), r.describe());
                ensure!(r.stdout.trim().is_empty() && !r.stderr.trim().is_empty(), "compare with {} files: {}", wrong.len(), r.describe());
                obs.label("compare_with_a_wrong_number_of_files");
            }
        }
        obs.label_if(bad_args, "bad_arguments");
        obs.label_if(unusable, "unusable_input");
        obs.nontrivial = bad_args || !matches!(c.damage, Damage::None);
        Ok(())
    }
}

/// fpcalc refuses audio with undecodable packets (unless a limit or chunks come before them), compare skips them.
fn bad_packets(c: &DamageCase, data: &[i16], body: &[u8], bad: &[usize], count: usize, obs: &mut Obs) -> Outcome {
    let Damage::BadPackets { alac, size, .. } = c.damage else { return Ok(()) };
    let (size, channels) = (usize::from(size), c.file.channels);
    let file = Scratch::file(if alac { "caf" } else { "mkv" }, body)?;
    let args = form_args(Format::Json, Form::Raw);
    let r = run_tool("fpcalc", &args, &[&file.0])?;
    let first = bad.iter().min().copied().unwrap_or(0);
    // The limit of 120 s.
    if first * size < 120 * c.file.rate as usize {
        ensure!(
            !r.panicked() && r.code != Some(0) && r.stdout.trim().is_empty() && !r.stderr.trim().is_empty(),
            "fpcalc {args:?} on a file whose packet {first} of {count} cannot be decoded: {}",
            r.describe()
        );
    }
    let left: Vec<i16> = data
        .chunks(size * channels)
        .enumerate()
        .filter(|(k, _)| !bad.contains(k))
        .flat_map(|(_, d)| d.iter().copied())
        .collect();
    if !left.is_empty() {
        let whole = Scratch::file("wav", &wav(c.file.rate, channels, data))?;
        let rest = Scratch::file("wav", &wav(c.file.rate, channels, &left))?;
        let a = run_tool("compare", &[], &[&whole.0, &file.0])?;
        let b = run_tool("compare", &[], &[&whole.0, &rest.0])?;
        ensure!(
            !a.panicked() && a.code == b.code && a.stdout == b.stdout,
            "compare with a file whose packets {bad:?} of {count} cannot be decoded: {} -- and with the others alone: {}",
            a.describe(),
            b.describe()
        );
        obs.label_if(b.stdout.lines().count() > 2, "bad_packets_compared");
    }
    obs.label("bad_packets");
    obs.nontrivial = true;
    Ok(())
}

fn wav_or(f: &AudioFile, data: &[i16]) -> Vec<u8> {
    f.encode(data)
}

/// Seconds that are just more than 2^bits frames (which a product of too few bits would take for few).
fn overflowing(weight: f64) -> impl Strategy<Value = Option<(u32, u64)>> {
    proptest::option::weighted(weight, (proptest::sample::select(vec![16u32, 24, 31, 32, 63, 64]), 0u64..3))
}

fn seconds_beyond((bits, more): (u32, u64), rate: u32) -> u64 {
    ((1u128 << bits) / u128::from(rate.max(1))) as u64 + 1 + more
}

// ------------------------------------------------------------------ C25

pub struct C25;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompareCase {
    first: AudioFile,
    /// The second file: frames of its own before, an excerpt of the first, frames of its own after.
    before: usize,
    cut: u16,
    keep: u16,
    after: usize,
    filler: Kind,
    container: Container,
    noise: i16,
    same: bool,
    /// Rate and channels of the second file, where they differ.
    other: Option<(u32, usize)>,
    /// So many parts of the excerpt are replaced.
    gaps: u8,
    swap: bool,
}

fn seconds(s: &str) -> Option<f64> {
    let (h, rest) = s.split_once(':')?;
    let (m, sec) = rest.split_once(':')?;
    let (w, frac) = sec.split_once('.')?;
    if m.len() != 2 || w.len() != 2 || frac.len() != 2 {
        return None;
    }
    let (h, m, w, f) = (h.parse::<u64>().ok()?, m.parse::<u64>().ok()?, w.parse::<u64>().ok()?, frac.parse::<u64>().ok()?);
    (m < 60 && w < 60).then(|| (h * 3600 + m * 60 + w) as f64 + f as f64 / 100.0)
}

impl Prop for C25 {
    type Case = CompareCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Two audio files of which one contains an excerpt of the other (or is the other), at times with parts replaced or at another rate and channel count, in WAV or FLAC; the table printed by compare must list exactly the segments that the library finds between the two fingerprints, with their times to a hundredth of a second and scores. Non-trivial: at least one segment."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1200, 20000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<CompareCase> {
        // Low rates make it cheap to pass a minute (and an hour, in a fixed case).
        let long = (container(), 2000u32..4000, loud_pieces(), 60_000usize..100_000).prop_map(|(container, rate, pieces, ms)| AudioFile {
            container,
            rate,
            channels: 1,
            spread: Spread::Same,
            pieces,
            frames: (ms as u64 * u64::from(rate) / 1000) as usize,
        });
        let file = prop_oneof![5 => audio_file(t.pick(25_000, 60_000)), 1 => long];
        let other = proptest::option::weighted(0.3, (file_rate(), 1usize..4));
        let more = (other, prop_oneof![3 => Just(0u8), 2 => 1u8..8], any::<bool>());
        (file, 0usize..60_000, any::<u16>(), any::<u16>(), 0usize..60_000, kind(), container(), 0i16..2000, proptest::bool::weighted(0.1), more)
            .prop_map(|(first, before, cut, keep, after, filler, container, noise, same, (other, gaps, swap))| CompareCase {
                other,
                gaps,
                swap,
                first,
                before,
                cut,
                keep,
                after,
                filler,
                container,
                noise,
                same,
            })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<CompareCase> {
        let first = |seconds: usize| AudioFile {
            container: Container::Wav,
            rate: 1200,
            channels: 1,
            spread: Spread::Same,
            pieces: vec![Piece { kind: Kind::Melody { seed: 5, amp: 20_000, note_ms: 700 }, weight: 1 }],
            frames: seconds * 1200,
        };
        // More than two hours.
        let long = CompareCase {
            first: first(7600),
            before: 100_000,
            cut: 64_800,
            keep: 60_000,
            after: 10,
            filler: Kind::Noise { seed: 1, amp: 9000 },
            container: Container::Wav,
            noise: 0,
            same: false,
            other: None,
            gaps: 0,
            swap: false,
        };
        // More than a hundred segments.
        let many = CompareCase { first: first(2000), cut: 0, keep: 65_535, gaps: 120, ..long.clone() };
        let mut v = vec![CompareCase { swap: true, ..many.clone() }, many, long.clone()];
        if t == Tier::Thorough {
            // More than ten hours.
            v.push(CompareCase { first: first(40_000), ..long });
        }
        v
    }
    fn check(&self, c: &CompareCase, obs: &mut Obs) -> Outcome {
        let one = c.first.samples();
        let mut second = c.first.clone();
        second.container = c.container;
        if let Some((rate, channels)) = c.other {
            second.rate = rate;
            second.channels = channels;
            second.frames = (c.first.frames as u64 * u64::from(rate) / u64::from(c.first.rate)) as usize;
        }
        let ch = second.channels;
        let mut two = second.samples();
        if !c.same {
            let start = second.frames * usize::from(c.cut) / 131_072;
            let end = start + (second.frames - start) * (32_768 + usize::from(c.keep) / 2) / 65_536;
            let filler = |n, spread| interleave(&Clip::single(c.filler.clone(), n).render(second.rate), ch, spread);
            let n = u64::from(c.noise.unsigned_abs());
            let mut kept: Vec<i16> = two[start * ch..end * ch]
                .iter()
                .enumerate()
                .map(|(i, &x)| {
                    let e = (hash2(3, i as u64) % (2 * n + 1)) as i32 - n as i32;
                    (i32::from(x) + e).clamp(-32768, 32767) as i16
                })
                .collect();
            let frames = end - start;
            let part = |k: usize| frames * k / (2 * usize::from(c.gaps) + 1);
            for g in 0..usize::from(c.gaps) {
                let (a, b) = (part(2 * g + 1), part(2 * g + 2));
                kept[a * ch..b * ch].copy_from_slice(&filler(b - a, &Spread::Same));
            }
            two = filler(c.before, &Spread::Same);
            two.extend(kept);
            two.extend(filler(c.after, &Spread::Alternate));
        }
        let cfg = Configuration::preset_test1();
        let mut files = [(&c.first, &one), (&second, &two)];
        if c.swap {
            files.reverse();
        }
        let print = |k: usize| fp(&cfg, files[k].0.rate, files[k].0.channels, files[k].1);
        let (a, b) = (print(0)?, print(1)?);
        let segs = match lib("match_fingerprints", || match_fingerprints(&a, &b, &cfg))? {
            Ok(s) => s,
            Err(e) => return Err(Fail::Violation(format!("match_fingerprints failed: {e}"))),
        };
        let f1 = files[0].0.write(files[0].1)?;
        let f2 = files[1].0.write(files[1].1)?;
        let r = run_tool("compare", &[], &[&f1.0, &f2.0])?;
        ensure!(r.code == Some(0) && !r.panicked(), "compare failed: {}", r.describe());
        // (index, times, score) of the rows: those that start with a number.
        let mut rows = Vec::new();
        for line in r.stdout.lines() {
            let cells: Vec<&str> = line.split('|').map(str::trim).collect();
            if cells.first().is_none_or(|c| c.parse::<usize>().is_err()) {
                continue;
            }
            let parsed = (|| {
                let [idx, one, two, dur, score] = cells[..] else { return None };
                let (s1, e1) = one.split_once("--")?;
                let (s2, e2) = two.split_once("--")?;
                let t = [s1, e1, s2, e2, dur].map(|s| seconds(s.trim()));
                if t.iter().any(|t| t.is_none()) {
                    return None;
                }
                Some((idx.parse::<usize>().ok()?, t.map(|t| t.unwrap_or(0.0)), score.parse::<f64>().ok()?))
            })();
            match parsed {
                Some(p) => rows.push(p),
                None => return Err(Fail::Violation(format!("compare printed a malformed row: {line}"))),
            }
        }
        ensure!(rows.len() == segs.len(), "compare lists {} segments, the library finds {segs:?}: {}", rows.len(), r.describe());
        let item = 1365.0 / 11025.0;
        for (k, ((idx, t, score), s)) in rows.iter().zip(&segs).enumerate() {
            ensure!(*idx == k + 1, "row {k} is numbered {idx}");
            let want = [s.offset1, s.offset1 + s.items_count, s.offset2, s.offset2 + s.items_count, s.items_count];
            for (name, (got, n)) in ["start 1", "end 1", "start 2", "end 2", "duration"].iter().zip(t.iter().zip(want)) {
                let w = n as f64 * item;
                ensure!((got - w).abs() <= 0.005_1 + w * 1e-6, "row {k}: {name} is {got} instead of {w:.3} ({s:?})");
            }
            ensure!((score - s.score).abs() <= 0.005_1, "row {k}: score {score} instead of {}", s.score);
        }
        obs.label_if(segs.len() > 1, "several_segments");
        obs.label_if(segs.len() > 9, "ten_segments_or_more");
        obs.label_if(segs.len() > 99, "a_hundred_segments_or_more");
        obs.label_if(c.other.is_some(), "another_rate");
        obs.label_if(c.same, "same_audio");
        obs.label_if(segs.iter().any(|s| (s.offset1 + s.items_count) as f64 * item > 60.0), "beyond_a_minute");
        obs.label_if(segs.iter().any(|s| (s.offset1 + s.items_count) as f64 * item > 3600.0), "beyond_an_hour");
        obs.nontrivial = !segs.is_empty();
        Ok(())
    }
}
