//! C32: the tools fingerprint what the decoder delivers, whatever the file.

use super::media::MediaCase;
use crate::audio::CfgSpec;
use crate::cli::run as run_tool;
use crate::cli::*;
use crate::decode::{decode, Decoded, End, Event};
use crate::engine::*;
use crate::ensure;
use crate::lossy::*;
use crate::media::Pcm;
use crate::session::{distinct, first_diff, fp};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// MPEG audio.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    layer: u8,
    rate: u8,
    half: bool,
    stereo: bool,
    frames: u16,
    noise: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Vorbis { rate: u32, channels: u8, sizes: (u8, u8), blocks: u16, residue: u8, short: u8, empty: Vec<u16>, per_page: u8, trim: u16 },
    /// Some parts after one another, and the size of a picture in a tag in front of them.
    Mpeg { parts: Vec<Part>, tag: Option<u16> },
    Old { kind: Old, rate: u32, channels: u8, blocks: u16 },
    /// PCM of all bits, at so many percent of full scale, with odd floating-point values.
    Wide { pcm: Pcm, rate: u32, channels: u8, ms: u16, percent: u16, odd: bool },
    Lossless(Box<MediaCase>),
}

impl Source {
    fn ext(&self) -> &'static str {
        match self {
            Source::Vorbis { .. } => "ogg",
            Source::Mpeg { parts, .. } => {
                if parts.first().is_some_and(|p| p.layer == 1) {
                    "mp1"
                } else {
                    "mp3"
                }
            }
            Source::Old { .. } | Source::Wide { .. } => "wav",
            Source::Lossless(m) => m.ext(),
        }
    }

    fn encode(&self, seed: u32) -> Vec<u8> {
        let at = |list: &[u16], n: u16| list.iter().map(|&x| usize::from(x) * usize::from(n) / 65536).collect::<Vec<_>>();
        match self {
            Source::Vorbis { rate, channels, sizes, blocks, residue, short, empty, per_page, trim } => {
                let v = Vorbis {
                    rate: *rate,
                    channels: *channels,
                    sizes: *sizes,
                    blocks: usize::from(*blocks),
                    seed,
                    residue: *residue,
                    short: *short,
                    empty: at(empty, *blocks),
                };
                ogg_pages(&v.encode(), usize::from(*per_page), u64::from(*trim), seed)
            }
            Source::Mpeg { parts, tag } => {
                let mut out = tag.map(|n| id3(usize::from(n), seed)).unwrap_or_default();
                for p in parts {
                    let m = Mpeg {
                        layer: p.layer,
                        rate: p.rate,
                        half: p.half,
                        stereo: p.stereo,
                        frames: usize::from(p.frames),
                        seed,
                        noise: at(&p.noise, p.frames),
                    };
                    out.extend(m.encode());
                }
                out
            }
            Source::Old { kind, rate, channels, blocks } => old_wav(*kind, *rate, usize::from(*channels), usize::from(*blocks), seed),
            Source::Wide { pcm, rate, channels, ms, percent, odd } => {
                let frames = (u64::from(*ms) * u64::from(*rate) / 1000) as usize;
                wide_wav(*pcm, *rate, usize::from(*channels), frames, seed, *percent, *odd)
            }
            Source::Lossless(m) => m.encode(&m.samples()),
        }
    }
}

/// A change to the file at a place (in 65536ths of its size, or bytes from its begin).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit {
    at: u16,
    near_begin: bool,
    what: Change,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Overwrite(Vec<u8>),
    Flip(u8),
    Insert(Vec<u8>),
    Delete(u16),
    Repeat(u16),
    Truncate,
    Zero(u16),
    /// Makes a block of a Matroska file claim that it holds several frames.
    Lace(u8),
}

impl Edit {
    fn apply(&self, b: &mut Vec<u8>) {
        if b.is_empty() {
            return;
        }
        let at = if self.near_begin { usize::from(self.at) % b.len().min(400) } else { b.len() * usize::from(self.at) / 65536 };
        let upto = |n: u16| (at + usize::from(n)).min(b.len());
        match &self.what {
            Change::Overwrite(v) => b.iter_mut().skip(at).zip(v).for_each(|(x, y)| *x = *y),
            Change::Flip(k) => b[at] ^= 1 << (k % 8),
            Change::Insert(v) => drop(b.splice(at..at, v.iter().copied())),
            Change::Delete(n) => drop(b.drain(at..upto(*n))),
            Change::Repeat(n) => {
                let part = b[at..upto(*n)].to_vec();
                drop(b.splice(at..at, part));
            }
            Change::Truncate => b.truncate(at),
            Change::Zero(n) => {
                let to = upto(*n);
                b[at..to].fill(0);
            }
            Change::Lace(kind) => {
                let block = |i: &usize| b[*i] == 0x80 && (0x81..=0x83).contains(&b[*i - 3]) && b[i.saturating_sub(11)..*i - 3].contains(&0xA3);
                if let Some(i) = (at.max(4)..b.len()).find(block) {
                    b[i] |= 2 * (1 + kind % 3);
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecodedCase {
    source: Source,
    seed: u32,
    edits: Vec<Edit>,
    known_extension: bool,
    algorithm: u8,
    length: Option<u64>,
    chunk: Option<u64>,
    overlap: bool,
    compare: bool,
}

fn part() -> BoxedStrategy<Part> {
    let noise = prop_oneof![5 => Just(vec![]), 1 => proptest::collection::vec(any::<u16>(), 1..3)];
    (prop_oneof![1 => Just(1u8), 2 => Just(3u8)], 0u8..3, any::<bool>(), any::<bool>(), 60u16..350, noise)
        .prop_map(|(layer, rate, half, stereo, frames, noise)| Part { layer, rate, half, stereo, frames, noise })
        .boxed()
}

fn source(t: Tier) -> BoxedStrategy<Source> {
    let ms = t.pick(9000u32, 20_000);
    let vorbis = (
        prop_oneof![Just(8000u32), Just(11025), Just(22050), Just(44100), Just(48000), 4000u32..60_000],
        prop_oneof![3 => Just(1u8), 3 => Just(2), 1 => 3u8..7],
        (6u8..=13, 0u8..8).prop_map(|(a, d)| (a, (a + d).min(13))),
        3000..ms,
        0u8..3,
        prop_oneof![Just(0u8), 0u8..=8],
        prop_oneof![6 => Just(vec![]), 1 => proptest::collection::vec(any::<u16>(), 1..4)],
        prop_oneof![1 => Just(1u8), 2 => 1u8..40],
        prop_oneof![Just(0u16), 0u16..2000],
    )
        .prop_map(|(rate, channels, sizes, ms, residue, short, empty, per_page, trim)| {
            let blocks = (u64::from(ms) * u64::from(rate) / 500 >> sizes.1).clamp(4, 4000) as u16;
            Source::Vorbis { rate, channels, sizes, blocks, residue, short, empty, per_page, trim }
        });
    let mpeg = (part(), prop_oneof![6 => Just(None), 1 => part().prop_map(Some)], prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)])
        .prop_map(|(a, b, tag)| Source::Mpeg { parts: std::iter::once(a).chain(b).collect(), tag });
    let old = (
        prop_oneof![Just(Old::ALaw), Just(Old::MuLaw), Just(Old::ImaAdpcm), Just(Old::MsAdpcm)],
        prop_oneof![Just(8000u32), Just(11025), Just(44100), 500u32..50_000],
        1u8..3,
        3000..ms,
    )
        .prop_map(|(kind, rate, channels, ms)| {
            let per = if matches!(kind, Old::ALaw | Old::MuLaw) { 200 } else { 500 };
            let blocks = (u64::from(ms) * u64::from(rate) / 1000 / per).clamp(2, 3000) as u16;
            Source::Old { kind, rate, channels, blocks }
        });
    let wide = (
        prop_oneof![Just(Pcm::U8), Just(Pcm::S16), Just(Pcm::S24), Just(Pcm::S32), Just(Pcm::F32), Just(Pcm::F64), Just(Pcm::F32), Just(Pcm::F64)],
        prop_oneof![Just(8000u32), Just(11025), Just(44100), 2000u32..50_000],
        1u8..3,
        3000..ms as u16,
        prop_oneof![20u16..100, 100u16..400],
        any::<bool>(),
    )
        .prop_map(|(pcm, rate, channels, ms, percent, odd)| Source::Wide { pcm, rate, channels, ms, percent, odd });
    let lossless = super::media::C26.strategy(t).prop_map(|m| Source::Lossless(Box::new(m)));
    prop_oneof![3 => vorbis, 3 => mpeg, 1 => old, 1 => wide, 3 => lossless].boxed()
}

fn edit() -> BoxedStrategy<Edit> {
    let bytes = || proptest::collection::vec(prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(255)], 1..9);
    let span = || prop_oneof![1u16..16, 16u16..3000];
    let what = prop_oneof![
        3 => bytes().prop_map(Change::Overwrite),
        3 => any::<u8>().prop_map(Change::Flip),
        1 => bytes().prop_map(Change::Insert),
        2 => span().prop_map(Change::Delete),
        1 => span().prop_map(Change::Repeat),
        1 => Just(Change::Truncate),
        1 => prop_oneof![1 => any::<u8>(), 1 => Just(1u8)].prop_map(Change::Lace),
        1 => span().prop_map(Change::Zero),
    ];
    (any::<u16>(), prop_oneof![7 => Just(false), 1 => Just(true)], what).prop_map(|(at, near_begin, what)| Edit { at, near_begin, what }).boxed()
}

pub struct C32;

impl Prop for C32 {
    type Case = DecodedCase;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "Vorbis, MPEG layer 1 and 3 (with tags, noise for frames, and changes of rate and channels), A-law, mu-law and ADPCM files, PCM that uses all bits or exceeds full scale, and the files of C26, half of them damaged by edits (bytes overwritten, flipped, inserted, deleted, repeated, zeroed, the rest cut off). A process of its own decodes the file with Symphonia: fpcalc must give the library's fingerprint and the duration of exactly the frames decoded (up to the length), the same with chunks as for a WAV file of them, and must fail if a packet among them cannot be decoded; compare must take all frames that can be decoded. Non-trivial: at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(2400, 24000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<DecodedCase> {
        let edits = prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(edit(), 1..4)];
        let args = (
            0u8..5,
            prop_oneof![3 => Just(None), 1 => Just(Some(0u64)), 1 => (1u64..12).prop_map(Some)],
            prop_oneof![3 => Just(None), 2 => (1u64..8).prop_map(Some)],
            any::<bool>(),
            prop_oneof![2 => Just(false), 1 => Just(true)],
        );
        (source(t), any::<u32>(), edits, prop_oneof![2 => Just(true), 1 => Just(false)], args)
            .prop_map(|(source, seed, edits, known_extension, (algorithm, length, chunk, overlap, compare))| {
                let overlap = overlap && chunk.is_some();
                DecodedCase { source, seed, edits, known_extension, algorithm, length, chunk, overlap, compare }
            })
            .boxed()
    }
    fn check(&self, c: &DecodedCase, obs: &mut Obs) -> Outcome {
        let mut body = c.source.encode(c.seed);
        for e in &c.edits {
            e.apply(&mut body);
        }
        let file = Scratch::file(if c.known_extension { c.source.ext() } else { "bin" }, &body)?;
        let (rate, channels, events, end) = match decode(&file.0)? {
            Decoded::Unknown => {
                obs.label("decoder_gives_up");
                return Ok(());
            }
            Decoded::Unusable => {
                let r = run_tool("fpcalc", &[], &[&file.0])?;
                ensure!(
                    !r.panicked() && r.code != Some(0) && r.stdout.trim().is_empty() && !r.stderr.trim().is_empty(),
                    "fpcalc on a file that has no decodable track: {}",
                    r.describe()
                );
                obs.label("unusable");
                return Ok(());
            }
            Decoded::Audio { rate, channels, events, end } => (rate, channels, events, end),
        };
        // The frames before the first packet that is refused, and before the audio changes its format.
        let mut before: Vec<i16> = Vec::new();
        let mut all: Vec<i16> = Vec::new();
        let mut bad = false;
        let mut changed = false;
        for e in &events {
            match e {
                Event::Frames(f) => {
                    if !bad {
                        before.extend(f);
                    }
                    all.extend(f);
                }
                Event::Bad => bad = true,
                Event::Changed => changed = true,
            }
        }
        let mut args = form_args(Format::Json, Form::Raw);
        args.extend(["-a".into(), c.algorithm.to_string()]);
        super::cli::opt(&mut args, "-l", c.length);
        super::cli::opt(&mut args, "-C", c.chunk);
        if c.overlap {
            args.push("-o".into());
        }
        let r = run_tool("fpcalc", &args, &[&file.0])?;
        ensure!(!r.panicked(), "fpcalc {args:?} crashed: {}", r.describe());
        let got = parse(&r.stdout, Format::Json, Form::Raw)
            .map_err(|e| Fail::Violation(format!("fpcalc {args:?} printed something malformed ({e}): {}", r.describe())))?;
        let failed = r.code != Some(0);
        ensure!(!failed || !r.stderr.trim().is_empty(), "fpcalc {args:?} failed without a message: {}", r.describe());

        let first_bad = matches!(events.first(), Some(Event::Bad));
        if channels == 0 || rate <= 1000 || first_bad {
            ensure!(r.stdout.trim().is_empty(), "fpcalc {args:?} printed a result where there is no usable audio: {}", r.describe());
            ensure!(failed || (channels == 0 && !first_bad && end != End::Undecodable), "fpcalc {args:?} succeeded at {rate} Hz, first packet decodable: {}: {}", !first_bad, r.describe());
            obs.label("nothing_usable");
        } else {
            let frames = before.len() / channels;
            let limit = match c.length.unwrap_or(120) {
                0 => u64::MAX,
                l => l.saturating_mul(u64::from(rate)),
            };
            let used = (frames as u64).min(limit) as usize;
            // Whether fpcalc comes to the packet that is refused, or to the end.
            let reaches = (frames as u64) < limit;
            let exactly = frames as u64 == limit;
            let undecodable = bad || !changed && end == End::Undecodable;
            let must_fail = undecodable && reaches;
            let may_fail = undecodable && exactly || (changed || end != End::Plain) && (reaches || exactly);
            ensure!(
                failed == must_fail || (may_fail && !must_fail),
                "fpcalc {args:?} {} although {} ({frames} frames before that at {rate} Hz): {}",
                if failed { "failed" } else { "succeeded" },
                if must_fail { "a packet cannot be decoded" } else { "all packets can be decoded" },
                r.describe()
            );
            let cfg = CfgSpec::preset(c.algorithm).build();
            let expected = fp(&cfg, rate, channels, &before[..used * channels])?;
            if c.chunk.is_none() {
                if failed || used == 0 {
                    ensure!(got.iter().all(|e| e.fp.is_empty()) && (!failed || got.is_empty()), "fpcalc {args:?} failed, but printed a result: {}", r.describe());
                } else {
                    ensure!(got.len() == 1, "fpcalc {args:?} printed {} results: {}", got.len(), r.describe());
                    if let Some(d) = first_diff(&got[0].fp, &expected) {
                        return Err(Fail::Violation(format!(
                            "fpcalc {args:?} and the library differ over {used} of {frames} frames decoded at {rate} Hz with {channels} channels: {d}"
                        )));
                    }
                    let want = used as f64 / f64::from(rate);
                    ensure!(
                        got[0].duration.is_some_and(|d| (d - want).abs() <= 0.006),
                        "fpcalc {args:?}: duration {:?} instead of {want}",
                        got[0].duration
                    );
                }
            } else if used > 0 && channels <= 6 {
                let plain = Scratch::file("wav", &wav(rate, channels, &before[..used * channels]))?;
                let p = run_tool("fpcalc", &args, &[&plain.0])?;
                ensure!(
                    if failed { p.stdout.starts_with(&r.stdout) } else { p.stdout == r.stdout },
                    "fpcalc {args:?} gives something else than for a WAV file of the {used} of {frames} frames decoded at {rate} Hz: {} -- and for WAV: {}",
                    r.describe(),
                    p.describe()
                );
                obs.label_if(got.len() > 1, "several_results");
            }
            obs.label_if(must_fail, "undecodable_packet");
            obs.label_if(changed, "format_changes");
            obs.label_if(end == End::Damaged, "reader_gives_up");
            obs.label_if(end == End::Undecodable && must_fail && !bad, "reader_finds_undecodable");
            obs.label_if(!failed && distinct(&expected) > 1, "fingerprinted");
            obs.nontrivial = distinct(&expected) > 1;
        }
        obs.label_if(c.edits.is_empty(), "undamaged");
        obs.label_if(
            true,
            match &c.source {
                Source::Vorbis { .. } => "vorbis",
                Source::Mpeg { parts, .. } if parts[0].layer == 1 => "mpeg_layer_1",
                Source::Mpeg { .. } => "mpeg_layer_3",
                Source::Old { .. } => "old",
                Source::Wide { .. } => "wide",
                Source::Lossless(_) => "lossless",
            },
        );

        if c.compare && !changed && channels > 0 && channels <= 6 && !all.is_empty() {
            let plain = Scratch::file("wav", &wav(rate, channels, &all))?;
            let a = run_tool("compare", &[], &[&file.0, &plain.0])?;
            ensure!(!a.panicked(), "compare crashed: {}", a.describe());
            let b = run_tool("compare", &[], &[&plain.0, &plain.0])?;
            ensure!(
                a.stdout == b.stdout && a.code == b.code,
                "compare gives something else than for a WAV file of the frames that can be decoded ({} at {rate} Hz): {} -- and for WAV: {}",
                all.len() / channels,
                a.describe(),
                b.describe()
            );
            obs.label_if(b.stdout.lines().count() > 2, "compared_with_segments");
            obs.label_if(bad && b.stdout.lines().count() > 2, "compared_without_undecodable_packets");
        } else if c.compare {
            let a = run_tool("compare", &[], &[&file.0, &file.0])?;
            ensure!(!a.panicked(), "compare crashed: {}", a.describe());
        }
        Ok(())
    }
}
