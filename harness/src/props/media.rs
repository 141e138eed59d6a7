//! C26: containers, sample formats and tracks.

use crate::audio::*;
use crate::cli::run as run_tool;
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::media::*;
use crate::session::{distinct, first_diff, fp};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Media {
    Wav { pcm: Pcm, extensible: bool, junk: u16 },
    Aiff { pcm: Pcm, sowt: bool },
    Caf { pcm: Pcm, little: bool },
    Flac { sizes: Vec<u16> },
    CafAlac { sizes: Vec<u16> },
    /// `claim`: a rate and a number of channels that contradict the codec's own.
    Mkv { sizes: Vec<u16>, cluster_ms: u16, claim: Option<(u32, u8)> },
    Ogg { sizes: Vec<u16>, segments: u8 },
    Mp4 { codec: Mp4Codec, sizes: Vec<u16>, per_chunk: u16 },
}

impl Media {
    fn pcm(&self) -> Pcm {
        match self {
            Media::Wav { pcm, .. } | Media::Aiff { pcm, .. } | Media::Caf { pcm, .. } => *pcm,
            _ => Pcm::S16,
        }
    }

    fn ext(&self) -> &'static str {
        match self {
            Media::Wav { .. } => "wav",
            Media::Aiff { .. } => "aiff",
            Media::Caf { .. } | Media::CafAlac { .. } => "caf",
            Media::Flac { .. } => "flac",
            Media::Mkv { .. } => "mkv",
            Media::Ogg { .. } => "ogg",
            Media::Mp4 { .. } => "mp4",
        }
    }

    fn has_tracks(&self) -> bool {
        matches!(self, Media::Mkv { .. } | Media::Ogg { .. } | Media::Mp4 { .. })
    }
}

/// A track besides the one to be fingerprinted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Other {
    Foreign(Foreign),
    Audio { seed: u16, rate: u32, stereo: bool, ms: u16, size: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MediaCase {
    media: Media,
    known_extension: bool,
    rate: u32,
    channels: usize,
    spread: Spread,
    pieces: Vec<Piece>,
    frames: usize,
    /// Tracks that are no audio, in front of the audio track.
    before: Vec<Foreign>,
    after: Vec<Other>,
    algorithm: u8,
    length: Option<u64>,
    chunk: Option<u64>,
    overlap: bool,
    compare: bool,
    /// Which of the `STEMS` the file has.
    name: u8,
    /// Given through a named pipe, in writes of these sizes.
    pipe: Option<Vec<usize>>,
}

/// Beginnings of file names.
const STEMS: [&[u8]; 8] = [b"f", b"a b  c", b"-x", b"\xc3\xbcml\xc3\xa4ut \xe2\x99\xaa", b"\xff\xfe\x80", b"x.mp3", b".hidden", b"%s'\"$(x)"];

impl MediaCase {
    pub fn samples(&self) -> Vec<i16> {
        let mono = Clip { pieces: self.pieces.clone(), len: self.frames }.render(self.rate);
        let pcm = self.media.pcm();
        interleave(&mono, self.channels, &self.spread).into_iter().map(|s| pcm.quantised(s)).collect()
    }

    pub fn ext(&self) -> &'static str {
        self.media.ext()
    }

    pub fn encode(&self, data: &[i16]) -> Vec<u8> {
        let sound = Sound { rate: self.rate, channels: self.channels, data };
        let noise: Vec<(Vec<i16>, [u16; 1])> = self
            .after
            .iter()
            .map(|o| match *o {
                Other::Foreign(_) => (Vec::new(), [0]),
                Other::Audio { seed, rate, stereo, ms, size } => {
                    let n = (u64::from(ms) * u64::from(rate) / 1000) as usize;
                    let piece = Piece { kind: Kind::Noise { seed, amp: 20_000 }, weight: 1 };
                    let mono = Clip { pieces: vec![piece], len: n.max(1) }.render(rate);
                    (interleave(&mono, 1 + usize::from(stereo), &Spread::Same), [size])
                }
            })
            .collect();
        let sizes: &[u16] = match &self.media {
            Media::Mkv { sizes, .. } | Media::Ogg { sizes, .. } | Media::Mp4 { sizes, .. } => sizes,
            _ => &[],
        };
        let mut tracks: Vec<Track> = self.before.iter().map(|&f| Track::Foreign(f)).collect();
        tracks.push(Track::Audio(sound, sizes));
        for (o, (data, size)) in self.after.iter().zip(&noise) {
            tracks.push(match *o {
                Other::Foreign(f) => Track::Foreign(f),
                Other::Audio { rate, stereo, .. } => {
                    Track::Audio(Sound { rate, channels: 1 + usize::from(stereo), data }, size)
                }
            });
        }
        match &self.media {
            Media::Wav { pcm, extensible, junk } => wav_pcm(&sound, *pcm, *extensible, usize::from(*junk)),
            Media::Aiff { pcm, sowt } => aiff(&sound, *pcm, *sowt),
            Media::Caf { pcm, little } => caf(&sound, *pcm, *little),
            Media::Flac { sizes } => flac_file(&sound, sizes),
            Media::CafAlac { sizes } => caf_alac(&sound, sizes, &[], Bad::Content),
            Media::Mkv { cluster_ms, claim, .. } => mkv(&tracks, u64::from(*cluster_ms), *claim, &[], Bad::Content),
            Media::Ogg { segments, .. } => ogg(&tracks, usize::from(*segments)),
            Media::Mp4 { codec, per_chunk, .. } => mp4(&tracks, *codec, usize::from(*per_chunk)),
        }
    }
}

fn pcm() -> BoxedStrategy<Pcm> {
    prop_oneof![Just(Pcm::U8), Just(Pcm::S16), Just(Pcm::S24), Just(Pcm::S32), Just(Pcm::F32), Just(Pcm::F64)].boxed()
}

fn sizes() -> BoxedStrategy<Vec<u16>> {
    let size = prop_oneof![3 => Just(4096u16), 3 => 16u16..1000, 3 => 1000u16..20_000, 1 => 20_000u16..=65535];
    prop_oneof![
        1 => size.clone().prop_map(|s| vec![s]),
        2 => proptest::collection::vec(size, 2..6),
    ]
    .boxed()
}

fn media() -> BoxedStrategy<Media> {
    let codec = prop_oneof![any::<bool>().prop_map(|little| Mp4Codec::Pcm { little }), Just(Mp4Codec::Flac), Just(Mp4Codec::Alac)];
    let claim = prop_oneof![2 => Just(None), 1 => (prop_oneof![Just(8000u32), Just(22050), 4000..90_000u32], 1u8..7).prop_map(Some)];
    prop_oneof![
        2 => (pcm(), any::<bool>(), prop_oneof![Just(0u16), 1u16..5000]).prop_map(|(pcm, extensible, junk)| Media::Wav { pcm, extensible, junk }),
        1 => (pcm(), any::<bool>()).prop_map(|(pcm, sowt)| Media::Aiff { pcm, sowt }),
        // Symphonia knows no 8-bit samples in CAF.
        1 => (pcm().prop_filter("not known", |p| *p != Pcm::U8), any::<bool>()).prop_map(|(pcm, little)| Media::Caf { pcm, little }),
        1 => sizes().prop_map(|sizes| Media::Flac { sizes }),
        1 => sizes().prop_map(|sizes| Media::CafAlac { sizes }),
        3 => (sizes(), 20u16..6000, claim).prop_map(|(sizes, cluster_ms, claim)| Media::Mkv { sizes, cluster_ms, claim }),
        2 => (sizes(), prop_oneof![Just(255u8), 1u8..=255]).prop_map(|(sizes, segments)| Media::Ogg { sizes, segments }),
        2 => (codec, sizes(), 1u16..2000).prop_map(|(codec, sizes, per_chunk)| Media::Mp4 { codec, sizes, per_chunk }),
    ]
    .boxed()
}

fn foreign() -> BoxedStrategy<Foreign> {
    prop_oneof![Just(Foreign::Subtitles), Just(Foreign::Video), Just(Foreign::UnknownAudio)].boxed()
}

fn other() -> BoxedStrategy<Other> {
    prop_oneof![
        1 => foreign().prop_map(Other::Foreign),
        2 => (any::<u16>(), 4000u32..48_000, any::<bool>(), 500u16..15_000, 500u16..=65535)
            .prop_map(|(seed, rate, stereo, ms, size)| Other::Audio { seed, rate, stereo, ms, size }),
    ]
    .boxed()
}

pub struct C26;

impl Prop for C26 {
    type Case = MediaCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "The same audio as WAV, AIFF, AIFF-C and CAF in 8 to 64 bits (integer and floating point, both byte orders, foreign chunks), as FLAC with fixed and varying block sizes, and as FLAC or PCM track of Matroska, Ogg and MP4 files in which tracks that are no audio come first, other audio tracks of other rates and channels follow, and the packets of all are interleaved. fpcalc, whole or in chunks, must give the library's fingerprint of the first audio track, and the same output as for a plain WAV file; compare must list the same segments, whatever the name of the file; and fpcalc must print the same when the file comes through a pipe. Non-trivial: at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(2000, 24000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<MediaCase> {
        let max = t.pick(14_000usize, 30_000);
        let sound = (
            prop_oneof![Just(NATIVE), Just(8000u32), Just(16000), Just(44100), Just(48000), Just(96000), 4000u32..20_000],
            prop_oneof![3 => Just(1usize), 4 => Just(2), 1 => Just(3), 1 => Just(4), 1 => Just(6)],
            spread(),
            super::cli::loud_pieces(),
            prop_oneof![5 => 3000..max, 1 => 0..3000usize],
        );
        let tracks = (
            proptest::collection::vec(foreign(), 0..3),
            proptest::collection::vec(other(), 0..3),
        );
        let args = (
            0u8..5,
            prop_oneof![3 => Just(None), 1 => Just(Some(0u64)), 1 => (1u64..12).prop_map(Some)],
            prop_oneof![3 => Just(None), 2 => (1u64..8).prop_map(Some)],
            any::<bool>(),
            prop_oneof![3 => Just(false), 1 => Just(true)],
        );
        let pipe = prop_oneof![
            2 => Just(None),
            1 => (1usize..5000, proptest::collection::vec(prop_oneof![1usize..5000, 5000usize..200_000], 0..3)).prop_map(|(a, mut v)| {
                v.extend([a, 20_000]);
                Some(v)
            }),
        ];
        let file = (prop_oneof![any::<u8>(), Just(0u8)], pipe);
        (media(), any::<bool>(), sound, tracks, args, file)
            .prop_map(|(media, known_extension, (rate, channels, spread, pieces, ms), (before, after), args, (name, pipe))| {
                let (algorithm, length, chunk, overlap, compare) = args;
                let (before, after) = if media.has_tracks() { (before, after) } else { (vec![], vec![]) };
                // Matroska files say how many channels there are, and readers know these layouts.
                let channels = match media {
                    // The sample entries of version 0 hold one or two channels.
                    Media::Mp4 { codec: Mp4Codec::Pcm { .. }, .. } => channels.min(2),
                    _ => channels,
                };
                // The sample entries have 16 bits for the rate, and PCM tracks have no other.
                let rate = if matches!(media, Media::Mp4 { codec: Mp4Codec::Pcm { .. }, .. }) { rate.min(48_000) } else { rate };
                let frames = ((ms as u64 * u64::from(rate) / 1000) as usize).max(1);
                // Symphonia takes the padding of an AIFF chunk for a sample.
                let frames = if matches!(media, Media::Aiff { .. }) { frames + frames % 2 } else { frames };
                let mut media = media;
                if let Media::Ogg { sizes, .. } = &mut media {
                    // Symphonia loses a stream that ends before the pages it reads in advance.
                    let most = (frames / 6).clamp(16, 65535) as u16;
                    sizes.iter_mut().for_each(|s| *s = (*s).min(most));
                }
                // Symphonia reads CAF, and MP4 with its index at the end, from seekable files only.
                let pipe = pipe.filter(|_| !matches!(media, Media::Caf { .. } | Media::CafAlac { .. } | Media::Mp4 { .. }));
                MediaCase {
                    known_extension,
                    rate,
                    channels,
                    spread,
                    pieces,
                    frames,
                    before,
                    after,
                    algorithm,
                    length,
                    chunk,
                    overlap,
                    compare,
                    media,
                    name,
                    pipe,
                }
            })
            .boxed()
    }
    fn check(&self, c: &MediaCase, obs: &mut Obs) -> Outcome {
        let data = c.samples();
        let body = c.encode(&data);
        let ext = if c.known_extension { c.media.ext() } else { "bin" };
        let stem = STEMS[usize::from(c.name) % STEMS.len()];
        let file = Scratch::named(std::os::unix::ffi::OsStrExt::from_bytes(stem), ext)?.filled(&body)?;
        let plain = Scratch::file("wav", &wav(c.rate, c.channels, &data))?;
        let cfg = CfgSpec::preset(c.algorithm).build();

        let mut args = form_args(Format::Json, Form::Raw);
        args.extend(["-a".into(), c.algorithm.to_string()]);
        super::cli::opt(&mut args, "-l", c.length);
        super::cli::opt(&mut args, "-C", c.chunk);
        if c.overlap && c.chunk.is_some() {
            args.push("-o".into());
        }
        let r = run_tool("fpcalc", &args, &[&file.0])?;
        let got = super::cli::entries(&r, &args, Format::Json, Form::Raw)?;
        let limit = match c.length.unwrap_or(120) {
            0 => u64::MAX,
            l => l.saturating_mul(u64::from(c.rate)),
        };
        let used = (c.frames as u64).min(limit) as usize;
        let expected = fp(&cfg, c.rate, c.channels, &data[..used * c.channels])?;
        if c.chunk.is_none() {
            ensure!(got.len() == 1, "fpcalc {args:?} printed {} results: {}", got.len(), r.describe());
            if let Some(d) = first_diff(&got[0].fp, &expected) {
                return Err(Fail::Violation(format!(
                    "fpcalc {args:?} and the library differ over {used} of {} frames at {} Hz: {d}",
                    c.frames, c.rate
                )));
            }
        }
        let p = run_tool("fpcalc", &args, &[&plain.0])?;
        ensure!(
            r.stdout == p.stdout && r.code == p.code,
            "fpcalc {args:?} gives something else than for a WAV file of the same samples: {} -- and for WAV: {}",
            r.describe(),
            p.describe()
        );
        if let Some(sizes) = &c.pipe {
            let q = run_piped("fpcalc", &args, ext, &body, sizes)?;
            ensure!(
                q.stdout == r.stdout && q.code == r.code,
                "fpcalc {args:?} gives something else for the file through a pipe: {} -- and as a file: {}",
                q.describe(),
                r.describe()
            );
            obs.label("pipe");
        }
        if c.compare {
            let a = run_tool("compare", &[], &[&file.0, &plain.0])?;
            let b = run_tool("compare", &[], &[&plain.0, &plain.0])?;
            ensure!(
                a.stdout == b.stdout && a.code == b.code && !a.panicked(),
                "compare gives something else than for a WAV file of the same samples: {} -- and for WAV: {}",
                a.describe(),
                b.describe()
            );
            obs.label_if(b.stdout.lines().count() > 2, "compared_with_segments");
        }
        obs.label_if(true, c.media.ext());
        obs.label_if(!c.before.is_empty(), "foreign_track_first");
        obs.label_if(c.after.iter().any(|o| matches!(o, Other::Audio { .. })), "several_audio_tracks");
        obs.label_if(c.chunk.is_some(), "chunks");
        obs.nontrivial = distinct(&expected) > 1;
        Ok(())
    }
}
