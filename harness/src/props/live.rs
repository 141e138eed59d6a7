//! C30: audio that arrives while it is fingerprinted.

use super::cli::{entries, loud_pieces, opt};
use crate::audio::*;
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::media::{Bad, mkv, ogg, Sound, Track};
use crate::session::{distinct, first_diff};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LiveFormat {
    /// `endless`: the header does not tell the length.
    Wav { endless: bool },
    Flac { block: u16 },
    Mkv { block: u16 },
    Ogg { block: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LiveCase {
    Arriving {
        format: LiveFormat,
        rate: u32,
        channels: usize,
        spread: Spread,
        pieces: Vec<Piece>,
        algorithm: u8,
        chunk: u64,
        overlap: bool,
        results: usize,
        ts: bool,
        json: bool,
        write: usize,
        pause_ms: u64,
    },
    /// A stream that goes on beyond the length limit.
    Limited {
        format: LiveFormat,
        rate: u32,
        channels: usize,
        spread: Spread,
        pieces: Vec<Piece>,
        algorithm: u8,
        limit: u64,
        chunk: Option<u64>,
        overlap: bool,
        json: bool,
        write: usize,
    },
    /// So many MB of audio in WAV.
    Long { compare: bool, rate: u32, megabytes: usize, chunk: Option<u64>, overlap: bool, algorithm: u8 },
}

pub struct C30;

/// The most memory for a stream of any length.
const MEMORY_KIB: u64 = 64 << 10;
const PATIENCE: Duration = Duration::from_secs(40);

fn now() -> f64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs_f64()).unwrap_or(0.0)
}

fn endless(mut v: Vec<u8>) -> Vec<u8> {
    v[4..8].copy_from_slice(&[0xFF; 4]);
    let at = v.windows(4).position(|w| w == b"data").unwrap_or(36);
    v[at + 4..at + 8].copy_from_slice(&[0xFF; 4]);
    v
}

/// The number of results whose last line is complete.
fn complete(out: &str, json: bool) -> usize {
    let whole = &out[..out.rfind('\n').map_or(0, |i| i + 1)];
    if json {
        whole.lines().count()
    } else {
        whole.lines().filter(|l| l.starts_with("FINGERPRINT=")).count()
    }
}

impl Prop for C30 {
    type Case = LiveCase;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "Audio (WAV with and without a length in its header, FLAC, Matroska, Ogg) written into a named pipe that stays open: each time the audio of a chunk has been written, and 64 KB more (192 KB in Matroska and Ogg), fpcalc -C (with and without -o and -T) must print the result of that chunk before more is written; UNIX timestamps must not be earlier than the writing of the audio before the chunk (less the overlap) nor later than the seeing of the result; the output must be that of the same bytes in a file. A stream that goes on beyond the length limit (-l) must end fpcalc by itself, with the output for a file. Streams of 40 MB or more must leave fpcalc and compare below 64 MB of memory. Non-trivial: two or more results before the end, or a long stream."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(480, 6000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LiveCase> {
        let block = || prop_oneof![Just(4096u16), 200u16..4608];
        let format = prop_oneof![
            3 => any::<bool>().prop_map(|endless| LiveFormat::Wav { endless }),
            1 => block().prop_map(|block| LiveFormat::Flac { block }),
            1 => block().prop_map(|block| LiveFormat::Mkv { block }),
            1 => block().prop_map(|block| LiveFormat::Ogg { block }),
        ];
        (
            (format, prop_oneof![Just(NATIVE), Just(8000u32), Just(44100), Just(48000), 6000u32..30_000], 1usize..3, spread(), loud_pieces()),
            (0u8..5, prop_oneof![2 => 3u64..5, 1 => 1u64..6], any::<bool>(), 1usize..5, any::<bool>(), any::<bool>()),
            (prop_oneof![100usize..5000, 5000usize..200_000], prop_oneof![3 => Just(0u64), 1 => 20u64..200]),
        )
            .prop_flat_map(|((format, rate, channels, spread, pieces), (algorithm, chunk, overlap, results, ts, json), (write, pause_ms))| {
                let limited = LiveCase::Limited {
                    format: format.clone(),
                    rate,
                    channels,
                    spread: spread.clone(),
                    pieces: pieces.clone(),
                    algorithm,
                    limit: 1 + (chunk + results as u64 + write as u64) % 9,
                    chunk: ts.then_some(chunk),
                    overlap,
                    json,
                    write,
                };
                let arriving =
                    LiveCase::Arriving { format, rate, channels, spread, pieces, algorithm, chunk, overlap, results, ts, json, write, pause_ms };
                prop_oneof![3 => Just(arriving), 1 => Just(limited)]
            })
            .boxed()
    }
    fn fixed(&self, t: Tier) -> Vec<LiveCase> {
        let megabytes = t.pick(90, 900);
        let mut v = Vec::new();
        for (compare, rate, chunk, overlap) in
            [(false, 11025, None, false), (false, 44100, Some(10), false), (false, 8000, Some(7), true), (true, 44100, None, false)]
        {
            v.push(LiveCase::Long { compare, rate, megabytes, chunk, overlap, algorithm: 1 });
        }
        v
    }
    fn check(&self, c: &LiveCase, obs: &mut Obs) -> Outcome {
        match c {
            LiveCase::Arriving { .. } => arriving(c, obs),
            LiveCase::Limited { .. } => limited(c, obs),
            LiveCase::Long { compare, rate, megabytes, chunk, overlap, algorithm } => {
                let block = Clip::single(Kind::Melody { seed: 31, amp: 20_000, note_ms: 333 }, 500_000).render(*rate);
                let bytes: Vec<u8> = block.iter().flat_map(|s| s.to_le_bytes()).collect();
                let header = endless(wav(*rate, 1, &[]));
                let pipe = fifo("wav")?;
                let short = Scratch::file("wav", &wav(*rate, 1, &block))?;
                let mut args = Vec::new();
                let (name, files): (_, Vec<&std::path::Path>) = if *compare {
                    ("compare", vec![&short.0, &pipe.0])
                } else {
                    opt(&mut args, "-a", Some(algorithm));
                    opt(&mut args, "-l", Some(0));
                    opt(&mut args, "-C", *chunk);
                    if *overlap {
                        args.push("-o".into());
                    }
                    ("fpcalc", vec![&pipe.0])
                };
                let mut tool = start(name, &args, &files, &[], Sink::File)?;
                let Some(mut feed) = Feed::open(&pipe.0, &mut tool)? else {
                    return Err(Fail::Violation(format!("{name} {args:?} does not read the pipe: {}", tool.end()?.describe())));
                };
                let mut gone = feed.write(&header).is_err();
                let mut peak = 0;
                for _ in 0..*megabytes {
                    gone = gone || feed.write(&bytes).is_err();
                    peak = peak.max(tool.peak_kib().unwrap_or(0));
                }
                drop(feed);
                let r = tool.end()?;
                ensure!(!gone && r.code == Some(0), "{name} {args:?} failed within {megabytes} MB of WAV through a pipe: {}", r.describe());
                ensure!(peak > 0, "{name} {args:?} ended before its input: {}", r.describe());
                ensure!(peak <= MEMORY_KIB, "{name} {args:?} takes {peak} KiB for {megabytes} MB of WAV");
                obs.count("peak_kib_of_long_streams", peak);
                obs.label("long_stream");
                obs.nontrivial = true;
                Ok(())
            }
        }
    }
}

fn arriving(c: &LiveCase, obs: &mut Obs) -> Outcome {
    let LiveCase::Arriving { format, rate, channels, spread, pieces, algorithm, chunk, overlap, results, ts, json, write, pause_ms } = c else {
        return Ok(());
    };
    let delay_s = if *overlap { CfgSpec::preset(*algorithm).delay() as f64 / f64::from(NATIVE) } else { 0.0 };
    let ahead = ahead(format);
    // One frame more than the chunk, so that it is known to have ended.
    let needed = |k: usize| ((k as u64 * chunk) as f64 + delay_s) * f64::from(*rate) + 2.0;
    let frames = needed(*results) as usize + *rate as usize / 2 + ahead * 3 / (2 * channels);
    let (body, ext) = recording(format, *rate, *channels, spread, pieces, frames);
    let mut args = form_args(if *json { Format::Json } else { Format::Text }, Form::Raw);
    let format = if *json { Format::Json } else { Format::Text };
    opt(&mut args, "-a", Some(algorithm));
    opt(&mut args, "-l", Some(0));
    opt(&mut args, "-C", Some(chunk));
    if *overlap {
        args.push("-o".into());
    }
    if *ts {
        args.push("-T".into());
    }

    let pipe = fifo(ext)?;
    let begun = now();
    let mut tool = start("fpcalc", &args, &[&pipe.0], &[], Sink::File)?;
    let Some(mut feed) = Feed::open(&pipe.0, &mut tool)? else {
        return Err(Fail::Violation(format!("fpcalc {args:?} does not read the pipe: {}", tool.end()?.describe())));
    };
    // When (at the earliest) the audio of each chunk was complete, and when its result was seen.
    let mut heard: Vec<f64> = Vec::new();
    let mut seen = Vec::new();
    let mut at = 0;
    // (positions are proportional to time but for headers and single packets)
    let position = |k: usize| ((body.len() as f64 * needed(k) / frames as f64) as usize).saturating_sub(24 << 10);
    for k in 1..=*results {
        let to = ((body.len() as f64 * needed(k) / frames as f64) as usize + ahead).min(body.len());
        std::thread::sleep(Duration::from_millis(*pause_ms));
        while at < to {
            let n = (to - at).min(*write);
            while position(heard.len() + 1) <= at + n {
                heard.push(now());
            }
            match feed.write(&body[at..at + n]) {
                Ok(()) => at += n,
                Err(e) => return Err(Fail::Violation(format!("fpcalc {args:?} stops reading ({e:?}) within chunk {k}: {}", tool.printed()?))),
            }
        }
        let t = Instant::now();
        while complete(&tool.printed()?, *json) < k {
            let ended = tool.ended()?;
            if ended || t.elapsed() > PATIENCE {
                return Err(Fail::Violation(format!(
                    "fpcalc {args:?} has {} result(s) {} after the audio of {k} chunk(s) of {chunk} s and {ahead} bytes more were written to the pipe: {:.300}",
                    complete(&tool.printed()?, *json),
                    if ended { "when it ended" } else { "40 s" },
                    tool.printed()?
                )));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        seen.push(now());
    }
    while at < body.len() {
        let n = (body.len() - at).min(*write);
        if feed.write(&body[at..at + n]).is_err() {
            break;
        }
        at += n;
    }
    drop(feed);
    let live = tool.end()?;
    let got = entries(&live, &args, format, Form::Raw)?;
    let file = Scratch::file(ext, &body)?;
    let stored = crate::cli::run("fpcalc", &args, &[&file.0])?;
    let want = entries(&stored, &args, format, Form::Raw)?;
    if !*ts {
        ensure!(live.stdout == stored.stdout, "fpcalc {args:?} gives something else through a pipe: {} -- and from a file: {}", live.describe(), stored.describe());
    }
    ensure!(got.len() == want.len(), "fpcalc {args:?}: {} results through a pipe, {} from a file", got.len(), want.len());
    for (k, (a, b)) in got.iter().zip(&want).enumerate() {
        if let Some(d) = first_diff(&a.fp, &b.fp) {
            return Err(Fail::Violation(format!("fpcalc {args:?}: result {k} through a pipe differs from that from a file: {d}")));
        }
        ensure!(a.duration == b.duration, "fpcalc {args:?}: duration {:?} through a pipe and {:?} from a file", a.duration, b.duration);
    }
    if *ts {
        for (k, e) in got.iter().enumerate() {
            let Some(t) = e.timestamp else { return Err(Fail::Violation("no timestamp".into())) };
            // Not before the audio of the chunk before had been written, nor after the result was there.
            let low = if k == 0 { begun } else { heard.get(k - 1).copied().unwrap_or(begun) - delay_s };
            let high = seen.get(k).copied().unwrap_or_else(now);
            ensure!(
                t >= low - 0.01 && t <= high + 0.01,
                "fpcalc {args:?}: the timestamp of result {k} is {:.3} s after the start of the run, and should be within {:.3} and {:.3}",
                t - begun,
                low - begun,
                high - begun
            );
        }
        obs.label("unix_timestamps");
    }
    obs.label(ext);
    obs.label_if(*overlap, "overlap");
    obs.count("results_before_the_end", *results as u64);
    obs.nontrivial = *results > 1 && got.iter().any(|e| distinct(&e.fp) > 1);
    Ok(())
}

/// What may be buffered on the way, in the pipe, the reader and the pages of the container.
fn ahead(format: &LiveFormat) -> usize {
    if matches!(format, LiveFormat::Wav { .. } | LiveFormat::Flac { .. }) {
        64 << 10
    } else {
        192 << 10
    }
}

fn recording(format: &LiveFormat, rate: u32, channels: usize, spread: &Spread, pieces: &[Piece], frames: usize) -> (Vec<u8>, &'static str) {
    let mono = Clip { pieces: pieces.to_vec(), len: frames }.render(rate);
    let data = interleave(&mono, channels, spread);
    let sound = Sound { rate, channels, data: &data };
    match format {
        LiveFormat::Wav { endless: e } => {
            let v = wav(rate, channels, &data);
            (if *e { endless(v) } else { v }, "wav")
        }
        LiveFormat::Flac { block } => (flac(rate, channels, &data, usize::from(*block)), "flac"),
        LiveFormat::Mkv { block } => (mkv(&[Track::Audio(sound, &[*block])], 1000, None, &[], Bad::Content), "mkv"),
        LiveFormat::Ogg { block } => (ogg(&[Track::Audio(sound, &[*block])], 255), "ogg"),
    }
}

fn limited(c: &LiveCase, obs: &mut Obs) -> Outcome {
    let LiveCase::Limited { format, rate, channels, spread, pieces, algorithm, limit, chunk, overlap, json, write } = c else {
        return Ok(());
    };
    let needed = *limit as f64 * f64::from(*rate) + 2.0;
    let frames = needed as usize + *rate as usize / 2 + ahead(format) * 3 / (2 * channels);
    let (body, ext) = recording(format, *rate, *channels, spread, pieces, frames);
    let to = ((body.len() as f64 * needed / frames as f64) as usize + ahead(format)).min(body.len());
    let mut args = form_args(if *json { Format::Json } else { Format::Text }, Form::Raw);
    opt(&mut args, "-a", Some(algorithm));
    opt(&mut args, "-l", Some(limit));
    opt(&mut args, "-C", *chunk);
    if *overlap {
        args.push("-o".into());
    }
    let pipe = fifo(ext)?;
    let mut tool = start("fpcalc", &args, &[&pipe.0], &[], Sink::File)?;
    let Some(mut feed) = Feed::open(&pipe.0, &mut tool)? else {
        return Err(Fail::Violation(format!("fpcalc {args:?} does not read the pipe: {}", tool.end()?.describe())));
    };
    for part in body[..to].chunks(*write) {
        if feed.write(part).is_err() {
            // (it has enough; or it has failed, which shows in what it has printed)
            break;
        }
    }
    let t = Instant::now();
    while !tool.ended()? {
        ensure!(
            t.elapsed() < PATIENCE,
            "fpcalc {args:?} still runs 40 s after the {limit} s it is to process (and {} bytes more) were written to the pipe",
            ahead(format)
        );
        std::thread::sleep(Duration::from_micros(500));
    }
    let live = tool.end()?;
    drop(feed);
    let file = Scratch::file(ext, &body)?;
    let stored = crate::cli::run("fpcalc", &args, &[&file.0])?;
    ensure!(
        live.code == Some(0) && stored.code == Some(0) && live.stdout == stored.stdout,
        "fpcalc {args:?} gives something else for a stream that goes on: {} -- and for a file: {}",
        live.describe(),
        stored.describe()
    );
    obs.label("limited");
    obs.nontrivial = live.stdout.lines().any(|l| l.contains(','));
    Ok(())
}
