//! What Symphonia delivers for a file, as the oracle for the tools. Decoding takes place in a process of
//! its own (`vh decode FILE`), as Symphonia panics, loops or exhausts memory on some damaged files.

use crate::engine::Fail;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use symphonia::core::audio::SampleBuffer;
use symphonia::core::codecs::CODEC_TYPE_NULL;
use symphonia::core::errors::Error;
use symphonia::core::io::MediaSourceStream;
use symphonia::core::probe::Hint;

/// More samples than any case has.
const MOST: usize = 40_000_000;

#[derive(Debug, PartialEq)]
pub enum Event {
    Frames(Vec<i16>),
    /// A packet that the decoder refuses.
    Bad,
    /// Audio of another rate or of other channels; what follows is not looked at.
    Changed,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    /// No packet follows.
    Plain,
    /// The reader refuses what follows.
    Damaged,
    /// The reader reports that the next packet cannot be decoded.
    Undecodable,
    /// The reader wants to begin anew.
    Reset,
}

#[derive(Debug)]
pub enum Decoded {
    /// No reader, no track, or no decoder.
    Unusable,
    Audio { rate: u32, channels: usize, events: Vec<Event>, end: End },
    /// The decoder crashes or takes too long.
    Unknown,
}

/// Decodes in this process, and writes what is found to standard output.
pub fn decode_here(path: &Path) -> i32 {
    let Ok(src) = std::fs::File::open(path) else { return 3 };
    let mss = MediaSourceStream::new(Box::new(src), Default::default());
    let mut hint = Hint::new();
    if let Some(ext) = path.extension().and_then(|e| e.to_str()) {
        hint.with_extension(ext);
    }
    let Ok(probed) = symphonia::default::get_probe().format(&hint, mss, &Default::default(), &Default::default()) else { return 3 };
    let mut format = probed.format;
    let Some(track) = format.tracks().iter().find(|t| t.codec_params.codec != CODEC_TYPE_NULL) else { return 3 };
    let id = track.id;
    let Ok(mut decoder) = symphonia::default::get_codecs().make(&track.codec_params, &Default::default()) else { return 3 };
    let mut body: Vec<u8> = Vec::new();
    let mut spec = None;
    let mut total = 0;
    let end = loop {
        let packet = match format.next_packet() {
            Ok(p) => p,
            Err(Error::ResetRequired) => break 2u8,
            Err(Error::IoError(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break 0,
            Err(Error::DecodeError(_)) => break 3,
            Err(_) => break 1,
        };
        if packet.track_id() != id {
            continue;
        }
        match decoder.decode(&packet) {
            Ok(buf) => {
                let s = *buf.spec();
                if *spec.get_or_insert(s) != s {
                    body.push(3);
                    break 0;
                }
                let mut samples = SampleBuffer::<i16>::new(buf.frames().max(1) as u64, s);
                samples.copy_interleaved_ref(buf);
                total += samples.len();
                if total > MOST {
                    return 4;
                }
                body.push(1);
                body.extend((samples.len() as u32).to_le_bytes());
                body.extend(samples.samples().iter().flat_map(|s| s.to_le_bytes()));
            }
            Err(_) => body.push(2),
        }
    };
    let (rate, channels) = spec.map_or((0, 0), |s| (s.rate, s.channels.count() as u32));
    let mut head = vec![end];
    head.extend(rate.to_le_bytes());
    head.extend(channels.to_le_bytes());
    head.extend(body);
    i32::from(std::io::stdout().write_all(&head).is_err()) * 2
}

extern "C" {
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}

pub fn decode(path: &Path) -> Result<Decoded, Fail> {
    let err = |e: std::io::Error| Fail::Harness(format!("decoding {}: {e}", path.display()));
    let mut c = Command::new(std::env::current_exe().map_err(err)?);
    c.arg("decode").arg(path).env_remove("VH_CHILD").stdin(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[8, 9]);
            setrlimit(9, &[2 << 30, 2 << 30]);
            Ok(())
        });
    }
    let out = c.output().map_err(err)?;
    match out.status.code() {
        Some(0) => {}
        Some(3) => return Ok(Decoded::Unusable),
        Some(2) => return Err(Fail::Harness("the decoding process cannot write".into())),
        _ => return Ok(Decoded::Unknown),
    }
    parse(&out.stdout).ok_or_else(|| Fail::Harness("the decoding process wrote something else".into()))
}

fn parse(b: &[u8]) -> Option<Decoded> {
    let word = |at: usize| Some(u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?));
    let end = match b.first()? {
        0 => End::Plain,
        1 => End::Damaged,
        3 => End::Undecodable,
        _ => End::Reset,
    };
    let (rate, channels) = (word(1)?, word(5)? as usize);
    let mut events = Vec::new();
    let mut at = 9;
    while at < b.len() {
        if b[at] != 1 {
            events.push(if b[at] == 2 { Event::Bad } else { Event::Changed });
            at += 1;
            continue;
        }
        let n = word(at + 1)? as usize;
        let body = b.get(at + 5..at + 5 + 2 * n)?;
        events.push(Event::Frames(body.chunks(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()));
        at += 5 + 2 * n;
    }
    Some(Decoded::Audio { rate, channels, events, end })
}
