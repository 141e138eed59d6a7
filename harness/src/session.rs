//! Driving the library under test.

use crate::audio::{chunks, interleave, pieces, CfgSpec, Clip, Piece, Spread, NATIVE};
use crate::engine::{lib, Fail};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{Configuration, Fingerprinter};
use serde::{Deserialize, Serialize};

/// Fingerprint of a whole stream given in chunks of the given sizes (in frames).
pub fn fp_chunked(cfg: &Configuration, rate: u32, ch: usize, data: &[i16], sizes: &[usize]) -> Result<Vec<u32>, Fail> {
    lib("fingerprinting", || {
        let mut p = Fingerprinter::new(cfg);
        p.start(rate, ch as u32).map_err(|e| format!("start({rate}, {ch}) failed: {e}"))?;
        chunks(data, ch, sizes, |c| p.consume(c));
        p.finish();
        Ok::<_, String>(p.fingerprint().to_vec())
    })?
    .map_err(Fail::Violation)
}

pub fn fp(cfg: &Configuration, rate: u32, ch: usize, data: &[i16]) -> Result<Vec<u32>, Fail> {
    fp_chunked(cfg, rate, ch, data, &[usize::MAX / 2])
}

pub fn distinct(fp: &[u32]) -> usize {
    let mut v = fp.to_vec();
    v.sort_unstable();
    v.dedup();
    v.len()
}

/// First difference of two fingerprints.
pub fn first_diff(a: &[u32], b: &[u32]) -> Option<String> {
    if let Some(i) = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) {
        return Some(format!("item {i} (of {} and {}): {:#010x} and {:#010x}", a.len(), b.len(), a[i], b[i]));
    }
    (a.len() != b.len()).then(|| format!("{} items and {} items", a.len(), b.len()))
}

/// A stream at any rate.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    pub rate: u32,
    pub channels: usize,
    pub spread: Spread,
    pub pieces: Vec<Piece>,
    /// Length in samples at 11025 Hz...
    pub native_len: usize,
    /// ... unless this is set: then `native_len` is the number of frames as it is.
    pub as_is: bool,
}

impl Stream {
    pub fn frames(&self) -> usize {
        if self.as_is {
            self.native_len
        } else {
            (self.native_len as u128 * u128::from(self.rate) / u128::from(NATIVE)) as usize
        }
    }

    pub fn mono(&self) -> Vec<i16> {
        Clip { pieces: self.pieces.clone(), len: self.frames() }.render(self.rate)
    }

    pub fn data(&self) -> Vec<i16> {
        interleave(&self.mono(), self.channels, &self.spread)
    }

    pub fn is_silent(&self) -> bool {
        self.pieces.iter().all(|p| p.kind.is_silent())
    }
}

pub fn channel_count() -> BoxedStrategy<usize> {
    prop_oneof![4 => Just(1usize), 4 => Just(2usize), 3 => 3usize..9, 1 => 9usize..40].boxed()
}

/// Streams of up to `max` samples at 11025 Hz, with lengths biased to boundaries.
pub fn stream(rate: BoxedStrategy<u32>, delay: usize, step: usize, max: usize) -> BoxedStrategy<Stream> {
    (rate, channel_count(), crate::audio::spread(), pieces(), crate::audio::lengths(delay, step, max), any::<bool>())
        .prop_map(move |(rate, channels, spread, pieces, native_len, as_is)| {
            let mut s = Stream { rate, channels, spread, pieces, native_len, as_is };
            // bounds the number of samples
            while s.frames() * s.channels > 1_500_000 && s.channels > 1 {
                s.channels = (s.channels / 2).max(1);
            }
            s
        })
        .boxed()
}

/// Presets, and small-framed variants of them, which make the history of a stream long.
pub fn any_cfg() -> BoxedStrategy<CfgSpec> {
    prop_oneof![
        3 => crate::audio::preset_cfg(),
        2 => (0u8..5, proptest::sample::select(vec![(256usize, 128usize), (512, 300), (1024, 683), (300, 0), (128, 96)]))
            .prop_map(|(p, (s, o))| CfgSpec::preset(p).with_frame(s, o)),
    ]
    .boxed()
}
