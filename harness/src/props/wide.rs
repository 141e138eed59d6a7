//! C27..C29: threads, memory and cost.

use super::fps::{expand, items, pair, Items, Pair};
use crate::alloc;
use crate::audio::*;
use crate::engine::*;
use crate::ensure;
use crate::session::*;
use crate::watch::thread_cpu;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{match_fingerprints, Configuration, FingerprintCompressor, Fingerprinter, Segment};
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

// ------------------------------------------------------------------ C27

pub struct C27;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// Consecutive sessions of one fingerprinter.
    Sessions { cfg: u8, streams: Vec<(Stream, Vec<usize>)> },
    Match { cfg: u8, pair: Pair },
    Compress { cfg: u8, items: Items, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadCase {
    cfgs: Vec<CfgSpec>,
    jobs: Vec<Job>,
    /// Jobs give up the processor after so many chunks.
    pause: u8,
    rounds: u8,
}

#[derive(PartialEq, Debug)]
enum Output {
    Prints(Vec<Vec<u32>>),
    Segments(Vec<(usize, usize, usize, u64)>),
    Bytes(Vec<u8>),
}

fn plain(s: &[Segment]) -> Vec<(usize, usize, usize, u64)> {
    s.iter().map(|s| (s.offset1, s.offset2, s.items_count, s.score.to_bits())).collect()
}

/// A job with its input expanded.
enum Ready<'a> {
    Sessions(&'a Configuration, Vec<(u32, usize, Vec<i16>, &'a [usize])>),
    Match(&'a Configuration, Vec<u32>, Vec<u32>),
    Compress(&'a Configuration, Vec<u32>),
}

fn ready<'a>(job: &'a Job, cfgs: &'a [Configuration]) -> Ready<'a> {
    let pick = |i: u8| &cfgs[usize::from(i) % cfgs.len()];
    match job {
        Job::Sessions { cfg, streams } => {
            Ready::Sessions(pick(*cfg), streams.iter().map(|(s, sizes)| (s.rate, s.channels, s.data(), &sizes[..])).collect())
        }
        Job::Match { cfg, pair } => {
            let (a, b) = pair.build();
            Ready::Match(pick(*cfg), a, b)
        }
        Job::Compress { cfg, items, len } => Ready::Compress(pick(*cfg), expand(items, usize::from(*len))),
    }
}

fn perform(job: &Ready, pause: u8) -> Result<Output, Fail> {
    lib("a job", || match job {
        Ready::Sessions(cfg, streams) => {
            let mut p = Fingerprinter::new(cfg);
            let mut prints = Vec::new();
            let mut k = 0u32;
            for (rate, ch, data, sizes) in streams {
                p.start(*rate, *ch as u32).map_err(|e| format!("start({rate}, {ch}) failed: {e}"))?;
                chunks(data, *ch, sizes, |c| {
                    p.consume(c);
                    k += 1;
                    if pause > 0 && k % u32::from(pause) == 0 {
                        std::thread::yield_now();
                    }
                });
                p.finish();
                prints.push(p.fingerprint().to_vec());
            }
            Ok::<_, String>(Output::Prints(prints))
        }
        Ready::Match(cfg, a, b) => {
            let s = match_fingerprints(a, b, cfg).map_err(|e| format!("matching {} and {} items failed: {e}", a.len(), b.len()))?;
            Ok(Output::Segments(plain(&s)))
        }
        Ready::Compress(cfg, v) => Ok(Output::Bytes(FingerprintCompressor::from(*cfg).compress(v))),
    })?
    .map_err(Fail::Violation)
}

impl Prop for C27 {
    type Case = ThreadCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "Two to eight jobs (sessions of a fingerprinter, matching, compressing) that share one to three configurations, run at the same time on a thread each, several times over, with pauses between chunks; every job must give what it gives alone. Non-trivial: two or more jobs make fingerprints of at least two different items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1000, 20000)
    }
    fn workers(&self) -> usize {
        4
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ThreadCase> {
        let sizes = prop_oneof![
            2 => proptest::collection::vec(prop_oneof![100usize..5000, 5000usize..40_000], 1..4),
            1 => Just(vec![usize::MAX / 2]),
        ];
        let streams = || proptest::collection::vec((stream(rates(), 28666, 1365, 50_000), sizes.clone()), 1..3);
        let job = prop_oneof![
            6 => (any::<u8>(), streams()).prop_map(|(cfg, streams)| Job::Sessions { cfg, streams }),
            1 => (any::<u8>(), pair()).prop_map(|(cfg, pair)| Job::Match { cfg, pair }),
            1 => (any::<u8>(), items(), 0u16..3000).prop_map(|(cfg, items, len)| Job::Compress { cfg, items, len }),
        ];
        // All on one configuration, all on the same job, or anything.
        let jobs = prop_oneof![
            3 => proptest::collection::vec(job.clone(), 2..9),
            1 => (job, 2usize..9).prop_map(|(j, n)| vec![j; n]),
        ];
        (proptest::collection::vec(any_cfg(), 1..4), jobs, prop_oneof![Just(0u8), 1u8..5], 2u8..5)
            .prop_map(|(cfgs, jobs, pause, rounds)| ThreadCase { cfgs, jobs, pause, rounds })
            .boxed()
    }
    fn check(&self, c: &ThreadCase, obs: &mut Obs) -> Outcome {
        let own: Vec<Configuration> = c.cfgs.iter().map(|s| s.build()).collect();
        let shared: Vec<Configuration> = c.cfgs.iter().map(|s| s.build()).collect();
        let mut alone = Vec::new();
        for j in &c.jobs {
            alone.push(perform(&ready(j, &own), 0)?);
        }
        let jobs: Vec<Ready> = c.jobs.iter().map(|j| ready(j, &shared)).collect();
        for round in 0..c.rounds {
            let gate = Barrier::new(jobs.len());
            let together: Vec<Result<Output, Fail>> = std::thread::scope(|s| {
                let handles: Vec<_> = jobs
                    .iter()
                    .map(|j| {
                        let gate = &gate;
                        s.spawn(move || {
                            gate.wait();
                            perform(j, c.pause)
                        })
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| Err(Fail::Harness("a thread ended early".into()))))
                    .collect()
            });
            for (k, (t, a)) in together.into_iter().zip(&alone).enumerate() {
                let t = t?;
                if t == *a {
                    continue;
                }
                let what = match (&t, a) {
                    (Output::Prints(t), Output::Prints(a)) => {
                        t.iter().zip(a).enumerate().find_map(|(n, (t, a))| first_diff(t, a).map(|d| format!("session {n}, {d}"))).unwrap_or_default()
                    }
                    (t, a) => format!("{t:?} and {a:?}").chars().take(400).collect(),
                };
                return Err(Fail::Violation(format!(
                    "job {k} of {} running at the same time (round {round}) gives something else than alone: {what}",
                    jobs.len()
                )));
            }
        }
        let prints = alone.iter().filter(|o| matches!(o, Output::Prints(p) if p.iter().any(|p| distinct(p) > 1))).count();
        obs.label_if(jobs.iter().any(|j| matches!(j, Ready::Match(..))), "matching");
        obs.label_if(jobs.iter().any(|j| matches!(j, Ready::Compress(..))), "compressing");
        obs.label_if(c.cfgs.len() == 1, "one_configuration");
        obs.count("threads", jobs.len() as u64 * u64::from(c.rounds));
        obs.nontrivial = prints > 1;
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["The schedules are those of the operating system (8 processors, up to 32 threads at a time), not enumerated; a replay may need several runs.".into()]
    }
}

// ------------------------------------------------------------------ C28

pub struct C28;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Memory {
    Match { first: Vec<(Items, u16)>, second: Vec<(Items, u16)>, same: bool },
    Compress { items: Vec<(Items, u16)> },
    /// Instances created, used and dropped.
    Drop { stream: Stream, finish: bool, again: u8, other_rates: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemoryCase {
    cfg: CfgSpec,
    what: Memory,
}

fn join(parts: &[(Items, u16)]) -> Vec<u32> {
    parts.iter().flat_map(|(i, n)| expand(i, usize::from(*n))).collect()
}

/// Of matching, per item of both sides.
const MATCH_BYTES: i64 = 200;
/// Of compressing, per item.
const COMPRESS_BYTES: i64 = 120;
const SLACK: i64 = 1 << 20;

impl Prop for C28 {
    type Case = MemoryCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "Fingerprints of up to 12000 items, many of them repetitive so that millions of item pairs agree, matched or compressed; fingerprinters created, used for a stream, finished or not, and dropped. The counting allocator must see at most 200 bytes per item for matching, 120 for compressing, and 1 MB, and nothing left over afterwards but the result. Non-trivial: at least 1000 items, or an instance with items dropped."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(4800, 60000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<MemoryCase> {
        let part = || (items(), prop_oneof![2 => 0u16..300, 2 => 300u16..3000, 1 => 2000u16..6000]);
        let parts = || proptest::collection::vec(part(), 0..3);
        let what = prop_oneof![
            4 => (parts(), parts(), any::<bool>()).prop_map(|(first, second, same)| Memory::Match { first, second, same }),
            2 => (parts(), proptest::option::of((items(), any::<u16>()))).prop_map(|(mut items, long)| {
                items.extend(long);
                Memory::Compress { items }
            }),
            2 => (stream(rates(), 28666, 1365, 60_000), any::<bool>(), 1u8..4, any::<bool>())
                .prop_map(|(stream, finish, again, other_rates)| Memory::Drop { stream, finish, again, other_rates }),
        ];
        (any_cfg(), what).prop_map(|(cfg, what)| MemoryCase { cfg, what }).boxed()
    }
    fn check(&self, c: &MemoryCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        match &c.what {
            Memory::Match { first, second, same } => {
                let a = join(first);
                let b = if *same { a.clone() } else { join(second) };
                let n = (a.len() + b.len()) as i64;
                // (what is made only once stays)
                lib("match_fingerprints", || match_fingerprints(&a, &b, &cfg).is_ok())?;
                let before = alloc::live();
                let (r, peak) = alloc::peak_over(|| lib("match_fingerprints", || match_fingerprints(&a, &b, &cfg)));
                let r = r?;
                ensure!(
                    peak <= MATCH_BYTES * n + SLACK,
                    "matching {} and {} items took {peak} bytes ({:.0} per item)",
                    a.len(),
                    b.len(),
                    peak as f64 / n as f64
                );
                drop(r);
                let left = alloc::live() - before;
                ensure!(left <= 1024, "{left} bytes are left after matching {} and {} items", a.len(), b.len());
                obs.label("match");
                obs.label_if(distinct(&a) * 20 < a.len() && *same, "repetitive");
                obs.nontrivial = n > 1000;
            }
            Memory::Compress { items } => {
                let a = join(items);
                let n = a.len() as i64;
                lib("compress", || FingerprintCompressor::from(&cfg).compress(&a).len())?;
                let before = alloc::live();
                let (r, peak) = alloc::peak_over(|| lib("compress", || FingerprintCompressor::from(&cfg).compress(&a)));
                let r = r?;
                ensure!(peak <= COMPRESS_BYTES * n + SLACK, "compressing {n} items took {peak} bytes ({:.0} per item)", peak as f64 / n as f64);
                drop(r);
                let left = alloc::live() - before;
                ensure!(left <= 1024, "{left} bytes are left after compressing {n} items");
                obs.label("compress");
                obs.nontrivial = n > 1000;
            }
            Memory::Drop { stream, finish, again, other_rates } => {
                let data = stream.data();
                let mut items = 0;
                let mut rate = stream.rate;
                let mut cycle = || {
                    lib("a session", || {
                        let mut p = Fingerprinter::new(&cfg);
                        for _ in 0..*again {
                            // (nothing may be kept for each rate that comes by)
                            rate += u32::from(*other_rates);
                            p.start(rate, stream.channels as u32).map_err(|e| format!("start failed: {e}"))?;
                            p.consume(&data);
                            if *finish {
                                p.finish();
                            }
                        }
                        items = p.fingerprint().len();
                        Ok::<_, String>(())
                    })?
                    .map_err(Fail::Violation)
                };
                // (what is made only once stays)
                cycle()?;
                let before = alloc::live();
                for _ in 0..3 {
                    cycle()?;
                }
                let left = alloc::live() - before;
                ensure!(left <= 1024, "{left} bytes are left after three fingerprinters with {again} sessions of {} frames each", stream.frames());
                obs.label("drop");
                obs.nontrivial = items > 0;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C29

pub struct C29;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
    cfg: CfgSpec,
    rate: u32,
    channels: usize,
    kind: Kind,
    /// Chunk size of the second measurement; the first is one of 4096 frames.
    size: usize,
    read: bool,
}

fn timed(cfg: &Configuration, rate: u32, ch: usize, block: &[i16], rounds: usize, size: usize, read: bool) -> Result<f64, Fail> {
    let mut p = lib("new", || Fingerprinter::new(cfg))?;
    lib("start", || p.start(rate, ch as u32))?.map_err(|e| Fail::Violation(format!("start({rate}, {ch}) failed: {e}")))?;
    let t = thread_cpu();
    lib("consume", || {
        let mut n = 0;
        for _ in 0..rounds {
            for c in block.chunks(size.saturating_mul(ch)) {
                p.consume(c);
                if read {
                    n += p.fingerprint().len();
                }
            }
        }
        std::hint::black_box(n);
        p.finish();
    })?;
    Ok(thread_cpu() - t)
}

impl Prop for C29 {
    type Case = CostCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "A configuration, a rate, one or two channels and a chunk size from a single frame up; the processor time of 40 times as long a stream must be less than 5 times as much per frame, and that of the same stream in other chunks at most 4 times as much plus 0.2 microseconds per chunk (the least of up to five measurements counts; the ratios measured are below 1.8 and 40 ns per chunk). Non-trivial: the stream has items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(240, 4000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<CostCase> {
        let rate = prop_oneof![2 => Just(NATIVE), 2 => proptest::sample::select(vec![8000u32, 22050, 44100, 48000]), 1 => 5000u32..60_000];
        let size = prop_oneof![4 => 1usize..4, 2 => 4usize..300, 1 => 300usize..5000, 1 => 5000usize..200_000];
        (any_cfg(), rate, 1usize..3, prop_oneof![3 => melody(loud_amp()), 1 => kind()], size, any::<bool>())
            .prop_map(|(cfg, rate, channels, kind, size, read)| CostCase { cfg, rate, channels, kind, size, read })
            .boxed()
    }
    fn check(&self, c: &CostCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let block = interleave(&Clip::single(c.kind.clone(), 65536).render(c.rate), c.channels, &Spread::Same);
        let run = |rounds, size| timed(&cfg, c.rate, c.channels, &block, rounds, size, c.read);
        let frames = 2.0 * 65536.0;
        let chunks = 2.0 * (65536.0 / c.size as f64).ceil();
        // Disturbances only ever add time, so the least of some measurements is close to the cost.
        let (mut short, mut long, mut other) = (f64::MAX, f64::MAX, f64::MAX);
        let mut good = false;
        for _ in 0..5 {
            short = short.min(run(2, 4096)?);
            long = long.min(run(80, 4096)?);
            other = other.min(run(2, c.size)?);
            // (a frame takes at least 10 ns; a measurement of less is no basis)
            let base = short.max(frames * 1e-8);
            good = long < 5.0 * 40.0 * base && other < 4.0 * base + chunks * 2e-7;
            if good {
                break;
            }
        }
        let ns = |t: f64, frames: f64| t / frames * 1e9;
        ensure!(
            good,
            "at {} Hz, {} channel(s): {:.0} ns per frame for {frames} frames in chunks of 4096, {:.0} ns per frame for 40 times as many, {:.0} ns per frame in chunks of {}",
            c.rate,
            c.channels,
            ns(short, frames),
            ns(long, frames * 40.0),
            ns(other, frames),
            c.size
        );
        obs.count("ps_per_frame", (ns(short, frames) * 1000.0) as u64);
        obs.label_if(c.size < 4, "tiny_chunks");
        obs.label_if(c.rate != NATIVE, "resampled");
        obs.label_if(c.read, "read_after_every_chunk");
        let duration = 80.0 * 65536.0 / f64::from(c.rate) * f64::from(NATIVE);
        obs.nontrivial = c.cfg.silence_threshold().is_none() && c.cfg.items(duration as usize) > 0;
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Processor time of the thread as measured by the system; nothing is claimed about the constant factor.".into()]
    }
}
