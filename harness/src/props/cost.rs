//! C31: the time of matching and compressing.

use super::fps::{expand, items, Items};
use crate::audio::{hash2, CfgSpec};
use crate::engine::*;
use crate::ensure;
use crate::watch::thread_cpu;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{match_fingerprints, Configuration, FingerprintCompressor};
use serde::{Deserialize, Serialize};

pub struct C31;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Work {
    Match(Shape),
    Compress { items: Items, len: usize },
}

/// Two fingerprints that agree in blocks along one offset.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    len: usize,
    /// Of the second, in percent of the first.
    second: u8,
    /// Where the second starts within the first (or the first within the second), in percent.
    place: i8,
    /// Items that agree and items that do not, in turn.
    block: u16,
    gap: u16,
    /// Bits by which agreeing items differ, every other block.
    noise: u8,
    /// Bits of the prefix that vary.
    prefix: u8,
    seed: u32,
    /// Both fingerprints are the same.
    same: bool,
}

impl Shape {
    fn build(&self, len: usize) -> (Vec<u32>, Vec<u32>) {
        let h = |k: u64, i: i64| hash2(u64::from(self.seed) ^ k << 32, i as u64) as u32;
        let mask = if self.prefix >= 12 { u32::MAX } else { !(!0u32 << 20 << self.prefix) | 0xfffff };
        let n = len;
        let m = n * usize::from(self.second) / 100;
        let shift = (if self.place >= 0 { n } else { m }) as i64 * i64::from(self.place) / 100;
        let first: Vec<u32> = (0..n as i64).map(|i| h(1, i) & mask).collect();
        if self.same {
            return (first.clone(), first);
        }
        let period = i64::from(self.block) + i64::from(self.gap);
        let second = (0..m as i64)
            .map(|j| {
                let i = j + shift;
                let shared = period > 0 && i.rem_euclid(period) < i64::from(self.block);
                let x = if shared { h(1, i) } else { h(2, j) };
                let noisy = period > 0 && i.div_euclid(period) % 2 == 1;
                let mut flip = 0u32;
                if shared && noisy {
                    for b in 0..u64::from(self.noise) {
                        flip |= 1 << (hash2(u64::from(self.seed) + b, j as u64) % 20);
                    }
                }
                (x ^ flip) & mask
            })
            .collect();
        (first, second)
    }
}

/// Pairs of items with equal prefixes.
fn agreeing(a: &[u32], b: &[u32]) -> f64 {
    let mut n = vec![(0u64, 0u64); 4096];
    for x in a {
        n[(x >> 20) as usize].0 += 1;
    }
    for x in b {
        n[(x >> 20) as usize].1 += 1;
    }
    n.iter().map(|&(p, q)| (p * p + p * q + q * q) as f64).sum()
}

/// Of `n` items, with the logarithm for sorting.
fn sorting(n: usize) -> f64 {
    n as f64 * ((n + 2) as f64).log2()
}

fn match_time(a: &[u32], b: &[u32], cfg: &Configuration, rounds: u32) -> Result<f64, Fail> {
    let t = thread_cpu();
    for _ in 0..rounds {
        std::hint::black_box(lib("match_fingerprints", || match_fingerprints(a, b, cfg))?)
            .map_err(|e| Fail::Violation(format!("matching {} and {} items failed: {e}", a.len(), b.len())))?;
    }
    Ok((thread_cpu() - t) / f64::from(rounds))
}

fn compress_time(a: &[u32], cfg: &Configuration, rounds: u32) -> Result<f64, Fail> {
    let t = thread_cpu();
    for _ in 0..rounds {
        std::hint::black_box(lib("compress", || FingerprintCompressor::from(cfg).compress(a))?);
    }
    Ok((thread_cpu() - t) / f64::from(rounds))
}

const SMALL: usize = 3000;
const FACTOR: f64 = 8.0;

impl Prop for C31 {
    type Case = Work;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "Pairs of fingerprints of up to 300000 items (thorough: 520000, 800000 to compress) that agree in blocks of any size along an offset, with prefixes that are spread or repeat, and fingerprints to compress. The processor time must be at most 8 times the one extrapolated from small inputs: for matching, a cost per item (times its logarithm) measured on the same shape with 3000 items and a cost per pair of equal prefixes measured on items that all agree; for compressing, the cost per item of 3000. The least of up to five measurements counts. Non-trivial: at least 30000 items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1000, 10000)
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Work> {
        let len = t.pick(300_000usize, 800_000);
        let block = prop_oneof![2 => 1u16..40, 2 => 20u16..400, 1 => Just(50_000u16), 1 => Just(0u16)];
        let gap = prop_oneof![2 => 1u16..40, 2 => 20u16..400, 1 => Just(50_000u16), 1 => Just(0u16)];
        let shape = (
            (20_000usize..len, prop_oneof![2 => Just(100u8), 2 => 1u8..100], prop_oneof![2 => Just(0i8), 2 => -99i8..100]),
            (block, gap, 0u8..20, prop_oneof![3 => Just(12u8), 1 => 8u8..12], any::<u32>(), prop::bool::weighted(0.1)),
        )
            .prop_map(|((len, second, place), (block, gap, noise, prefix, seed, same))| {
                // (what repeats much is inherently slow)
                let len = len.min(if prefix < 12 { 60_000 } else { 520_000 });
                Work::Match(Shape { len, second, place, block, gap, noise, prefix, seed, same })
            });
        prop_oneof![
            4 => shape,
            1 => (items(), 20_000usize..len).prop_map(|(items, len)| Work::Compress { items, len }),
        ]
        .boxed()
    }
    fn check(&self, c: &Work, obs: &mut Obs) -> Outcome {
        let cfg = CfgSpec::preset(1).build();
        match c {
            Work::Match(s) => {
                let (a, b) = s.build(s.len);
                let (sa, sb) = s.build(SMALL);
                let all = vec![s.seed; 1000];
                let (mut long, mut small, mut pairs) = (f64::MAX, f64::MAX, f64::MAX);
                let mut bound = 0.0;
                for _ in 0..5 {
                    long = long.min(match_time(&a, &b, &cfg, 1)?);
                    small = small.min(match_time(&sa, &sb, &cfg, 3)?);
                    pairs = pairs.min(match_time(&all, &all, &cfg, 1)?);
                    let per_item = (small / sorting(sa.len() + sb.len())).max(1e-9);
                    let per_pair = (pairs / agreeing(&all, &all)).max(2e-10);
                    bound = FACTOR * (per_item * sorting(a.len() + b.len()) + per_pair * agreeing(&a, &b));
                    if long < bound {
                        break;
                    }
                }
                ensure!(
                    long < bound,
                    "matching {} and {} items took {:.1} ms, {:.1} ms are expected at most from {:.3} ms for {} and {} items and {:.3} ms for a million equal pairs",
                    a.len(),
                    b.len(),
                    long * 1e3,
                    bound * 1e3,
                    small * 1e3,
                    sa.len(),
                    sb.len(),
                    pairs * 1e3
                );
                obs.count("permille_of_bound", (long / bound * 1000.0) as u64);
                obs.label("match");
                obs.label_if(s.prefix < 12, "repetitive");
                obs.label_if(!s.same && s.block > 0 && s.block < 400 && s.gap > 0, "many_blocks");
                obs.nontrivial = a.len() + b.len() >= 30_000;
            }
            Work::Compress { items, len } => {
                let a = expand(items, *len);
                let small_a = &a[..SMALL.min(a.len())];
                let (mut long, mut small) = (f64::MAX, f64::MAX);
                let mut bound = 0.0;
                for _ in 0..5 {
                    long = long.min(compress_time(&a, &cfg, 1)?);
                    small = small.min(compress_time(small_a, &cfg, 5)?);
                    bound = FACTOR * (small / small_a.len().max(1) as f64).max(2e-9) * a.len() as f64;
                    if long < bound {
                        break;
                    }
                }
                ensure!(long < bound, "compressing {} items took {:.1} ms, {} items {:.3} ms", a.len(), long * 1e3, small_a.len(), small * 1e3);
                obs.count("permille_of_bound", (long / bound * 1000.0) as u64);
                obs.label("compress");
                obs.nontrivial = a.len() >= 30_000;
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Processor time of the thread as measured by the system; nothing is claimed about the constant factor.".into()]
    }
}
