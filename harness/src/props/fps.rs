//! C14..C19: compression and matching of fingerprints.

use crate::audio::{frames, hash2, CfgSpec, NATIVE};
use crate::engine::*;
use crate::ensure;
use crate::refcomp;
use crate::refmatch;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rusty_chromaprint::{match_fingerprints, FingerprintCompressor, MatchError, Segment};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ fingerprints

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Items {
    Random { seed: u32 },
    /// Each item differs from the previous one in a few bits, as in real fingerprints.
    Slow { seed: u32, bits: u8 },
    Constant(u32),
    /// Repeats a short random sequence.
    Periodic { seed: u32, period: u8 },
    /// One bit per item.
    OneBit { seed: u32 },
    /// 0 and the value in turn.
    Toggle(u32),
    Listed(Vec<u32>),
}

pub fn expand(items: &Items, len: usize) -> Vec<u32> {
    let h = |seed: u32, i: usize| hash2(u64::from(seed), i as u64) as u32;
    let mut v: Vec<u32> = Vec::with_capacity(len);
    for i in 0..len {
        let x = match items {
            Items::Random { seed } => h(*seed, i),
            Items::Slow { seed, bits } => {
                let mut x = if i == 0 { h(*seed, usize::MAX) } else { v[i - 1] };
                for b in 0..*bits {
                    x ^= 1 << (hash2(u64::from(*seed), (i * 32 + usize::from(b)) as u64) % 32);
                }
                x
            }
            Items::Constant(c) => *c,
            Items::Periodic { seed, period } => h(*seed, i % usize::from((*period).max(1))),
            Items::OneBit { seed } => 1 << (h(*seed, i) % 32),
            Items::Toggle(c) => {
                if i % 2 == 0 {
                    *c
                } else {
                    0
                }
            }
            Items::Listed(l) => {
                if l.is_empty() {
                    0
                } else {
                    l[i % l.len()]
                }
            }
        };
        v.push(x);
    }
    v
}

pub fn items() -> BoxedStrategy<Items> {
    let value = prop_oneof![
        3 => any::<u32>(),
        1 => Just(0u32),
        1 => Just(u32::MAX),
        2 => (0u32..32).prop_map(|b| 1 << b),
        1 => (0u32..32, 0u32..32).prop_map(|(a, b)| 1 << a | 1 << b),
    ];
    prop_oneof![
        3 => any::<u32>().prop_map(|seed| Items::Random { seed }),
        3 => (any::<u32>(), 0u8..8).prop_map(|(seed, bits)| Items::Slow { seed, bits }),
        1 => value.clone().prop_map(Items::Constant),
        1 => (any::<u32>(), 1u8..40).prop_map(|(seed, period)| Items::Periodic { seed, period }),
        1 => any::<u32>().prop_map(|seed| Items::OneBit { seed }),
        1 => value.clone().prop_map(Items::Toggle),
        1 => proptest::collection::vec(value, 1..20).prop_map(Items::Listed),
    ]
    .boxed()
}

// ------------------------------------------------------------------ C14

pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompressCase {
    cfg: CfgSpec,
    parts: Vec<(Items, usize)>,
}

impl Prop for C14 {
    type Case = CompressCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Fingerprints of 0 to about 70000 items (up to 16777215 in fixed cases) with random, slowly changing, constant, one-bit and listed items, under any algorithm id; the compressed bytes must equal those of an independent encoder and an independent decoder must give back id and items. Non-trivial: some distance between set bits is 7 or more and some is less."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(12000, 300000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<CompressCase> {
        let len = prop_oneof![
            6 => 0usize..40,
            4 => 0usize..1500,
            1 => 253usize..=258,
        ];
        let long = prop_oneof![(65533usize..=65540), 1500usize..70_000];
        let cfg = (0u8..5, proptest::option::of(any::<u8>())).prop_map(|(p, id)| CfgSpec { id, ..CfgSpec::preset(p) });
        let parts = prop_oneof![
            30 => proptest::collection::vec((items(), len), 0..4),
            1 => (items(), long).prop_map(|p| vec![p]),
        ];
        (cfg, parts).prop_map(|(cfg, parts)| CompressCase { cfg, parts }).boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<CompressCase> {
        let one = |items, len| CompressCase { cfg: CfgSpec::preset(1), parts: vec![(items, len)] };
        let mut sparse = vec![0u32; 1000];
        sparse[999] = 0x8000_0001;
        let mut v = vec![one(Items::Listed(sparse), (1 << 24) - 1)];
        for b in 0..32 {
            v.push(one(Items::Toggle(1 << b), 3));
            v.push(one(Items::Listed(vec![1 << b, 0xFFFF_FFFF, 1 | 1 << b]), 9));
        }
        for n in [0usize, 1, 2, 7, 8, 9, 255, 256, 65535, 65536, 131_072] {
            v.push(one(Items::Random { seed: n as u32 }, n));
            v.push(one(Items::Constant(0), n));
        }
        v
    }
    fn check(&self, c: &CompressCase, obs: &mut Obs) -> Outcome {
        let fp: Vec<u32> = c.parts.iter().flat_map(|(i, n)| expand(i, *n)).collect();
        let cfg = c.cfg.build();
        let bytes = lib("compress", || FingerprintCompressor::from(&cfg).compress(&fp))?;
        match refcomp::decode(&bytes) {
            Err(e) => return Err(Fail::Violation(format!("the compressed form of {} items cannot be decoded: {e}", fp.len()))),
            Ok((id, items)) => {
                ensure!(id == c.cfg.algorithm_id(), "the compressed form carries id {id} instead of {}", c.cfg.algorithm_id());
                ensure!(items.len() == fp.len(), "{} items decode to {}", fp.len(), items.len());
                if let Some(i) = (0..fp.len()).find(|&i| fp[i] != items[i]) {
                    return Err(Fail::Violation(format!("item {i} of {} is {:#010x} and decodes to {:#010x}", fp.len(), fp[i], items[i])));
                }
            }
        }
        let expected = refcomp::encode(c.cfg.algorithm_id(), &fp);
        ensure!(bytes == expected, "the compressed form of {} items ({} bytes) differs from the format ({} bytes)", fp.len(), bytes.len(), expected.len());
        let mut prev = 0;
        let (mut wide, mut narrow) = (false, false);
        for &x in &fp {
            let mut d = x ^ prev;
            prev = x;
            let mut last = -1;
            while d != 0 {
                let b = d.trailing_zeros() as i32;
                wide |= b - last >= 7;
                narrow |= b - last < 7;
                last = b;
                d &= d - 1;
            }
        }
        obs.label_if(fp.is_empty(), "empty");
        obs.label_if(fp.len() > 255, "more_than_255_items");
        obs.label_if(fp.len() > 65535, "more_than_65535_items");
        obs.count("items", fp.len() as u64);
        obs.nontrivial = wide && narrow;
        Ok(())
    }
}

// ------------------------------------------------------------------ pairs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Block {
    /// The same items in both, of which `num`/`den` have `k+1` bits flipped in the second and the
    /// others `k`; the flips spare the top `spare` bits.
    Shared { items: Items, len: u16, k: u8, num: u8, den: u8, spare: u8 },
    OnlyFirst { items: Items, len: u16 },
    OnlySecond { items: Items, len: u16 },
    /// Different items of the same length.
    Unrelated { first: Items, second: Items, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    blocks: Vec<Block>,
}

impl Pair {
    pub fn build(&self) -> (Vec<u32>, Vec<u32>) {
        let (mut a, mut b) = (Vec::new(), Vec::new());
        for (at, block) in self.blocks.iter().enumerate() {
            match block {
                Block::Shared { items, len, k, num, den, spare } => {
                    let v = expand(items, usize::from(*len));
                    for (i, &x) in v.iter().enumerate() {
                        let den = usize::from((*den).max(1));
                        let n = k + u8::from(i % den < usize::from(*num));
                        let width = 32 - u64::from((*spare).min(31));
                        let mut y = x;
                        let mut flipped = 0u32;
                        let mut r = hash2(at as u64 + 1000, i as u64);
                        while flipped.count_ones() < u32::from(n).min(width as u32) {
                            flipped |= 1 << (r % width);
                            r = crate::audio::mix(r);
                        }
                        y ^= flipped;
                        a.push(x);
                        b.push(y);
                    }
                }
                Block::OnlyFirst { items, len } => a.extend(expand(items, usize::from(*len))),
                Block::OnlySecond { items, len } => b.extend(expand(items, usize::from(*len))),
                Block::Unrelated { first, second, len } => {
                    a.extend(expand(first, usize::from(*len)));
                    b.extend(expand(second, usize::from(*len)));
                }
            }
        }
        (a, b)
    }
}

fn block() -> BoxedStrategy<Block> {
    let len = prop_oneof![4 => 0u16..60, 4 => 20u16..300, 1 => 0u16..4];
    let natural = || {
        prop_oneof![
            5 => any::<u32>().prop_map(|seed| Items::Random { seed }),
            4 => (any::<u32>(), 1u8..8).prop_map(|(seed, bits)| Items::Slow { seed, bits }),
            1 => items(),
        ]
    };
    prop_oneof![
        6 => (natural(), len.clone(), 0u8..13, 0u8..10, 1u8..11, prop_oneof![3 => Just(12u8), 1 => 0u8..=20])
            .prop_map(|(items, len, k, num, den, spare)| Block::Shared { items, len, k, num, den, spare }),
        1 => (natural(), len.clone()).prop_map(|(items, len)| Block::OnlyFirst { items, len }),
        1 => (natural(), len.clone()).prop_map(|(items, len)| Block::OnlySecond { items, len }),
        3 => (natural(), natural(), len).prop_map(|(first, second, len)| Block::Unrelated { first, second, len }),
    ]
    .boxed()
}

/// Blocks of thousands of items: without many equal ones, or not so long.
fn long_block() -> BoxedStrategy<Block> {
    let natural = || {
        prop_oneof![
            2 => any::<u32>().prop_map(|seed| Items::Random { seed }),
            1 => (any::<u32>(), 3u8..8).prop_map(|(seed, bits)| Items::Slow { seed, bits }),
        ]
    };
    let len = prop_oneof![2 => 100u16..2000, 2 => 1000u16..8000, 1 => 5000u16..30_000];
    prop_oneof![
        8 => (natural(), len.clone(), 0u8..13, 0u8..10, 1u8..11, prop_oneof![3 => Just(12u8), 1 => 0u8..=20])
            .prop_map(|(items, len, k, num, den, spare)| Block::Shared { items, len, k, num, den, spare }),
        1 => (natural(), len.clone()).prop_map(|(items, len)| Block::OnlyFirst { items, len }),
        1 => (natural(), len.clone()).prop_map(|(items, len)| Block::OnlySecond { items, len }),
        3 => (natural(), natural(), len).prop_map(|(first, second, len)| Block::Unrelated { first, second, len }),
        3 => block(),
        1 => (items(), 1000u16..5000, 0u8..4).prop_map(|(items, len, k)| Block::Shared { items, len, k, num: 0, den: 1, spare: 12 }),
        1 => (items(), items(), 1000u16..5000).prop_map(|(first, second, len)| Block::Unrelated { first, second, len }),
    ]
    .boxed()
}

/// Blocks of the same length on both sides.
fn aligned_block() -> BoxedStrategy<Block> {
    let random = || any::<u32>().prop_map(|seed| Items::Random { seed });
    prop_oneof![
        4 => (random(), 20u16..200, 0u8..13, 0u8..10).prop_map(|(items, len, k, num)| Block::Shared { items, len, k, num, den: 10, spare: 12 }),
        2 => (random(), random(), 20u16..100).prop_map(|(first, second, len)| Block::Unrelated { first, second, len }),
    ]
    .boxed()
}

pub fn pair() -> BoxedStrategy<Pair> {
    let blocks = prop_oneof![
        6000 => proptest::collection::vec(block(), 0..9),
        3 => proptest::collection::vec(long_block(), 1..30),
        1 => proptest::collection::vec(aligned_block(), 50..500),
        1 => proptest::collection::vec(prop_oneof![60 => aligned_block(), 1 => block()], 50..500),
    ];
    blocks.prop_map(|blocks| Pair { blocks }).boxed()
}

/// Long pairs: more than 65536 items with many segments, and long repetitions.
fn long_pairs() -> Vec<Pair> {
    let random = |seed| Items::Random { seed };
    let shared = |items, len, k, num| Block::Shared { items, len, k, num, den: 10, spare: 12 };
    let unrelated = |seed, len| Block::Unrelated { first: random(seed), second: random(seed + 1), len };
    let mut v = Vec::new();
    for (shift, len) in [(0, 60u16), (700, 250), (9000, 1500)] {
        let mut blocks = vec![Block::OnlySecond { items: random(1), len: shift }];
        for k in 0..(90_000 / u32::from(len)) {
            let seed = 10 * k + 100;
            match k % 7 {
                2 => blocks.push(unrelated(seed, len / 2)),
                5 => blocks.push(unrelated(seed, 2 * len)),
                m => blocks.push(shared(random(seed), len, (k * k % 11) as u8, m as u8)),
            }
        }
        v.push(Pair { blocks });
    }
    for value in [0, 0x8000_0001, u32::MAX] {
        for n in [700u16, 3000, 7000] {
            v.push(Pair {
                blocks: vec![
                    unrelated(7, 300),
                    shared(Items::Constant(value), n, 0, 0),
                    Block::OnlyFirst { items: random(9), len: 200 },
                    shared(random(11), 400, 2, 3),
                    unrelated(15, 100),
                ],
            });
        }
    }
    v
}

fn run_match(a: &[u32], b: &[u32], cfg: &CfgSpec) -> Result<Vec<Segment>, Fail> {
    let cfg = cfg.build();
    match lib("match_fingerprints", || match_fingerprints(a, b, &cfg))? {
        Ok(s) => Ok(s),
        Err(e) => Err(Fail::Violation(format!("matching {} and {} items failed: {e}", a.len(), b.len()))),
    }
}

fn plain(s: &[Segment]) -> Vec<(usize, usize, usize, f64)> {
    s.iter().map(|s| (s.offset1, s.offset2, s.items_count, s.score)).collect()
}

/// Everything that holds of any result, whatever the choice of cuts.
fn sound(a: &[u32], b: &[u32], segs: &[Segment]) -> Outcome {
    if segs.is_empty() {
        return Ok(());
    }
    let best = refmatch::best(a, b);
    ensure!(!best.is_empty(), "segments without two items that agree: {segs:?}");
    let diff = segs[0].offset1 as i64 - segs[0].offset2 as i64;
    ensure!(best.contains(&diff), "the alignment {diff} is not one of the best supported ones {best:?}");
    let mut end = 0;
    for s in segs {
        ensure!(s.items_count > 0, "an empty segment: {segs:?}");
        ensure!(
            s.offset1.checked_add(s.items_count).is_some_and(|e| e <= a.len())
                && s.offset2.checked_add(s.items_count).is_some_and(|e| e <= b.len()),
            "a segment beyond the fingerprints of {} and {} items: {s:?}",
            a.len(),
            b.len()
        );
        ensure!(s.offset1 as i64 - s.offset2 as i64 == diff, "segments of different alignments: {segs:?}");
        ensure!(s.offset1 >= end, "segments overlap or are out of order: {segs:?}");
        end = s.offset1 + s.items_count;
        let bits: u64 =
            (0..s.items_count).map(|i| u64::from((a[s.offset1 + i] ^ b[s.offset2 + i]).count_ones())).sum();
        let mean = bits as f64 / s.items_count as f64;
        ensure!((s.score - mean).abs() <= 1e-6, "score {} of a segment with {mean} differing bits per item: {s:?}", s.score);
        ensure!(s.score < 10.0, "a segment that is not similar: {s:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

pub struct C15;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatchCase {
    cfg: CfgSpec,
    pair: Pair,
}

fn match_case() -> BoxedStrategy<MatchCase> {
    (crate::audio::preset_cfg(), pair()).prop_map(|(cfg, pair)| MatchCase { cfg, pair }).boxed()
}

fn observe(a: &[u32], b: &[u32], segs: &[Segment], obs: &mut Obs) {
    obs.label_if(a.is_empty() || b.is_empty(), "an_empty_fingerprint");
    obs.label_if(segs.is_empty(), "no_segment");
    obs.label_if(segs.len() > 1, "several_segments");
    obs.label_if(segs.iter().any(|s| s.offset1 != s.offset2), "shifted");
    obs.count("segments", segs.len() as u64);
}

impl Prop for C15 {
    type Case = MatchCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Pairs of fingerprints of up to about 2400 items (one in 1500 up to 200000 items, or of hundreds of blocks) built from shared blocks with controlled bit errors, blocks of only one side, unrelated and repetitive blocks; every returned segment must lie within both fingerprints, keep to one best supported alignment, be ordered and disjoint, and carry the mean number of differing bits, below 10, as its score. Non-trivial: at least one segment."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(600000, 8000000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<MatchCase> {
        match_case()
    }
    fn fixed(&self, _t: Tier) -> Vec<MatchCase> {
        long_pairs().into_iter().map(|pair| MatchCase { cfg: CfgSpec::preset(1), pair }).collect()
    }
    fn check(&self, c: &MatchCase, obs: &mut Obs) -> Outcome {
        let (a, b) = c.pair.build();
        let segs = run_match(&a, &b, &c.cfg)?;
        observe(&a, &b, &segs, obs);
        sound(&a, &b, &segs)?;
        // A result is a function of the items alone.
        let again = run_match(&a, &b, &CfgSpec::preset((c.cfg.preset + 1) % 5))?;
        ensure!(plain(&segs) == plain(&again), "matching twice gives different segments: {segs:?} and {again:?}");
        obs.nontrivial = !segs.is_empty();
        Ok(())
    }
}

// ------------------------------------------------------------------ C16

pub struct C16;

impl Prop for C16 {
    type Case = MatchCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "The pairs of C15; the segments must be those of an integer reference model: the alignment with most agreeing 12-bit prefixes (at least two; the largest on a tie), smoothed bit distances cut at gradient peaks above 0.15, parts with a mean distance below 10 kept, neighbours within 0.7 merged. Where rounding decides an exact tie, both outcomes are allowed. Non-trivial: at least one cut in the aligned part, or several segments."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(600000, 8000000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<MatchCase> {
        match_case()
    }
    fn fixed(&self, _t: Tier) -> Vec<MatchCase> {
        long_pairs().into_iter().map(|pair| MatchCase { cfg: CfgSpec::preset(1), pair }).collect()
    }
    fn check(&self, c: &MatchCase, obs: &mut Obs) -> Outcome {
        let (a, b) = c.pair.build();
        let segs = run_match(&a, &b, &c.cfg)?;
        observe(&a, &b, &segs, obs);
        let best = refmatch::best(&a, &b);
        let Some(&diff) = best.last() else {
            ensure!(segs.is_empty(), "segments without two items that agree: {segs:?}");
            return Ok(());
        };
        let (o1, o2, d) = refmatch::distances(&a, &b, diff);
        obs.label_if(best.len() > 1, "tied_alignments");
        let shape: Vec<(usize, usize)> = segs.iter().map(|s| (s.offset1.wrapping_sub(o1), s.items_count)).collect();
        let placed = segs.iter().all(|s| s.offset1 >= o1 && s.offset1 - o1 + s.items_count <= d.len() && s.offset2.wrapping_sub(o2) == s.offset1 - o1);
        let (possible, ties) = if placed { refmatch::possible(&d, &shape) } else { (false, 0) };
        if !possible {
            let want = refmatch::one(&d);
            let k = (0..).find(|&k| k >= want.len() || shape.get(k) != Some(&want[k])).unwrap_or(0);
            return Err(Fail::Violation(format!(
                "alignment {diff} ({o1} and {o2} on), {} aligned items: the model gives {} segments, the library {}; from segment {k} on, the model has {:?} (start, length), the library {:?}",
                d.len(),
                want.len(),
                segs.len(),
                &want[k..want.len().min(k + 3)],
                &segs[k.min(segs.len())..segs.len().min(k + 3)],
            )));
        }
        for s in &segs {
            let mean = d[s.offset1 - o1..][..s.items_count].iter().map(|&x| f64::from(x)).sum::<f64>() / s.items_count as f64;
            ensure!((s.score - mean).abs() < 1e-6, "the score of a segment with a mean distance of {mean}: {s:?}");
        }
        obs.label_if(ties > 0, "exact_ties");
        obs.label_if(segs.len() > 50, "more_than_50_segments");
        obs.label_if(a.len().max(b.len()) > 65_536, "more_than_65536_items");
        obs.nontrivial = segs.len() > 1 || segs.iter().any(|s| s.items_count < d.len());
        Ok(())
    }
}

// ------------------------------------------------------------------ C17

pub struct C17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RelationCase {
    cfg: CfgSpec,
    pair: Pair,
    mask: u32,
    prefix: u16,
    seed: u32,
}

impl Prop for C17 {
    type Case = RelationCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "The pairs of C15 under four relations: a fingerprint matched with itself is one segment of score 0; XORing both sides with one mask changes nothing; swapping the sides mirrors the segments (when one alignment is best); items with a prefix foreign to the other side, put in front of the side that already starts earlier, shift the segments. Non-trivial: at least one segment."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(240000, 4000000)
    }
    fn fixed(&self, _t: Tier) -> Vec<RelationCase> {
        long_pairs().into_iter().map(|pair| RelationCase { cfg: CfgSpec::preset(1), pair, mask: 0x5A00_00A5, prefix: 300, seed: 4 }).collect()
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<RelationCase> {
        (crate::audio::preset_cfg(), pair(), any::<u32>(), 0u16..400, any::<u32>())
            .prop_map(|(cfg, pair, mask, prefix, seed)| RelationCase { cfg, pair, mask, prefix, seed })
            .boxed()
    }
    fn check(&self, c: &RelationCase, obs: &mut Obs) -> Outcome {
        let (a, b) = c.pair.build();
        let segs = run_match(&a, &b, &c.cfg)?;
        observe(&a, &b, &segs, obs);
        let base = plain(&segs);
        for x in [&a, &b] {
            let own = plain(&run_match(x, x, &c.cfg)?);
            let want = if x.len() >= 2 { vec![(0, 0, x.len(), 0.0)] } else { vec![] };
            ensure!(own == want, "a fingerprint of {} items matches itself in {own:?}", x.len());
        }
        let m = |v: &[u32]| v.iter().map(|x| x ^ c.mask).collect::<Vec<_>>();
        let masked = plain(&run_match(&m(&a), &m(&b), &c.cfg)?);
        ensure!(masked == base, "after XOR with {:#x} on both sides: {masked:?} instead of {base:?}", c.mask);

        let best = refmatch::best(&a, &b);
        if best.len() == 1 {
            let swapped = plain(&run_match(&b, &a, &c.cfg)?);
            let mirror: Vec<_> = base.iter().map(|&(x, y, n, s)| (y, x, n, s)).collect();
            ensure!(swapped == mirror, "swapped: {swapped:?} instead of {mirror:?}");

            // Unused 12-bit prefixes for foreign items.
            let mut used = vec![false; 4096];
            for x in a.iter().chain(&b) {
                used[(x >> 20) as usize] = true;
            }
            let free: Vec<u32> = (0..4096u32).filter(|&h| !used[h as usize]).collect();
            if !free.is_empty() {
                let foreign: Vec<u32> = (0..c.prefix)
                    .map(|i| {
                        let r = hash2(u64::from(c.seed), u64::from(i));
                        free[(r >> 32) as usize % free.len()] << 20 | (r as u32 & 0xF_FFFF)
                    })
                    .collect();
                let k = foreign.len();
                let longer = |v: &[u32]| foreign.iter().chain(v).copied().collect::<Vec<u32>>();
                if best[0] >= 0 {
                    let got = plain(&run_match(&longer(&a), &b, &c.cfg)?);
                    let want: Vec<_> = base.iter().map(|&(x, y, n, s)| (x + k, y, n, s)).collect();
                    ensure!(got == want, "with {k} foreign items before the first: {got:?} instead of {want:?}");
                }
                if best[0] <= 0 {
                    let got = plain(&run_match(&a, &longer(&b), &c.cfg)?);
                    let want: Vec<_> = base.iter().map(|&(x, y, n, s)| (x, y + k, n, s)).collect();
                    ensure!(got == want, "with {k} foreign items before the second: {got:?} instead of {want:?}");
                }
                obs.label_if(k > 0, "foreign_prefix");
            }
        }
        obs.nontrivial = !segs.is_empty();
        Ok(())
    }
}

// ------------------------------------------------------------------ C18

pub struct C18;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LimitCase {
    cfg: CfgSpec,
    len1: usize,
    len2: usize,
    seed: u32,
    /// A common run, and its places as fractions of the room.
    run: usize,
    at1: u16,
    at2: u16,
}

/// The longest fingerprint that can be matched.
const MAX_ITEMS: usize = 524_285;

impl Prop for C18 {
    type Case = LimitCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Fingerprints of up to 600000 items, with lengths around the limit of 524285, sharing one run of items at arbitrary places (often the far ends); within the limit the run must be found exactly at its place, beyond it the error must name a fingerprint that is too long, and nothing may panic. Non-trivial: a fingerprint of at least 65536 items."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(1000, 12000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LimitCase> {
        let len = || {
            prop_oneof![
                3 => (MAX_ITEMS - 3)..=(MAX_ITEMS + 4),
                2 => 2000usize..20_000,
                1 => 60_000usize..300_000,
                1 => 300_000usize..600_000,
                1 => prop_oneof![Just(0usize), Just(1), Just(65_535), Just(65_536), Just(65_537), Just(131_072), Just(262_144)],
            ]
        };
        let place = || prop_oneof![Just(0u16), Just(u16::MAX), any::<u16>()];
        (crate::audio::preset_cfg(), len(), len(), any::<u32>(), 600usize..2000, place(), place())
            .prop_map(|(cfg, len1, len2, seed, run, at1, at2)| LimitCase { cfg, len1, len2, seed, run, at1, at2 })
            .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<LimitCase> {
        let mut v = Vec::new();
        for (len1, len2) in [
            (MAX_ITEMS, 3000),
            (3000, MAX_ITEMS),
            (MAX_ITEMS + 1, 3000),
            (3000, MAX_ITEMS + 1),
            (MAX_ITEMS + 1, MAX_ITEMS + 1),
            (MAX_ITEMS + 2, 0),
            (0, MAX_ITEMS + 2),
            (MAX_ITEMS, 0),
            (1 << 20, 10),
            (10, (1 << 20) + 5),
        ] {
            v.push(LimitCase { cfg: CfgSpec::preset(1), len1, len2, seed: 1, run: 1000, at1: u16::MAX, at2: 0 });
            v.push(LimitCase { cfg: CfgSpec::preset(1), len1, len2, seed: 1, run: 1000, at1: 0, at2: u16::MAX });
        }
        v
    }
    fn check(&self, c: &LimitCase, obs: &mut Obs) -> Outcome {
        let mut a = expand(&Items::Random { seed: c.seed }, c.len1);
        let mut b = expand(&Items::Random { seed: c.seed ^ 0x5555_5555 }, c.len2);
        let run = c.run.min(c.len1).min(c.len2);
        let p1 = (c.len1 - run) * usize::from(c.at1) / usize::from(u16::MAX);
        let p2 = (c.len2 - run) * usize::from(c.at2) / usize::from(u16::MAX);
        let common = expand(&Items::Random { seed: c.seed.wrapping_add(77) }, run);
        a[p1..p1 + run].copy_from_slice(&common);
        b[p2..p2 + run].copy_from_slice(&common);
        let cfg = c.cfg.build();
        let long1 = c.len1 > MAX_ITEMS;
        let long2 = c.len2 > MAX_ITEMS;
        obs.nontrivial = c.len1.max(c.len2) >= 65_536;
        match lib("match_fingerprints", || match_fingerprints(&a, &b, &cfg))? {
            Err(MatchError::FingerprintTooLong { index }) => {
                ensure!(
                    (index == 0 && long1) || (index == 1 && long2),
                    "{} and {} items: fingerprint #{index} is reported as too long",
                    c.len1,
                    c.len2
                );
                obs.label("rejected");
            }
            Ok(segs) => {
                ensure!(!long1 && !long2, "{} and {} items were accepted", c.len1, c.len2);
                if run >= 600 {
                    let found: usize = segs
                        .iter()
                        .filter(|s| s.offset1 as i64 - s.offset2 as i64 == p1 as i64 - p2 as i64)
                        .map(|s| (s.offset1 + s.items_count).min(p1 + run).saturating_sub(s.offset1.max(p1)))
                        .sum();
                    ensure!(
                        found + 40 >= run,
                        "{found} of {run} common items at {p1} of {} and {p2} of {} were found: {segs:?}",
                        c.len1,
                        c.len2
                    );
                    obs.label("common_run_found");
                }
                for s in &segs {
                    ensure!(
                        s.items_count > 0 && s.offset1 + s.items_count <= a.len() && s.offset2 + s.items_count <= b.len(),
                        "a segment beyond the fingerprints of {} and {} items: {s:?}",
                        a.len(),
                        b.len()
                    );
                    let bits: u64 =
                        (0..s.items_count).map(|i| u64::from((a[s.offset1 + i] ^ b[s.offset2 + i]).count_ones())).sum();
                    ensure!((s.score - bits as f64 / s.items_count as f64).abs() < 1e-6, "wrong score: {s:?}");
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C19

pub struct C19;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TimeCase {
    cfg: CfgSpec,
    offset1: usize,
    offset2: usize,
    items: usize,
    score: f64,
}

impl Prop for C19 {
    type Case = TimeCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Segments with offsets and counts of up to a billion items under presets and other frame geometries; starts, ends and duration must be offset, offset plus count and count times the time between two frames, each side using its own offset, to single precision. Non-trivial: two different offsets and a count that are not zero."
    }
    fn cases(&self, t: Tier) -> u32 {
        t.pick(2000000, 20000000)
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<TimeCase> {
        let cfg = prop_oneof![
            1 => crate::audio::preset_cfg(),
            1 => (0u8..5, frames()).prop_map(|(p, f)| CfgSpec::preset(p).with_frame(f.0, f.1)),
        ];
        let n = || prop_oneof![4 => 0usize..5000, 2 => 0usize..600_000, 1 => 0usize..1_000_000_000, 1 => (1usize << 24) - 2..(1 << 24) + 3];
        (cfg, n(), n(), n(), 0.0f64..10.0)
            .prop_map(|(cfg, offset1, offset2, items, score)| TimeCase { cfg, offset1, offset2, items, score })
            .boxed()
    }
    fn check(&self, c: &TimeCase, obs: &mut Obs) -> Outcome {
        let cfg = c.cfg.build();
        let s = Segment { offset1: c.offset1, offset2: c.offset2, items_count: c.items, score: c.score };
        let item = c.cfg.step() as f64 / f64::from(NATIVE);
        let near = |what: &str, got: f32, items: usize| -> Outcome {
            let want = items as f64 * item;
            ensure!((f64::from(got) - want).abs() <= want * 1e-6, "{what} of {s:?} is {got} instead of {want}");
            Ok(())
        };
        let (s1, e1, s2, e2, d) =
            lib("segment times", || (s.start1(&cfg), s.end1(&cfg), s.start2(&cfg), s.end2(&cfg), s.duration(&cfg)))?;
        near("start1", s1, c.offset1)?;
        near("start2", s2, c.offset2)?;
        near("end1", e1, c.offset1 + c.items)?;
        near("end2", e2, c.offset2 + c.items)?;
        near("duration", d, c.items)?;
        ensure!(e1 >= s1 && e2 >= s2, "a segment ends before it starts: {s:?}");
        obs.nontrivial = c.offset1 != c.offset2 && c.offset1 > 0 && c.offset2 > 0 && c.items > 0;
        Ok(())
    }
}
