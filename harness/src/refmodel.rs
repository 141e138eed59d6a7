//! Reference model of the fingerprint calculation, written from the definition of the algorithm
//! (windowed power spectrum, folding to 12 pitch classes, smoothing, normalisation, 16 classifiers
//! over rectangles of the chroma image) with plain sums instead of incremental structures.
//!
//! Bits whose classifier value is within `MARGIN` of a quantisation threshold are not decided by
//! the model: floating point rounding may go either way there.

use crate::audio::CfgSpec;

pub const MARGIN: f64 = 1e-7;

pub struct RefFp {
    pub items: Vec<u32>,
    /// Bits that the model decides.
    pub mask: Vec<u32>,
}

// (filter kind, y, height, width, thresholds)
type Row = (u8, usize, usize, usize, [f64; 3]);

const TEST1: [Row; 16] = [
    (0, 0, 3, 15, [2.10543, 2.45354, 2.69414]),
    (1, 0, 4, 14, [-0.345922, 0.0463746, 0.446251]),
    (1, 4, 4, 11, [-0.392132, 0.0291077, 0.443391]),
    (3, 0, 4, 14, [-0.192851, 0.00583535, 0.204053]),
    (2, 8, 2, 4, [-0.0771619, -0.00991999, 0.0575406]),
    (5, 6, 2, 15, [-0.710437, -0.518954, -0.330402]),
    (1, 9, 2, 16, [-0.353724, -0.0189719, 0.289768]),
    (3, 4, 2, 10, [-0.128418, -0.0285697, 0.0591791]),
    (3, 9, 2, 16, [-0.139052, -0.0228468, 0.0879723]),
    (2, 1, 3, 6, [-0.133562, 0.00669205, 0.155012]),
    (3, 3, 6, 2, [-0.0267, 0.00804829, 0.0459773]),
    (2, 8, 1, 10, [-0.0972417, 0.0152227, 0.129003]),
    (3, 4, 4, 14, [-0.141434, 0.00374515, 0.149935]),
    (5, 4, 2, 15, [-0.64035, -0.466999, -0.285493]),
    (5, 9, 2, 3, [-0.322792, -0.254258, -0.174278]),
    (2, 1, 8, 4, [-0.0741375, -0.00590933, 0.0600357]),
];

const TEST2: [Row; 16] = [
    (0, 4, 3, 15, [1.98215, 2.35817, 2.63523]),
    (4, 4, 6, 15, [-1.03809, -0.651211, -0.282167]),
    (1, 0, 4, 16, [-0.298702, 0.119262, 0.558497]),
    (3, 8, 2, 12, [-0.105439, 0.0153946, 0.135898]),
    (3, 4, 4, 8, [-0.142891, 0.0258736, 0.200632]),
    (4, 0, 3, 5, [-0.826319, -0.590612, -0.368214]),
    (1, 2, 2, 9, [-0.557409, -0.233035, 0.0534525]),
    (2, 7, 3, 4, [-0.0646826, 0.00620476, 0.0784847]),
    (2, 6, 2, 16, [-0.192387, -0.029699, 0.215855]),
    (2, 1, 3, 2, [-0.0397818, -0.00568076, 0.0292026]),
    (5, 10, 1, 15, [-0.53823, -0.369934, -0.190235]),
    (3, 6, 2, 10, [-0.124877, 0.0296483, 0.139239]),
    (2, 1, 1, 14, [-0.101475, 0.0225617, 0.231971]),
    (3, 5, 6, 4, [-0.0799915, -0.00729616, 0.063262]),
    (1, 9, 2, 12, [-0.272556, 0.019424, 0.302559]),
    (3, 4, 2, 14, [-0.164292, -0.0321188, 0.0846339]),
];

#[derive(Clone, Copy)]
struct C {
    re: f64,
    im: f64,
}

struct Spectrum {
    n: usize,
    tw: Vec<C>,
    window: Vec<f64>,
    a: Vec<C>,
    b: Vec<C>,
}

impl Spectrum {
    fn new(n: usize) -> Self {
        use std::f64::consts::TAU;
        let tw = (0..n)
            .map(|k| {
                let (s, c) = (TAU * k as f64 / n as f64).sin_cos();
                C { re: c, im: -s }
            })
            .collect();
        let window = (0..n).map(|i| 0.54 - 0.46 * (TAU * i as f64 / (n as f64 - 1.0)).cos()).collect();
        Spectrum { n, tw, window, a: vec![C { re: 0.0, im: 0.0 }; n], b: vec![C { re: 0.0, im: 0.0 }; n] }
    }

    /// Power of the first `upto` bins of the windowed frame.
    fn power(&mut self, frame: &[f64], upto: usize) -> Vec<f64> {
        for (a, (x, w)) in self.a.iter_mut().zip(frame.iter().zip(&self.window)) {
            *a = C { re: x * w, im: 0.0 };
        }
        fft(&mut self.a, &mut self.b, &self.tw, self.n, 1);
        self.a[..upto].iter().map(|c| c.re * c.re + c.im * c.im).collect()
    }
}

/// Recursive mixed-radix DFT of `x` in place; `t` is scratch of the same length; `stride` is the
/// step in the table of roots of unity.
fn fft(x: &mut [C], t: &mut [C], tw: &[C], n: usize, stride: usize) {
    if n == 1 {
        return;
    }
    let p = (2..).find(|p| n % p == 0 || p * p > n).unwrap();
    let p = if n % p == 0 { p } else { n };
    let m = n / p;
    for r in 0..p {
        for j in 0..m {
            t[r * m + j] = x[j * p + r];
        }
    }
    for r in 0..p {
        fft(&mut t[r * m..(r + 1) * m], &mut x[r * m..(r + 1) * m], tw, m, stride * p);
    }
    let full = tw.len();
    if p == 2 {
        for k in 0..m {
            let w = tw[k * stride];
            let o = t[m + k];
            let (re, im) = (o.re * w.re - o.im * w.im, o.re * w.im + o.im * w.re);
            let e = t[k];
            x[k] = C { re: e.re + re, im: e.im + im };
            x[k + m] = C { re: e.re - re, im: e.im - im };
        }
        return;
    }
    for k in 0..n {
        let (mut re, mut im) = (0.0, 0.0);
        for r in 0..p {
            let v = t[r * m + k % m];
            let w = tw[(k * r * stride) % full];
            re += v.re * w.re - v.im * w.im;
            im += v.re * w.im + v.im * w.re;
        }
        x[k] = C { re, im };
    }
}

/// Normalised chroma rows, and whether the model is sure about each of them.
pub struct Rows {
    pub rows: Vec<[f64; 12]>,
    pub sure: Vec<bool>,
    /// Norm of each smoothed row before normalisation.
    pub norms: Vec<f64>,
}

/// First sample that silence removal keeps.
pub fn leading_silence(mono: &[i16], threshold: u32) -> usize {
    for i in 0..mono.len() {
        let lo = (i + 1).saturating_sub(55);
        let sum: u64 = mono[lo..=i].iter().map(|&x| u64::from(x.unsigned_abs())).sum();
        if sum / (i + 1 - lo) as u64 > u64::from(threshold) {
            return i;
        }
    }
    mono.len()
}

pub fn rows(mono: &[i16], cfg: &CfgSpec) -> Rows {
    let mono = match cfg.silence_threshold() {
        Some(t) => &mono[leading_silence(mono, t)..],
        None => mono,
    };
    let samples: Vec<f64> = mono.iter().map(|&s| f64::from(s) / 32767.0).collect();
    let (size, step) = (cfg.frame_size(), cfg.step());
    let lo = ((size as f64 * 28.0 / 11025.0).round() as usize).max(1);
    let hi = ((size as f64 * 3520.0 / 11025.0).round() as usize).min(size / 2);
    let notes: Vec<f64> = (0..hi)
        .map(|i| {
            if i == 0 {
                return 0.0;
            }
            let octave = (i as f64 * 11025.0 / size as f64 / 27.5).log2();
            12.0 * (octave - octave.floor())
        })
        .collect();

    let mut spectrum = Spectrum::new(size);
    let mut chroma: Vec<[f64; 12]> = Vec::new();
    let mut pos = 0;
    while pos + size <= samples.len() {
        let power = spectrum.power(&samples[pos..pos + size], hi.max(1));
        let mut row = [0.0; 12];
        for i in lo..hi {
            let note = notes[i].floor() as usize % 12;
            let frac = notes[i] - notes[i].floor();
            if cfg.interpolates() {
                if frac < 0.5 {
                    row[note] += power[i] * (0.5 + frac);
                    row[(note + 11) % 12] += power[i] * (0.5 - frac);
                } else {
                    row[note] += power[i] * (1.5 - frac);
                    row[(note + 1) % 12] += power[i] * (frac - 0.5);
                }
            } else {
                row[note] += power[i];
            }
        }
        chroma.push(row);
        pos += step;
    }

    let coeffs = cfg.coefficients();
    let mut out = Rows { rows: Vec::new(), sure: Vec::new(), norms: Vec::new() };
    for w in chroma.windows(coeffs.len()) {
        let mut row = [0.0; 12];
        for (r, c) in w.iter().zip(&coeffs) {
            for (o, x) in row.iter_mut().zip(r) {
                *o += x * c;
            }
        }
        let norm = row.iter().map(|x| x * x).sum::<f64>().sqrt();
        for x in &mut row {
            *x = if norm < 0.01 { 0.0 } else { *x / norm };
        }
        out.rows.push(row);
        out.sure.push((norm - 0.01).abs() > 1e-8);
        out.norms.push(norm);
    }
    out
}

fn area(rows: &[[f64; 12]], x0: usize, y0: usize, x1: usize, y1: usize) -> f64 {
    rows[x0..x1].iter().map(|r| r[y0..y1].iter().sum::<f64>()).sum()
}

fn quantise(v: f64, t: &[f64; 3]) -> usize {
    t.iter().filter(|&&x| v >= x).count()
}

pub fn classify(r: &Rows, preset: u8, margin: f64) -> RefFp {
    let table = if preset == 0 { &TEST1 } else { &TEST2 };
    let mut fp = RefFp { items: Vec::new(), mask: Vec::new() };
    if r.rows.len() < 16 {
        return fp;
    }
    for s in 0..=r.rows.len() - 16 {
        let img = &r.rows[s..s + 16];
        let (mut bits, mut mask) = (0u32, 0u32);
        for (kind, y, h, w, t) in table {
            let (y, h, w) = (*y, *h, *w);
            let (h2, w2, h3, w3) = (h / 2, w / 2, h / 3, w / 3);
            let a = |x0, y0, x1, y1| area(img, x0, y + y0, x1, y + y1);
            let (p, q) = match kind {
                0 => (a(0, 0, w, h), 0.0),
                1 => (a(0, h2, w, h), a(0, 0, w, h2)),
                2 => (a(w2, 0, w, h), a(0, 0, w2, h)),
                3 => (a(0, h2, w2, h) + a(w2, 0, w, h2), a(0, 0, w2, h2) + a(w2, h2, w, h)),
                4 => (a(0, h3, w, 2 * h3), a(0, 0, w, h3) + a(0, 2 * h3, w, h)),
                _ => (a(w3, 0, 2 * w3, h), a(0, 0, w3, h) + a(2 * w3, 0, w, h)),
            };
            let v = ((1.0 + p) / (1.0 + q)).ln();
            let gray = |q: usize| [0u32, 1, 3, 2][q];
            let g = gray(quantise(v, t));
            let unsure = (quantise(v - margin, t)..=quantise(v + margin, t)).fold(0, |u, q| u | (gray(q) ^ g));
            bits = bits << 2 | g;
            mask = mask << 2 | (3 & !unsure);
        }
        if r.sure[s..s + 16].iter().any(|ok| !ok) {
            mask = 0;
        }
        fp.items.push(bits);
        fp.mask.push(mask);
    }
    fp
}

pub fn fingerprint(mono: &[i16], cfg: &CfgSpec) -> RefFp {
    classify(&rows(mono, cfg), cfg.preset, MARGIN)
}

/// Where `actual` differs from the model in a bit that the model decides.
pub fn diff(actual: &[u32], r: &RefFp) -> Option<String> {
    if actual.len() != r.items.len() {
        return Some(format!("{} items instead of {}", actual.len(), r.items.len()));
    }
    for (i, (a, (e, m))) in actual.iter().zip(r.items.iter().zip(&r.mask)).enumerate() {
        if (a ^ e) & m != 0 {
            return Some(format!("item {i} of {} is {a:#010x} instead of {e:#010x} (decided bits {m:#010x})", actual.len()));
        }
    }
    None
}

pub fn undecided_bits(r: &RefFp) -> u64 {
    r.mask.iter().map(|m| u64::from(m.count_zeros())).sum()
}
