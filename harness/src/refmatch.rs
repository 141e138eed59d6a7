//! Reference model of fingerprint matching in exact integer arithmetic, allowing both outcomes
//! wherever floating point rounding may decide a tie.

/// Votes for the alignments "index in the first minus index in the second", from -b.len() on.
fn votes(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut by_prefix: Vec<Vec<u32>> = vec![Vec::new(); 4096];
    for (j, y) in b.iter().enumerate() {
        by_prefix[(y >> 20) as usize].push(j as u32);
    }
    let mut votes = vec![0; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for &j in &by_prefix[(x >> 20) as usize] {
            votes[i + b.len() - j as usize] += 1;
        }
    }
    votes
}

/// The alignments with the most votes (at least two), in ascending order.
pub fn best(a: &[u32], b: &[u32]) -> Vec<i64> {
    let v = votes(a, b);
    let max = v.iter().copied().max().unwrap_or(0);
    if max < 2 {
        return Vec::new();
    }
    (0..v.len()).filter(|&k| v[k] == max).map(|k| k as i64 - b.len() as i64).collect()
}

/// Differing bits of the aligned items.
pub fn distances(a: &[u32], b: &[u32], diff: i64) -> (usize, usize, Vec<u32>) {
    let o1 = diff.max(0) as usize;
    let o2 = (-diff).max(0) as usize;
    let n = (a.len() - o1).min(b.len() - o2);
    (o1, o2, (0..n).map(|i| (a[o1 + i] ^ b[o2 + i]).count_ones()).collect())
}

fn reflect(i: i64, n: i64) -> usize {
    let m = i.rem_euclid(2 * n);
    (if m < n { m } else { 2 * n - 1 - m }) as usize
}

/// Sums over windows of 2*half+1 items, mirrored at the ends.
fn window_sums(x: &[i64], half: i64) -> Vec<i64> {
    let n = x.len() as i64;
    // prefix sums over the mirrored sequence
    let mut p = vec![0i64];
    for i in -half..n + half {
        p.push(p.last().unwrap() + x[reflect(i, n)]);
    }
    (0..n).map(|i| p[(i + 2 * half + 1) as usize] - p[i as usize]).collect()
}

/// The absolute gradient of the smoothed distances, scaled so that the least one to cut at is 1148.
fn gradient(d: &[u32]) -> Vec<i64> {
    let n = d.len();
    if n == 0 {
        return Vec::new();
    }
    // Gaussian smoothing (sigma 8) approximated by boxes of 15, 15 and 17 items: scaled by 3825.
    let mut s: Vec<i64> = d.iter().map(|&x| i64::from(x)).collect();
    for half in [7, 7, 8] {
        s = window_sums(&s, half);
    }
    // Twice the gradient.
    (0..n)
        .map(|i| {
            if n == 1 {
                0
            } else if i == 0 {
                2 * (s[1] - s[0])
            } else if i == n - 1 {
                2 * (s[n - 1] - s[n - 2])
            } else {
                s[i + 1] - s[i - 1]
            }
        })
        .map(i64::abs)
        .collect()
    // gradient > 0.15  <=>  g > 0.15 * 2 * 3825 = 1147.5
}

/// A point in the course of cutting and merging that agrees with the segments found so far.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct State {
    last_cut: Option<usize>,
    begin: usize,
    /// Segments so far, and the start and length of the last of them.
    segments: usize,
    last: (usize, usize),
}

/// Whether rounding may lead to exactly these segments (start and length within the aligned part), and the
/// number of places where it decides an exact tie.
pub fn possible(d: &[u32], found: &[(usize, usize)]) -> (bool, usize) {
    let n = d.len();
    if n == 0 {
        return (found.is_empty(), 0);
    }
    let g = gradient(d);
    let mut upto = vec![0u64];
    for &x in d {
        upto.push(upto.last().unwrap() + u64::from(x));
    }
    let total = |begin: usize, len: usize| upto[begin + len] - upto[begin];
    let mut ties = 0;
    // The part that ends here is dropped, joined with the last segment, or another segment.
    let part = |s: State, end: usize, next: &mut Vec<State>| -> bool {
        let (begin, len) = (s.begin, end - s.begin);
        let sum = total(begin, len);
        let s = State { begin: end, ..s };
        if sum >= 10 * len as u64 {
            next.push(s);
            return false;
        }
        let (b, l) = s.last;
        let (mut join, mut tie) = (false, false);
        if s.segments > 0 && b + l == begin {
            // |t/l - sum/len| < 7/10
            let lhs = 10 * (i128::from(total(b, l)) * len as i128 - i128::from(sum) * l as i128).abs();
            let rhs = 7 * l as i128 * len as i128;
            join = lhs <= rhs;
            tie = lhs == rhs;
        }
        if join && l + len <= found[s.segments - 1].1 {
            next.push(State { last: (b, l + len), ..s });
        }
        let done = s.segments == 0 || found[s.segments - 1] == s.last;
        let fits = |f: &(usize, usize)| f.0 == begin && len <= f.1;
        if (!join || tie) && done && found.get(s.segments).is_some_and(fits) {
            next.push(State { segments: s.segments + 1, last: (begin, len), ..s });
        }
        tie
    };
    let mut states = vec![State { last_cut: None, begin: 0, segments: 0, last: (0, 0) }];
    for i in 1..n.saturating_sub(1) {
        if g[i] <= 1147 || g[i] < g[i - 1] || g[i] < g[i + 1] {
            continue;
        }
        let tie = g[i] == g[i - 1] || g[i] == g[i + 1];
        let mut next = Vec::new();
        let mut merge_tie = false;
        for &s in &states {
            let allowed = s.last_cut.is_none_or(|l| l + 1 < i);
            if allowed {
                merge_tie |= part(State { last_cut: Some(i), ..s }, i, &mut next);
            }
            if !allowed || tie {
                next.push(s);
            }
        }
        ties += usize::from(tie || merge_tie);
        next.sort_unstable();
        next.dedup();
        states = next;
    }
    let mut ends = Vec::new();
    for &s in &states {
        part(s, n, &mut ends);
    }
    let complete = |s: &State| s.segments == found.len() && found.last().is_none_or(|&f| f == s.last);
    (ends.iter().any(complete), ties)
}

/// One of the possible segmentations.
pub fn one(d: &[u32]) -> Vec<(usize, usize)> {
    let n = d.len();
    let g = gradient(d);
    let mut cuts: Vec<usize> = Vec::new();
    for i in 1..n.saturating_sub(1) {
        if g[i] > 1147 && g[i] >= g[i - 1] && g[i] >= g[i + 1] && cuts.last().is_none_or(|&l| l + 1 < i) {
            cuts.push(i);
        }
    }
    cuts.push(n);
    let mean = |b: usize, l: usize| d[b..b + l].iter().map(|&x| f64::from(x)).sum::<f64>() / l as f64;
    let mut out: Vec<(usize, usize)> = Vec::new();
    let mut begin = 0;
    for end in cuts {
        let len = end - begin;
        if len > 0 && mean(begin, len) < 10.0 {
            match out.last_mut() {
                Some((b, l)) if *b + *l == begin && (mean(*b, *l) - mean(begin, len)).abs() < 0.7 => *l += len,
                _ => out.push((begin, len)),
            }
        }
        begin = end;
    }
    out
}
