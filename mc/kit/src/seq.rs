//! Index <-> sequence encodings for exhaustive enumeration.

/// Number of sequences over `a` symbols of length 0..=d.
pub fn count_upto(a: u64, d: u32) -> u64 {
    (0..=d).map(|k| a.pow(k)).sum()
}
/// The i-th sequence over `a` symbols, shortest first.
pub fn nth(a: u64, d: u32, mut i: u64) -> Vec<usize> {
    for k in 0..=d {
        let n = a.pow(k);
        if i < n {
            let mut v = vec![0usize; k as usize];
            for p in (0..k as usize).rev() {
                v[p] = (i % a) as usize;
                i /= a;
            }
            return v;
        }
        i -= n;
    }
    panic!("index out of range")
}
/// Mixed-radix digits of `i`.
pub fn digits(radices: &[u64], mut i: u64) -> Vec<u64> {
    let mut v = vec![0; radices.len()];
    for k in (0..radices.len()).rev() {
        v[k] = i % radices[k];
        i /= radices[k];
    }
    v
}
pub fn prod(radices: &[u64]) -> u64 {
    radices.iter().product()
}
/// The i-th string that is a concatenation of at most `d` of the fragments.
pub fn string(frags: &[&str], d: u32, i: u64) -> String {
    nth(frags.len() as u64, d, i).into_iter().map(|k| frags[k]).collect()
}
pub fn strings(frags: &[&str], d: u32) -> Vec<String> {
    (0..count_upto(frags.len() as u64, d)).map(|i| string(frags, d, i)).collect()
}
/// All char-boundary offsets of `s`, both ends included.
pub fn bounds(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}
/// All ways to cut `s` at char boundaries into non-empty pieces (2^(n-1)).
pub fn partitions(s: &str) -> Vec<Vec<String>> {
    let b = bounds(s);
    if s.is_empty() {
        return vec![vec![]];
    }
    let inner = &b[1..b.len() - 1];
    (0..1u64 << inner.len()).map(|m| cut(s, inner, m)).collect()
}
fn cut(s: &str, inner: &[usize], m: u64) -> Vec<String> {
    let mut v = Vec::new();
    let mut last = 0;
    for (k, p) in inner.iter().enumerate() {
        if m >> k & 1 == 1 {
            v.push(s[last..*p].to_string());
            last = *p;
        }
    }
    v.push(s[last..].to_string());
    v
}
/// Cuts of `s` into fixed-size pieces of `n` chars.
pub fn pieces(s: &str, n: usize) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    c.chunks(n).map(|x| x.iter().collect()).collect()
}
/// 0..=all, and every power of two up to `max` with its neighbours: where fixed limits lie.
pub fn sizes(all: u64, max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=all).collect();
    let mut p = 2;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}
/// The sizes of `sizes`, and those around 2^16.
pub fn sizes_and_64k(all: u64, max: u64) -> Vec<u64> {
    let mut v = sizes(all, max);
    v.extend([65535, 65536, 65537]);
    v.sort();
    v.dedup();
    v
}
/// Every character, or (not `every`) all of the scripts up to U+30FF and those around the limits of
/// planes, surrogates and encoded lengths, among them all that Unicode calls blank or that write
/// nothing.
pub fn characters(every: bool) -> Vec<char> {
    if every {
        return (0..=0x10ffff).filter_map(char::from_u32).collect();
    }
    let ranges = [0..=0x30ff, 0xd7f0..=0xe00f, 0xf8f0..=0xf90f, 0xfb00..=0xfb4f, 0xfe00..=0x1000f, 0x1d7c0..=0x1d7ff, 0x1f1e0..=0x1f3ff, 0x1f600..=0x1f64f, 0x1fff0..=0x2000f, 0xe0000..=0xe007f, 0xffff0..=0x10000f, 0x10fff0..=0x10ffff];
    ranges.into_iter().flatten().filter_map(char::from_u32).collect()
}
/// Offsets around the ends, the middle and every power of two, on char boundaries.
pub fn marks(t: &str, around: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut p = 1;
    let mut at = vec![0, t.len(), t.len() / 2];
    while p < t.len() {
        at.push(p);
        p *= 2;
    }
    for c in at {
        v.extend((c.saturating_sub(around)..=c + around).filter(|x| *x <= t.len() && t.is_char_boundary(*x)));
    }
    v.sort();
    v.dedup();
    v
}
