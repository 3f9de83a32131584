//! Seeded input generator.
use crate::rng::Rng;

pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(20) {
        0 => r.range(0, 1),
        1..=5 => r.range(1, 12),
        6..=9 => r.range(8, 70),
        10..=12 => r.range(60, 300),
        13 => *r.pick(&[62usize, 63, 64, 65, 98, 99, 100, 101, 126, 127, 128, 129, 198, 199, 200, 201]),
        14 => *r.pick(&[254usize, 255, 256, 257, 258, 510, 511, 512, 513, 514, 768, 1023, 1024, 1025]),
        15 => *r.pick(&[2047usize, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 8194, 16383, 16384, 16385]),
        16 => r.range(300, 3000),
        17 => r.range(1, 20000),
        18 => *r.pick(&[32767usize, 32768, 32769, 65535, 65536, 65537, 65600, 131071, 131073]),
        _ => r.range(1, 400),
    };
    if n <= max { n } else { r.range(0, max) }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dom { Any, ZeroFree, Lower }

fn fit(b: u8, d: Dom) -> u8 { match d { Dom::Any => b, Dom::ZeroFree => if b == 0 { 1 } else { b }, Dom::Lower => b'a' + b % 26 } }

pub fn alphabet(r: &mut Rng, d: Dom) -> Vec<u8> {
    let mut v: Vec<u8> = match r.below(13) {
        0 => vec![b'a'],
        1 | 2 => vec![b'a', b'b'],
        3 => vec![b'a', b'b', b'c'],
        4 => vec![b'A', b'C', b'G', b'T'],
        5 => (b'a'..=b'z').collect(),
        6 => (0..=255u8).collect(),
        7 => { let k = r.range(1, 6); (0..k).map(|_| r.byte()).collect() }
        8 => vec![0xFF, 0xFE, 1, 0, b'0', b'\n'],
        9 | 10 => { /* letters that differ in one bit */ let (x, y, m) = (r.byte(), r.byte(), 1u8 << r.below(8)); if r.chance(2, 3) { vec![x, x ^ m] } else { vec![x, x ^ m, y, y ^ m] } }
        11 => vec![0x7F, 0x80],
        _ => vec![b'0', b'1'],
    };
    if d != Dom::Any { for b in v.iter_mut() { *b = fit(*b, d); } }
    v.sort(); v.dedup();
    v
}

/// A byte string of length n.
pub fn bytes(r: &mut Rng, n: usize, d: Dom) -> Vec<u8> {
    let mut s: Vec<u8> = Vec::with_capacity(n);
    let al = alphabet(r, d);
    match r.below(14) {
        0..=3 => for _ in 0..n { s.push(*r.pick(&al)); },
        4 => { let c = *r.pick(&al); s = vec![c; n]; if n > 0 && r.chance(1, 2) { let k = r.range(0, n - 1); s[k] = *r.pick(&al); } }
        5 | 6 => { /* runs with critical lengths */
            while s.len() < n {
                let c = *r.pick(&al);
                let l = match r.below(6) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(1, 300), 3 => r.range(253, 259), 4 => *r.pick(&[127usize, 128, 255, 256, 257, 511, 512, 513, 1024]), _ => r.range(1, 20) };
                for _ in 0..l.min(n - s.len()) { s.push(c); }
            }
        }
        7 => { let p = r.range(1, (n / 2).max(1)); let base: Vec<u8> = (0..p).map(|_| *r.pick(&al)).collect(); for i in 0..n { s.push(base[i % p]); } if r.chance(1, 2) && n > 0 { let k = r.range(0, n - 1); s[k] = *r.pick(&al); } }
        8 => { let x = *r.pick(&al); let y = *r.pick(&al); let (mut a, mut b) = (vec![x], vec![x, y]); while b.len() < n.max(2) { let mut c = b.clone(); c.extend_from_slice(&a); a = b; b = c; } b.truncate(n); s = b; }
        9 => { let x = *r.pick(&al); let y = *r.pick(&al); for i in 0..n { s.push(if (i as u32).count_ones() & 1 == 0 { x } else { y }); } }
        10 => { /* all symbols, then noise */ let mut perm: Vec<u8> = (0..=255u8).map(|b| fit(b, d)).collect(); for i in (1..perm.len()).rev() { let j = r.range(0, i); perm.swap(i, j); } for i in 0..n { s.push(perm[i % 256]); } }
        11 => { /* copies of earlier pieces */
            while s.len() < n {
                if s.len() < 2 || r.chance(1, 4) { s.push(*r.pick(&al)); } else { let a = r.range(0, s.len() - 1); let l = r.range(1, (s.len() - a).min(n - s.len()).max(1)); for k in 0..l { let c = s[a + k]; s.push(c); if s.len() == n { break; } } }
            }
            s.truncate(n);
        }
        12 => { let up = r.chance(1, 2); for i in 0..n { s.push(fit(if up { (i * 256 / n.max(1)) as u8 } else { 255 - (i * 256 / n.max(1)) as u8 }, d)); } }
        _ => { /* palindromes and squares */ let h: Vec<u8> = (0..n / 2 + 1).map(|_| *r.pick(&al)).collect(); s.extend_from_slice(&h); if r.chance(1, 2) { s.extend(h.iter().rev()); } else { s.extend_from_slice(&h); } s.resize(n, *r.pick(&al)); }
    }
    s.truncate(n);
    if n > 0 && r.chance(1, 7) { /* a run of critical length right at the end or the beginning */
        let c = *r.pick(&al);
        let l = if n >= 255 && r.chance(1, 2) { *r.pick(&[254usize, 255, 256, 257, 511, 512, 513, 768, 1024, 65535, 65536]) } else { r.range(1, n) }.min(n);
        let end = r.chance(2, 3);
        for k in 0..l { let j = if end { n - 1 - k } else { k }; s[j] = c; }
        if l < n { let j = if end { n - 1 - l } else { l }; if s[j] == c { s[j] = *r.pick(&al); } }
    }
    s
}
/// the length of a text beyond every buffer, counter and table of ordinary size
pub fn large(r: &mut Rng) -> usize { match r.below(4) { 0 => *r.pick(&[262_143usize, 262_144, 262_145, 524_287, 524_288, 524_289]), 1 | 2 => *r.pick(&[1_048_575usize, 1_048_576, 1_048_577, 1_000_000, 1_000_003, 1_114_112]), _ => r.range(140_000, 1_200_000) } }
/// runs longer than any counter of 16 bits, repeats likewise
pub fn large_bytes(r: &mut Rng, n: usize, d: Dom) -> Vec<u8> {
    if r.chance(2, 3) { return bytes(r, n, d); }
    let mut s: Vec<u8> = vec![];
    while s.len() < n {
        let l = match r.below(4) { 0 => r.range(65_530, 65_540), 1 => r.range(1, 300_000), 2 => r.range(131_060, 131_080), _ => r.range(1, 100) }.min(n - s.len());
        if s.len() > 2 && r.chance(1, 2) { let a = r.range(0, s.len() - 1); for k in 0..l { let c = s[a + k]; s.push(c); } } else { let c = fit(r.byte(), d); for _ in 0..l { s.push(c); } }
    }
    s
}
pub fn input(r: &mut Rng, max: usize, d: Dom) -> Vec<u8> {
    let n = size(r, max);
    let mut v = bytes(r, n, d);
    if d != Dom::Lower && r.chance(1, 10) { /* byte sequences that text tools are tempted to treat specially */
        let t: &[u8] = *r.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\r", b"\x1a", b"\x04", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b" ", b"\t", b"\\n", b"\x1b[0m", b"\xc3\xa4", b"\xe2\x82\xac", b"\xc3", b"--", b"$", b"#", b"\x7f", b"\x01", b"\xff", b"\0"]);
        let t: Vec<u8> = t.iter().map(|&b| fit(b, d)).collect();
        let t = &t[..t.len().min(max)];
        v.truncate(max - t.len());
        match r.below(4) { 0 | 1 => v.extend_from_slice(t), 2 => { v.splice(0..0, t.iter().copied()); } _ => { let k = r.range(0, v.len()); v.splice(k..k, t.iter().copied()); } }
    }
    v
}
