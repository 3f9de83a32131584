//! The client program of the library (C27): its arguments, and what it has to print.
use crate::gen::{self, Dom};
use crate::models as m;
use crate::rng::Rng;
use crate::tools::{opt, Stage, WORDS};
use std::collections::HashMap;

/// long results are condensed
fn list<T: std::fmt::Display>(v: &[T]) -> String {
    let s = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    if v.len() <= 3000 { return s; }
    let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } format!("{}#{:016x}", v.len(), h)
}
fn hex(v: &[u8]) -> String {
    if v.len() > 4000 { let mut h = 0xcbf29ce484222325u64; for &b in v { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } return format!("{}#{:016x}", v.len(), h); }
    let mut s = String::from("x"); for b in v { s.push_str(&format!("{:02x}", b)); } s
}
fn unhex(s: &str) -> Option<Vec<u8>> { let s = s.strip_prefix('x')?; if s.len() % 2 != 0 { return None; } (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect() }
/// z[i]: the length of the longest common prefix of t and t[i..]
fn z(t: &[u8]) -> Vec<usize> { let n = t.len(); let (mut l, mut r) = (0, 0); let mut z = vec![0; n]; for i in 1..n { if i < r { z[i] = z[i - l].min(r - i); } while i + z[i] < n && t[z[i]] == t[i + z[i]] { z[i] += 1; } if i + z[i] > r { l = i; r = i + z[i]; } } if n > 0 { z[0] = n; } z }
fn border(t: &[u8]) -> Vec<usize> {
    let n = t.len(); let z = z(t);
    let mut b = vec![0; n + 1];
    for i in 1..n { for j in (0..z[i]).rev() { if b[i + j + 1] > 0 { break; } b[i + j + 1] = j + 1; } }
    b
}
fn period(t: &[u8]) -> usize { let n = t.len(); let z = z(t); (1..n).find(|&p| p + z[p] == n).unwrap_or(n) }
fn primitive(t: &[u8]) -> bool { let n = t.len(); (1..n).all(|p| n % p != 0 || t[p..] != t[..n - p]) }
fn bbwt(t: &[u8]) -> Vec<u8> {
    let ends = m::lyndon(t);
    let mut c: Vec<(Vec<u8>, u8)> = vec![];
    let mut s = 0;
    for e in ends { let f = &t[s..=e]; for i in 0..f.len() { let mut w = f[i..].to_vec(); w.extend_from_slice(&f[..i]); let l = *w.last().unwrap(); c.push((w, l)); } s = e + 1; }
    /* infinite repetitions that agree on |a|+|b| symbols are equal */
    c.sort_by(|a, b| { let (x, y) = (&a.0, &b.0); for i in 0..x.len() + y.len() { let o = x[i % x.len()].cmp(&y[i % y.len()]); if o != std::cmp::Ordering::Equal { return o; } } std::cmp::Ordering::Equal });
    c.into_iter().map(|x| x.1).collect()
}
/// the closest smaller value on one side of each position, by scanning towards that side over the values that are not smaller
fn near(t: &[u8], next: bool) -> Vec<Option<usize>> {
    let n = t.len();
    let mut last = [None; 256]; // where a value was seen last
    let mut v = vec![None; n];
    for k in 0..n {
        let i = if next { n - 1 - k } else { k };
        v[i] = last[..t[i] as usize].iter().copied().flatten().reduce(|a: usize, b| if next { a.min(b) } else { a.max(b) });
        last[t[i] as usize] = Some(i);
    }
    v
}
thread_local! { static LAST: std::cell::RefCell<(Vec<u8>, Vec<usize>, Vec<usize>)> = const { std::cell::RefCell::new((vec![], vec![], vec![])) }; }
/// the suffix array and the LCP array, remembered for long texts
fn arrays(t: &[u8]) -> (Vec<usize>, Vec<usize>) {
    if t.len() < 2000 { let sa = m::suffix_array(t); let l = m::lcp_array(t, &sa); return (sa, l); }
    LAST.with(|l| { let mut l = l.borrow_mut(); if l.0 != t { let sa = m::suffix_array(t); let lcp = m::lcp_array(t, &sa); *l = (t.to_vec(), sa, lcp); } (l.1.clone(), l.2.clone()) })
}
fn isa(t: &[u8]) -> Vec<usize> { let sa = arrays(t).0; let mut v = vec![0; t.len()]; for i in 0..t.len() { v[sa[i]] = i; } v }
const WNAMES: [&str; 11] = ["fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "binary-de-brujin", "power2", "vtm"];
fn fibnum(k: u64) -> u128 { let (mut a, mut b) = (1u128, 2u128); for _ in 0..k { let c = a + b; a = b; b = c; } a }
fn tribnum(k: u64) -> u128 { let (mut a, mut b, mut c) = (1u128, 2u128, 4u128); for _ in 0..k { let d = a + b + c; a = b; b = c; c = d; } a }
fn bin(l: u64, i: u64) -> String { (0..l).rev().map(|b| if b < 64 && i >> b & 1 == 1 { '1' } else { '0' }).collect() }
/// the first k of them, for sizes at which all of them are out of reach
fn lyndon_first(n: usize, s: usize, k: usize) -> Vec<String> { m::lyndon_prefix(n, s, (n + 1) * k).split(|&c| c == b'\n').filter(|w| !w.is_empty()).take(k).map(|w| list(&w.iter().map(|c| c - b'a').collect::<Vec<u8>>())).collect() }
fn lyndon_list(n: usize, s: usize) -> Vec<String> { m::lyndon_words(n, s).split(|&c| c == b'\n').filter(|w| !w.is_empty()).map(|w| list(&w.iter().map(|c| c - b'a').collect::<Vec<u8>>())).collect() }
fn args(q: &str) -> Vec<u64> { q.split(':').skip(1).map(|x| x.parse().unwrap_or(0)).collect() }

/// the query without its prefix length, and the prefix
fn part<'a, 'b>(q: &'a str, t: &'b [u8]) -> (&'a str, &'b [u8]) { match q.split_once('/') { Some((q, l)) => (q, &t[..l.parse().unwrap_or(0).min(t.len())]), None => (q, t) } }
/// is the query within the domain of the function it names?
fn allowed(q: &str, t: &[u8]) -> bool {
    if let Some((q, k)) = q.split_once('*') { return t.len() <= 64 && k.parse().map_or(false, |k: usize| (1..=60).contains(&k)) && q.split('+').all(|q| !matches!(q.split(|c| c == ':' || c == '@' || c == '/').next().unwrap_or(""), "word" | "binary" | "lyndonwords" | "random" | "file" | "stream" | "conjugate") && allowed(q, t)); }
    if q.contains('/') { let (q, t) = part(q, t); return !q.starts_with("file") && !q.starts_with("stream") && allowed(q, t); }
    let n = t.len();
    let a = args(q);
    let base = q.split(|c| c == ':' || c == '@').next().unwrap_or("");
    if q.contains('@') && !matches!((base, q.split('@').nth(1).unwrap_or("")), ("isa" | "phi" | "lcp", "i32" | "u32" | "i64" | "usize" | "u16")) && !matches!(base, "border" | "period" | "primitive" | "duval" | "conjugate" | "sa" | "bwtsa" | "bbwt" | "matrixnaive" | "conjugates" | "psv" | "nsv") { return false; }
    match base {
        "border" | "duval" | "runs" => n <= 200_000,
        "runschoppy" => n <= 200_000 && a.len() == 1,
        "period" | "primitive" | "conjugate" => n > 0 && n <= 200_000,
        "sa" => n <= 2000,
        "psv" | "nsv" => n > 0 && n <= 200_000,
        "isa" | "isalyndon" | "phi" if !q.contains('@') => n > 0 && n <= 200_000,
        "bwtsa" | "isa" | "isalyndon" | "phi" => n > 0 && n <= 2000,
        "bbwt" => n > 0 && n <= 300,
        "matrixnaive" => n <= 300,
        "conjugates" => n <= 40,
        "matrix" => n > 0 && n <= 200_000 && (!t.contains(&0) || !t[..n - 1].contains(&0)),
        "bwt" => n > 0 && n <= 200_000 && !t[..n - 1].contains(&0),
        "plcp" | "lcp" => n <= if q.contains('@') { 2000 } else { 200_000 } && t.iter().any(|c| *c != t[0]),
        "bitsize" => a.len() == 1,
        "necklace" => a.len() == 1 && a[0] >= 1 && n > 0 && n <= 3000,
        "fibnumber" => a.len() == 1 && a[0] <= 91,
        "tribnumber" => a.len() == 1 && a[0] <= 70,
        "morphism" => a.len() == 2 && a[0] < 5 && if a[0] == 2 || a[0] == 3 { (97..=99).contains(&a[1]) } else { (97..=98).contains(&a[1]) },
        "word" => a.len() == 2 && (a[0] as usize) < WNAMES.len() && m::word_len(WNAMES[a[0] as usize], a[1] as usize) <= 20_000.0,
        "binary" => a.len() == 2 && a[0] < 256 && a[1] <= 5000,
        "lyndonwords" if a.len() == 3 => a[0] >= 1 && a[0] <= 70_000 && a[1] >= 1 && a[1] <= 150 && a[2] >= 1 && a[2] <= 60,
        "lyndonwords" => a.len() == 2 && a[1] >= 1 && a[1] <= 20 && (a[1] as f64).powf(a[0] as f64) <= 5000.0 && a[0] <= 30,
        "random" => a.len() == 3 && a[0] <= a[1] && a[1] <= 600 && a[2] >= 1 && a[2] <= 7,
        "file" => a.len() == 1,
        "stream" => true,
        _ => false,
    }
}
/// the result a query must have; None: judged by `odd`
fn expect(q: &str, t: &[u8]) -> Option<String> {
    if let Some((q, _)) = q.split_once('*') { return q.split('+').map(|q| expect(q, t)).collect::<Option<Vec<_>>>().map(|v| v.join("&")); }
    let (q, t) = part(q, t);
    let n = t.len();
    let a = args(q);
    let base = q.split(|c| c == ':' || c == '@').next().unwrap_or("");
    Some(match base {
        "border" => list(&border(t)),
        "period" => period(t).to_string(),
        "primitive" => primitive(t).to_string(),
        "duval" | "isalyndon" => list(&m::lyndon(t)),
        "sa" => list(&m::suffix_array(t)),
        "bwtsa" => hex(&m::bwt_sa(t)),
        "bwt" => hex(&m::bwt_sa(t)),
        "bbwt" => hex(&bbwt(t)),
        "matrix" | "matrixnaive" => hex(&m::bwt_rot(t)),
        "conjugates" => (0..n).map(|i| { let mut w = t[i..].to_vec(); w.extend_from_slice(&t[..i]); hex(&w) }).collect::<Vec<_>>().join(","),
        "psv" | "nsv" => { let v: Vec<String> = near(t, base == "nsv").into_iter().map(|p| p.map_or("-".into(), |x| x.to_string())).collect(); if n > 3000 { list(&v) } else { v.join(",") } },
        "isa" => list(&isa(t)),
        "phi" => { let sa = arrays(t).0; let isa = isa(t); list(&(0..n).map(|i| sa[(isa[i] + n - 1) % n]).collect::<Vec<_>>()) }
        "plcp" => { let (sa, lcp) = arrays(t); let mut v = vec![0; n]; for i in 0..n { v[sa[i]] = lcp[i]; } list(&v) }
        "lcp" => list(&arrays(t).1),
        "bitsize" => { let mut x = a[0]; let mut k = 0; while x > 0 { x /= 2; k += 1; } k.to_string() }
        "runs" | "runschoppy" => m::runs(t).to_string(),
        "necklace" => { let w = &t[..n.min(a[0] as usize)]; (1..w.len()).all(|i| w[i..] >= w[..w.len() - i]).to_string() }
        "fibnumber" => fibnum(a[0]).to_string(),
        "tribnumber" => tribnum(a[0]).to_string(),
        "morphism" => hex(match (a[0], a[1] as u8) { (0, b'a') => b"ab", (0, _) => b"ba", (1, b'a') => b"ab", (1, _) => b"a", (2, b'a') => b"ab", (2, b'b') => b"ac", (2, _) => b"a", (3, b'a') => b"abc", (3, b'b') => b"ac", (3, _) => b"b", (_, b'a') => b"aab", (_, _) => b"ab" }),
        "word" => hex(&m::word(WNAMES[a[0] as usize], a[1] as usize)?),
        "binary" => (0..a[1]).take_while(|&i| a[0] >= 64 || i < 1 << a[0]).map(|i| bin(a[0], i)).collect::<Vec<_>>().join(","),
        "lyndonwords" if a.len() == 3 => lyndon_first(a[0] as usize, a[1] as usize, a[2] as usize).join(";"),
        "lyndonwords" => lyndon_list(a[0] as usize, a[1] as usize).join(";"),
        "file" => { let p = a[0] as usize; hex(if p == 0 || p > n { t } else { &t[..p] }) }
        "stream" => hex(t),
        _ => return None,
    })
}
/// results with more than one right value
fn odd(q: &str, t: &[u8], got: &str) -> Result<(), String> {
    let (q, t) = part(q, t);
    let n = t.len();
    let a = args(q);
    let base = q.split(|c| c == ':' || c == '@').next().unwrap_or("");
    let bad = |w: &str| Err(format!("{}: {} ({})", q, cut(got), w));
    match base {
        "conjugate" => {
            let Ok(s) = got.parse::<usize>() else { return bad("no position") };
            if s >= n { return bad("no position of the text") }
            let (mut i, mut j, mut k) = (0usize, 1usize, 0usize);
            while i < n && j < n && k < n { let (x, y) = (t[(i + k) % n], t[(j + k) % n]); if x == y { k += 1; continue; } if x > y { i += k + 1; } else { j += k + 1; } if i == j { j += 1; } k = 0; }
            let best = i.min(j);
            if (0..n).any(|k| t[(best + k) % n] != t[(s + k) % n]) { return bad(&format!("the smallest conjugate starts at {}", best)); }
            Ok(())
        }
        "word" => match unhex(got) { Some(w) => m::debruijn_ok(&w, a[1] as usize + 1).map_err(|e| format!("{}: {}", q, e)), None => if got.contains('#') { Ok(()) } else { bad("unreadable") } },
        "random" => {
            for w in got.split(';').filter(|w| !w.is_empty()) {
                let v: Vec<u64> = w.split(',').map(|x| x.parse().unwrap_or(999)).collect();
                if v.last() != Some(&0) || v[..v.len() - 1].iter().any(|&c| c == 0 || c > 1 << a[2]) { return bad(&format!("the string {} is not over 1..{} with a final 0", w, 1u64 << a[2])); }
            }
            Ok(())
        }
        _ => bad("unknown query"),
    }
}
fn cut(s: &str) -> String { if s.len() > 80 { format!("{}..({} characters)", &s[..80], s.len()) } else { s.to_string() } }

/// texts beyond the 2^16 symbols at which narrow counters end, and the functions that need linear time
fn make_long(r: &mut Rng) -> (Stage, Vec<u8>) {
    let n = if r.chance(1, 2) { *r.pick(&[65_534usize, 65_535, 65_536, 65_537, 131_071, 131_072, 131_073]) } else { r.range(66_000, 180_000) };
    let zero = r.chance(1, 3);
    let mut t = gen::large_bytes(r, n, Dom::ZeroFree);
    match r.below(4) {
        0 => { /* a long period, perhaps broken */ let p = if r.chance(1, 2) { *r.pick(&[32_767usize, 32_768, 65_535, 65_536, 65_537]) } else { r.range(1, n) }.min(n); for i in p..n { t[i] = t[i - p]; } if r.chance(1, 3) { let k = r.range(0, n - 1); t[k] = t[k] % 255 + 1; } }
        1 => { let c = 1 + r.below(255) as u8; for b in t.iter_mut() { *b = c; } if r.chance(1, 2) { let k = r.range(0, n - 1); t[k] = 1 + r.below(255) as u8; } }
        2 => { let k = r.range(1, n); t.rotate_left(k % n); t.sort_unstable(); if r.chance(1, 2) { t.reverse(); } }
        _ => {}
    }
    if zero { t.push(0); }
    let names = ["border", "period", "primitive", "duval", "conjugate", "runs", "border@wide", "period@pair", "primitive@reverse", "duval@reverse", "duval@wide", "conjugate@pair", "isa", "isalyndon", "phi", "plcp", "lcp", "plcp", "lcp", "psv", "nsv"];
    let mut q: Vec<String> = vec![];
    for _ in 0..r.range(1, 4) {
        let x = match r.below(10) { 0 => if zero { "file:0".into() } else { format!("file:{}", r.range(1, n + 3)) }, 1 => "stream".into(), 2 if zero => "matrix".into(), 3 if zero => "bwt".into(), 4 => format!("lyndonwords:{}:{}:{}", *r.pick(&[1000usize, 4097, 32_769, 65_535, 65_536, 65_537]), r.range(1, 4), r.range(1, 4)), _ => r.pick(&names).to_string() };
        if allowed(&x, &t) { q.push(x); }
    }
    if q.is_empty() { q.push("border".into()); }
    let mut a = vec![format!("--threads={}", r.range(1, 3)), format!("--collect={}", r.pick(&["join", "mutex", "channel", "print"]))];
    if r.chance(1, 3) { a.push(format!("--phase={}", r.below(4))); }
    a.extend(q);
    (Stage { tool: "probe".into(), rel: true, args: a }, t)
}
pub fn make(r: &mut Rng, max: usize) -> (Stage, Vec<u8>) {
    if max >= 300 && r.chance(1, 40) { return make_long(r); }
    let max = if r.chance(1, 3) { max.min(16) } else if r.chance(1, 2) { max.min(280) } else { max };
    let dom = *r.pick(&[Dom::Any, Dom::Any, Dom::ZeroFree]);
    let mut input = if r.chance(1, 7) { let n = r.range(250, 2000); gen::large_bytes(r, n, dom) } else { gen::input(r, max, dom) };
    match r.below(8) {
        0 | 1 => { /* text with a unique smallest last byte */ for b in input.iter_mut() { if *b == 0 { *b = 1; } } input.push(0); }
        2 => { /* few letters, many repetitions */ let n = r.range(1, max.max(2)); let p = r.range(1, 6).min(n); input = (0..p).map(|_| *r.pick(b"ab")).collect(); while input.len() < n { let k = input.len(); let c = input[k - p]; input.push(if r.chance(1, 60) { b'b' } else { c }); } }
        3 if r.chance(1, 2) => { /* powers of words whose length is or is close to a round number */ let p = *r.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 512]); let k = r.range(1, 3); let one = gen::bytes(r, p, dom); input = one.repeat(k); if r.chance(1, 3) { input.push(*r.pick(&[1, b'a', 255])); } }
        4 if !input.is_empty() => { /* necklaces: the smallest conjugate, its powers and their prefixes */
            let n = input.len().min(600);
            let mut w = input[..n].to_vec(); if r.chance(1, 2) { for b in w.iter_mut() { *b = b'a' + *b % 3; } }
            let f = m::lyndon(&[&w[..], &w[..]].concat());
            let mut s = 0; for e in f { if e + 1 - s >= n / 2 && s < n { break; } s = e + 1; }
            w.rotate_left(s % n);
            let k = r.range(1, (1200 / n).clamp(1, 4)); input = w.repeat(k);
            if r.chance(1, 2) { let l = input.len(); input.truncate(r.range((l / 2).max(1), l)); }
            if r.chance(1, 3) { let l = input.len() - 1; input[l] = input[l].saturating_add(1); }
        }
        3 => { /* powers */ let k = r.range(1, 5); let one: Vec<u8> = input.iter().take((max / k).max(1)).copied().collect(); input = one.repeat(k); }
        _ => {}
    }
    let names = ["border", "period", "primitive", "duval", "conjugate", "sa", "bwtsa", "bbwt", "matrixnaive", "conjugates", "psv", "nsv"];
    let mut q: Vec<String> = vec![];
    /* sometimes everybody is busy with the same few functions */
    let focus = r.chance(1, 3);
    let kinds: Vec<u64> = if focus { (0..r.range(1, 2)).map(|_| if r.chance(1, 4) { *r.pick(&[10u64, 14, 15, 16]) } else { r.below(22) }).collect() } else { (0..24).collect() };
    let name = if focus { Some(*r.pick(&names)) } else { None };
    let more = if focus { Some(*r.pick(&["matrix", "bwt", "isa", "isalyndon", "phi", "plcp", "lcp"])) } else { None };
    let cuts: Vec<usize> = (0..r.range(1, 3)).map(|_| r.range(0, input.len())).collect();
    let few = focus && r.chance(2, 3);
    let want = if few { r.range(1, 4) } else if focus { r.range(4, 24) } else { r.range(3, 9) };
    let mut tries = 0;
    while q.len() < want && tries < 200 {
        tries += 1;
        let kind = *r.pick(&kinds);
        let mut x = match kind {
            0..=7 => { let b = name.unwrap_or_else(|| *r.pick(&names)); match r.below(6) { 0 => format!("{}@wide", b), 1 => format!("{}@pair", b), 2 => format!("{}@reverse", b), _ => b.to_string() } }
            8 | 9 => { let b = more.unwrap_or_else(|| *r.pick(&["matrix", "bwt", "isa", "isalyndon", "phi", "plcp", "lcp", "plcp", "lcp"])); if matches!(b, "isa" | "phi" | "lcp") && r.chance(1, 2) { format!("{}@{}", b, r.pick(&["i32", "u32", "i64", "usize", "u16"])) } else { b.to_string() } },
            10 => format!("bitsize:{}", match r.below(4) { 0 => (1u64 << r.range(0, 63)).wrapping_sub(r.below(2)), 1 => r.next(), 2 => u64::MAX, _ => r.below(40) }),
            11 => if r.chance(1, 2) { "runs".into() } else { format!("runschoppy:{}", r.below(1000)) },
            12 | 13 => format!("necklace:{}", if r.chance(1, 3) { input.len().max(1) } else { r.range(1, input.len().max(1)) }),
            14 => format!("fibnumber:{}", r.range(0, 91)),
            15 => format!("tribnumber:{}", r.range(0, 70)),
            16 => { let k = r.below(5); format!("morphism:{}:{}", k, 97 + r.below(if k == 2 || k == 3 { 3 } else { 2 })) }
            17 => { let w = r.below(WORDS.len() as u64); format!("word:{}:{}", w, r.range(0, 14)) }
            18 | 19 => { let l = match r.below(6) { 0 => *r.pick(&[31usize, 32, 33, 62, 63, 64, 65, 100, 255]), _ => r.range(0, 9) }; format!("binary:{}:{}", l, if l < 10 { (1 << l) + r.range(0, 3) } else { r.range(1, 40) }) }
            20 => if r.chance(1, 4) { let k = r.range(1, 60); format!("lyndonwords:{}:{}:{}", match r.below(4) { 0 => *r.pick(&[63usize, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1025]), 1 => r.range(200, 600), _ => r.range(9, 90) }, { let top = if r.chance(1, 4) { 150 } else { 5 }; r.range(1, top) }, k) } else { format!("lyndonwords:{}:{}", r.range(0, 8), r.range(1, 5)) },
            21 => { let a = r.range(0, 200); format!("random:{}:{}:{}", a, if r.chance(1, 3) { 2 * a + r.range(0, 3) } else { a + r.range(0, 400) }, r.range(1, 7)) }
            22 => format!("file:{}", if r.chance(1, 2) { 0 } else { r.range(1, input.len() + 3) }),
            _ => "stream".into(),
        };
        if kind < 22 && !(14..21).contains(&kind) && r.chance(1, if focus { 2 } else { 4 }) { x = format!("{}/{}", x, if r.chance(1, 3) { r.range(0, input.len()) } else { *r.pick(&cuts) }); }
        if !allowed(&x, &input) { continue; }
        if r.chance(1, if few { 1 } else { 8 }) { if r.chance(1, 2) { if let Some(p) = q.last() { x = format!("{}+{}", p.split('*').next().unwrap_or(p), x); } } let y = format!("{}*{}", x, r.range(2, 40)); if allowed(&y, &input) { x = y; } else if x.contains('+') { continue; } }
        q.push(x);
    }
    if few && !q.is_empty() { let d = q.clone(); for _ in 0..r.range(4, if d[0].contains('*') { 8 } else { 40 }) { q.push(r.pick(&d).clone()); } }
    let mut a = vec![format!("--threads={}", match r.below(6) { 0 => 1, 1 | 2 => 2, 3 | 4 => 3, _ => r.range(4, 8) }), format!("--collect={}", r.pick(&["join", "mutex", "channel", "print"]))];
    if r.chance(1, 3) { a.push(format!("--phase={}", r.below(4))); }
    if r.chance(1, 3) { a.push(if r.chance(1, 2) { format!("--share=lyndon:{}:{}", r.range(1, 6), r.range(1, 3)) } else { format!("--share=binary:{}", r.range(0, 7)) }); }
    a.extend(q);
    (Stage { tool: "probe".into(), rel: r.chance(1, 2), args: a }, input)
}
pub fn pre_ok(st: &Stage, t: &[u8]) -> bool {
    let th = opt(&st.args, "--threads=").and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    let share = match opt(&st.args, "--share=") { None => true, Some(s) => { let a = args(s); if s.starts_with("lyndon:") { a.len() == 2 && allowed(&s.replace("lyndon:", "lyndonwords:"), t) } else { a.len() == 1 && a[0] < 10 } } };
    (1..=16).contains(&th) && share && matches!(opt(&st.args, "--collect="), Some("join" | "mutex" | "channel" | "print")) && st.args.iter().filter(|a| !a.starts_with("--")).all(|q| allowed(q, t))
}
pub fn validate(st: &Stage, t: &[u8], code: Option<i32>, out: &[u8], err: &str) -> Result<(), String> {
    let qs: Vec<&String> = st.args.iter().filter(|a| !a.starts_with("--")).collect();
    let th = opt(&st.args, "--threads=").and_then(|x| x.parse::<usize>().ok()).unwrap_or(1);
    if code != Some(0) { return Err(format!("exit {:?} although every call is within its domain; stderr: {}", code, err)); }
    let out = String::from_utf8_lossy(out);
    let mut got: HashMap<(usize, usize), String> = HashMap::new();
    let mut shared: Vec<Vec<String>> = vec![vec![]; th];
    for l in out.lines() {
        let mut p = l.splitn(3, ' ');
        let (a, b, c) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
        let Ok(b) = b.parse::<usize>() else { return Err(format!("torn line {:?}", cut(l))) };
        if a == "g" { if b >= th { return Err(format!("torn line {:?}", cut(l))); } shared[b].push(c.to_string()); continue; }
        let Ok(a) = a.parse::<usize>() else { return Err(format!("torn line {:?}", cut(l))) };
        if got.insert((a, b), c.to_string()).is_some() { return Err(format!("thread {} answers query {} twice", a, b)); }
    }
    for i in 0..qs.len() {
        let e = expect(qs[i], t);
        for n in 0..th {
            let Some(g) = got.get(&(n, i)) else { return Err(format!("thread {} did not answer {}", n, qs[i])) };
            if g == "skip" && (qs[i].starts_with("file:") || qs[i] == "stream") { continue; }
            match &e { Some(e) => if e != g { return Err(format!("thread {}: {} of a text of {} bytes is {}, not {}", n, qs[i], t.len(), cut(e), cut(g))); }, None => odd(qs[i], t, g).map_err(|e| format!("thread {}: {}", n, e))? }
        }
    }
    if got.len() != th * qs.len() { return Err(format!("{} answers to {} queries", got.len(), th * qs.len())); }
    if let Some(s) = opt(&st.args, "--share=") {
        let a = args(s);
        let order: Vec<String> = if s.starts_with("lyndon:") { lyndon_list(a[0] as usize, a[1] as usize) } else { (0..1u64 << a[0]).map(|i| list(&bin(a[0], i).into_bytes())).collect() };
        let rank: HashMap<&String, usize> = order.iter().enumerate().map(|(i, w)| (w, i)).collect();
        let mut seen = vec![false; order.len()];
        for (n, v) in shared.iter().enumerate() {
            let mut last = None;
            for w in v {
                let Some(&k) = rank.get(w) else { return Err(format!("the shared generator {} hands out {:?}", s, w)) };
                if seen[k] { return Err(format!("the shared generator {} hands out {:?} twice", s, w)); }
                seen[k] = true;
                if last.map_or(false, |l| l > k) { return Err(format!("thread {} gets {:?} from the shared generator {} out of order", n, w, s)); }
                last = Some(k);
            }
        }
        if let Some(k) = seen.iter().position(|x| !x) { return Err(format!("the shared generator {} never hands out {:?}", s, order[k])); }
    }
    Ok(())
}
