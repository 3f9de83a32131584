//! Small reference models, written from the definitions, sharing no code with the tools.
use std::collections::{BTreeMap, HashSet};

/// sorts 0..n by the first 2^j symbols, j rising, until all differ or everything has been compared;
/// cyclic: positions wrap around, otherwise a shorter suffix sorts before its extensions
fn doubling(t: &[u8], cyclic: bool) -> Vec<usize> {
    let n = t.len();
    let mut rank: Vec<u32> = t.iter().map(|&c| c as u32 + 1).collect();
    let mut sa: Vec<u32> = (0..n as u32).collect();
    let mut by2: Vec<u32> = vec![0; n];
    let mut tmp: Vec<u32> = vec![0; n];
    let mut cnt: Vec<u32> = vec![];
    let mut top = 257usize;
    let mut k = 0usize; /* number of symbols behind `rank`; 0 stands for the first pass over single symbols */
    loop {
        /* order by the second half */
        if k == 0 { for i in 0..n { by2[i] = i as u32; } }
        else if cyclic { for i in 0..n { by2[i] = ((sa[i] as usize + n - k % n) % n) as u32; } }
        else { let mut q = 0; for i in n - k.min(n)..n { by2[q] = i as u32; q += 1; } for i in 0..n { if sa[i] as usize >= k { by2[q] = sa[i] - k as u32; q += 1; } } }
        /* then stably by the first half */
        cnt.clear(); cnt.resize(top + 1, 0);
        for &x in &rank { cnt[x as usize] += 1; }
        for i in 1..=top { cnt[i] += cnt[i - 1]; }
        for &x in by2.iter().rev() { let c = &mut cnt[rank[x as usize] as usize]; *c -= 1; sa[*c as usize] = x; }
        let second = |i: usize| -> u32 { if k == 0 { 0 } else if cyclic { rank[(i + k) % n] } else if i + k < n { rank[i + k] } else { 0 } };
        tmp[sa[0] as usize] = 1;
        for i in 1..n { let (a, b) = (sa[i - 1] as usize, sa[i] as usize); tmp[b] = tmp[a] + (rank[a] != rank[b] || second(a) != second(b)) as u32; }
        std::mem::swap(&mut rank, &mut tmp);
        top = rank[sa[n - 1] as usize] as usize;
        k = if k == 0 { 1 } else { 2 * k };
        if top == n || k >= n { return sa.iter().map(|&i| i as usize).collect(); }
    }
}
/// suffix array; a shorter suffix sorts before its extensions
pub fn suffix_array(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    if n < 64 { let mut sa: Vec<usize> = (0..n).collect(); sa.sort_by(|&a, &b| t[a..].cmp(&t[b..])); return sa; }
    doubling(t, false)
}
/// lcp[i] = longest common prefix of suffixes sa[i-1], sa[i]; lcp[0] = 0 (Kasai)
pub fn lcp_array(t: &[u8], sa: &[usize]) -> Vec<usize> {
    let n = t.len();
    let mut rk = vec![0; n];
    for i in 0..n { rk[sa[i]] = i; }
    let mut lcp = vec![0; n];
    let mut h = 0usize;
    for i in 0..n {
        if rk[i] == 0 { h = 0; continue; }
        let j = sa[rk[i] - 1];
        while i + h < n && j + h < n && t[i + h] == t[j + h] { h += 1; }
        lcp[rk[i]] = h;
        h = h.saturating_sub(1);
    }
    lcp
}
/// longest previous factor (overlap allowed): max over j<i of lcp(i,j)
pub fn lpf(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    if n == 0 { return vec![]; }
    let sa = suffix_array(t);
    let lcp = lcp_array(t, &sa);
    /* delete suffixes from the text end; neighbours in the remaining list are the candidates */
    let mut rk = vec![0; n];
    for i in 0..n { rk[sa[i]] = i; }
    const NO: usize = usize::MAX;
    let mut prev: Vec<usize> = (0..n).map(|i| if i == 0 { NO } else { i - 1 }).collect();
    let mut next: Vec<usize> = (0..n).map(|i| if i + 1 == n { NO } else { i + 1 }).collect();
    let mut l = lcp.clone(); /* l[i] = lcp(i, prev(i)) over the remaining list */
    let mut out = vec![0; n];
    for p in (0..n).rev() {
        let r = rk[p];
        let a = if prev[r] == NO { 0 } else { l[r] };
        let b = if next[r] == NO { 0 } else { l[next[r]] };
        out[p] = a.max(b);
        if next[r] != NO { l[next[r]] = if prev[r] == NO { 0 } else { a.min(b) }; prev[next[r]] = prev[r]; }
        if prev[r] != NO { next[prev[r]] = next[r]; }
    }
    out
}
/// last column of the sorted rotations
pub fn bwt_rot(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    if n == 0 { return vec![]; }
    let idx = if n > 40 { doubling(t, true) } else {
        let mut idx: Vec<usize> = (0..n).collect();
        idx.sort_by(|&a, &b| { for i in 0..n { let c = t[(a + i) % n].cmp(&t[(b + i) % n]); if c != std::cmp::Ordering::Equal { return c; } } std::cmp::Ordering::Equal });
        idx
    };
    idx.iter().map(|&i| t[(i + n - 1) % n]).collect()
}
pub fn bwt_sa(t: &[u8]) -> Vec<u8> { let n = t.len(); suffix_array(t).iter().map(|&i| t[(i + n - 1) % n]).collect() }
pub fn runs(t: &[u8]) -> usize { (0..t.len()).filter(|&i| i == 0 || t[i] != t[i - 1]).count() }
pub fn sigma(t: &[u8]) -> usize { t.iter().collect::<HashSet<_>>().len() }

pub fn run_list(t: &[u8]) -> Vec<(u8, usize)> {
    let mut v: Vec<(u8, usize)> = vec![];
    for &c in t { match v.last_mut() { Some((d, k)) if *d == c => *k += 1, _ => v.push((c, 1)) } }
    v
}
pub fn rle_human(t: &[u8]) -> Vec<u8> {
    let mut s = String::new();
    for (c, k) in run_list(t) { s.push('('); s.push(c as char); s.push_str(&format!(",{})", k)); }
    s.into_bytes()
}
/// decode (byte, length-1) pairs
pub fn unrle(e: &[u8]) -> Option<Vec<u8>> {
    if e.len() % 2 != 0 { return None; }
    let mut o = vec![];
    for p in e.chunks(2) { for _ in 0..p[1] as usize + 1 { o.push(p[0]); } }
    Some(o)
}
pub fn unrle_zero(e: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < e.len() {
        if e[i] == b'0' { if i + 1 >= e.len() { return None; } for _ in 0..e[i + 1] as usize + 1 { o.push(b'0'); } i += 2; } else { o.push(e[i]); i += 1; }
    }
    Some(o)
}
pub fn mtf(t: &[u8]) -> Vec<u8> {
    let mut l: Vec<u8> = (0..=255).collect();
    t.iter().map(|c| { let p = l.iter().position(|d| d == c).unwrap(); let x = l.remove(p); l.insert(0, x); p as u8 }).collect()
}
pub fn escape(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for &c in t {
        if c == e { o.push(e); o.push(e); } else if let Some(i) = from.iter().position(|&f| f == c) { o.push(e); o.push(to[i]); } else { o.push(c); }
    }
    o
}
/// Err(prefix decoded so far) on malformed input
pub fn unescape(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != e { o.push(t[i]); i += 1; continue; }
        if i + 1 >= t.len() { return Err(o); }
        if t[i + 1] == e { o.push(e); } else if let Some(k) = to.iter().position(|&f| f == t[i + 1]) { o.push(from[k]); } else { return Err(o); }
        i += 2;
    }
    Ok(o)
}
/// the lex-parse as (pos, len)
pub fn lexparse(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    let sa = suffix_array(t);
    let lcp = lcp_array(t, &sa);
    let mut rk = vec![0; n];
    for i in 0..n { rk[sa[i]] = i; }
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let r = rk[i];
        if r == 0 || lcp[r] == 0 { v.push((t[i] as usize, 0)); i += 1; } else { v.push((sa[r - 1], lcp[r])); i += lcp[r]; }
    }
    v
}
/// end positions (inclusive) of the Lyndon factors: a factor starts wherever the suffix is smaller than all earlier ones
pub fn lyndon(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let sa = suffix_array(t);
    let mut rk = vec![0; n];
    for i in 0..n { rk[sa[i]] = i; }
    let mut min = usize::MAX;
    let mut ends = vec![];
    for i in 0..n { if rk[i] < min { if i > 0 { ends.push(i - 1); } min = rk[i]; } }
    if n > 0 { ends.push(n - 1); }
    ends
}
pub fn lyndon_file(t: &[u8]) -> Vec<u8> {
    let ends = lyndon(t);
    let mut o = b">Factor 1\n".to_vec();
    o.extend_from_slice(&t[..=ends[0]]);
    for k in 1..ends.len() {
        let s = ends[k - 1] + 1;
        if k + 1 == ends.len() && s == ends[k] && t[s] == 0 { break; }
        o.extend_from_slice(format!("\n>Factor {} : {} -> {}\n", k + 1, s, ends[k] + 1).as_bytes());
        o.extend_from_slice(&t[s..=ends[k]]);
    }
    o
}
/// minimal unique substrings of a text with a unique last byte, not touching that byte
pub fn mus(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    let sa = suffix_array(t);
    let lcp = lcp_array(t, &sa);
    let mut su = vec![0; n]; /* shortest unique prefix length at i */
    for r in 0..n { su[sa[r]] = lcp[r].max(if r + 1 < n { lcp[r + 1] } else { 0 }) + 1; }
    let mut v = vec![];
    for i in 0..n.saturating_sub(1) {
        let l = su[i];
        if i + l > n - 1 { continue; } /* contains the terminator or is not unique */
        /* t[i..i+l) is unique with repeated proper prefix; minimal iff t[i+1..i+l) repeats (the empty string does) */
        if l == 1 || su[i + 1] > l - 1 { v.push((i, l)); }
    }
    v
}
/// Some(None): attractor; Some(Some(_)) : an uncovered substring exists. O(n^2).
pub struct Attr { sa: Vec<usize>, lcp: Vec<usize>, d: Vec<usize> }
pub fn attr(t: &[u8], pos: &[usize]) -> Attr {
    let n = t.len();
    let sa = suffix_array(t);
    let lcp = lcp_array(t, &sa);
    let mut d = vec![usize::MAX; n];
    let set: HashSet<usize> = pos.iter().copied().collect();
    let mut nx = usize::MAX;
    for i in (0..n).rev() { if set.contains(&i) { nx = i; } if nx != usize::MAX { d[i] = nx - i; } }
    Attr { sa, lcp, d }
}
impl Attr {
    /// every non-empty substring has a crossing occurrence
    pub fn valid(&self, t: &[u8]) -> bool {
        let n = t.len();
        if n > 400 { return self.valid_fast(); }
        for l in 1..=n {
            let mut r = 0;
            while r < n {
                if self.sa[r] + l > n { r += 1; continue; }
                let mut m = self.d[self.sa[r]];
                let mut q = r + 1;
                while q < n && self.lcp[q] >= l { m = m.min(self.d[self.sa[q]]); q += 1; }
                if m >= l { return false; }
                r = q;
            }
        }
        true
    }
}
impl Attr {
    /// the same over the edges of the suffix tree: the shortest substring on each edge decides
    pub fn valid_fast(&self) -> bool {
        let n = self.sa.len();
        let mut stack: Vec<(usize, usize)> = vec![(0, usize::MAX)];
        for i in 0..n {
            let next = if i + 1 < n { self.lcp[i + 1] } else { 0 };
            let mut cur = self.d[self.sa[i]];
            let up = self.lcp[i].max(next);
            if n - self.sa[i] > up && cur > up { return false; }
            while stack.last().unwrap().0 > next {
                let (_, m) = stack.pop().unwrap();
                cur = cur.min(m);
                let up = stack.last().unwrap().0.max(next);
                if cur > up { return false; }
            }
            let top = stack.last_mut().unwrap();
            if top.0 == next { top.1 = top.1.min(cur); } else { stack.push((next, cur)); }
        }
        true
    }
}
#[test]
fn attr_fast_agrees() {
    let mut x = 88172645463325252u64;
    let mut rnd = |k: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x % k };
    let (mut yes, mut no) = (0, 0);
    for _ in 0..30000 {
        let n = 1 + rnd(24) as usize; let s = 1 + rnd(3);
        let t: Vec<u8> = (0..n).map(|_| b'a' + rnd(s) as u8).collect();
        let k = rnd(n as u64 + 1); let p: Vec<usize> = (0..k).map(|_| rnd(n as u64) as usize).collect();
        let a = attr(&t, &p);
        let v = a.valid(&t);
        assert_eq!(v, a.valid_fast(), "{:?} {:?}", t, p);
        let naive = (0..n).all(|i| (i + 1..=n).all(|j| occurs_covered(&t, &p, &t[i..j]).1));
        assert_eq!(v, naive);
        if v { yes += 1 } else { no += 1 }
    }
    assert!(yes > 1000 && no > 1000);
}
/// substring w of t: does it occur, and is some occurrence crossing a position?
pub fn occurs_covered(t: &[u8], pos: &[usize], w: &[u8]) -> (bool, bool) {
    let (mut occ, mut cov) = (false, false);
    if w.is_empty() || w.len() > t.len() { return (false, false); }
    for i in 0..=t.len() - w.len() { if &t[i..i + w.len()] == w { occ = true; if pos.iter().any(|&p| p >= i && p < i + w.len()) { cov = true; break; } } }
    (occ, cov)
}
/// k-th order empirical entropy of t (k >= 0)
pub fn entropy(t: &[u8], k: usize) -> f64 {
    let n = t.len();
    let mut ctx: BTreeMap<&[u8], BTreeMap<u8, u64>> = BTreeMap::new();
    for i in k..n { *ctx.entry(&t[i - k..i]).or_default().entry(t[i]).or_default() += 1; }
    let mut s = 0.0;
    for m in ctx.values() { let tot: u64 = m.values().sum(); for &c in m.values() { if c != tot { s += c as f64 * (tot as f64 / c as f64).log2(); } } }
    s / n as f64
}
fn morphism(start: &[u8], k: usize, f: &dyn Fn(u8) -> &'static [u8]) -> Vec<u8> {
    let mut v = start.to_vec();
    for _ in 0..k { v = v.iter().flat_map(|&c| f(c).iter().copied()).collect(); }
    v
}
/// the k-th word; None where only a property is specified (de Bruijn)
pub fn word(name: &str, k: usize) -> Option<Vec<u8>> {
    Some(match name {
        "fibonacci" => { let (mut a, mut b) = (b"a".to_vec(), b"ab".to_vec()); for _ in 0..k { let mut c = b.clone(); c.extend_from_slice(&a); a = b; b = c; } a }
        "fibonacci-lyndon-factor" => { /* f_{i+1} = the Lyndon rotations a|..|b : apply a->aab, b->ab to "ab" */ morphism(b"ab", k, &|c| if c == b'a' { b"aab" } else { b"ab" }) }
        "tribonacci" => { let (mut a, mut b, mut c) = (b"a".to_vec(), b"ab".to_vec(), b"abac".to_vec()); for _ in 0..k { let mut d = c.clone(); d.extend_from_slice(&b); d.extend_from_slice(&a); a = b; b = c; c = d; } a }
        "kolakoski" => { let mut cur = b"bb".to_vec(); for _ in 0..k { let mut nx = vec![]; for (i, &c) in cur.iter().enumerate() { let x = if i % 2 == 0 { b'b' } else { b'a' }; for _ in 0..if c == b'b' { 2 } else { 1 } { nx.push(x); } } cur = nx; } cur }
        "thue-morse" => (0..1usize << k).map(|i| if i.count_ones() % 2 == 0 { b'a' } else { b'b' }).collect(),
        "period-doubling" => (1..=1usize << k).map(|i| if i.trailing_zeros() % 2 == 0 { b'a' } else { b'b' }).collect(),
        "quaternary-paper-folding" => { let p = paper(1 << (k + 1)); (0..1usize << k).map(|i| match (p[2 * i], p[2 * i + 1]) { (1, 1) => b'd', (0, 1) => b'b', (1, 0) => b'c', _ => b'a' }).collect() }
        "paper-folding" => paper(1 << (k + 1)).iter().map(|&b| b'0' + b).collect(),
        "power2" => (1..=1usize << k).map(|i| if i.is_power_of_two() { b'b' } else { b'a' }).collect(),
        "vtm" => morphism(b"a", k, &|c| match c { b'a' => b"abc", b'b' => b"ac", _ => b"b" }),
        "binary-de-brujin" => return None,
        _ => return None,
    })
}
/// about the length of word k
pub fn word_len(name: &str, k: usize) -> f64 {
    let lin = |v0: [f64; 3], m: [[f64; 3]; 3]| { let mut v = v0; for _ in 0..k { let mut w = [0.0; 3]; for i in 0..3 { for j in 0..3 { w[j] += v[i] * m[i][j]; } } v = w; } v.iter().sum::<f64>() };
    if k > 255 { return f64::INFINITY; }
    match name {
        "fibonacci" => lin([1.0, 0.0, 0.0], [[1.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0; 3]]),
        "fibonacci-lyndon-factor" => lin([1.0, 1.0, 0.0], [[2.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.0; 3]]),
        "tribonacci" => lin([1.0, 0.0, 0.0], [[1.0, 1.0, 0.0], [1.0, 0.0, 1.0], [1.0, 0.0, 0.0]]),
        "vtm" => lin([1.0, 0.0, 0.0], [[1.0, 1.0, 1.0], [1.0, 0.0, 1.0], [0.0, 1.0, 0.0]]),
        "kolakoski" => 3.0 * 1.5f64.powi(k as i32),
        "paper-folding" | "binary-de-brujin" => 2f64.powi(k as i32 + 1),
        _ => 2f64.powi(k as i32),
    }
}
/// orders whose word nobody can hold, for the words that are built in a buffer of their full length
pub fn word_huge(name: &str, k: usize) -> bool { k >= 256 || k >= 36 && word_len(name, k) > 6e10 && matches!(name, "thue-morse" | "period-doubling" | "paper-folding" | "quaternary-paper-folding" | "power2" | "fibonacci") || name == "kolakoski" && k >= 64 }
/// regular paper-folding sequence: term i (1-based), i = 2^e * m with m odd: 1 iff m = 1 mod 4
fn paper(n: usize) -> Vec<u8> { (1..=n).map(|i| { let m = i >> i.trailing_zeros(); (m % 4 == 1) as u8 }).collect() }
pub fn debruijn_ok(w: &[u8], order: usize) -> Result<(), String> {
    let n = 1usize << order;
    if w.len() != n { return Err(format!("length {} instead of {}", w.len(), n)); }
    if w.iter().any(|&c| c != b'a' && c != b'b') { return Err("symbol outside {a,b}".into()); }
    let mut seen = vec![false; n];
    for i in 0..n { let mut x = 0usize; for j in 0..order { x = x * 2 + (w[(i + j) % n] == b'b') as usize; } if seen[x] { return Err(format!("window at {} repeats", i)); } seen[x] = true; }
    Ok(())
}
/// the first `limit` bytes of the enumeration
pub fn enumerate_prefix(sigma: usize, a: usize, b: usize, limit: usize) -> Vec<u8> {
    let mut o = vec![];
    for len in a..=b {
        let mut w = vec![0usize; len];
        loop {
            o.extend(w.iter().map(|&x| b'a' + x as u8)); o.push(b'\n');
            if o.len() >= limit { o.truncate(limit); return o; }
            let Some(p) = w.iter().rposition(|&x| x + 1 < sigma) else { break };
            w[p] += 1; for x in w[p + 1..].iter_mut() { *x = 0; }
        }
    }
    o
}
/// the first `limit` bytes of the list of Lyndon words: candidates in lexicographic order, kept if they are Lyndon words
pub fn lyndon_prefix(n: usize, s: usize, limit: usize) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut w: Vec<u8> = vec![];
    /* per[k]: the smallest period of w[..k], which is a prefix of a power of a Lyndon word as long as it is in w */
    let mut per: Vec<usize> = vec![0];
    if n == 0 || s == 0 { return o; }
    let mut c = 0u8;
    loop {
        /* pre-order: the smallest letter that can follow, else advance the last one */
        let k = w.len();
        if k < n && (c as usize) < s {
            let p = per[k];
            let f = if k == 0 { 0 } else { w[k - p] - b'a' };
            if c < f { c = f; continue; }
            w.push(b'a' + c);
            per.push(if k == 0 { 1 } else if c == f { p } else { k + 1 });
            if per[k + 1] == k + 1 { o.extend(&w); o.push(b'\n'); if o.len() >= limit { o.truncate(limit); return o; } }
            c = 0;
        } else {
            per.pop();
            match w.pop() { None => return o, Some(x) => c = x - b'a' + 1 }
        }
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn prefixes() { for n in 0..9 { for s in 1..4 { let all = super::lyndon_words(n, s); for l in [1usize, 5, 17, 100, 1000, 10_000_000] { assert_eq!(super::lyndon_prefix(n, s, l), all[..l.min(all.len())], "{} {} {}", n, s, l); } } } }
}
/// the first `limit` bytes of the survey of binary strings of length 32 (first letter fastest): every string whose lex-parse
/// differs in size from that of the string with swapped letters by at least as much as any before it
pub fn lexsurvey_prefix(limit: usize) -> Vec<u8> {
    let (mut o, mut best, mut k) = (String::new(), 0, 0u64);
    while o.len() < limit {
        let t: Vec<u8> = (0..32).map(|i| b'a' + (k >> i & 1) as u8).collect();
        let u: Vec<u8> = t.iter().map(|c| b'a' + b'b' - c).collect();
        let size = |w: &[u8]| {
            /* naive: the longest match with the lexicographic predecessor among the suffixes */
            let mut x = w.to_vec(); x.push(0);
            let mut sa: Vec<usize> = (0..33).collect(); sa.sort_by(|a, b| x[*a..].cmp(&x[*b..]));
            let mut rk = [0; 33]; for (r, p) in sa.iter().enumerate() { rk[*p] = r; }
            let (mut i, mut n) = (0, 0);
            while i < 33 { let l = if rk[i] == 0 { 0 } else { let p = sa[rk[i] - 1]; x[p..].iter().zip(&x[i..]).take_while(|(a, b)| a == b).count() }; i += l.max(1); n += 1; }
            n
        };
        let (a, b) = (size(&t), size(&u));
        let d = if a > b { a - b } else { b - a };
        if d >= best { best = d; let (x, y) = if a <= b { (&t, &u) } else { (&u, &t) }; o.push_str(&format!("{}: \"{}\\0\" <-> \"{}\\0\"\n", d, String::from_utf8_lossy(x), String::from_utf8_lossy(y))); }
        k += 1;
    }
    o.truncate(limit);
    o.into_bytes()
}
/// is `got` the beginning of `exp`, where pairs of equal size may be printed either way round?
pub fn lexsurvey_begins(got: &[u8], exp: &[u8]) -> bool {
    let swap = |l: &[u8]| -> Vec<u8> { let s = String::from_utf8_lossy(l).into_owned(); match s.strip_prefix("0: ").and_then(|r| r.strip_suffix('\n')).and_then(|r| r.split_once(" <-> ")) { Some((a, b)) => format!("0: {} <-> {}\n", b, a).into_bytes(), None => l.to_vec() } };
    let mut g = got;
    for l in exp.split_inclusive(|&c| c == b'\n') {
        if g.is_empty() { return true; }
        let k = g.len().min(l.len());
        if g[..k] != l[..k] && g[..k] != swap(l)[..k] { return false; }
        g = &g[k..];
    }
    g.is_empty()
}
/// what the survey of the binary Lyndon words of one length prints: the lines about conjugates (in any order), then the table
pub struct Block { pub lines: std::collections::HashMap<Vec<u8>, u32>, pub count: usize, pub tail: Vec<u8> }
pub fn survey_block(l: usize) -> Block {
    /* words of up to 23 bits; a rotation is compared by the first 64 letters of its infinite repetition */
    const N: usize = 24;
    fn key(w: &[u8], at: usize) -> (u64, u8) { let mut k = 0u64; for i in 0..64 { k = k << 1 | w[(at + i) % w.len()] as u64; } (k, w[(at + w.len() - 1) % w.len()]) }
    fn last(mut k: Vec<(u64, u8)>) -> (Vec<u8>, usize) { k.sort(); let o: Vec<u8> = k.iter().map(|x| x.1).collect(); let r = 1 + o.windows(2).filter(|p| p[0] != p[1]).count(); (o, r) }
    let show = |w: &[u8]| -> String { w.iter().map(|c| (b'a' + c) as char).collect() };
    let (mut lines, mut count, mut stats, mut total) = (std::collections::HashMap::new(), 0, [[0u64; N + 1]; N + 1], 0u64);
    for x in 0..1u32 << l {
        let mask = ((1u64 << l) - 1) as u32;
        if (1..l).any(|i| (x << i | x >> (l - i)) & mask <= x) { continue; }
        let w: Vec<u8> = (0..l).map(|i| (x >> (l - 1 - i) & 1) as u8).collect();
        total += 1;
        let (_, r) = last((0..l).map(|i| key(&w, i)).collect());
        let mut best = N;
        for i in 0..l {
            let mut c = w[i..].to_vec(); c.extend(&w[..i]);
            /* the Lyndon factors: the longest Lyndon prefix again and again */
            let (mut keys, mut p, mut prev, mut distinct) = (vec![], 0, vec![], 0);
            while p < l {
                let t = &c[p..];
                let (mut j, mut k) = (1, 0);
                while j < t.len() && t[k] <= t[j] { if t[k] < t[j] { k = 0 } else { k += 1 } j += 1; }
                let f = &t[..j - k];
                if prev != f { distinct += 1; prev = f.to_vec(); }
                for a in 0..f.len() { keys.push(key(f, a)); }
                p += f.len();
            }
            let (b, rb) = last(keys);
            if rb <= distinct + 1 { *lines.entry(format!("bbwt={} conjugate={} bbwt_runs={} #factors={}\n", show(&b), show(&c), rb, distinct).into_bytes()).or_insert(0) += 1; count += 1; }
            best = best.min(rb);
        }
        stats[r][best] += 1;
    }
    let max = stats[..N].iter().flat_map(|r| &r[..N]).max().copied().unwrap_or(0);
    let width = max.to_string().len().max(2);
    let mut t = format!("binary string length: {} \nbwt \\ bbwt : #= {}\n", l, total);
    for b in 0..N { t.push_str(&format!("{:>1$}|", b, width)); }
    t.push('\n');
    for r in 1..N { t.push_str(&format!("{:>1$}|", r, width)); for b in 1..N { t.push_str(&format!("{:>1$}|", stats[r][b], width)); } t.push('\n'); }
    Block { lines, count, tail: t.into_bytes() }
}
fn survey_cached(l: usize) -> &'static Block {
    static B: [std::sync::OnceLock<Block>; 8] = [const { std::sync::OnceLock::new() }; 8];
    B[l - 16].get_or_init(|| survey_block(l))
}
/// Is `got` what a survey of the lengths 16..24 may have written so far? Ok(true): it is complete.
pub fn survey_begins(got: &[u8]) -> Result<bool, String> {
    let s = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned();
    let mut g = got;
    for l in 16..24 {
        let b = survey_cached(l);
        let mut seen: std::collections::HashMap<&[u8], u32> = Default::default();
        for _ in 0..b.count {
            if g.is_empty() { return Ok(false); }
            let e = g.iter().position(|&c| c == b'\n');
            let Some(e) = e else {
                return if b.lines.iter().any(|(k, n)| k.starts_with(g) && seen.get(&k[..]).copied().unwrap_or(0) < *n) { Ok(false) } else { Err(format!("length {}: the end is no beginning of a line that is due: {:?}", l, s(g))) };
            };
            let line = &g[..e + 1];
            let n = { let n = seen.entry(line).or_insert(0); *n += 1; *n };
            let due = b.lines.get(line).copied().unwrap_or(0);
            if n > due { return Err(format!("length {}: the line {:?} appears {} times instead of {} after {} of {} lines", l, s(line), n, due, seen.len() - 1, b.count)); }
            g = &g[e + 1..];
        }
        let k = g.len().min(b.tail.len());
        if g[..k] != b.tail[..k] {
            let (x, y) = g[..k].split(|&c| c == b'\n').zip(b.tail.split(|&c| c == b'\n')).find(|(x, y)| x != y).unwrap_or((b"", b""));
            return Err(format!("length {}: the statistics contain {:?} instead of {:?}", l, s(x), s(y)));
        }
        g = &g[k..];
        if k < b.tail.len() { return Ok(false); }
    }
    if g.is_empty() { Ok(true) } else { Err(format!("after the last table: {:?}", s(g))) }
}
/// the number of bytes of the survey up to and including length l
pub fn survey_len(l: usize) -> usize { (16..=l).map(|k| { let b = survey_cached(k); b.tail.len() + b.lines.iter().map(|(x, n)| x.len() * *n as usize).sum::<usize>() }).sum() }
pub fn enumerate(sigma: usize, a: usize, b: usize) -> Vec<u8> {
    let mut o = vec![];
    for len in a..=b {
        let total = sigma.pow(len as u32);
        for x in 0..total { let mut y = x; let st = o.len(); o.resize(st + len, 0); for p in (0..len).rev() { o[st + p] = b'a' + (y % sigma) as u8; y /= sigma; } o.push(b'\n'); }
    }
    o
}
/// all Lyndon words of length 1..=n over s letters in lexicographic order, by depth-first extension
pub fn lyndon_words(n: usize, s: usize) -> Vec<u8> {
    fn is_lyndon(w: &[u8]) -> bool { (1..w.len()).all(|i| w < &w[i..]) }
    /* pre-necklaces only need exploring: a prefix of a Lyndon word is a prefix of a power of one */
    fn pre(w: &[u8]) -> bool { (1..w.len()).all(|i| w[..w.len() - i] <= w[i..]) }
    fn rec(w: &mut Vec<u8>, n: usize, s: usize, o: &mut Vec<u8>) {
        if !w.is_empty() { if !pre(w) { return; } if is_lyndon(w) { o.extend(w.iter()); o.push(b'\n'); } }
        if w.len() == n { return; }
        for c in 0..s { w.push(b'a' + c as u8); rec(w, n, s, o); w.pop(); }
    }
    let mut o = vec![];
    rec(&mut vec![], n, s, &mut o);
    o
}
