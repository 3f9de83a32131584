//! What each tool accepts, how to generate sensible invocations, and the content oracle of each.
use crate::gen::{self, Dom};
use crate::models as m;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Stage { pub tool: String, pub rel: bool, pub args: Vec<String> }

pub const IN_TOOLS: &[&str] = &["bwt", "count_lexparse", "count_r", "count_runs", "count_sigma", "count_z", "entropy", "entropy_kmer", "escape", "is_stringattractor", "lyndonfactorization", "mtf", "mus", "reverse", "rle"];
pub const GEN_TOOLS: &[&str] = &["enumerate", "generator_kmer", "lyndonwords", "randomstring", "word"];
pub const WORDS: &[&str] = &["fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "binary-de-brujin", "power2", "vtm"];

pub fn has_prefix(t: &str) -> bool { matches!(t, "bwt" | "count_lexparse" | "count_r" | "count_sigma" | "count_z" | "entropy" | "entropy_kmer" | "escape" | "is_stringattractor" | "lyndonfactorization" | "mus" | "reverse") }
/// the main output goes to the output file instead of stdout
pub fn stream_out(t: &str) -> bool { matches!(t, "bwt" | "escape" | "mtf" | "reverse" | "rle" | "lyndonwords" | "randomstring" | "word") }
/// the output file holds an additional listing
pub fn extra_out(t: &str) -> bool { matches!(t, "count_lexparse" | "count_z" | "lyndonfactorization") }
pub fn has_in(t: &str) -> bool { IN_TOOLS.contains(&t) || t == "probe" }
pub fn has_result(t: &str) -> bool { matches!(t, "count_sigma" | "count_r" | "count_z" | "count_lexparse" | "lyndonfactorization" | "mus" | "entropy" | "entropy_kmer") }

pub fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> { args.iter().find_map(|a| a.strip_prefix(name)) }
pub fn opts(args: &[String], name: &str) -> Vec<u64> { args.iter().filter_map(|a| a.strip_prefix(name)).flat_map(|v| v.split(',')).filter_map(|v| v.parse().ok()).collect() }
pub fn flag(args: &[String], name: &str) -> bool { args.iter().any(|a| a == name) }
pub fn prefix(args: &[String]) -> usize { opt(args, "--prefixlength=").and_then(|v| v.parse().ok()).unwrap_or(0) }
pub fn text<'a>(st: &Stage, input: &'a [u8]) -> &'a [u8] { let p = prefix(&st.args); if st.tool != "randomstring" && p > 0 && p < input.len() { &input[..p] } else { input } }

fn s(x: impl ToString) -> String { x.to_string() }

pub struct Want { pub max: usize, pub prefix: bool, pub valid: bool }

/// A random invocation of `tool` with a fitting input. `w.valid`: the run is expected to succeed.
pub fn make(r: &mut Rng, tool: &str, w: &Want) -> (Stage, Vec<u8>) {
    let mut a: Vec<String> = vec![];
    let mut rel = r.chance(1, 2);
    let mut max = w.max;
    if !rel && matches!(tool, "count_z" | "is_stringattractor" | "mtf" | "bwt" | "count_r") { max = max.min(9000); }
    let wide = tool == "is_stringattractor" && w.max > 1200 && r.chance(1, 6);
    if tool == "is_stringattractor" && !wide { max = max.min(if rel { 1200 } else { 400 }); }
    if tool == "mus" || tool == "count_z" || tool == "count_lexparse" { max = max.min(if rel { 70000 } else { 6000 }); }
    let mut input: Vec<u8> = vec![];
    match tool {
        "bwt" | "count_r" => {
            let nd = r.chance(2, 5);
            if nd { a.push(s("--no-dollar")); }
            if r.chance(2, 5) { a.push(s("--use-matrix")); }
            input = gen::input(r, max, Dom::ZeroFree);
            if r.chance(1, 5) { let n = r.range(95, 105); input = gen::bytes(r, n, Dom::ZeroFree); }
            if nd && input.is_empty() { input.push(b'x'); }
            if !w.valid && r.chance(1, 10) && !input.is_empty() { let k = r.range(0, input.len() - 1); input[k] = 0; }
        }
        "count_lexparse" | "count_z" | "lyndonfactorization" => { input = gen::input(r, max, Dom::Any); if input.is_empty() { input.push(r.byte()); } }
        "count_runs" | "count_sigma" | "reverse" | "mtf" => { input = gen::input(r, max, Dom::Any); }
        "entropy" => { input = gen::input(r, max, Dom::ZeroFree); let k = match r.below(8) { 0..=2 => r.range(0, 3), 3 | 4 => 0, 5 => if r.chance(1, 3) { (1usize << *r.pick(&[8u32, 16, 31, 32, 63])) + r.range(0, 3) } else { r.range(1, 12) }, 6 => r.range(0, input.len() + 2), _ => r.range(1, 40) }; if k > 0 || r.chance(1, 2) { a.push(format!("--order={}", k)); } }
        "entropy_kmer" => { let k = r.range(1, 7); a.push(format!("--order={}", k)); input = gen::input(r, max, Dom::ZeroFree); while input.len() < k { input.push(*r.pick(b"ab")); } }
        "escape" => {
            let e = if r.chance(1, 4) { 0 } else { r.byte() };
            if e != 0 || r.chance(1, 2) { a.push(format!("--escape-symbol={}", e)); }
            let k = match r.below(7) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => r.range(1, 6), 5 => if r.chance(1, 3) { *r.pick(&[64usize, 100, 126, 127, 127]) } else { r.range(12, 127) }, _ => r.range(1, 12) };
            let mut pool: Vec<u8> = if k < 12 && r.chance(1, 2) { vec![0, 1, 2, 9, 10, 13, 32, 48, 65, 97, 98, 99, 127, 128, 254, 255] } else { (0..=255).collect() };
            pool.retain(|&b| b != e);
            for i in (1..pool.len()).rev() { let j = r.range(0, i); pool.swap(i, j); }
            let k = k.min(pool.len() / 2);
            let (from, to) = (pool[..k].to_vec(), pool[k..2 * k].to_vec());
            for i in 0..k { a.push(format!("--from-symbols={}", from[i])); a.push(format!("--to-symbols={}", to[i])); }
            let mut plain = gen::input(r, max, Dom::Any);
            for b in plain.iter_mut() { match r.below(12) { 0 => *b = e, 1 | 2 if k > 0 => *b = *r.pick(&from), 3 if k > 0 => *b = *r.pick(&to), _ => {} } }
            if r.chance(1, 2) { input = plain; } else {
                a.push(s("--is-reversion"));
                input = m::escape(&plain, e, &from, &to);
                if !w.valid && r.chance(1, 3) {
                    match r.below(3) { 0 => { input.push(e); if m::unescape(&input, e, &from, &to).is_ok() { input.push(e); } } 1 => { let c = r.byte(); if c != e && !to.contains(&c) { let k = r.range(0, input.len()); input.insert(k, c); input.insert(k, e); } } _ => { input = gen::input(r, 300, Dom::Any); let n = input.len(); for _ in 0..n / 6 + 1 { if n > 0 { let k = r.range(0, n - 1); input[k] = e; } } } }
                }
            }
        }
        "is_stringattractor" => {
            let d = if r.chance(1, 4) { Dom::ZeroFree } else { Dom::Lower };
            input = gen::input(r, max, d);
            if wide { /* few phrases, hence a small attractor and little output */
                let n = if r.chance(1, 2) { *r.pick(&[65535usize, 65536, 65537, 70000, 32768, 32769]) } else { r.range(2000, 70000) };
                let (a, b) = (b'a' + r.below(26) as u8, b'a' + r.below(26) as u8);
                input = match r.below(4) { 0 => vec![a; n], 1 => { let mut v = vec![a; n]; let k = r.range(0, n - 1); v[k] = b; v } 2 => { let p = r.range(1, 12); let u: Vec<u8> = (0..p).map(|_| b'a' + r.below(3) as u8).collect(); (0..n).map(|i| u[i % p]).collect() } _ => { let (mut x, mut y) = (vec![a], vec![a, b]); while y.len() < n { let mut z = y.clone(); z.extend_from_slice(&x); x = y; y = z; } y.truncate(n); y } };
            }
            if input.is_empty() { input.push(b'a'); }
            if input.len() > 4 && r.chance(1, 4) { let n = r.range(1, 14); input.truncate(n); }
            let mut pos: Vec<usize> = vec![];
            /* a text and a slightly longer one of the same make: with no position in the latter, only long substrings are uncovered */
            let far = r.chance(1, if wide { 2 } else { 9 });
            if far {
                let k = if wide && r.chance(1, 2) { *r.pick(&[65_532usize, 65_534, 65_535, 65_536, 65_540, 32_766, 32_768]) } else { (input.len().max(3) - 1) / 2 };
                let e = r.range(0, 12);
                let (a, b) = (b'a' + r.below(13) as u8, b'n' + r.below(13) as u8);
                let p = r.range(1, 9);
                let u: Vec<u8> = (0..p).map(|_| b'a' + r.below(3) as u8).collect();
                let kind = r.below(3);
                let mut fib = vec![a]; if kind == 2 { let mut y = vec![a, b]; while y.len() < k + e { let mut z = y.clone(); z.extend_from_slice(&fib); fib = y; y = z; } fib = y; }
                let word: Vec<u8> = (0..k + e).map(|i| match kind { 0 => a, 1 => u[i % p], _ => fib[i] }).collect();
                input = word[..k].to_vec(); if r.chance(3, 4) { input.push(b'z'); }
                let l = m::lpf(&input);
                let mut i = 0;
                while i < input.len() { i += l[i].max(1); pos.push(i - 1); }
                if r.chance(1, 4) { let x = r.range(0, pos.len() - 1); pos.remove(x); }
                input.extend_from_slice(&word);
                if r.chance(1, 3) { input.reverse(); let n = input.len(); for q in pos.iter_mut() { *q = n - 1 - *q; } }
                if pos.len() > 300 { pos.truncate(300); }
            }
            let n = input.len();
            let many = if r.chance(1, 12) { *r.pick(&[64usize, 128, 129, 257, 500]) } else { 30 };
            match if far { 9 } else if wide { r.range(2, 4) as u64 } else { r.below(7) } {
                9 => {}
                0 => { pos = (0..n.min(many + 1)).collect(); if r.chance(1, 2) && pos.len() > 1 { let k = r.range(0, pos.len() - 1); pos.remove(k); } }
                1 => for _ in 0..r.range(0, 4) { pos.push(r.range(0, n)); },
                5 => { let k = r.range(1, many - 5); for _ in 0..k { pos.push(r.range(0, n)); } }
                2 | 3 | 4 | _ => {
                    /* ends of the LZ77 phrases form an attractor; perhaps spoil it slightly */
                    let l = m::lpf(&input);
                    let mut i = 0;
                    while i < n { i += l[i].max(1); pos.push(i - 1); }
                    if pos.len() > many { input.truncate(pos[many - 2] + 1); pos.truncate(many - 1); }
                    let n = input.len();
                    match r.below(4) { 0 => { let k = r.range(0, pos.len() - 1); pos.remove(k); } 1 => { let k = r.range(0, pos.len() - 1); pos[k] = (pos[k] + 1).min(n); } 2 => { let k = r.range(0, pos.len() - 1); pos[k] = pos[k].saturating_sub(1); } _ => {} }
                }
            }
            if !w.valid && r.chance(1, 12) { pos.push(match r.below(4) { 0 => (1usize << *r.pick(&[8u32, 16, 31, 32, 32, 33, 48, 63])) + r.range(input.len().min(255), input.len() + 1), 1 => usize::MAX - r.range(0, 1), _ => input.len() + 1 + r.range(0, 3) }); }
            if pos.len() > 550 { pos.truncate(550); }
            if r.chance(1, 3) { for i in (1..pos.len()).rev() { let j = r.range(0, i); pos.swap(i, j); } }
            for p in pos { a.push(format!("--attractor={}", p)); }
        }
        "mus" => {
            input = gen::input(r, max, Dom::Any);
            let term = if r.chance(2, 3) { 0 } else { r.byte() };
            for b in input.iter_mut() { if *b == term { *b = term.wrapping_add(1); } }
            input.push(term);
        }
        "rle" => { match r.below(4) { 0 => a.push(s("--human")), 1 => a.push(s("--onlyzero")), _ => {} } input = gen::input(r, max, Dom::Any); if a.iter().any(|x| x == "--onlyzero") && r.chance(2, 3) { for b in input.iter_mut() { if r.chance(1, 2) { *b = b'0'; } } if r.chance(1, 3) { let c = input.first().copied().unwrap_or(0); for b in input.iter_mut() { if *b == c { *b = b'0'; } } } }
            if r.chance(1, 6) && max >= 300 { /* a run of a critical length at the end, at the beginning or in between; the byte after it decides nothing about it */
                let c = if a.iter().any(|x| x == "--onlyzero") { b'0' } else { *r.pick(&[b'0', b'a', 0, 255]) };
                let k = *r.pick(&[1usize, 2, 254, 255, 256, 257, 258, 511, 512, 513, 514, 767, 768, 769, 65535, 65536, 65537]);
                if k <= max.max(1000) {
                    let run = vec![c; k];
                    match r.below(4) { 0 => { let mut t = run; t.extend_from_slice(&input); input = t; } 1 => { let at = r.range(0, input.len()); let tail = input.split_off(at); input.extend(run); input.extend(tail); } _ => input.extend(run) }
                }
            } }
        "word" => {
            let name = *r.pick(WORDS);
            let k = match r.below(8) { 0..=4 => r.range(0, 10), 5 | 6 => r.range(0, 13), _ => r.range(8, 16) };
            a.push(format!("--name={}", name)); a.push(format!("-k{}", k));
        }
        "enumerate" => {
            let sg = match r.below(5) { 0 => 1, 1 => 2, 2 => r.range(1, 4), 3 => r.range(1, 26), _ => 3 };
            let cap = 6000usize;
            let mut b = 1; while sg > 1 && sg.pow(b as u32 + 1) * (b + 1) < cap { b += 1; } if sg == 1 { b = 30; }
            let hi = r.range(1, b); let lo = r.range(1, hi);
            a.push(s(sg)); a.push(s(lo)); if hi != lo || r.chance(1, 2) { a.push(s(hi)); }
            if a.len() == 2 { /* only min_len */ }
            if !w.valid && r.chance(1, 8) { match r.below(5) { 0 => a[0] = s(0), 1 => a[0] = match r.below(3) { 0 => s(27 + r.range(0, 300)), 1 => s(*r.pick(&[27u64, 28, 64, 128, 255, 256, 257, 258, 282, 512, 513, 65537, 1 << 32, (1 << 32) + 2, (1 << 32) + 26, 1 << 63, u64::MAX])), _ => s(*r.pick(&["-1", "", "x", "2.5", "18446744073709551618", "0x2"])) }, 2 => a[1] = s(0), 3 => { a.truncate(2); a[1] = s(5); a.push(s(4)); } _ => { a.truncate(1); } } }
        }
        "lyndonwords" => {
            let sg = match r.below(6) { 0 => 1, 1 | 2 => 2, 3 => 3, 4 => *r.pick(&[27usize, 60, 95, 127, 128, 158, 159]), _ => r.range(1, 26) };
            let mut b = 1; while sg > 1 && sg.pow(b as u32 + 1) < 20000 { b += 1; } if sg == 1 { b = 12; }
            let lo = if r.chance(1, 10) { 0 } else { 1 };
            let n = r.range(lo, b);
            if n != 5 || r.chance(1, 2) { a.push(format!("-l{}", n)); } if sg != 2 || r.chance(1, 2) { a.push(format!("-s{}", sg)); }
            if !w.valid && r.chance(1, 8) { let k = r.range(1, 3); a = vec![format!("-l{}", k), format!("-s{}", r.pick(&[0u64, 160, 161, 191, 255, 256, 257, 258, 415, 416, 65537, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, u64::MAX]))]; }
        }
        "generator_kmer" => {}
        "probe" => return crate::probe::make(r, max),
        "randomstring" => {
            let al = match r.below(7) { 6 => match r.below(3) { 0 => (1usize << *r.pick(&[8u32, 16, 32, 63])) + r.range(0, 3), 1 => *r.pick(&[61usize, 62, 63, 64, 127, 128, 255, 256, 257, usize::MAX]), _ => r.range(20, 62) }, 0 => 0, 1 => 1, 2 => 2, 3 => r.range(1, 62), 4 => r.range(55, 70), _ => r.range(1, 10) };
            a.push(format!("--alphabet-size={}", al));
            let n = match r.below(5) { 0 => 10, 1 => r.range(0, 3), 2 => if r.chance(1, 12) { *r.pick(&[65535usize, 65536, 65537, 131073, 262145, 1 << 20]) } else { gen::size(r, 5000) }, 3 => r.range(64, 300), _ => if al <= 62 && al > 0 { 80 * al + 3000 } else { 6000 } };
            let n = if n > 140_000 && al > 0 && al < 16 { 131_073 } else { n };
            if n > 20_000 { rel = true; }
            if n != 10 || r.chance(1, 2) { a.push(format!("--prefixlength={}", n)); }
        }
        _ => panic!("unknown tool {}", tool),
    }
    if w.prefix && has_prefix(tool) && r.chance(1, 6) {
        let p = if r.chance(1, 4) { input.len() + r.range(1, 9) } else { r.range(1, input.len().max(1)) };
        a.push(format!("--prefixlength={}", p));
        let ok = pre_ok(&Stage { tool: s(tool), rel, args: a.clone() }, &input);
        if w.valid && !ok { a.pop(); }
    }
    (Stage { tool: s(tool), rel, args: a }, input)
}

/// The same arguments in other words: long and short options, the value joined, behind "=" or as the next argument, lists in one.
pub fn spell(tool: &str, args: &[String], seed: u64) -> Vec<String> {
    if seed == 0 || tool == "probe" { return args.to_vec(); }
    let r = &mut Rng::new(seed, 0x73, 0);
    let mut v: Vec<String> = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if let Some((n, x)) = a.strip_prefix("--").and_then(|b| b.split_once('=')) {
            let mut x = x.to_string();
            let list = n == "attractor" && r.chance(1, 2);
            if matches!(n, "from-symbols" | "to-symbols") && r.chance(1, 2) { /* comma-separated; the two lists may be mixed with each other */
                while let Some(y) = args.get(i).and_then(|b| b.strip_prefix(&format!("--{}=", n)[..])) { x.push(','); x.push_str(y); i += 1; }
            }
            let c = &n[..1];
            let k = if list { 1 + r.below(2) } else { r.below(5) };
            match k { 0 => v.push(format!("--{}={}", n, x)), 1 => { v.push(format!("--{}", n)); v.push(x); } 2 => { v.push(format!("-{}", c)); v.push(x); } 3 => v.push(format!("-{}{}", c, x)), _ => v.push(format!("-{}={}", c, x)) }
            if list { while let Some(y) = args.get(i).and_then(|b| b.strip_prefix("--attractor=")) { v.push(y.to_string()); i += 1; if r.chance(1, 20) { break; } } }
        } else if a.starts_with("--") {
            v.push(if a == "--is-reversion" || r.chance(1, 2) { a.clone() } else if a == "--onlyzero" { s("-z") } else if a == "--human" { s("-H") } else { a[1..3].to_string() });
        } else if a.starts_with('-') && a.len() > 2 && !a[1..].starts_with(|c: char| c.is_ascii_digit()) {
            match r.below(3) { 0 => v.push(a.clone()), 1 => { v.push(a[..2].to_string()); v.push(a[2..].to_string()); } _ => v.push(format!("{}={}", &a[..2], &a[2..])) }
        } else { v.push(a.clone()); }
    }
    let _ = tool;
    v
}

/// The documented domain, on which the tool has to succeed with the model's answer.
pub fn pre_ok(st: &Stage, input: &[u8]) -> bool {
    let t = text(st, input);
    match st.tool.as_str() {
        "bwt" | "count_r" => !t.contains(&0) && !(flag(&st.args, "--no-dollar") && t.is_empty()),
        "count_lexparse" | "count_z" | "lyndonfactorization" => !t.is_empty(),
        "entropy" => !t.contains(&0),
        "entropy_kmer" => { let k = opts(&st.args, "--order=").first().copied().unwrap_or(0); (1..=7).contains(&k) && t.len() as u64 >= k && !t.contains(&0) }
        "is_stringattractor" => !t.is_empty() && !t.contains(&0) && opts(&st.args, "--attractor=").iter().all(|&p| p <= t.len() as u64),
        "mus" => !t.is_empty() && !t[..t.len() - 1].contains(&t[t.len() - 1]),
        "escape" => esc(st).map_or(false, |(e, f, to)| !flag(&st.args, "--is-reversion") || m::unescape(t, e, &f, &to).is_ok()),
        "enumerate" => { let v: Vec<u64> = st.args.iter().map(|a| a.parse().unwrap_or(0)).collect(); v.len() >= 2 && v.len() <= 3 && (1..=26).contains(&v[0]) && v[1] >= 1 && v.get(2).map_or(true, |&x| x >= v[1]) }
        "lyndonwords" => opt(&st.args, "-s").map_or(true, |v| v.parse::<u64>().map_or(false, |s| (1..=159).contains(&s))),
        "randomstring" => opt(&st.args, "--alphabet-size=").map_or(false, |v| v.parse::<u64>().is_ok()),
        "probe" => crate::probe::pre_ok(st, t),
        "word" => WORDS.contains(&opt(&st.args, "--name=").unwrap_or("")) && opt(&st.args, "-k").map_or(false, |v| v.parse::<u8>().is_ok()) && !m::word_huge(opt(&st.args, "--name=").unwrap_or(""), opts(&st.args, "-k").first().copied().unwrap_or(0) as usize),
        _ => true,
    }
}
/// more bytes than any correct output has, where that is known
pub fn out_bound(st: &Stage, input: &[u8]) -> f64 {
    let a = &st.args;
    match st.tool.as_str() {
        "is_stringattractor" => f64::INFINITY,
        "word" => 4.0 * m::word_len(opt(a, "--name=").unwrap_or(""), opts(a, "-k").first().copied().unwrap_or(0) as usize) + 1e4,
        "enumerate" => { let v: Vec<f64> = a.iter().filter_map(|x| x.parse().ok()).collect(); let hi = *v.last().unwrap_or(&0.0); v.first().copied().unwrap_or(0.0).max(1.0).powf(hi) * 2.0 * (hi + 1.0) * (if v.first() == Some(&1.0) { hi } else { 1.0 }) + 1e4 }
        "lyndonwords" => { let n = opts(a, "-l").first().copied().unwrap_or(5) as f64; let s = opts(a, "-s").first().copied().unwrap_or(2) as f64; s.max(2.0).powf(n) * 2.0 * (n + 1.0) + 1e4 }
        "randomstring" => if opt(a, "--prefixlength=").is_some() { prefix(a) as f64 + 1e4 } else { 1e4 },
        "generator_kmer" => 1e6,
        _ => 64.0 * input.len() as f64 + 1e4,
    }
}
pub fn esc(st: &Stage) -> Option<(u8, Vec<u8>, Vec<u8>)> {
    let e = opts(&st.args, "--escape-symbol=").first().copied().unwrap_or(0) as u8;
    let f: Vec<u8> = opts(&st.args, "--from-symbols=").iter().map(|&x| x as u8).collect();
    let t: Vec<u8> = opts(&st.args, "--to-symbols=").iter().map(|&x| x as u8).collect();
    let ok = f.len() == t.len() && !f.contains(&e) && !t.contains(&e) && !f.iter().any(|x| t.contains(x)) && m::sigma(&f) == f.len() && m::sigma(&t) == t.len();
    if ok { Some((e, f, t)) } else { None }
}

pub struct View<'a> { pub st: &'a Stage, pub input: &'a [u8], pub name: &'a str, pub code: Option<i32>, pub stdout: &'a [u8], pub file: Option<&'a [u8]>, pub stderr: &'a [u8], pub debug_log: bool }

fn show(b: &[u8]) -> String { let mut x: String = b.iter().take(48).map(|&c| std::ascii::escape_default(c).to_string()).collect(); if b.len() > 48 { x.push_str(&format!("..({} bytes)", b.len())); } x }
pub fn diff(got: &[u8], exp: &[u8]) -> String {
    let k = got.iter().zip(exp).take_while(|(a, b)| a == b).count();
    format!("differs from the expected {} bytes at offset {} (got {} bytes): got \"{}\" expected \"{}\"", exp.len(), k, got.len(), show(&got[k.min(got.len())..]), show(&exp[k.min(exp.len())..]))
}
fn same(what: &str, got: &[u8], exp: &[u8]) -> Result<(), String> { if got == exp { Ok(()) } else { Err(format!("{} {}", what, diff(got, exp))) } }
pub fn field<'a>(out: &'a str, key: &str) -> Option<&'a str> {
    let pat = format!(" {}=", key);
    let k = out.find(&pat)? + pat.len();
    let rest = &out[k..];
    Some(rest.split(|c| c == ' ' || c == '\n').next().unwrap_or(""))
}
fn want_num(out: &str, key: &str, exp: usize) -> Result<(), String> {
    match field(out, key).and_then(|v| v.parse::<usize>().ok()) { Some(v) if v == exp => Ok(()), v => Err(format!("reports {}={:?}, the model says {}", key, v, exp)) }
}
fn pairs(f: &[u8]) -> Option<Vec<(usize, usize)>> {
    let t = std::str::from_utf8(f).ok()?;
    let mut v = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        let r = rest.strip_prefix('(')?;
        let e = r.find(')')?;
        let (a, b) = r[..e].split_once(',')?;
        v.push((a.trim().parse().ok()?, b.trim().parse().ok()?));
        rest = &r[e + 1..];
    }
    Some(v)
}

/// Ok(true): judged, Ok(false): outside the domain, Err: the property is broken.
pub fn validate(v: &View) -> Result<bool, String> {
    let a = &v.st.args;
    let t = text(v.st, v.input);
    let tool = v.st.tool.as_str();
    let okd = pre_ok(v.st, v.input);
    let main: &[u8] = if stream_out(tool) { if let Some(f) = v.file { if !v.stdout.is_empty() { return Err(format!("writes to standard output although an output file was given: {}", show(v.stdout))); } f } else { v.stdout } } else { v.stdout };
    let out = String::from_utf8_lossy(v.stdout).into_owned();
    if !okd {
        /* inputs that must be rejected */
        let must_fail = match tool {
            "bwt" | "count_r" => !flag(a, "--use-matrix") && (if flag(a, "--no-dollar") { !t.is_empty() && t[..t.len() - 1].contains(&0) } else { t.contains(&0) }),
            "escape" => esc(v.st).is_some(),
            "is_stringattractor" => opts(a, "--attractor=").iter().any(|&p| p > t.len() as u64),
            "enumerate" | "lyndonwords" | "word" => true,
            _ => false,
        };
        if !must_fail { return Ok(false); }
        if v.code == Some(0) || (tool == "is_stringattractor" && v.code == Some(2)) { return Err(format!("accepts invalid input or arguments (exit {:?})", v.code)); }
        if tool == "escape" { let (e, f, to) = esc(v.st).unwrap(); if let Err(p) = m::unescape(t, e, &f, &to) { if !p.starts_with(main) { return Err(format!("rejected, but emitted bytes that are no prefix of the decodable part: {}", diff(main, &p))); } } }
        return Ok(true);
    }
    if tool == "probe" { return crate::probe::validate(v.st, t, v.code, v.stdout, &show(v.stderr)).map(|_| true); }
    if tool == "is_stringattractor" {
        let pos: Vec<usize> = opts(a, "--attractor=").iter().map(|&x| x as usize).collect();
        let valid = m::attr(t, &pos).valid(t);
        match (v.code, valid) { (Some(0), true) | (Some(2), false) => {} (c, _) => return Err(format!("exit {:?}, but the positions {:?} are {} attractor", c, pos, if valid { "an" } else { "no" })) }
        let last = out.lines().last().unwrap_or("");
        if valid && last != "valid attractor" || !valid && last != "not a valid attractor" { return Err(format!("prints the verdict {:?} but exits with {:?}", last, v.code)); }
        let mut rest = v.stdout;
        let mut tz = t.to_vec(); tz.push(0);
        let (h, e) = (b"substring '", b"' not covered!\n");
        let mut seen = 0;
        while rest.starts_with(h) {
            let b = &rest[h.len()..];
            let Some(k) = b.windows(e.len()).position(|w| w == e) else { break };
            let w = &b[..k];
            if valid { return Err(format!("names '{}' as uncovered for a valid attractor", show(w))); }
            seen += 1;
            if seen <= (if t.len() <= 3000 { 60 } else { 2 }) && !w.windows(3).any(|x| x == [0xEF, 0xBF, 0xBD]) {
                let (occ, cov) = m::occurs_covered(&tz, &pos, w);
                if !occ || cov { return Err(format!("names '{}' as uncovered, which {}", show(w), if occ { "is covered" } else { "does not occur" })); }
            }
            rest = &b[k + e.len()..];
        }
        return Ok(true);
    }
    if v.code != Some(0) { return Err(format!("fails (exit {:?}) on valid input; stderr: {}", v.code, show(v.stderr))); }
    if has_result(tool) && out.matches("RESULT").count() != 1 { return Err(format!("expected one RESULT line, got {}", show(v.stdout))); }
    match tool {
        "bwt" => same("the BWT", main, &bwt_model(a, t))?,
        "count_r" => { let b = bwt_model(a, t); want_num(&out, "length", b.len())?; want_num(&out, "bwt_runs", m::runs(&b))?; }
        "count_sigma" => { want_num(&out, "length", t.len())?; want_num(&out, "sigma", m::sigma(t))?; }
        "count_runs" => { if out.trim().parse::<usize>().ok() != Some(m::runs(t)) { return Err(format!("reports {:?} runs instead of {}", out.trim(), m::runs(t))); } }
        "reverse" => { let mut x = t.to_vec(); x.reverse(); same("the reversed text", main, &x)?; }
        "mtf" => same("the move-to-front code", main, &m::mtf(t))?,
        "rle" => {
            if flag(a, "--human") { same("the run list", main, &m::rle_human(t))?; }
            else {
                let d = if flag(a, "--onlyzero") { m::unrle_zero(main) } else { m::unrle(main) };
                match d { Some(x) => same("the decoded text", &x, t)?, None => return Err(format!("undecodable output {}", show(main))) }
                /* one code per run of up to 256; only longer runs may be split */
                let mut i = 0;
                for (c, k) in m::run_list(t) {
                    if flag(a, "--onlyzero") && c != b'0' { i += k; continue; }
                    let (mut got, mut codes) = (0, 0);
                    while got < k { got += main[i + 1] as usize + 1; codes += 1; i += 2; }
                    if k <= 256 && codes > 1 { return Err(format!("a run of {} is split into {} codes", k, codes)); }
                }
            }
        }
        "escape" => {
            let (e, f, to) = esc(v.st).unwrap();
            if flag(a, "--is-reversion") { same("the restored text", main, &m::unescape(t, e, &f, &to).unwrap())?; }
            else {
                if let Some(b) = main.iter().find(|b| f.contains(b)) { return Err(format!("forbidden byte {} in the output", b)); }
                match m::unescape(main, e, &f, &to) { Ok(x) => same("un-escaped again, the output", &x, t)?, Err(_) => return Err("output cannot be un-escaped".into()) }
            }
        }
        "count_z" => {
            want_num(&out, "length", t.len())?;
            let l = m::lpf(t);
            let (mut i, mut c) = (0, 0);
            while i < t.len() { i += l[i].max(1); c += 1; }
            want_num(&out, "factors", c)?;
            if let Some(f) = v.file {
                let p = pairs(f).ok_or_else(|| format!("unreadable factor file {}", show(f)))?;
                let mut dec: Vec<u8> = vec![];
                for (k, &(x, len)) in p.iter().enumerate() {
                    let i = dec.len();
                    if i >= t.len() { return Err("factors exceed the text".into()); }
                    if len != l[i] { return Err(format!("factor {} at {} has length {}, the longest previous factor has {}", k, i, len, l[i])); }
                    if len == 0 { if x > 255 { return Err(format!("literal {}", x)); } dec.push(x as u8); }
                    else { if x == 0 || x > i { return Err(format!("factor {} has distance {} at position {}", k, x, i)); } for _ in 0..len { let b = dec[dec.len() - x]; dec.push(b); } }
                }
                same("the decoded factorization", &dec, t)?;
            }
        }
        "count_lexparse" => {
            want_num(&out, "length", t.len())?;
            let e = m::lexparse(t);
            want_num(&out, "factors", e.len())?;
            if let Some(f) = v.file { let p = pairs(f).ok_or_else(|| format!("unreadable factor file {}", show(f)))?; if let Some(k) = (0..p.len().max(e.len())).find(|&k| p.get(k) != e.get(k)) { return Err(format!("factor {} is {:?}, the lex-parse has {:?}", k, p.get(k), e.get(k))); } }
        }
        "lyndonfactorization" => {
            let e = m::lyndon(t);
            want_num(&out, "length", t.len())?;
            want_num(&out, "factors", e.len())?;
            if let Some(f) = v.file { same("the factor file", f, &m::lyndon_file(t))?; }
            if v.debug_log {
                let err = String::from_utf8_lossy(v.stderr);
                let want = format!("Lyndon factorization : {:?}", e);
                if !err.contains(&want) && err.len() < 3_000_000 { return Err("the debug log does not list the factor ends".into()); }
            }
        }
        "mus" => {
            want_num(&out, "length", t.len())?;
            let k = out.find(" mus=[").ok_or("no mus list")? + 6;
            let e = out[k..].find(']').ok_or("no mus list")?;
            let body: String = out[k..k + e].chars().filter(|c| *c != ' ').collect();
            let p = pairs(body.replace("),(", ")(").as_bytes()).ok_or("unreadable mus list")?;
            let want = m::mus(t);
            if let Some(k) = (0..p.len().max(want.len())).find(|&k| p.get(k) != want.get(k)) { return Err(format!("entry {} is {:?}, expected {:?} ({} entries, expected {})", k, p.get(k), want.get(k), p.len(), want.len())); }
        }
        "entropy" | "entropy_kmer" => {
            let mut x = t.to_vec(); x.push(0);
            let k = opts(a, "--order=").first().copied().unwrap_or(0) as usize;
            want_num(&out, "length", x.len())?; want_num(&out, "order", k)?;
            let e = m::entropy(&x, k);
            match field(&out, "entropy").and_then(|f| f.parse::<f64>().ok()) { Some(g) if (g - e).abs() <= 1e-9 * (1.0 + e.abs()) => {} g => return Err(format!("reports entropy {:?}, the definition gives {}", g, e)) }
        }
        "word" => {
            let name = opt(a, "--name=").unwrap_or(""); let k = opts(a, "-k").first().copied().unwrap_or(0) as usize;
            match m::word(name, k) { Some(w) => same(&format!("word {} of {}", k, name), main, &w)?, None => m::debruijn_ok(main, k + 1).map_err(|e| format!("no de Bruijn word of order {}: {}", k + 1, e))? }
        }
        "enumerate" => { let n: Vec<usize> = a.iter().filter_map(|x| x.parse().ok()).collect(); same("the enumeration", main, &m::enumerate(n[0], n[1], n.get(2).copied().unwrap_or(n[1])))?; }
        "lyndonwords" => { let n = opts(a, "-l").first().copied().unwrap_or(5) as usize; let sg = opts(a, "-s").first().copied().unwrap_or(2) as usize; if (sg as f64).powi(n as i32) > 3e6 { return Ok(false); } same("the Lyndon word list", main, &m::lyndon_words(n, sg))?; }
        "generator_kmer" => {
            if main.len() != 65536 * 9 { return Err(format!("{} bytes instead of 65536 lines of 8 letters", main.len())); }
            let mut seen = vec![false; 65536];
            for l in main.chunks(9) { if l[8] != b'\n' || l[..8].iter().any(|c| !(b'a'..=b'd').contains(c)) { return Err(format!("malformed line {}", show(l))); } let x = l[..8].iter().fold(0usize, |x, &c| x * 4 + (c - b'a') as usize); if seen[x] { return Err(format!("{} listed twice", show(&l[..8]))); } seen[x] = true; }
        }
        "randomstring" => {
            let n = if opt(a, "--prefixlength=").is_some() { prefix(a) } else { 10 };
            let al = opts(a, "--alphabet-size=").first().copied().unwrap_or(0) as usize;
            if main.len() != n { return Err(format!("{} bytes instead of {}", main.len(), n)); }
            if let Some(b) = main.iter().find(|b| !b.is_ascii_alphanumeric()) { return Err(format!("byte {} is not alphanumeric", b)); }
            let d = m::sigma(main);
            if al > 0 && d > al { return Err(format!("{} distinct letters, at most {} allowed", d, al)); }
            let want = if al == 0 { 62 } else { al.min(62) };
            if n >= 80 * want + 3000 - if al == 0 { 2000 } else { 0 } && d != want { return Err(format!("{} distinct letters in {} bytes instead of {}", d, n, want)); }
        }
        _ => return Err(format!("no model for {}", tool)),
    }
    Ok(true)
}
fn bwt_model(a: &[String], t: &[u8]) -> Vec<u8> {
    let mut x = t.to_vec();
    if !flag(a, "--no-dollar") { x.push(0); }
    if flag(a, "--no-dollar") { if flag(a, "--use-matrix") { m::bwt_rot(&x) } else { m::bwt_sa(&x) } } else { m::bwt_rot(&x) }
}
