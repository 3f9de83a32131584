//! A multi-threaded client of the library: every thread computes the requested functions on the shared text.
//! probe [--infilename=F] --threads=T --collect=join|mutex|channel|print [--phase=P] [--share=lyndon:N:S|binary:L] QUERY...
//! Output: one line "THREAD QUERY-NUMBER RESULT" per thread and query, and "g THREAD WORD" per element taken from the shared generator.
use std::io::{Read, Write};
use std::sync::{mpsc, Arc, Mutex};
use stringology::{core, io, word};

/// long results are condensed
fn list<T: std::fmt::Display>(v: &[T]) -> String {
    let s = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    if v.len() <= 3000 { return s; }
    let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } format!("{}#{:016x}", v.len(), h)
}
fn hex(v: &[u8]) -> String {
    if v.len() > 4000 { let mut h = 0xcbf29ce484222325u64; for &b in v { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } return format!("{}#{:016x}", v.len(), h); }
    let mut s = String::from("x"); for b in v { s.push_str(&format!("{:02x}", b)); } s
}
fn opt_list(v: &[u32]) -> String { let v: Vec<String> = v.iter().map(|&x| if x == core::INVALID_VALUE { "-".into() } else { x.to_string() }).collect(); list(&v) }

/// delivers the text in small pieces and is interrupted now and then
struct Choppy<'a> { t: &'a [u8], n: usize }
impl<'a> Read for Choppy<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n = self.n.wrapping_mul(1103515245).wrapping_add(12345);
        if self.n % 5 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let k = b.len().min(self.t.len()).min(1 + self.n % 7);
        b[..k].copy_from_slice(&self.t[..k]);
        self.t = &self.t[k..];
        Ok(k)
    }
}

/// the functions that work on any ordered symbols
fn generic<C: Ord + Copy + Clone>(name: &str, t: &Vec<C>, back: &dyn Fn(C) -> u8) -> Option<String> {
    let bytes = |v: Vec<C>| hex(&v.into_iter().map(|c| back(c)).collect::<Vec<u8>>());
    Some(match name {
        "border" => list(&core::border_array(t)),
        "period" => core::smallest_period(&core::border_array(t)).to_string(),
        "primitive" => core::is_primitive(t).to_string(),
        "duval" => list(&core::duval(t)),
        "conjugate" => core::lyndon_conjugate(t).to_string(),
        "sa" => list(&core::suffixarray_naive(t)),
        "bwtsa" => { let sa = core::suffixarray_naive(t); bytes(core::bwt_from_sa(t, &sa)) }
        "bbwt" => bytes(core::bbwt_naive(t)),
        "matrixnaive" => bytes(core::bwt_by_matrix_naive(t)),
        "conjugates" => core::ConjugateIterator::new(t).map(|c| bytes(c)).collect::<Vec<_>>().join(","),
        "psv" => opt_list(&core::compute_psv(t)),
        "nsv" => opt_list(&core::compute_nsv(t)),
        _ => return None,
    })
}
/// the functions on suffix arrays, for an integer type
fn arrays<T: num::cast::AsPrimitive<usize> + num::cast::FromPrimitive + std::fmt::Display>(name: &str, t: &Vec<u8>) -> Option<String> {
    let sa: Vec<T> = core::suffixarray_naive(t).into_iter().map(|x| T::from_usize(x).unwrap()).collect();
    Some(match name {
        "isa" => list(&core::inverse_permutation(&sa)),
        "phi" => list(&core::compute_phi(&sa)),
        "lcp" => { let phi: Vec<i32> = core::compute_phi(&sa).into_iter().map(|x| x.as_() as i32).collect(); list(&core::compute_lcp(&core::compute_plcp(t, &phi), &sa)) }
        _ => return None,
    })
}
/// a query is NAME[:ARGUMENTS][@TYPE][/LENGTH]; QUERY+QUERY..*N repeats the queries N times; with a length it is about that prefix of the text
fn answer(q: &str, t: &Vec<u8>, file: Option<&str>) -> String {
    if let Some((q, n)) = q.split_once('*') {
        let mut v: Vec<String> = (0..n.parse().unwrap_or(1)).map(|_| q.split('+').map(|q| answer(q, t, file)).collect::<Vec<_>>().join("&")).collect();
        v.dedup();
        return v.join("|");
    }
    if let Some((q, l)) = q.split_once('/') { let l: usize = l.parse().unwrap_or(0); return answer(q, &t[..l.min(t.len())].to_vec(), file); }
    if let Some((name, ty)) = q.split_once('@') {
        let a = match ty { "i32" => arrays::<i32>(name, t), "u32" => arrays::<u32>(name, t), "i64" => arrays::<i64>(name, t), "usize" => arrays::<usize>(name, t), "u16" => arrays::<u16>(name, t), _ => None };
        if let Some(a) = a { return a; }
    }
    if let Some(name) = q.strip_suffix("@wide") { let w: Vec<u64> = t.iter().map(|&c| (c as u64) * 0x0101_0101_0101_0101).collect(); return generic(name, &w, &|c| c as u8).unwrap_or_else(|| "?".into()); }
    if let Some(name) = q.strip_suffix("@pair") { let w: Vec<(i8, u8)> = t.iter().map(|&c| ((c / 16) as i8 - 8, c % 16)).collect(); return generic(name, &w, &|c| ((c.0 + 8) as u8) * 16 + c.1).unwrap_or_else(|| "?".into()); }
    if let Some(name) = q.strip_suffix("@reverse") { let w: Vec<std::cmp::Reverse<u8>> = t.iter().map(|&c| std::cmp::Reverse(255 - c)).collect(); return generic(name, &w, &|c| 255 - c.0).unwrap_or_else(|| "?".into()); }
    if let Some(a) = generic(q, t, &|c| c) { return a; }
    let mut p = q.split(':');
    let name = p.next().unwrap_or("");
    let arg: Vec<u64> = p.map(|x| x.parse().unwrap_or(0)).collect();
    let a = |i: usize| arg.get(i).copied().unwrap_or(0);
    let sa32 = || -> Vec<i32> { if t.len() > 2000 { let mut sa = vec![0i32; t.len()]; cdivsufsort::sort_in_place(t, &mut sa); return sa; } core::suffixarray_naive(t).into_iter().map(|x| x as i32).collect() };
    match name {
        "matrix" => hex(&core::bwt_by_matrix(t)),
        "bwt" => hex(&core::bwt_from_text_by_sa(t)),
        "isa" => { let sa = sa32(); list(&core::inverse_permutation(&sa)) }
        "isalyndon" => { let isa = core::inverse_permutation(&sa32()); list(&core::isa_lyndon_factorization(&isa)) }
        "phi" => { let sa = sa32(); list(&core::compute_phi(&sa)) }
        "plcp" => { let phi = core::compute_phi(&sa32()); list(&core::compute_plcp(t, &phi)) }
        "lcp" => { let sa = sa32(); let plcp = core::compute_plcp(t, &core::compute_phi(&sa)); list(&core::compute_lcp(&plcp, &sa)) }
        "bitsize" => core::bit_size(a(0) as usize).to_string(),
        "runs" => core::number_of_runs(&mut &t[..]).to_string(),
        "runschoppy" => core::number_of_runs(&mut Choppy { t, n: a(0) as usize }).to_string(),
        "necklace" => word::is_necklace(&t[..], (a(0) as usize).min(t.len())).to_string(),
        "fibnumber" => word::fibonacci_number(a(0) as u8).to_string(),
        "tribnumber" => word::tribonacci_number(a(0) as u8).to_string(),
        "morphism" => { let c = a(1) as u8; hex(match a(0) { 0 => word::thuemorse_morphism(c), 1 => word::fibonacci_morphism(c), 2 => word::tribonacci_morphism(c), 3 => word::vtm_morphism(c), _ => word::fibonacci_lyndonfactor_morphism(c) }) }
        "word" => { let k = a(1) as u8; hex(&match a(0) { 0 => word::fibonacci_word(k), 1 => word::fibonacci_lyndonfactor(k), 2 => word::tribonacci_word(k), 3 => word::kolakoski_word(k), 4 => word::thuemorse_word(k), 5 => word::period_doubling_word(k), 6 => word::paperfolding_word(k), 7 => word::quaternary_paperfolding_word(k), 8 => word::binary_debruijn_word(k), 9 => word::power2_sequence(k), _ => word::vtm_word(k) }) }
        "binary" => core::BinaryStringGenerator::new(a(0) as u8).take(a(1) as usize).map(|w| String::from_utf8_lossy(&w).into_owned()).collect::<Vec<_>>().join(","),
        "lyndonwords" => core::LyndonWordGenerator::new(a(0) as usize, a(1) as usize).take(if arg.len() > 2 { a(2) as usize } else { usize::MAX }).map(|w| list(&w)).collect::<Vec<_>>().join(";"),
        "random" => core::RandomStringGenerator::new(a(0) as usize..a(1) as usize, a(2) as u8).map(|w| list(&w)).collect::<Vec<_>>().join(";"),
        "file" => match file { Some(f) => hex(&io::file2byte_vector(f, a(0) as usize)), None => "skip".into() },
        "stream" => match file {
            Some(f) => {
                let mut r = io::stream_or_stdin(Some(f));
                let mut v = vec![];
                loop { match io::read_char(&mut r) { Ok(c) => v.push(c), Err(e) => { io::expect_eof(e); break; } } }
                hex(&v)
            }
            None => "skip".into(),
        },
        _ => "?".into(),
    }
}

/// keeps lines whole whatever the library puts between them and the descriptor
static PRINT: Mutex<()> = Mutex::new(());
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().find_map(|a| a.strip_prefix(k)).map(|s| s.to_string());
    let infile = get("--infilename=");
    let threads: usize = get("--threads=").and_then(|x| x.parse().ok()).unwrap_or(1);
    let phase: usize = get("--phase=").and_then(|x| x.parse().ok()).unwrap_or(1);
    let collect = get("--collect=").unwrap_or_else(|| "join".into());
    let queries: Arc<Vec<String>> = Arc::new(args.iter().filter(|a| !a.starts_with("--")).cloned().collect());
    let regular = infile.clone().filter(|f| std::fs::metadata(f).map(|m| m.is_file()).unwrap_or(false));
    let text = Arc::new(io::file_or_stdin2byte_vector(infile.as_deref(), 0));
    type Gen = Box<dyn Iterator<Item = Vec<u8>> + Send>;
    let shared: Option<Arc<Mutex<Gen>>> = get("--share=").map(|s| {
        let v: Vec<usize> = s.split(':').skip(1).map(|x| x.parse().unwrap_or(1)).collect();
        let g: Gen = if s.starts_with("lyndon") { Box::new(core::LyndonWordGenerator::new(v[0], v[1])) } else { Box::new(core::BinaryStringGenerator::new(v[0] as u8)) };
        Arc::new(Mutex::new(g))
    });
    let sink: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = mpsc::channel::<String>();
    let mut hs = vec![];
    for n in 0..threads {
        let (text, queries, regular, shared, sink, tx, collect) = (text.clone(), queries.clone(), regular.clone(), shared.clone(), sink.clone(), tx.clone(), collect.clone());
        hs.push(std::thread::spawn(move || -> Vec<String> {
            let mut own = vec![];
            let mut put = |s: String| match collect.as_str() {
                "join" => own.push(s),
                "mutex" => sink.lock().unwrap().push(s),
                "channel" => tx.send(s).unwrap(),
                _ => { let _whole = PRINT.lock().unwrap(); let mut out = io::stream_or_stdout(None); out.write_all(format!("{}\n", s).as_bytes()).unwrap(); out.flush().unwrap(); }
            };
            for k in 0..queries.len() {
                let i = (k + n * phase) % queries.len();
                put(format!("{} {} {}", n, i, answer(&queries[i], &text, regular.as_deref())));
            }
            if let Some(g) = shared {
                loop {
                    let w = { let mut g = g.lock().unwrap(); g.next() };
                    match w { Some(w) => put(format!("g {} {}", n, list(&w))), None => break }
                }
            }
            own
        }));
    }
    drop(tx);
    let mut lines: Vec<String> = rx.iter().collect();
    for h in hs { lines.extend(h.join().unwrap()); }
    lines.append(&mut sink.lock().unwrap());
    let mut out = String::new();
    for l in lines { out.push_str(&l); out.push('\n'); }
    let mut w = std::io::stdout();
    w.write_all(out.as_bytes()).unwrap();
    w.flush().unwrap();
}
