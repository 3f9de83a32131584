//! Per property: which worlds are generated, and what is judged about them.
use crate::case::*;
use crate::exec::*;
use crate::gen::{self, Dom};
use crate::models as m;
use crate::rng::{mix, Rng};
use crate::tools::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol { pub var: usize, pub class: String, pub msg: String }

#[derive(Default)]
pub struct Cov {
    pub evals: u64, pub judged: u64, pub baselines: u64, pub distinct: HashSet<u64>, pub logs: HashSet<u64>, pub sched: HashSet<u64>,
    pub inch: BTreeMap<&'static str, u64>, pub outm: BTreeMap<&'static str, u64>, pub probes: BTreeMap<String, u64>,
}
impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.evals += o.evals; self.judged += o.judged; self.baselines += o.baselines;
        self.distinct.extend(o.distinct); self.logs.extend(o.logs); self.sched.extend(o.sched);
        for (k, v) in o.inch { *self.inch.entry(k).or_default() += v; }
        for (k, v) in o.outm { *self.outm.entry(k).or_default() += v; }
        for (k, v) in o.probes { *self.probes.entry(k).or_default() += v; }
    }
}
pub struct Ctx { pub run: Runner, pub thorough: bool, pub cov: Cov, pub quiet: bool }

fn h(b: &[u8]) -> u64 { let mut x = 0xcbf29ce484222325u64 ^ b.len() as u64; for c in b { x = (x ^ *c as u64).wrapping_mul(0x100000001b3); } mix(x) }

impl Ctx {
    fn probe(&mut self, k: &str) { if !self.quiet { *self.cov.probes.entry(k.into()).or_default() += 1; } }
    pub fn exec(&mut self, c: &Case, v: &Var, prev: Option<&[u8]>) -> Seen {
        let (spec, name) = build(c, v, prev);
        let o = self.run.run(&spec);
        if !self.quiet {
            self.cov.evals += 1;
            *self.cov.inch.entry(IN_NAMES[v.inch as usize]).or_default() += 1;
            *self.cov.outm.entry(OUT_NAMES[v.out as usize]).or_default() += 1;
            let split = v.io.iter().any(|i| i.rdm != 0 || i.wrm != 0);
            if o.fired.iter().any(|&f| f > 0) || split || o.switches > 0 || v.heap > 0 || v.space.is_some() || v.closed || v.open_errno != 0 || v.oopen_errno != 0 || v.rand != (0, 0) || v.inch >= IN_FILE || v.stale.is_some() || v.chain {
                let mut k = o.hash ^ h(&c.input);
                for p in &spec.procs { k = mix(k ^ h(p.tool.as_bytes()) ^ p.rel as u64); for a in &p.args { k = mix(k ^ h(a.as_bytes())); } }
                self.cov.distinct.insert(k);
                self.cov.logs.insert(o.hash);
                if spec.procs.len() > 1 || o.switches > 0 { self.cov.sched.insert(o.hash); }
            }
        }
        Seen::new(o, &spec, name, c.stages.len())
    }
    pub fn base(&mut self, st: &Stage, input: &[u8], out: u8) -> Base {
        let c = Case { stages: vec![st.clone()], input: input.to_vec(), ..Default::default() };
        let (spec, _) = build(&c, &Var::calm(out), None);
        let o = self.run.run(&spec);
        if !self.quiet { self.cov.baselines += 1; }
        let s = Seen::new(o, &spec, String::new(), 1);
        Base { class: class(&s.o.procs[0]), stdout: s.stdout().to_vec(), file: s.ofile().map(|x| x.to_vec()), cnt: s.o.procs[0].cnt, ops: s.o.procs[0].ops, nalloc: s.o.procs[0].nalloc, code: s.o.procs[0].exit_code(), hang: hang(&s.o, &[]).is_some(), too_big: too_big(&s.o) }
    }
}
#[derive(Clone)]
pub struct Base { pub class: i32, pub stdout: Vec<u8>, pub file: Option<Vec<u8>>, pub cnt: [u64; NCLS], pub ops: u64, pub nalloc: u64, pub code: Option<i32>, pub hang: bool, pub too_big: bool }

/// 0 success, 2 the verdict "no attractor", 1 any failure
fn class(p: &ProcOut) -> i32 { match p.exit_code() { Some(0) => 0, Some(2) => 2, _ => 1 } }
fn class_name(c: i32) -> &'static str { match c { 0 => "success", 2 => "exit 2", _ => "failure" } }
/// 2 is a verdict of is_stringattractor only; anywhere else it is a failure
fn norm_class(tool: &str, c: i32) -> i32 { if c == 2 && tool != "is_stringattractor" { 1 } else { c } }
/// a file or pipe outgrew what the simulated world can hold: nothing is concluded from such a run
fn too_big(o: &Out) -> bool { o.files.iter().any(|f| f.overflow) || busy(o) }
/// ran out of steps or time although a lot of data has moved
fn busy(o: &Out) -> bool { (o.livelock && o.steps > 1_000_000 || o.procs.iter().any(|p| p.signal() == 24)) && o.procs.iter().map(|p| p.bytes_in + p.bytes_out).sum::<u64>() > 1_000_000 }
fn hang(o: &Out, kills: &[u8]) -> Option<String> {
    if busy(o) { return None; }
    if o.livelock { return Some(format!("no end after {} I/O calls", o.steps)); }
    if o.deadlock { return Some("every process is blocked for ever".into()); }
    if o.timeout { return Some("no end within the time limit".into()); }
    for (k, p) in o.procs.iter().enumerate() { if matches!(p.signal(), 9 | 24) && !kills.contains(&(k as u8)) { return Some(format!("process {} computes without end", k)); } }
    None
}

fn show(b: &[u8]) -> String { let mut x: String = b.iter().take(60).map(|&c| std::ascii::escape_default(c).to_string()).collect(); if b.len() > 60 { x.push_str(&format!("..({} bytes)", b.len())); } x }

// ---------- comparison with time_ms masked ----------
fn named(exp: &[u8], tool: &str, name: &str) -> Vec<u8> {
    if !has_result(tool) || name == "none" { return exp.to_vec(); }
    for key in [&b" file=none"[..], &b" input=none"[..]] {
        if let Some(k) = exp.windows(key.len()).position(|w| w == key) {
            let mut v = exp[..k + key.len() - 4].to_vec();
            v.extend_from_slice(name.as_bytes());
            v.extend_from_slice(&exp[k + key.len()..]);
            return v;
        }
    }
    exp.to_vec()
}
/// is `got` a prefix of `exp` (full: equal), any digits after "time_ms=" standing for any others?
fn agree(exp: &[u8], got: &[u8], full: bool) -> bool {
    if exp == got { return true; }
    const T: &[u8] = b"time_ms=";
    let (mut i, mut j) = (0, 0);
    while j < got.len() {
        if i >= T.len() && &exp[i - T.len()..i] == T {
            let di = exp[i..].iter().take_while(|c| c.is_ascii_digit()).count();
            let dj = got[j..].iter().take_while(|c| c.is_ascii_digit()).count();
            if di > 0 && dj > 0 { i += di; j += dj; if j >= got.len() { break; } }
            else if di > 0 { return false; }
        }
        if i >= exp.len() || exp[i] != got[j] { return false; }
        i += 1; j += 1;
    }
    if !full { return true; }
    if i == exp.len() { return true; }
    false
}
fn agree_full(exp: &[u8], got: &[u8]) -> bool { agree(exp, got, true) }
fn agree_prefix(exp: &[u8], got: &[u8]) -> bool { agree(exp, got, false) }

// ---------- random world pieces ----------
fn rand_io(r: &mut Rng) -> Io {
    let m = |r: &mut Rng| -> (u32, u32) { match r.below(7) { 0 | 1 => (0, 1), 2 => (1, 1), 3 => (1, *r.pick(&[2u32, 3, 7, 16, 100, 4095, 8191, 8193])), 4 => (2, *r.pick(&[2u32, 5, 40, 500, 9000])), _ => (3, *r.pick(&[3u32, 30, 3000])) } };
    let a = m(r); let b = m(r);
    Io { rdm: a.0, rdp: a.1, wrm: b.0, wrp: b.1, seed: r.next() }
}
fn flt(p: u8, cls: u8, kind: u8, nth: u64, arg: i64) -> Flt { Flt { proc_: p, cls, kind, sticky: false, nth: nth.max(1).min(u32::MAX as u64) as u32, arg, arg2: 0 } }
fn nth(r: &mut Rng, cnt: u64) -> u64 { let c = cnt.max(1); match r.below(6) { 0 => 1, 1 => c, 2 => (c - 1).max(1), 3 => r.range(1, c.min(4) as usize) as u64, _ => r.range(1, c as usize) as u64 } }
/// faults after which the tool must behave as if nothing had happened
fn benign(r: &mut Rng, p: u8, cnt: &[u64; NCLS], n: usize) -> Vec<Flt> {
    let mut v = vec![];
    for _ in 0..n {
        let k = r.below(12);
        v.push(match k {
            0 | 1 | 2 => flt(p, C_RD, F_EINTR, nth(r, cnt[C_RD as usize] + 1), r.range(1, 3) as i64),
            3 => flt(p, C_RD, F_SHORT, nth(r, cnt[C_RD as usize]), r.range(1, 40) as i64),
            4 | 5 => flt(p, C_WR, F_EINTR, nth(r, cnt[C_WR as usize] + 1), r.range(1, 3) as i64),
            6 | 7 => flt(p, C_WR, F_SHORT, nth(r, cnt[C_WR as usize]), r.range(1, 40) as i64),
            8 => flt(p, C_OP, F_EINTR, r.range(1, 2) as u64, r.range(1, 2) as i64),
            9 => flt(p, C_ANY, F_STALL, nth(r, 8), r.range(1, 4000) as i64 * 1_000_000),
            10 => Flt { arg2: r.below(2) as i64, ..flt(p, C_CK, F_JUMP, r.range(1, 3) as u64, 0) },
            _ => flt(p, C_RN, if r.chance(1, 2) { F_EINTR } else { F_SHORT }, r.range(1, 2) as u64, r.range(1, 3) as i64),
        });
        if let Some(f) = v.last_mut() { if f.kind == F_JUMP { f.arg = if f.arg2 != 0 { (r.next() % 2_000_000_000_000) as i64 - 1_000_000_000_000 } else { r.range(1, 100_000) as i64 * 1_000_000 }; } }
    }
    v
}
fn in_channel(r: &mut Rng, tool: &str) -> u8 { if has_in(tool) { r.below(6) as u8 } else { IN_PIPE } }
fn out_mode(r: &mut Rng, tool: &str) -> u8 { if stream_out(tool) || extra_out(tool) { r.below(3) as u8 } else { r.below(2) as u8 } }
fn cap_for(r: &mut Rng, th: bool) -> usize { match r.below(20) { 0..=12 => 300, 13..=16 => 3000, 17 | 18 => 20000, _ => if th { 140_000 } else { 70_000 } } }
fn base_var(r: &mut Rng, tool: &str) -> Var {
    let mut v = Var::default();
    v.inch = in_channel(r, tool);
    v.name = r.below(FILE_NAMES.len() as u64) as u8;
    v.out = out_mode(r, tool);
    v.pre = pre(r);
    v.rand = if tool == "randomstring" { (0, 0) } else { (r.next(), 0) };
    v
}
/// standard streams that are not at the beginning of their files
fn pre(r: &mut Rng) -> u64 { if r.chance(1, 3) { let (a, b) = (if r.chance(1, 2) { r.range(1, 3) } else { r.range(0, 900) }, if r.chance(1, 2) { r.range(0, 3) } else { r.range(0, 9000) }); a as u64 + 1000 * b as u64 } else { 0 } }
fn all_tools() -> Vec<&'static str> { IN_TOOLS.iter().chain(GEN_TOOLS.iter().filter(|t| **t != "generator_kmer")).copied().collect() }
fn large_input(r: &mut Rng, tool: &str) -> Vec<u8> {
    let n = gen::large(r);
    let d = if matches!(tool, "bwt" | "count_r" | "entropy" | "entropy_kmer") { Dom::ZeroFree } else { Dom::Any };
    let mut inp = gen::large_bytes(r, n, d);
    if tool == "mus" { for b in inp.iter_mut() { if *b == 0 { *b = 1; } } inp.push(0); }
    inp
}
/// a prefix length that goes with a large input
fn reprefix(r: &mut Rng, st: &mut Stage, n: usize) {
    if !has_prefix(&st.tool) { return; }
    st.args.retain(|a| !a.starts_with("--prefixlength="));
    if r.chance(1, 2) { return; }
    let p = match r.below(5) { 0 => n, 1 => n + r.range(1, 70_000), 2 => *r.pick(&[65_535usize, 65_536, 65_537, 131_072, 131_073]), 3 => r.range(1, 65_536), _ => r.range(65_536, n.max(65_537)) };
    st.args.push(format!("--prefixlength={}", p));
}
/// a smaller generator run for the fault properties
fn make_small(r: &mut Rng, tool: &str, valid: bool, th: bool) -> (Stage, Vec<u8>) {
    let max = cap_for(r, th);
    let (mut st, input) = make(r, tool, &Want { max, prefix: true, valid });
    if has_in(tool) && tool != "is_stringattractor" && !flag(&st.args, "--is-reversion") && r.chance(1, 120) {
        st.rel = true;
        let input = large_input(r, tool);
        reprefix(r, &mut st, input.len());
        if !valid || pre_ok(&st, &input) { return (st, input); }
    }
    /* beyond the 64 KiB that pipes, libraries and buffers like to work in */
    if has_in(tool) && tool != "is_stringattractor" && !flag(&st.args, "--is-reversion") && r.chance(1, 14) {
        st.rel = r.chance(3, 4);
        let n = match r.below(3) { 0 => *r.pick(&[65_535usize, 65_536, 65_537, 131_071, 131_072, 131_073]), _ => r.range(66_000, 200_000) };
        let d = if matches!(tool, "bwt" | "count_r" | "entropy" | "entropy_kmer") { Dom::ZeroFree } else { Dom::Any };
        let mut input = gen::large_bytes(r, n, d);
        if tool == "mus" { for b in input.iter_mut() { if *b == 0 { *b = 1; } } input.push(0); }
        reprefix(r, &mut st, input.len());
        if !valid || pre_ok(&st, &input) { return (st, input); }
    }
    if tool == "word" { for a in st.args.iter_mut() { if let Some(k) = a.strip_prefix("-k").and_then(|x| x.parse::<usize>().ok()) { *a = format!("-k{}", k.min(if th { 15 } else { 12 })); } }
        if r.chance(1, 8) { let name = opt(&st.args, "--name=").unwrap_or("").to_string(); let k = (13..40).take_while(|&k| m::word_len(&name, k) <= 300e3).last().unwrap_or(12); let k = r.range(12, k); st.rel = true; for a in st.args.iter_mut() { if a.starts_with("-k") { *a = format!("-k{}", k); } } } }
    (st, input)
}
/* the likely ones several times; EBADF is left out, which the Rust runtime takes for the end of a closed standard stream */
const READ_ERR: [i64; 30] = [5, 11, 104, 116, 12, 22, 5, 11, 104, 116, 12, 22, 1, 2, 6, 13, 19, 21, 32, 61, 74, 75, 90, 95, 103, 105, 107, 110, 117, 121]; // EIO EAGAIN ECONNRESET ESTALE ENOMEM EINVAL, then EPERM ENOENT ENXIO EACCES ENODEV EISDIR EPIPE ENODATA EBADMSG EOVERFLOW EMSGSIZE EOPNOTSUPP ECONNABORTED ENOBUFS ENOTCONN ETIMEDOUT EUCLEAN EREMOTEIO
const OPEN_ERR: [i64; 17] = [2, 13, 23, 24, 5, 40, 12, 1, 6, 20, 36, 11, 19, 75, 110, 116, 117]; // ENOENT EACCES ENFILE EMFILE EIO ELOOP ENOMEM EPERM ENXIO ENOTDIR ENAMETOOLONG EAGAIN ENODEV EOVERFLOW ETIMEDOUT ESTALE EUCLEAN
const WRITE_ERR: [i64; 24] = [28, 5, 32, 27, 122, 11, 28, 5, 32, 27, 122, 11, 1, 6, 12, 13, 22, 30, 104, 105, 110, 116, 117, 89]; // ENOSPC EIO EPIPE EFBIG EDQUOT EAGAIN, then EPERM ENXIO ENOMEM EACCES EINVAL EROFS ECONNRESET ENOBUFS ETIMEDOUT ESTALE EUCLEAN EDESTADDRREQ
const OOPEN_ERR: [i64; 16] = [13, 28, 30, 24, 5, 1, 21, 2, 6, 12, 20, 23, 26, 36, 40, 122]; // EACCES ENOSPC EROFS EMFILE EIO EPERM EISDIR ENOENT ENXIO ENOMEM ENOTDIR ENFILE ETXTBSY ENAMETOOLONG ELOOP EDQUOT

pub const IDS: [&str; 29] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];
fn num(id: &str) -> u64 { id[1..].parse().unwrap_or(0) }
/// how many cases the quick tier runs
pub fn quick_cases(id: &str) -> u64 { match id { "C05" | "C08" | "C09" => 9000, "C24" => 7000, "C25" => 6000, "C26" => 140, "C28" => 100, "C29" => 600, "C27" => 9000, "C03" => 12_000, "C14" | "C15" | "C16" | "C17" => 10_000, _ => 16_000 } }
pub fn content_tools(id: &str) -> &'static [&'static str] {
    match id {
        "C10" => &["escape"], "C11" => &["rle"], "C12" => &["mtf"], "C13" => &["bwt", "count_r", "bwt"], "C14" => &["count_z"], "C15" => &["count_lexparse"], "C16" => &["lyndonfactorization"],
        "C17" => &["mus"], "C18" => &["is_stringattractor"], "C19" => &["entropy", "entropy_kmer"], "C20" => &["count_sigma", "count_runs"], "C21" => &["reverse"], "C22" => &["word"],
        "C23" => &["enumerate", "lyndonwords", "enumerate", "lyndonwords", "enumerate", "lyndonwords", "lyndonwords"], "C24" => &["randomstring"], "C27" => &["probe"], "C28" => &["parallel"], "C29" => &["enumerate_lexparse"], _ => &[],
    }
}

pub fn make_case(x: &mut Ctx, id: &str, seed: u64, i: u64) -> Case {
    let mut rng = Rng::new(seed, num(id), i);
    let r = &mut rng;
    let th = x.thorough;
    let mut c = Case { prop: id.into(), ..Default::default() };
    match id {
        "C01" => {
            let tool = IN_TOOLS[(i as usize) % IN_TOOLS.len()];
            let (st, inp) = make_small(r, tool, false, th);
            c.input = inp;
            let b = x.base(&st, &c.input, OUT_PIPE);
            for _ in 0..r.range(3, 5) {
                let mut v = base_var(r, tool);
                v.io = vec![rand_io(r)];
                let k = r.range(0, 3);
                v.faults = benign(r, 0, &b.cnt, k);
                if r.chance(1, 3) { v.faults.push(flt(0, C_RD, F_EINTR, nth(r, b.cnt[C_RD as usize] + 1), 1)); }
                c.vars.push(v);
            }
            c.stages = vec![st];
        }
        "C02" => {
            let tool = IN_TOOLS[(i as usize) % IN_TOOLS.len()];
            let (st, inp) = make_small(r, tool, true, th);
            c.input = inp;
            c.stages = vec![st.clone()];
            for _ in 0..r.range(3, 5) {
                let mut v = base_var(r, tool);
                v.io = vec![rand_io(r)];
                match r.below(10) {
                    0 => { v.inch = IN_DIR; }
                    1 => { v.inch = IN_MISSING; }
                    2 => { v.inch = *r.pick(&[IN_FILE, IN_FIFO, IN_SPECIAL]); v.open_errno = *r.pick(&OPEN_ERR) as u32; }
                    3 => { v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(0, C_OP, F_ERRNO, 1, *r.pick(&OPEN_ERR)) }); }
                    4 => { v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(0, C_ST, F_ERRNO, r.range(1, 2) as u64, *r.pick(&[5i64, 13, 116])) }); }
                    _ => {
                        let p = x.count(&c, &v);
                        let n = nth(r, p.cnt[C_RD as usize]);
                        v.faults.push(Flt { sticky: r.chance(2, 3), ..flt(0, C_RD, F_ERRNO, n, *r.pick(&READ_ERR)) });
                        if r.chance(1, 4) { v.faults.push(flt(0, C_RD, F_EINTR, n.saturating_sub(1), 1)); }
                    }
                }
                c.vars.push(v);
            }
        }
        "C03" => {
            let ts = all_tools();
            let tool = if i % 97 == 5 { "generator_kmer" } else { ts[(i as usize) % ts.len()] };
            let (st, inp) = make_small(r, tool, true, th);
            c.input = inp;
            c.stages = vec![st.clone()];
            for _ in 0..r.range(3, 5) {
                let mut v = base_var(r, tool);
                if r.chance(1, 2) { v.io = vec![rand_io(r)]; }
                let p = x.count(&c, &v);
                let w = p.cnt[C_WR as usize];
                match r.below(9) {
                    0 => { v.out = OUT_PIPE; v.closed = true; }
                    1 if stream_out(tool) || extra_out(tool) => { v.out = OUT_FILE; v.oopen_errno = *r.pick(&OOPEN_ERR) as u32; }
                    2 | 3 => { if v.out == OUT_PIPE { v.out = if stream_out(tool) && r.chance(1, 2) { OUT_FILE } else { OUT_REG }; } let total = p.out_bytes; v.space = Some(match r.below(4) { 0 => 0, 1 => total.saturating_sub(1) as i64, 2 => total.saturating_sub(r.range(1, 5) as u64) as i64, _ => r.below(total.max(1)) as i64 }); }
                    4 => { v.faults.push(flt(0, C_WR, F_ZERO, nth(r, w), 0)); v.faults[0].sticky = r.chance(1, 2); }
                    5 => { let n = p.cnt[C_OP as usize]; v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(0, C_OP, F_ERRNO, n, *r.pick(&OOPEN_ERR)) }); }
                    _ => { let n = if r.chance(1, 2) { w } else { nth(r, w) }; v.faults.push(Flt { sticky: r.chance(2, 3), ..flt(0, C_WR, F_ERRNO, n, *r.pick(&WRITE_ERR)) }); if r.chance(1, 3) { v.faults.push(flt(0, C_WR, F_SHORT, n.saturating_sub(1), r.range(1, 20) as i64)); } }
                }
                c.vars.push(v);
            }
        }
        "C04" | "C05" => {
            let ts: Vec<&str> = all_tools().into_iter().filter(|t| id == "C04" || stream_out(t) || extra_out(t)).collect();
            let tool = ts[(i as usize) % ts.len()];
            let (st, inp) = make_small(r, tool, true, th);
            c.input = inp;
            c.stages = vec![st.clone()];
            let n = r.range(3, 5);
            let append = id == "C05" && r.chance(1, 8); // standard output appended to an existing file instead
            for k in 0..n {
                let mut v = base_var(r, tool);
                if r.chance(2, 3) { v.io = vec![rand_io(r)]; }
                if id == "C05" { v.out = if append { OUT_REG } else { OUT_FILE }; }
                if append { v.pre = v.pre % 1000 + 1000 * r.range(1, 5000) as u64; }
                let p = x.count(&c, &v);
                if id == "C05" {
                    if append {} else if k == 0 { if r.chance(1, 2) { let l = match r.below(4) { 0 => r.range(0, 3), 1 => p.out_bytes as usize + r.range(1, 50), 2 => p.out_bytes as usize, _ => gen::size(r, 3000) }; v.stale = Some(gen::bytes(r, l, Dom::Any)); } } else { v.chain = true; }
                }
                if id == "C05" && k + 1 == n { let q = r.range(0, 2); v.faults = benign(r, 0, &p.cnt, q); c.vars.push(v); break; }
                let kill = if r.chance(1, 2) { F_KILL_BEFORE } else { F_KILL_AFTER };
                match r.below(9) {
                    0 | 1 | 2 => v.faults.push(flt(0, C_WR, kill, nth(r, p.cnt[C_WR as usize]), 0)),
                    3 | 4 => v.faults.push(flt(0, C_ANY, kill, nth(r, p.ops), 0)),
                    5 => v.faults.push(flt(0, C_AL, F_KILL_BEFORE, nth(r, p.nalloc), 0)),
                    6 => v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(0, C_WR, F_ERRNO, nth(r, p.cnt[C_WR as usize]), *r.pick(&WRITE_ERR)) }),
                    7 => v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(0, C_RD, F_ERRNO, nth(r, p.cnt[C_RD as usize]), *r.pick(&READ_ERR)) }),
                    _ => if r.chance(1, 2) { v.faults.push(flt(0, C_WR, F_ZERO, nth(r, p.cnt[C_WR as usize]), 0)) } else { v.faults.push(flt(0, C_AL, F_NOMEM, nth(r, p.nalloc), 0)) },
                }
                if r.chance(1, 3) { let q = r.range(1, 2); v.faults.extend(benign(r, 0, &p.cnt, q)); }
                c.vars.push(v);
            }
        }
        "C06" => {
            let ts: Vec<&str> = all_tools().into_iter().filter(|t| *t != "randomstring").collect();
            let hashy = ["count_sigma", "entropy", "entropy_kmer", "is_stringattractor", "count_z", "mus"];
            let tool = if r.chance(1, 3) { *r.pick(&hashy) } else { ts[(i as usize) % ts.len()] };
            let (st, inp) = make_small(r, tool, false, th);
            c.input = inp;
            c.stages = vec![st];
            for _ in 0..r.range(3, 5) {
                let mut v = Var { out: out_mode(r, tool), ..Default::default() };
                v.rand = (r.next(), if r.chance(1, 6) { 1 } else { 0 });
                v.rt_off = if r.chance(1, 3) { (r.next() % 3_000_000_000_000_000_000) as i64 - 1_500_000_000_000_000_000 } else { 0 };
                v.tick = if r.chance(1, 3) { r.range(1, 50_000_000) as u64 } else { 0 };
                if r.chance(1, 3) { v.env = format!("RUST_LOG={}", r.pick(&["debug", "info", "trace", "error", "off"])); }
                if r.chance(1, 6) { v.env = r.pick(&["RUST_BACKTRACE=1", "RUST_BACKTRACE=full", "LC_ALL=de_DE.UTF-8", "LC_NUMERIC=de_DE", "LANG=tr_TR.UTF-8", "TZ=Pacific/Auckland", "COLUMNS=10", "TERM=dumb", "NO_COLOR=1", "CLICOLOR_FORCE=1", "RUST_LOG_STYLE=always", "RAYON_NUM_THREADS=3", "HOME=/nonexistent", "TMPDIR=/nonexistent", "USER=root", "DEBUG=1", "RUST_MIN_STACK=65536", "PAGER=cat"]).to_string(); }
                for _ in 0..r.range(0, 2) { v.faults.push(match r.below(5) {
                    0 => flt(0, C_CK, F_JUMP, r.range(1, 3) as u64, r.range(1, 5_000_000) as i64 * if r.chance(1, 5) { 1_000_000_000 } else { 1_000_000 }),
                    1 => Flt { arg2: 1, ..flt(0, C_CK, F_JUMP, r.range(1, 3) as u64, if r.chance(1, 2) { -1 } else { 1 } * (r.range(1, 5_000_000) as i64) * 1_000_000) },
                    2 => flt(0, C_RN, F_EINTR, 1, 2),
                    3 => flt(0, C_RN, F_SHORT, 1, r.range(1, 7) as i64),
                    _ => flt(0, C_ANY, F_STALL, nth(r, 6), r.range(1, 90_000) as i64 * 1_000_000),
                }); }
                if r.chance(1, 8) { v.faults.push(Flt { sticky: false, ..flt(0, C_RN, F_ERRNO, 1, 38) }); }
                c.vars.push(v);
            }
        }
        "C07" => {
            let ts: Vec<&str> = IN_TOOLS.iter().copied().filter(|t| has_prefix(t)).collect();
            let tool = ts[(i as usize) % ts.len()];
            let max = cap_for(r, th);
            let (mut st, inp) = make(r, tool, &Want { max, prefix: false, valid: true });
            c.input = inp;
            /* a small part of a long file, around the sizes that are read at once */
            let far = r.chance(1, if th { 20 } else { 60 });
            if far && !matches!(tool, "bwt" | "count_r" | "is_stringattractor") && !flag(&st.args, "--is-reversion") {
                let top = if r.chance(1, 4) { 400_000 } else { 140_000 };
                let n = r.range(8_193, top);
                let t = gen::large_bytes(r, n, Dom::ZeroFree);
                if pre_ok(&st, &t) { st.rel = true; c.input = t; }
            }
            let n = c.input.len();
            let p: u64 = if n > 8192 && r.chance(2, 3) { let q = *r.pick(&[4096usize, 8192, 8192, 16_384, 32_768, 65_536]); (q * r.range(1, (n - 1) / q + (n <= q) as usize) + r.below(3) as usize).saturating_sub(if r.chance(1, 2) { 1 } else { 0 }) as u64 } else { match r.below(12) { 10 | 11 => (1u64 << *r.pick(&[8u32, 16, 31, 32, 32, 33, 48, 63])).wrapping_add(r.range(0, n + 1) as u64).wrapping_sub(r.chance(1, 6) as u64), 0 => 0, 1 => n as u64, 2 => n as u64 + 1, 3 => n.saturating_sub(1) as u64, 4 => *r.pick(&[1u64 << 20, 1 << 33, 1 << 40, 1 << 62, u64::MAX / 2, u64::MAX]), 5 => 1, 6 => n as u64 + r.range(1, 100) as u64, _ => r.range(1, n.max(1)) as u64 } };
            st.args.push(format!("--prefixlength={}", p));
            let b = x.base(&st, &c.input, OUT_PIPE);
            c.stages = vec![st];
            for k in 0..r.range(3, 4) {
                let mut v = base_var(r, tool);
                if k == 0 { v.inch = *r.pick(&[IN_PIPE, IN_REG, IN_FILE]); } else { v.io = vec![rand_io(r)]; let q = r.range(0, 2); v.faults = benign(r, 0, &b.cnt, q); }
                c.vars.push(v);
            }
        }
        "C08" => {
            let tool = IN_TOOLS[(i as usize) % IN_TOOLS.len()];
            let max = *r.pick(&[30usize, 200, 200, 3000, 20000]);
            let (st, inp) = make(r, tool, &Want { max, prefix: true, valid: true });
            c.input = inp;
            let replace = r.chance(3, 5);
            if replace {
                /* another valid input for the same arguments, of a different length */
                c.input2 = if r.chance(1, 2) { let k = r.range(0, c.input.len()); c.input[k..].to_vec() } else { let l = gen::size(r, max); gen::bytes(r, l, Dom::ZeroFree) };
                if tool == "mus" { c.input2 = c.input[c.input.len() / 2..].to_vec(); }
                if tool == "escape" && flag(&st.args, "--is-reversion") { let mut y = c.input.clone(); y.extend_from_slice(&c.input); c.input2 = y; }
            } else { let l = r.range(1, 6); c.input2 = gen::bytes(r, l, Dom::ZeroFree); }
            c.stages = vec![st];
            for _ in 0..r.range(3, 5) {
                let mut v = base_var(r, tool);
                v.inch = IN_FILE;
                if r.chance(2, 3) { v.io = vec![rand_io(r)]; }
                let p = x.count(&c, &v);
                let n = if r.chance(2, 3) { r.range(1, p.ops.min(6) as usize) as u64 } else { nth(r, p.ops) };
                v.faults.push(Flt { arg2: I_IN as i64, ..flt(0, C_ANY, if replace { F_REPLACE } else { F_APPEND }, n, I_IN2 as i64) });
                if r.chance(1, 3) { v.faults.extend(benign(r, 0, &p.cnt, 1)); }
                c.vars.push(v);
            }
        }
        "C09" => {
            let ts = all_tools();
            let tool = ts[(i as usize) % ts.len()];
            let (st, inp) = make_small(r, tool, true, th);
            c.input = inp;
            c.stages = vec![st];
            for _ in 0..r.range(4, 7) {
                let mut v = base_var(r, tool);
                if r.chance(1, 3) { v.io = vec![rand_io(r)]; }
                let p = x.count(&c, &v);
                if r.chance(1, 4) { v.heap = 600 + r.below(p.peak.max(1)); } else { v.faults.push(Flt { sticky: r.chance(1, 3), ..flt(0, C_AL, F_NOMEM, nth(r, p.nalloc), 0) }); }
                c.vars.push(v);
            }
        }
        "C26" => {
            let tool = *r.pick(&["rle", "mtf", "escape", "count_runs", "enumerate", "lyndonwords", "randomstring", "rle", "mtf", "escape", "count_runs"]);
            let (mut st, _) = make(r, tool, &Want { max: 50, prefix: false, valid: true });
            st.rel = st.rel || tool == "randomstring" || r.chance(3, 4);
            let big = if st.rel { *r.pick(&[2_400_000usize, 4_000_000, 6_000_000]) } else { *r.pick(&[1_200_000usize, 2_400_000]) };
            let small = big / 2;
            match tool {
                "enumerate" => { st.args = vec!["2".into(), "1".into(), format!("{}", if st.rel { r.range(16, 17) } else { 15 })]; }
                "lyndonwords" => { st.args = vec![format!("-l{}", if st.rel { r.range(20, 22) } else { 19 }), "-s2".into()]; }
                "randomstring" => { st.args.retain(|a| !a.starts_with("--prefixlength=")); st.args.push(format!("--prefixlength={}", big)); }
                _ => {}
            }
            if has_in(tool) {
                c.input = gen::bytes(r, big, Dom::Any);
                if tool == "escape" { st.args.retain(|a| a != "--is-reversion"); }
                match r.below(8) {
                    0 | 1 => c.input = vec![*r.pick(&[0u8, b'0', b'a', 255]); big],
                    2 | 3 => { /* runs of lengths around one mean, of two or more letters */
                        let (top, sig) = (*r.pick(&[2usize, 6, 20, 100, 300, 600, 3000]), r.range(2, 6) as u8);
                        let mut c0 = 0u8;
                        c.input.clear();
                        while c.input.len() < big { let l = r.range(1, top).min(big - c.input.len()); c.input.extend(std::iter::repeat(b'0' + c0).take(l)); c0 = (c0 + 1 + r.below(sig as u64 - 1) as u8) % sig; }
                    }
                    _ => {}
                }
            }
            c.note = format!("small {}", small);
            c.stages = vec![st];
            for _ in 0..2 { let mut v = base_var(r, tool); v.out = if stream_out(tool) && r.chance(1, 2) { OUT_FILE } else { OUT_PIPE }; if r.chance(1, 2) { v.io = vec![Io { rdm: 2, rdp: 9000, wrm: 2, wrp: 9000, seed: r.next() }]; } v.heap = 3 << 20; c.vars.push(v); }
        }
        "C25" => pipeline_case(x, r, &mut c, i, th),
        _ => content_case(x, r, &mut c, id, i, th),
    }
    /* should a tool use threads, their interleaving and the number of processors vary as well */
    let q = &mut Rng::new(seed ^ 0x7468_7265_6164, num(id), i);
    /* whether strings differ for different entropy is decided with everything else being equal */
    let plain = id == "C24" && q.chance(1, 2);
    for v in c.vars.iter_mut() {
        if plain { continue; }
        if v.sched == (0, 0, 0, 0) && q.chance(7, 8) { v.sched = (*q.pick(&[1u32, 1, 2, 2, 3, 4]), q.range(4, 120) as u32, q.next(), if q.chance(2, 3) { u64::MAX } else { q.range(0, 200) as u64 }); }
        if q.chance(2, 3) { v.lay = q.next(); }
        if q.chance(1, 2) { v.spell = q.next(); }
        if q.chance(4, 5) { v.sched.1 = v.sched.1 & 255 | (q.range(1, 9) as u32) << 8; }
        if id == "C28" { v.sched.0 = *q.pick(&[1, 1, 2, 3, 3, 3, 4]); v.sched.3 = u64::MAX; v.sched.1 = v.sched.1 & 8191 | (q.range(6, 13) as u32) << 13; }
        if id == "C27" { v.sched.1 |= (if q.chance(1, 2) { q.range(1, 4) } else { q.range(0, 14) } as u32) << 13; }
        if matches!(id, "C27" | "C28") && q.chance(2, 3) { v.sched.1 |= (q.range(1, 7) as u32) << 18; }
        if v.cpus == 0 { v.cpus = *q.pick(&[0u32, 1, 2, 3, 4, 8, 16]); }
    }
    c
}

/// counts of one execution with the variant's channels and chunking but without its faults
pub struct Counts { pub cnt: [u64; NCLS], pub ops: u64, pub nalloc: u64, pub peak: u64, pub out_bytes: u64 }
impl Ctx {
    fn count(&mut self, c: &Case, v: &Var) -> Counts {
        let mut w = v.clone();
        w.faults.clear(); w.chain = false; w.closed = false; w.open_errno = 0; w.oopen_errno = 0; w.space = None; w.heap = 0;
        let (spec, _) = build(c, &w, None);
        let o = self.run.run(&spec);
        if !self.quiet { self.cov.baselines += 1; }
        let p = &o.procs[0];
        Counts { cnt: p.cnt, ops: p.ops, nalloc: p.nalloc, peak: p.heap_peak.max(1) as u64, out_bytes: p.bytes_out }
    }
}

fn disturbed_vars(x: &mut Ctx, r: &mut Rng, c: &mut Case, n: usize) {
    let tool = c.stages[0].tool.clone();
    let mut b = Counts { cnt: [3; NCLS], ops: 5, nalloc: 10, peak: 1, out_bytes: 1 };
    for k in 0..n {
        let mut v = base_var(r, &tool);
        v.rand = (r.next(), 0);
        if k == 0 { b = x.count(c, &v); } else { v.io = vec![rand_io(r)]; let q = r.range(0, 2); v.faults = benign(r, 0, &b.cnt, q); }
        if extra_out(&tool) && r.chance(1, 2) { v.out = OUT_FILE; }
        if tool == "lyndonfactorization" && r.chance(1, 5) { v.env = "RUST_LOG=debug".into(); }
        c.vars.push(v);
    }
}

fn content_case(x: &mut Ctx, r: &mut Rng, c: &mut Case, id: &str, i: u64, th: bool) {
    let ts = content_tools(id);
    let mut tool = *r.pick(ts); /* not by the case number: the special cases below go by it */
    let nv = r.range(2, 3);
    /* two-stage pipelines */
    if matches!(id, "C10" | "C13" | "C21") && i % 4 == 3 {
        let max = *r.pick(&[40usize, 300, 300, 3000, 20000]);
        let (mut a, mut inp) = make(r, tool, &Want { max, prefix: false, valid: true });
        if r.chance(1, 60) && !flag(&a.args, "--is-reversion") { a.rel = true; let n = if r.chance(1, 3) { gen::large(r) } else { r.range(60_000, 200_000) }; inp = gen::large_bytes(r, n, if id == "C13" { Dom::ZeroFree } else { Dom::Any }); }
        let b = match id {
            "C10" => { if flag(&a.args, "--is-reversion") { let (e, f, t) = esc(&a).unwrap(); inp = m::unescape(&inp, e, &f, &t).unwrap_or_default(); a.args.retain(|s| s != "--is-reversion"); } let mut b = a.clone(); b.args.push("--is-reversion".into()); b.rel = r.chance(1, 2); b }
            "C13" => { a.tool = "bwt".into(); Stage { tool: "count_runs".into(), rel: r.chance(1, 2), args: vec![] } }
            _ => Stage { tool: "reverse".into(), rel: r.chance(1, 2), args: vec![] },
        };
        c.input = inp;
        c.stages = vec![a, b];
        for _ in 0..nv {
            let mut v = Var { inch: r.below(6) as u8, name: r.below(FILE_NAMES.len() as u64) as u8, pre: pre(r), out: if id == "C13" { OUT_PIPE } else { r.below(3) as u8 }, ..Default::default() };
            pipe_env(r, &mut v, 2, c.input.len());
            if r.chance(1, 3) { let p = r.below(2) as u8; v.faults.extend(benign(r, p, &[6; NCLS], 1)); }
            c.vars.push(v);
        }
        return;
    }
    if id == "C22" {
        let lim = if th { 8e6 } else { 4.2e6 };
        let all: Vec<(&str, usize)> = WORDS.iter().flat_map(|w| (0..).take_while(move |&k| m::word_len(w, k) <= lim).map(move |k| (*w, k))).collect();
        if i % 400 == 399 {
            let big: Vec<(&str, usize)> = WORDS.iter().flat_map(|w| (0..).take_while(move |&k| m::word_len(w, k) <= 70e6).filter(move |&k| m::word_len(w, k) > 16.7e6).map(move |k| (*w, k))).filter(|w| w.0 != "binary-de-brujin").collect();
            if !big.is_empty() {
                let (name, k) = big[(i / 400) as usize % big.len()];
                c.stages = vec![Stage { tool: "word".into(), rel: true, args: vec![format!("--name={}", name), format!("-k{}", k)] }];
                let mut v = base_var(r, "word");
                v.out = if r.chance(1, 2) { OUT_FILE } else { OUT_REG };
                v.wide = 200_000_000;
                c.vars.push(v);
                return;
            }
        }
        let (name, k) = if (i as usize) < all.len() { all[i as usize] }
            else if r.chance(1, 12) { (*r.pick(&["thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "power2", "fibonacci", "kolakoski"]), match r.below(3) { 0 => *r.pick(&[64usize, 65, 92, 93, 94, 96, 127, 128, 129, 191, 192, 252, 253, 254, 255]), 1 => r.range(64, 130), _ => r.range(64, 255) }) }
            else if r.chance(1, 40) { (*r.pick(WORDS), *r.pick(&[256usize, 257, 259, 260, 264, 270, 511, 512, 514, 517, 65536, 65540, (1 << 32) + 4, usize::MAX])) }
            else { let small: Vec<(&str, usize)> = all.iter().copied().filter(|(w, k)| m::word_len(w, *k) <= 300e3).collect(); *r.pick(&small) };
        let len = m::word_len(name, k);
        c.stages = vec![Stage { tool: "word".into(), rel: len > 20_000.0 && len < 1e9 || r.chance(1, 2), args: vec![format!("--name={}", name), format!("-k{}", k)] }];
        if len > 20_000.0 && len < 1e9 { let mut v = base_var(r, "word"); if r.chance(1, 2) { v.io = vec![Io { rdm: 0, rdp: 1, wrm: 2, wrp: 9000, seed: r.next() }]; } c.vars.push(v); return; }
        disturbed_vars(x, r, c, 2);
        return;
    }
    if id == "C28" {
        /* the survey takes minutes: it is stopped, by a full destination or a kill, somewhere in the first lengths; a few runs are let to the end */
        static LEN: std::sync::OnceLock<[usize; 3]> = std::sync::OnceLock::new();
        let len = LEN.get_or_init(|| [m::survey_len(16), m::survey_len(17), m::survey_len(18)]);
        let whole = th && i % 100 == 3;
        c.stages = vec![Stage { tool: tool.into(), rel: whole || r.chance(1, 4), args: vec![] }];
        if whole { c.note = "whole".into(); }
        let mut v = base_var(r, tool);
        v.out = if r.chance(1, 2) { OUT_PIPE } else { OUT_REG };
        if r.chance(1, 2) { v.io = vec![rand_io(r)]; }
        match r.below(14) {
            _ if whole => {}
            12 | 13 => { /* a passing failure: whichever thread meets it, its words are not to be missing from a table */
                v.out = OUT_REG; v.space = Some((len[0] + r.range(0, 3000)) as i64); v.io.clear();
                v.faults.push(flt(0, C_WR, F_ERRNO, r.range(1, 720) as u64, *r.pick(&WRITE_ERR)));
                c.vars.push(v);
                return;
            }
            0 | 1 => v.faults.push(flt(0, C_WR, *r.pick(&[F_KILL_BEFORE, F_KILL_AFTER]), r.range(1, 720) as u64, 0)),
            2 => v.faults.push(Flt { sticky: true, ..flt(0, C_WR, F_ERRNO, r.range(1, 720) as u64, *r.pick(&WRITE_ERR)) }),
            3 => { v.out = OUT_REG; v.space = Some(r.range(0, len[0]) as i64) }
            k @ 4 | k @ 5 => { v.out = OUT_REG; v.space = Some((len[k as usize - 4] + r.range(0, len[1] - len[0])) as i64) }
            k => { v.out = OUT_REG; v.space = Some((len[0] + if k < 8 { 0 } else { r.range(0, 3000) }) as i64); if k == 11 { v.faults.push(flt(0, C_AL, F_NOMEM, r.range(1, 200_000) as u64, 0)); } }
        }
        if r.chance(1, 3) { v.faults.push(flt(0, C_WR, F_EINTR, r.range(1, 700) as u64, r.range(1, 3) as i64)); }
        if r.chance(1, 3) { v.faults.push(flt(0, C_WR, F_SHORT, r.range(1, 700) as u64, r.range(1, 60) as i64)); }
        c.vars.push(v);
        return;
    }
    if id == "C29" {
        let deep = i % 60 == 17;
        c.stages = vec![Stage { tool: tool.into(), rel: deep || r.chance(1, 2), args: vec![] }];
        for _ in 0..if deep { 1 } else { 2 } {
            let mut v = base_var(r, tool);
            v.out = OUT_REG;
            v.space = Some(if deep { r.range(9000, 16_000) } else if r.chance(1, 6) { r.range(0, 200) } else { r.range(0, 4200) } as i64);
            if r.chance(1, 2) { v.io = vec![rand_io(r)]; }
            let w = nth(r, 60);
            match r.below(8) {
                0 | 1 => v.faults.push(Flt { sticky: true, ..flt(0, C_WR, F_ERRNO, w, *r.pick(&WRITE_ERR)) }),
                2 => v.faults.push(flt(0, C_WR, F_ERRNO, w, *r.pick(&WRITE_ERR))),
                3 => v.faults.push(flt(0, *r.pick(&[C_WR, C_ANY]), *r.pick(&[F_KILL_BEFORE, F_KILL_AFTER]), w, 0)),
                4 => { v.faults.push(flt(0, C_WR, F_SHORT, w, r.range(1, 60) as i64)); v.faults.push(flt(0, C_WR, F_EINTR, nth(r, 40), r.range(1, 3) as i64)); }
                5 => v.faults.push(flt(0, C_AL, F_NOMEM, r.range(1, 4000) as u64, 0)),
                _ => {}
            }
            c.vars.push(v);
        }
        return;
    }
    if id == "C23" && i % 131 == 7 { tool = "generator_kmer"; }
    if id == "C10" && i % 131 == 8 || id == "C23" && i % 17 == 3 {
        let (st, inp) = make(r, tool, &Want { max: 400, prefix: false, valid: false });
        c.stages = vec![st]; c.input = inp;
        disturbed_vars(x, r, c, 2);
        return;
    }
    if id == "C23" && i % 600 == 299 {
        /* listings beyond 2^20 lines and 2^24 bytes */
        let all: [(&str, &[&str]); 10] = [("enumerate", &["2", "21"]), ("enumerate", &["1", "1", "7000"]), ("enumerate", &["3", "13", "14"]), ("enumerate", &["26", "4", "5"]), ("enumerate", &["5", "1", "9"]), ("enumerate", &["2", "1", "21"]), ("lyndonwords", &["-l24"]), ("lyndonwords", &["-l10", "-s5"]), ("lyndonwords", &["-l8", "-s9"]), ("lyndonwords", &["-l5", "-s26"])];
        let (t, a) = all[(i / 600) as usize % all.len()];
        c.stages = vec![Stage { tool: t.into(), rel: true, args: a.iter().map(|s| s.to_string()).collect() }];
        let mut v = base_var(r, t);
        v.out = if stream_out(t) && r.chance(1, 2) { OUT_FILE } else { OUT_REG };
        v.wide = 200_000_000;
        c.vars.push(v);
        return;
    }
    if id == "C23" && i % 16 == 5 {
        /* listings too long to be finished: the destination fills up */
        let sg = r.range(2, 26);
        let (t, a): (&str, Vec<String>) = match r.below(4) {
            0 => ("enumerate", vec![sg.to_string(), "1".into(), r.range(20, 60).to_string()]),
            1 => ("enumerate", vec![sg.to_string(), r.range(20, 300).to_string()]),
            2 => ("enumerate", vec![r.range(1, 3).to_string(), r.range(1, 12).to_string(), (1u64 << r.range(14, 40)).to_string()]),
            _ => ("lyndonwords", vec![format!("-l{}", match r.below(5) { 0 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1025, 5000]), 1 => r.range(250, 700), 2 => r.range(26, 90), _ => r.range(8, 30) }), format!("-s{}", if r.chance(1, 3) { r.range(27, 159) } else { sg })]),
        };
        c.stages = vec![Stage { tool: t.into(), rel: r.chance(1, 2), args: a }];
        c.note = "unfinished".into();
        for _ in 0..nv { let mut v = base_var(r, t); v.out = if stream_out(t) && r.chance(1, 2) { OUT_FILE } else { OUT_REG }; v.space = Some(if r.chance(1, 8) { r.range(60_000, 600_000) } else { r.range(0, 60_000) } as i64); if r.chance(1, 2) { v.io = vec![rand_io(r)]; } c.vars.push(v); }
        return;
    }
    if id == "C23" && i % 300 == 12 {
        /* long listings */
        let t = *r.pick(&["enumerate", "lyndonwords"]);
        let a: Vec<&str> = if t == "enumerate" { match r.below(5) { 0 => vec!["26", "1", "3"], 1 => vec!["2", "14", "16"], 2 => vec!["3", "1", "10"], 3 => vec!["26", "4"], _ => vec!["1", "1", "700"] } } else { match r.below(5) { 0 => vec!["-l20"], 1 => vec!["-l4", "-s26"], 2 => vec!["-l2", "-s159"], 3 => vec!["-l12", "-s3"], _ => vec!["-l255", "-s1"] } };
        c.stages = vec![Stage { tool: t.into(), rel: true, args: a.iter().map(|s| s.to_string()).collect() }];
        let mut v = base_var(r, t);
        if r.chance(1, 2) { v.io = vec![Io { rdm: 0, rdp: 1, wrm: 2, wrp: 20000, seed: r.next() }]; }
        c.vars.push(v);
        return;
    }
    let big = r.chance(1, 27);
    let very = big && r.chance(1, 3);
    let max = if big { if th { 300_000 } else { 140_000 } } else { *r.pick(&[20usize, 80, 300, 300, 300, 1100, 1100, 9000, 20000]) };
    let valid = !r.chance(1, 5);
    let (mut st, mut inp) = make(r, tool, &Want { max, prefix: true, valid });
    if big && has_in(tool) && tool != "probe" && tool != "is_stringattractor" && !flag(&st.args, "--is-reversion") {
        st.rel = true;
        st.args.retain(|a| !a.starts_with("--prefixlength="));
        let huge = very && (!matches!(id, "C14" | "C15" | "C16" | "C17" | "C18" | "C19") || r.chance(1, 5));
        let n = *r.pick(&[65535usize, 65536, 65537, 70000, 100_000, 131072, 131073]);
        let d = if matches!(tool, "bwt" | "count_r" | "entropy" | "entropy_kmer") { Dom::ZeroFree } else { Dom::Any };
        inp = if huge { large_input(r, tool) } else { gen::bytes(r, n, d) };
        if tool == "mus" && !huge { for b in inp.iter_mut() { if *b == 0 { *b = 1; } } inp.push(0); }
        if matches!(tool, "bwt" | "count_r") && flag(&st.args, "--use-matrix") { inp.truncate(if r.chance(1, 3) { 200_000 } else { 66_000 }); }
        if r.chance(1, 3) { reprefix(r, &mut st, inp.len()); }
    }
    if id == "C16" && !big && r.chance(1, 12) { /* numbers of factors around the powers of two */
        let count = (1usize << r.range(4, 12)) + r.range(0, 4) - 2;
        let cut = if r.chance(1, 2) { count } else { r.range(0, count) };
        let (a, b): (&[u8], &[u8]) = *r.pick(&[(&b"b"[..], &b"a"[..]), (b"bc", b"ab"), (b"aab", b"a"), (b"\xff", b"\xfe"), (b"\x01\x02", b"\x01")]);
        inp = (0..count).flat_map(|j| if j < cut { a } else { b }).copied().collect();
        if r.chance(1, 2) { inp.push(0); }
        if r.chance(1, 8) { inp.push(0); }
        st.args.retain(|a| !a.starts_with("--prefixlength="));
    }
    c.stages = vec![st]; c.input = inp;
    if id == "C24" && i % 1750 == 11 { /* so many worlds that two of them would meet if only 16 bits of the entropy mattered */
        let rel = c.stages[0].rel;
        c.stages = vec![Stage { tool: "randomstring".into(), rel, args: vec!["--alphabet-size=0".into(), "--prefixlength=64".into()] }];
        c.input = vec![];
        c.vars = (0..if th { 2500 } else { 700 }).map(|_| Var { rand: (r.next(), 0), ..Default::default() }).collect();
        return;
    }
    if id == "C24" {
        disturbed_vars(x, r, c, 3);
        for v in c.vars.iter_mut() { v.rand = (r.next(), if r.chance(1, 8) { 1 } else { 0 }); }
        let k = r.below(6);
        if let Some(v) = c.vars.last_mut() { match k {
            0 => v.faults.push(Flt { sticky: true, ..flt(0, C_RN, F_ERRNO, 1, 5) }),
            1 => v.faults.push(flt(0, C_RN, F_ERRNO, 1, 38)),
            2 => v.faults.push(flt(0, C_RN, F_SHORT, r.range(1, 3) as u64, r.range(1, 20) as i64)),
            3 => v.faults.push(flt(0, C_RN, F_EINTR, r.range(1, 3) as u64, r.range(1, 4) as i64)),
            _ => {}
        } }
        if k >= 4 && r.chance(1, 2) { /* the same passing failure in worlds of different entropy */
            let f = flt(0, C_RN, F_ERRNO, r.range(1, 3) as u64, *r.pick(&[5i64, 38, 1, 22, 11]));
            for v in c.vars.iter_mut() { v.faults = vec![f.clone()]; }
        } else if k >= 4 { /* streams that begin alike */
            let common = *r.pick(&[1u32, 2, 2, 4]);
            for v in c.vars.iter_mut() { v.rand.1 = 16 + common; }
        }
        return;
    }
    disturbed_vars(x, r, c, nv);
    if tool == "probe" && r.chance(1, 4) { let n = x.count(c, &c.vars[0].clone()).nalloc; if let Some(v) = c.vars.last_mut() { v.faults.push(flt(0, C_AL, F_NOMEM, nth(r, n), 0)); } }
    if tool == "generator_kmer" { c.vars.truncate(1); for v in c.vars.iter_mut() { v.io.clear(); } }
    if id == "C19" && tool == "entropy_kmer" {
        /* the same text through the other tool */
        c.note = "pair".into();
    }
}

fn pipe_env(r: &mut Rng, v: &mut Var, n: usize, len: usize) {
    let mode = *r.pick(&[0u32, 1, 1, 2, 2, 3, 4]);
    v.sched = (mode, r.range(4, 120) as u32, r.next(), if r.chance(1, 2) { u64::MAX } else { r.range(0, 200) as u64 });
    let small = len <= 600;
    v.caps = (0..n - 1).map(|_| if small { *r.pick(&[1u64, 2, 3, 5, 16, 64, 300, 65536]) } else { *r.pick(&[512u64, 4096, 5000, 65536]) }).collect();
    v.io = (0..n).map(|_| if r.chance(1, 2) { if small { rand_io(r) } else { Io { rdm: 2, rdp: 9000, wrm: 2, wrp: 9000, seed: r.next() } } } else { Io::default() }).collect();
    v.rand = (r.next(), 0);
}

const MID: [&str; 5] = ["mtf", "rle", "reverse", "escape", "bwt"];
fn mid_stage(r: &mut Rng, tool: &str) -> Stage {
    let (mut st, _) = make(r, tool, &Want { max: 10, prefix: tool != "rle" && tool != "mtf", valid: true });
    st.args.retain(|a| !a.starts_with("--prefixlength="));
    if has_prefix(tool) && r.chance(1, 5) { st.args.push(format!("--prefixlength={}", r.range(1, 400))); }
    if tool == "is_stringattractor" { st.args = vec!["--attractor=0".into()]; }
    if tool == "bwt" { st.args.retain(|a| a != "--use-matrix"); }
    if tool == "entropy" { st.args = vec!["--order=1".into()]; }
    st
}
fn unbounded(r: &mut Rng) -> Stage {
    let (t, a): (&str, Vec<&str>) = match r.below(6) { 5 => ("generator_kmer", vec![]), 0 => ("enumerate", vec!["26", "1", "12"]), 1 => ("lyndonwords", vec!["-l40", "-s26"]), 2 => ("randomstring", vec!["--alphabet-size=4", "--prefixlength=2000000000"]), 3 => ("enumerate", vec!["2", "20", "40"]), _ => ("lyndonwords", vec!["-l60", "-s2"]) };
    Stage { tool: t.into(), rel: r.chance(2, 3), args: a.iter().map(|s| s.to_string()).collect() }
}
fn pipeline_case(x: &mut Ctx, r: &mut Rng, c: &mut Case, i: u64, th: bool) {
    let inf = i % 5 == 4;
    let n = if i % 7 == 0 && !inf { 1 } else { r.range(2, 4) };
    let max = *r.pick(&[20usize, 100, 400, 400, 400, 3000, if th { 40000 } else { 12000 }]);
    let mut srcs: Vec<&str> = MID.to_vec(); srcs.extend(["word", "enumerate", "lyndonwords", "randomstring", "bwt"]);
    if n == 1 {
        let ts = all_tools();
        let tool = ts[(i as usize / 7) % ts.len()];
        let (st, inp) = make(r, tool, &Want { max, prefix: true, valid: false });
        c.input = inp;
        c.stages = vec![st];
    } else {
        let (a, inp) = if inf { (unbounded(r), vec![]) } else { let t = *r.pick(&srcs); let (st, inp) = make(r, t, &Want { max, prefix: true, valid: true }); (st, inp) };
        c.input = inp;
        c.stages.push(a);
        for k in 1..n {
            let last = k + 1 == n;
            let tool = if last { if r.chance(1, 2) { *r.pick(IN_TOOLS) } else { *r.pick(&MID) } } else { *r.pick(&MID) };
            c.stages.push(mid_stage(r, tool));
        }
        if c.stages[0].tool == "word" { for a in c.stages[0].args.iter_mut() { if let Some(k) = a.strip_prefix("-k").and_then(|x| x.parse::<usize>().ok()) { *a = format!("-k{}", k.min(9)); } } }
        if matches!(c.stages[0].tool.as_str(), "enumerate" | "lyndonwords") && !inf { c.stages[0].args = if c.stages[0].tool == "enumerate" { vec!["3".into(), "1".into(), "4".into()] } else { vec!["-l6".into(), "-s2".into()] }; }
        if c.stages[0].tool == "randomstring" && !inf { c.stages[0].args = vec!["--alphabet-size=5".into(), format!("--prefixlength={}", r.range(1, 600))]; }
    }
    if inf {
        /* somebody downstream stops early, or must be stopped */
        let k = c.stages.len() - 1;
        let p = format!("--prefixlength={}", r.range(1, 3000));
        let t = *r.pick(&["escape", "reverse", "bwt", "count_sigma", "lyndonfactorization", "count_z"]);
        let mut st = mid_stage(r, t);
        st.args.retain(|a| !a.starts_with("--prefixlength=") && a != "--is-reversion");
        st.args.push(p);
        c.stages[k] = st;
        for j in 1..k { let tt = *r.pick(&["mtf", "rle", "escape"]); c.stages[j] = mid_stage(r, tt); c.stages[j].args.retain(|a| a != "--is-reversion"); }
        c.note = "unbounded".into();
    }
    let len = c.input.len();
    for _ in 0..r.range(2, 4) {
        let mut v = Var { inch: if has_in(&c.stages[0].tool) { r.below(6) as u8 } else { IN_PIPE }, name: r.below(FILE_NAMES.len() as u64) as u8, pre: pre(r), ..Default::default() };
        let lt = c.stages.last().unwrap().tool.clone();
        v.out = if n > 1 || true { out_mode(r, &lt) } else { 0 };
        pipe_env(r, &mut v, c.stages.len(), if inf { 5000 } else { len });
        let kn = c.stages.len();
        match r.below(8) {
            0 | 1 if kn > 1 => { let p = r.range(if inf { 1 } else { 0 }, kn - 1) as u8; let kd = if r.chance(1, 2) { F_KILL_BEFORE } else { F_KILL_AFTER }; let nn = if r.chance(1, 2) { r.range(1, 6) } else { r.range(1, 60) } as u64; v.faults.push(flt(p, C_ANY, kd, nn, 0)); }
            2 => { let p = r.below(kn as u64) as u8; v.faults.push(Flt { sticky: r.chance(1, 2), ..flt(p, C_WR, F_ERRNO, r.range(1, 8) as u64, *r.pick(&WRITE_ERR[..5])) }); }
            3 => { let p = r.below(kn as u64) as u8; v.faults.push(Flt { sticky: true, ..flt(p, C_RD, F_ERRNO, r.range(1, 8) as u64, *r.pick(&READ_ERR)) }); }
            4 => { v.closed = true; if v.out == OUT_REG { v.out = OUT_PIPE; } }
            5 | 6 => { let p = r.below(kn as u64) as u8; let q = r.range(1, 3); v.faults.extend(benign(r, p, &[8; NCLS], q)); }
            _ => {}
        }
        c.vars.push(v);
    }
    let _ = x;
}

// ======================= judging =======================
type Res = Option<Viol>;
fn viol(var: usize, class: &str, msg: String) -> Res { Some(Viol { var, class: class.into(), msg }) }

fn describe(s: &Seen) -> String { s.o.procs.iter().map(|p| p.describe()).collect::<Vec<_>>().join(", ") }

pub fn check_case(x: &mut Ctx, c: &Case) -> Res {
    if c.stages.is_empty() { return None; }
    match c.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => cross(x, c),
        "C25" => pipelines(x, c),
        "C26" => memory(x, c),
        _ => content(x, c),
    }
}

fn killers(f: &[Flt]) -> Vec<u8> { f.iter().filter(|f| matches!(f.kind, F_KILL_BEFORE | F_KILL_AFTER)).map(|f| f.proc_).collect() }

fn cross(x: &mut Ctx, c: &Case) -> Res {
    if c.stages.len() != 1 { return None; }
    let st = &c.stages[0];
    let tool = st.tool.as_str();
    let id = c.prop.as_str();
    let mut bases: BTreeMap<u8, Base> = BTreeMap::new();
    let mut prev: Option<Vec<u8>> = None;
    let p = prefix(&st.args);
    /* C07: the baseline is the truncated input without the option */
    let (bst, binp) = if id == "C07" {
        let mut s = st.clone(); s.args.retain(|a| !a.starts_with("--prefixlength="));
        let k = if p == 0 { c.input.len() } else { p.min(c.input.len()) };
        (s, c.input[..k].to_vec())
    } else { (st.clone(), c.input.clone()) };
    for (k, v) in c.vars.iter().enumerate() {
        if !bases.contains_key(&v.out) { let b = x.base(&bst, &binp, v.out); bases.insert(v.out, b); }
        let b = bases[&v.out].clone();
        if b.hang { x.probe("baseline-hangs"); return None; }
        let bc = norm_class(tool, b.class);
        let s = x.exec(c, v, prev.as_deref());
        if b.too_big || too_big(&s.o) {
            let all = [&c.input[..], &c.input2].concat();
            if s.endless() && (!b.too_big && c.input2.is_empty() || out_bound(st, &all) < SLOT as f64 / 2.0) { return viol(k, "endless-output", format!("{} {}: the output exceeds {} bytes", tool, st.args.join(" "), SLOT)); }
            x.probe("output-too-large"); prev = None; continue;
        }
        let po = &s.o.procs[0];
        let pc = norm_class(tool, class(po));
        let after = s.ofile().map(|d| d.to_vec());
        let exp_out = named(&b.stdout, tool, &s.name);
        let full = agree_full(&exp_out, s.stdout()) && (v.out != OUT_FILE || b.file == after);
        let killed = killers(&v.faults);
        if let (Some(h), true) = (hang(&s.o, &killed), id != "C25") { return viol(k, "hang", format!("{} ({})", h, tool)); }
        let fired = |cls: u8, kind: u8| v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == cls && f.kind == kind && *n > 0);
        let bad = |what: &str| -> String {
            if !agree_full(&exp_out, s.stdout()) { format!("{}: stdout {} ({})", what, diff(s.stdout(), &exp_out), describe(&s)) } else { format!("{}: output file {} ({})", what, diff(after.as_deref().unwrap_or(b""), b.file.as_deref().unwrap_or(b"")), describe(&s)) }
        };
        x.cov.judged += !x.quiet as u64;
        match id {
            "C01" | "C06" | "C07" => {
                let what = match id { "C01" => format!("input as {} differs from the undisturbed standard-input run", IN_NAMES[v.inch as usize]), "C06" => "differs from another run on the same input".to_string(), _ => format!("--prefixlength={} on {} bytes differs from a run on the first bytes alone", p, c.input.len()) };
                if pc != bc && !(id == "C06" && (fired(C_RN, F_ERRNO))) { return viol(k, "status", format!("{}: {} instead of {}; stderr: {}", what, po.describe(), class_name(bc), show(s.stderr(0)))); }
                if bc != 1 && pc == bc && !full { return viol(k, "output", bad(&what)); }
                if id == "C06" && pc == 0 {
                    let t = String::from_utf8_lossy(s.stdout()).into_owned();
                    if let (true, Some(ms), Some(clk)) = (has_result(tool), field(&t, "time_ms").and_then(|m| m.parse::<u64>().ok()), &po.clk) {
                        //@ real elapsed time: the sum of some of the intervals between the readings, in milliseconds rounded either way
                        let iv: Vec<u64> = clk.windows(2).map(|w| w[1] - w[0]).collect();
                        let real = (1u32..1 << iv.len()).any(|set| { let sum: u64 = (0..iv.len()).filter(|b| set >> b & 1 == 1).map(|b| iv[b]).sum::<u64>() / 1_000_000; ms <= sum + 1 && sum <= ms + iv.len() as u64 });
                        if !real { return viol(k, "time", format!("reports time_ms={}, but the intervals between its readings of the clock are {:?} ns", ms, iv)); }
                    }
                    if let (true, Some(ms)) = (has_result(tool), field(&t, "time_ms")) {
                        match ms.parse::<u64>() { Ok(ms) if ms <= po.t_run_ns / 1_000_000 => {} _ => return viol(k, "time", format!("reports time_ms={} after running for {} ms", ms, po.t_run_ns / 1_000_000)) }
                    }
                }
            }
            "C02" => {
                if bc == 1 { continue; }
                let sticky_rd = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_RD && f.kind == F_ERRNO && f.sticky && *n > 0);
                let enough = p > 0 && po.bytes_in >= p as u64;
                let must = v.inch == IN_DIR || v.inch == IN_MISSING || (v.open_errno != 0 && v.inch >= IN_FILE) || (sticky_rd && !enough);
                if must { x.probe("unreadable-input"); }
                if pc != 1 && must { return viol(k, "read-error-hidden", format!("{} although the input could not be read ({}): {}", po.describe(), if sticky_rd { "read error" } else { "open failed" }, show(s.stdout()))); }
                if pc != 1 && (pc != bc || !full) { return viol(k, "partial-result", bad(&format!("{} after a failed read or open", po.describe()))); }
            }
            "C03" => {
                if bc == 1 { continue; }
                if po.wfailed { x.probe("write-failed"); }
                if v.oopen_errno != 0 && v.out == OUT_FILE && pc != 1 { return viol(k, "open-error-hidden", format!("{} although the output file could not be opened", po.describe())); }
                if pc != 1 && !full { return viol(k, "lost-output", bad(&format!("{} although output was lost", po.describe()))); }
                if pc != 1 && pc != bc { return viol(k, "status", format!("{} instead of {}", po.describe(), class_name(bc))); }
                if pc != 1 && po.wfailed { x.probe("success-after-retried-write"); }
            }
            "C04" | "C09" | "C05" => {
                if bc == 1 { prev = after; continue; }
                if id == "C09" && fired(C_AL, F_NOMEM) { x.probe("allocation-failed"); }
                if id == "C09" && pc != 1 && (pc != bc || !full) { return viol(k, "wrong-result", bad(&format!("{} after a failed allocation", po.describe()))); }
                if id != "C05" {
                    if !agree_prefix(&exp_out, s.stdout()) { return viol(k, "not-a-prefix", format!("standard output ({}) {}", po.describe(), diff(s.stdout(), &exp_out))); }
                    if let (OUT_FILE, Some(d)) = (v.out, &after) { if !b.file.as_deref().unwrap_or(b"").starts_with(d) { return viol(k, "not-a-prefix", format!("output file ({}) {}", po.describe(), diff(d, b.file.as_deref().unwrap_or(b"")))); } }
                    if id == "C04" && pc == bc && !full { return viol(k, "incomplete", bad(&po.describe())); }
                } else {
                    if let Some(t) = s.trespass(false) { return viol(k, "trespass", t); }
                    let calm = v.faults.iter().all(|f| matches!(f.kind, F_EINTR | F_SHORT | F_STALL | F_JUMP));
                    if calm {
                        x.probe("rerun");
                        if pc != bc { return viol(k, "rerun-fails", format!("the re-run ends with {} instead of {}; stderr: {}", po.describe(), class_name(bc), show(s.stderr(0)))); }
                        if !full { return viol(k, "rerun-differs", bad("the re-run over what earlier runs left behind")); }
                    }
                }
                if let Some(t) = s.trespass(false) { return viol(k, "trespass", t); }
            }
            "C08" => {
                if pc == 1 { continue; }
                let rep = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.kind == F_REPLACE && *n > 0);
                let app = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.kind == F_APPEND && *n > 0);
                if rep { x.probe("replaced-during-run"); }
                if app { x.probe("grown-during-run"); }
                if bc == pc && full { continue; }
                let mut ok = false;
                let mut cands: Vec<Vec<u8>> = vec![];
                if rep { cands.push(c.input2.clone()); }
                if app { let mut g = c.input.clone(); g.extend_from_slice(&c.input2); for e in (c.input.len() + 1..=g.len()).rev() { cands.push(g[..e].to_vec()); } }
                for d in &cands {
                    let bb = x.base(&bst, d, v.out);
                    if bb.hang { return None; }
                    if norm_class(tool, bb.class) == pc && agree_full(&named(&bb.stdout, tool, &s.name), s.stdout()) && (v.out != OUT_FILE || bb.file == after) { ok = true; break; }
                }
                if !ok { return viol(k, if rep { "mixture" } else if app { "inconsistent-growth" } else { "output" }, bad(if rep { "neither the result for the old nor for the new file" } else if app { "not the result for any prefix of the grown file that includes the original" } else { "output differs" })); }
            }
            _ => {}
        }
        prev = after;
    }
    None
}

fn view<'a>(c: &'a Case, s: &'a Seen, v: &Var) -> View<'a> {
    let p = &s.o.procs[0];
    View { st: &c.stages[0], input: &c.input, name: &s.name, code: p.exit_code(), stdout: s.stdout(), file: if v.out == OUT_FILE && (stream_out(&c.stages[0].tool) || extra_out(&c.stages[0].tool)) { Some(s.ofile().unwrap_or(b"")) } else { None }, stderr: s.stderr(0), debug_log: v.env == "RUST_LOG=debug" }
}

fn content(x: &mut Ctx, c: &Case) -> Res {
    let id = c.prop.as_str();
    if c.stages.len() == 2 { return content_pipe(x, c); }
    if c.stages.len() != 1 { return None; }
    let tool = c.stages[0].tool.as_str();
    let mut strings: Vec<(usize, (u64, u32), Vec<u8>)> = vec![];
    for (k, v) in c.vars.iter().enumerate() {
        if tool == "parallel" && c.note != "whole" && v.space.is_none() && !v.faults.iter().any(|f| f.cls == C_WR && (f.sticky || matches!(f.kind, F_KILL_BEFORE | F_KILL_AFTER))) { return None; } /* would not be stopped */
        let s = x.exec(c, v, None);
        let po = &s.o.procs[0];
        if too_big(&s.o) {
            if matches!(tool, "enumerate" | "lyndonwords") && !pre_ok(&c.stages[0], &c.input) { return viol(k, "content", format!("{} {} accepts invalid arguments", tool, c.stages[0].args.join(" "))); }
            if s.endless() && pre_ok(&c.stages[0], &c.input) && out_bound(&c.stages[0], &c.input) < SLOT as f64 / 2.0 { return viol(k, "endless-output", format!("{} {} on {} bytes: the output exceeds {} bytes", tool, c.stages[0].args.join(" "), c.input.len(), SLOT)); }
            x.probe("output-too-large"); continue;
        }
        if let Some(h) = hang(&s.o, &killers(&v.faults)) {
            if tool == "word" && !pre_ok(&c.stages[0], &c.input) { x.probe("word-beyond-memory-unfinished"); continue; } /* it may also try until memory runs out */
            return viol(k, "hang", h);
        }
        if tool == "parallel" {
            let got = s.stdout();
            x.cov.judged += !x.quiet as u64;
            if v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_WR && f.kind == F_ERRNO && !f.sticky && *n > 0) {
                if po.ok() { return viol(k, "content", format!("the survey succeeds after {} bytes although a write failed", got.len())); }
                if !got.windows(16).any(|w| w == b"bwt \\ bbwt : #= ") { x.probe("line-failed"); continue; } /* the other threads' lines may continue a torn one */
                x.probe("table-after-failed-write");
            }
            let whole = match m::survey_begins(got) { Ok(w) => w, Err(e) => return viol(k, "content", e) };
            let fired = |f: &dyn Fn(&Flt) -> bool| v.faults.iter().zip(&s.o.fired).any(|(g, n)| f(g) && *n > 0);
            if fired(&|f| matches!(f.kind, F_KILL_BEFORE | F_KILL_AFTER)) && po.exit_code().is_none() { x.probe("killed"); continue; }
            if po.ok() && !whole { return viol(k, "content", format!("the survey succeeds after {} bytes, although more are due", got.len())); }
            if !po.ok() && !po.wfailed && !fired(&|f| f.cls == C_AL) { return viol(k, "content", format!("the survey fails after {} bytes although no write failed: {}", got.len(), show(s.stderr(0)))); }
            if po.ok() { x.probe("whole-survey"); }
            continue;
        }
        if tool == "enumerate_lexparse" {
            let Some(sp) = v.space else { return None };
            static EXP: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
            let exp = EXP.get_or_init(|| m::lexsurvey_prefix(20_000));
            let got = s.stdout();
            if sp.max(0) as usize >= exp.len() { return None; }
            x.cov.judged += !x.quiet as u64;
            if !m::lexsurvey_begins(got, exp) { return viol(k, "content", format!("the first bytes of the survey: {}", diff(got, exp))); }
            if v.faults.iter().zip(&s.o.fired).any(|(f, n)| matches!(f.kind, F_KILL_BEFORE | F_KILL_AFTER) && *n > 0) && po.exit_code().is_none() { x.probe("killed"); continue; }
            if po.ok() { return viol(k, "content", format!("the survey succeeds after {} bytes, although more are due", got.len())); }
            if !po.wfailed && !v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_AL && *n > 0) { return viol(k, "content", format!("the survey fails after {} bytes although no write failed: {}", got.len(), show(s.stderr(0)))); }
            if po.wfailed && po.ops_after_wfail > 5000 { return viol(k, "runs-on", format!("{} further I/O calls after the output had failed", po.ops_after_wfail)); }
            continue;
        }
        if v.wide > 0 {
            let f = &s.o.files[if v.out == OUT_FILE && stream_out(tool) { I_OFILE } else { I_OUT }];
            if !pre_ok(&c.stages[0], &[]) { return None; }
            let a = &c.stages[0].args;
            let exp = match tool {
                "enumerate" => { let n: Vec<usize> = a.iter().filter_map(|x| x.parse().ok()).collect(); if (n[0] as f64).powi(*n.last().unwrap_or(&1) as i32) > 1e8 { return None; } m::enumerate(n[0], n[1], n.get(2).copied().unwrap_or(n[1])) }
                "lyndonwords" => m::lyndon_words(opts(a, "-l").first().copied().unwrap_or(5) as usize, opts(a, "-s").first().copied().unwrap_or(2) as usize),
                "word" => match m::word(opt(a, "--name=").unwrap_or(""), opts(a, "-k").first().copied().unwrap_or(0) as usize) { Some(w) => w, None => return None },
                _ => return None,
            };
            if exp.len() as u64 > v.wide { return None; }
            x.cov.judged += !x.quiet as u64;
            x.probe("output-beyond-16-MiB");
            let mut hs = 0xcbf29ce484222325u64; for &b in &exp { hs = (hs ^ b as u64).wrapping_mul(0x100000001b3); }
            if po.exit_code().is_none() && String::from_utf8_lossy(s.stderr(0)).contains("memory allocation of") { x.probe("memory-exhausted"); continue; }
            if !po.ok() { return viol(k, "content", format!("{} {} ends with {} after {} of {} bytes: {}", tool, a.join(" "), po.describe(), f.len, exp.len(), show(s.stderr(0)))); }
            if f.len != exp.len() as u64 || !exp.starts_with(&f.data) || f.shash != hs { return viol(k, "content", format!("{} {}: {} bytes, expected {}: {}", tool, a.join(" "), f.len, exp.len(), if exp.starts_with(&f.data) { "the first 16 MiB agree".into() } else { diff(&f.data, &exp) })); }
            continue;
        }
        if c.note == "unfinished" {
            let a: Vec<usize> = c.stages[0].args.iter().filter_map(|a| a.trim_start_matches("-l").trim_start_matches("-s").parse().ok()).collect();
            let got = if v.out == OUT_FILE && stream_out(tool) { s.ofile().unwrap_or(b"") } else { s.stdout() };
            if a.len() < 2 || !pre_ok(&c.stages[0], &[]) || v.space.is_none() { return None; }
            let lim = v.space.unwrap_or(0).max(0) as usize + 1;
            let exp = if tool == "enumerate" { m::enumerate_prefix(a[0], a[1], a.get(2).copied().unwrap_or(a[1]), lim) } else { m::lyndon_prefix(a[0], a[1], lim) };
            if exp.len() < lim { return None; }
            x.cov.judged += !x.quiet as u64;
            if !exp.starts_with(got) { return viol(k, "content", format!("{} {}: the first bytes of the listing: {}", tool, c.stages[0].args.join(" "), diff(got, &exp))); }
            if po.ok() { return viol(k, "content", format!("{} {} succeeds after {} bytes, although more are due", tool, c.stages[0].args.join(" "), got.len())); }
            if !po.wfailed { return viol(k, "content", format!("{} {} fails after {} bytes although no write failed: {}", tool, c.stages[0].args.join(" "), got.len(), show(s.stderr(0)))); }
            continue;
        }
        let nornd = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_RN && f.kind == F_ERRNO && f.sticky && *n > 0);
        if tool == "randomstring" && nornd {
            x.probe("entropy-unavailable");
            if po.ok() { return viol(k, "no-entropy", format!("succeeds with {:?} although no randomness is available", show(s.stdout()))); }
            continue;
        }
        if tool == "randomstring" && !po.ok() && v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_RN && f.kind == F_ERRNO && (f.arg != 38 || f.nth > 1) && *n > 0) { x.probe("entropy-failed"); continue; }
        if tool == "probe" && !po.ok() && v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.cls == C_AL && *n > 0) { x.probe("allocation-failed"); continue; }
        let vw = view(c, &s, v);
        match validate(&vw) {
            Ok(true) => { x.cov.judged += !x.quiet as u64; }
            Ok(false) => { x.probe("outside-the-domain"); continue; }
            Err(e) => return viol(k, "content", format!("{} {} on {} bytes: {}", tool, c.stages[0].args.join(" "), c.input.len(), e)),
        }
        if tool == "randomstring" { let d = vw.file.unwrap_or(vw.stdout).to_vec(); strings.push((k, v.rand, d)); }
        if id == "C19" && c.note == "pair" && po.ok() {
            let st2 = Stage { tool: "entropy".into(), rel: c.stages[0].rel, args: c.stages[0].args.clone() };
            let b = x.base(&st2, &c.input, OUT_PIPE);
            let (o1, o2) = (String::from_utf8_lossy(s.stdout()).into_owned(), String::from_utf8_lossy(&b.stdout).into_owned());
            let f = |o: &str| field(o, "entropy").and_then(|t| t.parse::<f64>().ok());
            match (f(&o1), f(&o2)) { (Some(a), Some(b)) if (a - b).abs() <= 1e-9 * (1.0 + a.abs()) => {} (a, b) => return viol(k, "disagree", format!("entropy_kmer reports {:?}, entropy {:?}", a, b)) }
        }
    }
    for a in 0..strings.len() { for b in a + 1..strings.len() {
        let (x1, y) = (&strings[a], &strings[b]);
        let al = opts(&c.stages[0].args, "--alphabet-size=").first().copied().unwrap_or(0);
        if x1.1 != y.1 && x1.1 .1 != 1 && y.1 .1 != 1 && x1.2.len() >= 64 && al != 1 && al != 2 && al != 3 && x1.2 == y.2 { return viol(y.0, "predictable", format!("two different entropy streams give the same string {}", show(&y.2))); }
    } }
    None
}

fn content_pipe(x: &mut Ctx, c: &Case) -> Res {
    for (k, v) in c.vars.iter().enumerate() {
        let s = x.exec(c, v, None);
        if too_big(&s.o) { x.probe("output-too-large"); continue; }
        if let Some(h) = hang(&s.o, &killers(&v.faults)) { return viol(k, "hang", h); }
        let fin = if v.out == OUT_FILE && stream_out(&c.stages[1].tool) { s.ofile().unwrap_or(b"") } else { s.stdout() };
        let pre = pre_ok(&c.stages[0], &c.input);
        if !pre { x.probe("outside-the-domain"); continue; }
        x.cov.judged += !x.quiet as u64;
        if !s.o.procs.iter().all(|p| p.ok()) { return viol(k, "content", format!("pipeline ends with {}; stderr: {} / {}", describe(&s), show(s.stderr(0)), show(s.stderr(1)))); }
        match (c.stages[0].tool.as_str(), c.stages[1].tool.as_str()) {
            ("escape", "escape") => {
                let Some((_, f, _)) = esc(&c.stages[0]) else { continue };
                if flag(&c.stages[0].args, "--is-reversion") || !flag(&c.stages[1].args, "--is-reversion") || c.stages[0].args[..] != c.stages[1].args.iter().filter(|a| *a != "--is-reversion").cloned().collect::<Vec<_>>()[..] { continue; }
                if let Some(b) = s.pipe(0).iter().find(|b| f.contains(b)) { return viol(k, "content", format!("forbidden byte {} travels through the pipe", b)); }
                if fin != &c.input[..] { return viol(k, "content", format!("escape | escape -r {}", diff(fin, &c.input))); }
            }
            ("reverse", "reverse") => { if fin != &c.input[..] { return viol(k, "content", format!("reverse | reverse {}", diff(fin, &c.input))); } }
            ("bwt", "count_runs") => {
                let got = String::from_utf8_lossy(fin).trim().parse::<usize>().ok();
                let st = Stage { tool: "count_r".into(), rel: c.stages[0].rel, args: c.stages[0].args.clone() };
                let b = x.base(&st, &c.input, OUT_PIPE);
                let o = String::from_utf8_lossy(&b.stdout).into_owned();
                let want = field(&o, "bwt_runs").and_then(|w| w.parse::<usize>().ok());
                if got != want || got != Some(m::runs(s.pipe(0))) { return viol(k, "content", format!("bwt | count_runs gives {:?}, count_r {:?}, the BWT has {} runs", got, want, m::runs(s.pipe(0)))); }
            }
            _ => {}
        }
    }
    None
}

fn pipelines(x: &mut Ctx, c: &Case) -> Res {
    let n = c.stages.len();
    let inf = c.note == "unbounded";
    for (k, v) in c.vars.iter().enumerate() {
        let (mut spec, name) = build(c, v, None);
        spec.step_cap = if inf { 120_000 } else { 3_000_000 };
        let s = if x.quiet || true {
            let o = x.run.run(&spec);
            if !x.quiet {
                x.cov.evals += 1; x.cov.judged += 1;
                *x.cov.inch.entry(IN_NAMES[v.inch as usize]).or_default() += 1;
                *x.cov.outm.entry(OUT_NAMES[v.out as usize]).or_default() += 1;
                if o.switches > 0 || o.fired.iter().any(|&f| f > 0) { let mut q = o.hash ^ h(&c.input); for st in &c.stages { q = mix(q ^ h(st.tool.as_bytes())); for a in &st.args { q = mix(q ^ h(a.as_bytes())); } } x.cov.distinct.insert(q); }
                x.cov.logs.insert(o.hash); if n > 1 { x.cov.sched.insert(o.hash); }
            }
            Seen::new(o, &spec, name, n)
        } else { unreachable!() };
        if too_big(&s.o) { x.probe("output-too-large"); continue; }
        let kl = killers(&v.faults);
        if let Some(h) = hang(&s.o, &kl) { return viol(k, "hang", format!("{}: {}", h, c.stages.iter().map(|t| t.tool.as_str()).collect::<Vec<_>>().join(" | "))); }
        for (j, st) in c.stages.iter().enumerate() {
            let po = &s.o.procs[j];
            let tool = st.tool.as_str();
            let pc = norm_class(tool, class(po));
            let last = j + 1 == n;
            if po.wfailed { x.probe("write-failed"); }
            let eintr: u64 = v.faults.iter().zip(&s.o.fired).filter(|(f, _)| f.proc_ as usize == j).map(|(_, n)| *n as u64).sum();
            if po.ops > 300 + 4 * (po.bytes_in + po.bytes_out + eintr) { return viol(k, "too-many-calls", format!("stage {} ({}) made {} I/O calls for {} bytes in and {} bytes out", j, tool, po.ops, po.bytes_in, po.bytes_out)); }
            /* what is left in a buffer may be written out byte by byte in a world that splits writes */
            let left = if v.io.get(j).map_or(false, |i| i.wrm != 0) { 70_000 } else { 0 };
            if po.wfailed && po.ops_after_wfail > 64 + left { return viol(k, "runs-on", format!("stage {} ({}) made {} further I/O calls after its output had failed", j, tool, po.ops_after_wfail)); }
            let input: &[u8] = if j == 0 { &c.input } else { s.pipe(j - 1) };
            if j == 0 && inf {
                /* cannot have finished */
                if pc != 1 { return viol(k, "lost-output", format!("{} {} ends with success although nobody took all of its output", tool, st.args.join(" "))); }
                x.probe("unbounded-upstream-stopped");
                continue;
            }
            let rderr = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.proc_ as usize == j && f.cls == C_RD && f.kind == F_ERRNO && *n > 0);
            let killed = v.faults.iter().zip(&s.o.fired).any(|(f, n)| f.proc_ as usize == j && matches!(f.kind, F_KILL_BEFORE | F_KILL_AFTER) && *n > 0);
            if tool == "randomstring" {
                let d = if last { s.stdout() } else { s.pipe(j) };
                let want = if opt(&st.args, "--prefixlength=").is_some() { prefix(&st.args) } else { 10 };
                if pc == 0 && !(last && v.out == OUT_FILE) && d.len() != want { return viol(k, "lost-output", format!("randomstring succeeds, {} of {} bytes arrived", d.len(), want)); }
                if pc == 1 && !killed && !po.wfailed && !v.faults.iter().any(|f| f.cls == C_RN) { return viol(k, "status", format!("stage {} (randomstring) ends with {}", j, po.describe())); }
                continue;
            }
            let om = if last { v.out } else { OUT_PIPE };
            let b = x.base(st, input, om);
            if b.hang { return viol(k, "hang", format!("{} {} does not end on {} bytes", tool, st.args.join(" "), input.len())); }
            let bc = norm_class(tool, b.class);
            let nm = if j == 0 { s.name.clone() } else { "none".into() };
            let exp = named(&b.stdout, tool, &nm);
            let got: &[u8] = if last { s.stdout() } else { s.pipe(j) };
            let file = if last && v.out == OUT_FILE { s.ofile().map(|d| d.to_vec()) } else { None };
            let full = agree_full(&exp, got) && (!(last && v.out == OUT_FILE) || file == b.file);
            if pc != 1 && !full { return viol(k, "lost-output", format!("stage {} ({}) ends with {} but its output {}", j, tool, po.describe(), if agree_full(&exp, got) { diff(file.as_deref().unwrap_or(b""), b.file.as_deref().unwrap_or(b"")) } else { diff(got, &exp) })); }
            if bc != 1 && !agree_prefix(&exp, got) { return viol(k, "composition", format!("stage {} ({}, {}) {}", j, tool, po.describe(), diff(got, &exp))); }
            if !killed && !po.wfailed && !rderr && pc != bc { return viol(k, "status", format!("stage {} ({}) ends with {} in the pipeline, alone on the same {} bytes with {}", j, tool, po.describe(), input.len(), class_name(bc))); }
        }
    }
    None
}

fn memory(x: &mut Ctx, c: &Case) -> Res {
    let st = &c.stages[0];
    let tool = st.tool.as_str();
    let small = c.note.strip_prefix("small ").and_then(|s| s.parse::<usize>().ok()).unwrap_or(1);
    for (k, v) in c.vars.iter().enumerate() {
        let mut cs = c.clone();
        if has_in(tool) { cs.input.truncate(small.min(c.input.len())); } else {
            for a in cs.stages[0].args.iter_mut() { if a.starts_with("--prefixlength=") { *a = format!("--prefixlength={}", small); } if let Some(l) = a.strip_prefix("-l").and_then(|l| l.parse::<usize>().ok()) { *a = format!("-l{}", l - 2); } }
            if tool == "enumerate" { let l: usize = cs.stages[0].args[2].parse().unwrap_or(3); cs.stages[0].args[2] = format!("{}", l - 2); }
        }
        let a = x.exec(&cs, v, None);
        let b = x.exec(c, v, None);
        if let Some(h) = hang(&b.o, &[]) { return viol(k, "hang", h); }
        x.cov.judged += !x.quiet as u64;
        if too_big(&b.o) || too_big(&a.o) { x.probe("output-too-large"); continue; }
        let (pa, pb) = (&a.o.procs[0], &b.o.procs[0]);
        if !pa.ok() || !pb.ok() { return viol(k, "out-of-memory", format!("{} {} fails ({} / {}) within a heap of 3 MiB; peak {} / {}; stderr {}", tool, st.args.join(" "), pa.describe(), pb.describe(), pa.heap_peak, pb.heap_peak, show(b.stderr(0)))); }
        if let Err(e) = validate(&view(c, &b, v)) { return viol(k, "content", format!("{} {} on {} bytes: {}", tool, st.args.join(" "), c.input.len(), e)); }
        /* buffers of any fixed size are fine; what counts is growth with the length of the stream, which is twice that of the other run or more */
        if pb.heap_peak > pa.heap_peak + 24_576 { return viol(k, "memory-grows", format!("{} {}: peak heap {} bytes for {} bytes in / {} out, {} bytes for {} in / {} out", tool, st.args.join(" "), pa.heap_peak, pa.bytes_in, pa.bytes_out, pb.heap_peak, pb.bytes_in, pb.bytes_out)); }
    }
    None
}
