//! A case: a workload (one tool or a pipeline, with its input) and the disturbed executions of it.
use crate::exec::*;
use crate::tools::*;
use crate::world::*;

pub const IN_PIPE: u8 = 0; // stdin is a pipe
pub const IN_REG: u8 = 1; // stdin is a regular file
pub const IN_FILE: u8 = 2; // regular file by name
pub const IN_FIFO: u8 = 3; // named pipe by name
pub const IN_SPECIAL: u8 = 4; // file by name whose reported size is 0
pub const IN_DEV: u8 = 5; // -i /dev/stdin, fed by a pipe
pub const IN_DIR: u8 = 6;
pub const IN_MISSING: u8 = 7;
pub const IN_NAMES: [&str; 8] = ["stdin-pipe", "stdin-file", "file", "fifo", "sizeless-file", "dev-stdin", "directory", "missing"];
pub const OUT_PIPE: u8 = 0;
pub const OUT_REG: u8 = 1;
pub const OUT_FILE: u8 = 2;
pub const OUT_NAMES: [&str; 3] = ["stdout-pipe", "stdout-file", "outfile"];
pub const FILE_NAMES: [&str; 13] = ["/sim/in.txt", "/sim/d/corpus.bin", "/sim/a-b_c.1", "/sim/x", "/sim/long-name-of-an-input-file-0123456789.dat", "/sim/in put.txt", "/sim/eing\u{e4}be \u{20ac}.txt", "/sim/100%=x", "/sim/-", "/sim/.hidden", "/sim/a.gz", "/sim/*?[a]$'\"", "/sim/out.txt"];

pub const I_IN: usize = 0;
pub const I_OUT: usize = 1;
pub const I_ERR: usize = 2;
pub const I_NULL: usize = 3;
pub const I_RND: usize = 4;
pub const I_KEEP: usize = 5;
pub const I_IN2: usize = 6;
pub const I_OFILE: usize = 7;
pub const I_PIPE: usize = 8; // pipes between stages, then further stderr sinks

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Var {
    pub inch: u8, pub name: u8, pub out: u8,
    pub io: Vec<Io>, pub faults: Vec<Flt>,
    pub sched: (u32, u32, u64, u64), // mode, param, seed, limit
    pub caps: Vec<u64>,
    pub rand: (u64, u32), pub rt_off: i64, pub tick: u64, pub env: String, pub space: Option<i64>, pub heap: u64,
    pub open_errno: u32,  // of the input file (stage 0) ...
    pub oopen_errno: u32, // ... of an already existing output file
    pub closed: bool,     // nobody reads standard output
    pub stale: Option<Vec<u8>>, // previous content of the output file
    pub lay: u64,         // address-space layout, contents of fresh memory, process number (0: plain)
    pub spell: u64,       // how the arguments are written (0: as they are)
    pub cpus: u32,        // processors the tool sees (0: 4)
    pub wide: u64,        // the output may grow to this size; beyond 16 MiB only its length and hash are kept
    pub pre: u64,         // bytes that a regular file at standard input has before the input, and 1000 times those that a regular file at standard output already holds
    pub chain: bool,      // start from the output file left by the previous execution
}
impl Var {
    pub fn calm(out: u8) -> Var { Var { out, ..Default::default() } }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case { pub prop: String, pub stages: Vec<Stage>, pub input: Vec<u8>, pub input2: Vec<u8>, pub vars: Vec<Var>, pub note: String }

pub struct Seen { pub o: Out, pub spec_files: usize, pub name: String, pub n: usize, pub prior_lost: bool }
/// what regular files at the standard streams hold before the tool gets them
fn junk(n: u64) -> Vec<u8> { (0..n).map(|i| b"\0Earlier bytes, not to be touched: {a..z}\xff\n"[i as usize % 43]).collect() }
impl Seen {
    /// the output is what follows the previous content of the file, provided that is still there
    pub fn new(mut o: Out, spec: &Spec, name: String, n: usize) -> Seen {
        let f = &mut o.files[I_OUT];
        let mut prior_lost = false;
        if !spec.prior.is_empty() {
            if f.data.starts_with(&spec.prior) { f.data.drain(..spec.prior.len()); f.len -= spec.prior.len() as u64; }
            else { prior_lost = true; f.data.splice(..0, *b"<earlier content lost>"); f.len += 22; }
        }
        Seen { o, spec_files: spec.files.len(), name, n, prior_lost }
    }
    pub fn stdout(&self) -> &[u8] { &self.o.files[I_OUT].data }
    pub fn stderr(&self, k: usize) -> &[u8] { let i = if k + 1 == self.n { I_ERR } else { I_PIPE + self.n - 1 + k }; &self.o.files[i].data }
    pub fn ofile(&self) -> Option<&[u8]> { self.o.files.iter().find(|f| f.name == "/sim/out").map(|f| &f.data[..]) }
    /// the main output or the output file exceeded what the simulated world can hold
    pub fn endless(&self) -> bool { self.o.files[I_OUT].overflow || self.o.files.iter().any(|f| f.name == "/sim/out" && f.overflow) }
    pub fn pipe(&self, k: usize) -> &[u8] { &self.o.files[I_PIPE + k].data }
    /// inputs and bystanders untouched, nothing created that was not asked for
    pub fn trespass(&self, replaced: bool) -> Option<String> {
        if !replaced && self.o.files[I_IN].touched { return Some("the input file was modified".into()); }
        if self.prior_lost { return Some("what the file at the standard output held before is gone".into()); }
        if self.o.files[I_KEEP].touched || self.o.files[I_KEEP].name != "/sim/keep" { return Some("an unrelated file was modified".into()); }
        let o = &self.o.files[I_OFILE].name;
        if !o.is_empty() && o != "/sim/out" { return Some(format!("the previous output file was kept as {}", o)); }
        for (i, f) in self.o.files.iter().enumerate() { if i >= self.spec_files && f.exists && f.name != "/sim/out" { return Some(format!("created {}", f.name)); } }
        None
    }
}

/// Builds the world of one execution. `prev`: output file content left by the previous execution of a chain.
pub fn build(c: &Case, v: &Var, prev: Option<&[u8]>) -> (Spec, String) {
    let n = c.stages.len();
    let name = match v.inch { IN_PIPE | IN_REG => "none".to_string(), IN_DEV => "/dev/stdin".into(), _ => FILE_NAMES[v.name as usize % FILE_NAMES.len()].to_string() };
    let pos0 = if v.inch == IN_REG { v.pre % 1000 } else { 0 };
    let prior = if v.out == OUT_REG && v.wide == 0 { junk(v.pre / 1000) } else { vec![] };
    let mut files = vec![];
    files.push(match v.inch {
        IN_PIPE | IN_DEV => FileSpec::pipe("", &c.input, 0),
        IN_REG => { let mut d = junk(pos0); d.extend_from_slice(&c.input); FileSpec::reg("/sim/stdin.dat", &d) }
        IN_FILE => FileSpec::reg(&name, &c.input),
        IN_FIFO => FileSpec::pipe(&name, &c.input, 0),
        IN_SPECIAL => FileSpec::kind(&name, K_SPECIAL, &c.input),
        IN_DIR => FileSpec::kind(&name, K_DIR, b""),
        _ => FileSpec::reg("/sim/elsewhere", b""),
    });
    files[0].open_errno = v.open_errno;
    let mut out = if v.out == OUT_REG { FileSpec::reg("", &prior) } else { FileSpec::pipe("", b"", 0) };
    if !v.closed { out.readers = 1; }
    out.sink = v.wide;
    files.push(out);
    files.push(FileSpec::reg("", b""));
    files.push(FileSpec::kind("/dev/null", K_NULL, b""));
    files.push(FileSpec::kind("/dev/urandom", K_RANDOM, b""));
    files.push(FileSpec::reg("/sim/keep", b"do not touch"));
    files.push(FileSpec::reg("", &c.input2));
    let stale = if v.chain { prev } else { v.stale.as_deref() };
    files.push(match stale { Some(d) => FileSpec::reg("/sim/out", d), None => if v.oopen_errno != 0 || v.wide > 0 { FileSpec::reg("/sim/out", b"") } else { FileSpec::reg("", b"") } });
    files[I_OFILE].sink = v.wide;
    files[I_OFILE].open_errno = v.oopen_errno;
    for k in 0..n - 1 { files.push(FileSpec::pipe("", b"", v.caps.get(k).copied().unwrap_or(65536))); }
    for _ in 0..n - 1 { files.push(FileSpec::reg("", b"")); }
    let mut procs = vec![];
    for (k, st) in c.stages.iter().enumerate() {
        let mut args = st.args.clone();
        if k == 0 && has_in(&st.tool) && v.inch >= IN_FILE { args.insert(args.len() / 2, format!("--infilename={}", name)); }
        if k + 1 == n && v.out == OUT_FILE && (stream_out(&st.tool) || extra_out(&st.tool)) { args.push("--outfilename=/sim/out".into()); }
        let args = spell(&st.tool, &args, v.spell);
        let sin = if k > 0 { (I_PIPE + k - 1) as i32 } else if v.inch <= IN_REG || v.inch == IN_DEV { I_IN as i32 } else { I_NULL as i32 };
        let sout = if k + 1 < n { (I_PIPE + k) as i32 } else { I_OUT as i32 };
        let serr = if k + 1 == n { I_ERR } else { I_PIPE + n - 1 + k } as i32;
        procs.push(ProcSpec { tool: st.tool.clone(), rel: st.rel, args, env: v.env.clone(), stdio: [sin, sout, serr], io: v.io.get(k).cloned().unwrap_or_default(), heap: v.heap });
    }
    (Spec { procs, files, faults: v.faults.clone(), sched_mode: v.sched.0, sched_param: v.sched.1, sched_seed: v.sched.2, sched_limit: v.sched.3, rand_seed: v.rand.0, rand_mode: v.rand.1, rt_off: v.rt_off, clock0: 0, tick: v.tick, space: v.space.unwrap_or(-1), step_cap: 0, cpus: v.cpus, quota: if c.prop == "C28" { 40_000 } else { 0 }, cpu_s: if c.prop == "C28" { if c.note == "whole" { 280 } else { 60 } } else { 0 }, layout: v.lay, pos0, prior }, name)
}

// ---------- text form (replay files) ----------
fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(2 * b.len() + 1); s.push('x'); for c in b { s.push_str(&format!("{:02x}", c)); } s }
fn unhex(s: &str) -> Option<Vec<u8>> { let s = s.strip_prefix('x')?; (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect() }
impl Case {
    pub fn to_text(&self) -> String {
        let mut s = format!("simcase 1\nproperty {}\n", self.prop);
        for st in &self.stages { s.push_str(&format!("stage {} {} {}\n", st.tool, if st.rel { "release" } else { "dev" }, st.args.join(" "))); }
        s.push_str(&format!("input {}\ninput2 {}\n", hex(&self.input), hex(&self.input2)));
        if !self.note.is_empty() { s.push_str(&format!("note {}\n", self.note)); }
        for v in &self.vars {
            s.push_str(&format!("var inch={} name={} out={} sched={},{},{},{} rand={},{} rt_off={} tick={} heap={} lay={} spell={} cpus={} oe={} ooe={} closed={} chain={}{}", v.inch, v.name, v.out, v.sched.0, v.sched.1, v.sched.2, v.sched.3, v.rand.0, v.rand.1, v.rt_off, v.tick, v.heap, v.lay, v.spell, v.cpus, v.open_errno, v.oopen_errno, v.closed as u8, v.chain as u8, if v.wide > 0 { format!(" wide={}", v.wide) } else { String::new() }));
            if v.pre > 0 { s.push_str(&format!(" pre={}", v.pre)); }
            if let Some(x) = v.space { s.push_str(&format!(" space={}", x)); }
            if !v.caps.is_empty() { s.push_str(&format!(" caps={}", v.caps.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
            if !v.env.is_empty() { s.push_str(&format!(" env={}", v.env)); }
            if let Some(d) = &v.stale { s.push_str(&format!(" stale={}", hex(d))); }
            s.push('\n');
            for i in &v.io { s.push_str(&format!(" io {} {} {} {} {}\n", i.rdm, i.rdp, i.wrm, i.wrp, i.seed)); }
            for f in &v.faults { s.push_str(&format!(" fault proc={} {}#{} {} sticky={} arg={} arg2={}\n", f.proc_, CLS[f.cls as usize], f.nth, KIND[f.kind as usize], f.sticky as u8, f.arg, f.arg2)); }
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match *w.first().unwrap_or(&"") {
                "property" => c.prop = w[1].into(),
                "stage" => c.stages.push(Stage { tool: w[1].into(), rel: w[2] == "release", args: w[3..].iter().map(|x| x.to_string()).collect() }),
                "input" => c.input = unhex(w[1])?,
                "input2" => c.input2 = unhex(w[1])?,
                "note" => c.note = l[5..].into(),
                "var" => {
                    let mut v = Var::default();
                    for kv in &w[1..] {
                        let (k, x) = kv.split_once('=')?;
                        let ns: Vec<i128> = x.split(',').filter_map(|y| y.parse().ok()).collect();
                        let n0 = ns.first().copied().unwrap_or(0);
                        match k {
                            "inch" => v.inch = n0 as u8, "name" => v.name = n0 as u8, "out" => v.out = n0 as u8,
                            "sched" => v.sched = (ns[0] as u32, ns[1] as u32, ns[2] as u64, ns[3] as u64), "rand" => v.rand = (ns[0] as u64, ns[1] as u32),
                            "rt_off" => v.rt_off = n0 as i64, "tick" => v.tick = n0 as u64, "heap" => v.heap = n0 as u64, "lay" => v.lay = n0 as u64, "spell" => v.spell = n0 as u64, "cpus" => v.cpus = n0 as u32, "pre" => v.pre = n0 as u64, "wide" => v.wide = n0 as u64, "oe" => v.open_errno = n0 as u32, "ooe" => v.oopen_errno = n0 as u32,
                            "closed" => v.closed = n0 != 0, "chain" => v.chain = n0 != 0, "space" => v.space = Some(n0 as i64), "caps" => v.caps = ns.iter().map(|&y| y as u64).collect(),
                            "env" => v.env = x.into(), "stale" => v.stale = Some(unhex(x)?), _ => return None,
                        }
                    }
                    c.vars.push(v);
                }
                "io" => { let n: Vec<u64> = w[1..].iter().filter_map(|x| x.parse().ok()).collect(); c.vars.last_mut()?.io.push(Io { rdm: n[0] as u32, rdp: n[1] as u32, wrm: n[2] as u32, wrp: n[3] as u32, seed: n[4] }); }
                "fault" => {
                    let (cl, nth) = w[2].split_once('#')?;
                    let g = |k: &str| w.iter().find_map(|x| x.strip_prefix(k)).and_then(|x| x.parse::<i64>().ok());
                    c.vars.last_mut()?.faults.push(Flt { proc_: g("proc=")? as u8, cls: CLS.iter().position(|x| *x == cl)? as u8, kind: KIND.iter().position(|x| *x == w[3])? as u8, sticky: g("sticky=")? != 0, nth: nth.parse().ok()?, arg: g("arg=")?, arg2: g("arg2=")? });
                }
                _ => {}
            }
        }
        if c.stages.is_empty() || c.vars.is_empty() { None } else { Some(c) }
    }
}
