//! Executes one simulated world: fork-server processes of the real tools under the preloaded shim.
use crate::world::*;
use std::collections::HashMap;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn pipe2(p: *mut i32, fl: i32) -> i32;
    fn fallocate(fd: i32, mode: i32, off: i64, len: i64) -> i32;
    fn personality(p: u64) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn kill(pid: i32, sig: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}
#[repr(C)]
struct PollFd { fd: i32, ev: i16, rev: i16 }
extern "C" { fn poll(p: *mut PollFd, n: u64, t: i32) -> i32; }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Flt { pub proc_: u8, pub cls: u8, pub kind: u8, pub sticky: bool, pub nth: u32, pub arg: i64, pub arg2: i64 }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Io { pub rdm: u32, pub rdp: u32, pub wrm: u32, pub wrp: u32, pub seed: u64 }

#[derive(Clone, Debug)]
pub struct FileSpec { pub name: String, pub kind: u32, pub data: Vec<u8>, pub open_errno: u32, pub cap: u64, pub readers: u32, pub writers: u32, pub sink: u64 }
impl FileSpec {
    pub fn reg(name: &str, data: &[u8]) -> FileSpec { FileSpec { name: name.into(), kind: K_REG, data: data.to_vec(), open_errno: 0, cap: 0, readers: 0, writers: 0, sink: 0 } }
    pub fn kind(name: &str, kind: u32, data: &[u8]) -> FileSpec { FileSpec { kind, ..FileSpec::reg(name, data) } }
    pub fn pipe(name: &str, data: &[u8], cap: u64) -> FileSpec { FileSpec { kind: K_PIPE, cap, ..FileSpec::reg(name, data) } }
}

#[derive(Clone, Debug, Default)]
pub struct ProcSpec { pub tool: String, pub rel: bool, pub args: Vec<String>, pub env: String, pub stdio: [i32; 3], pub io: Io, pub heap: u64 }

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub procs: Vec<ProcSpec>, pub files: Vec<FileSpec>, pub faults: Vec<Flt>,
    pub sched_mode: u32, pub sched_param: u32, pub sched_seed: u64, pub sched_limit: u64,
    pub rand_seed: u64, pub rand_mode: u32, pub layout: u64, pub rt_off: i64, pub clock0: u64, pub tick: u64,
    pub space: i64, pub step_cap: u64, pub cpus: u32, pub quota: u32, pub cpu_s: u32,
    pub pos0: u64, // where the first process starts to read its standard input
    pub prior: Vec<u8>, // what the regular file at the standard output of the last one holds before
}

#[derive(Clone, Debug, Default)]
pub struct ProcOut {
    pub status: i32, pub cnt: [u64; NCLS], pub ops: u64, pub nalloc: u64, pub heap_peak: i64, pub t_run_ns: u64,
    pub bytes_in: u64, pub bytes_out: u64, pub ops_after_wfail: u64, pub wfailed: bool, pub threads: u64,
    pub clk: Option<Vec<u64>>, // the readings of the monotonic clock, unless too many
}
impl ProcOut {
    pub fn exit_code(&self) -> Option<i32> { if self.status & 0x7f == 0 { Some((self.status >> 8) & 0xff) } else { None } }
    pub fn signal(&self) -> i32 { self.status & 0x7f }
    pub fn ok(&self) -> bool { self.exit_code() == Some(0) }
    pub fn describe(&self) -> String { match self.exit_code() { Some(c) => format!("exit {}", c), None => format!("signal {}", self.signal()) } }
}
#[derive(Clone, Debug, Default)]
pub struct FileOut { pub name: String, pub data: Vec<u8>, pub touched: bool, pub overflow: bool, pub exists: bool, pub rpos: u64, pub len: u64, pub shash: u64 }
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub procs: Vec<ProcOut>, pub files: Vec<FileOut>, pub fired: Vec<u32>, pub livelock: bool, pub deadlock: bool,
    pub hash: u64, pub steps: u64, pub switches: u64, pub covpts: u64, pub points: u64, pub sim_ns: u64, pub timeout: bool,
    pub extra: Vec<String>,
}

struct Server { child: Child, cmd: File, st: File }
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Runner {
    base: *mut u8, fd: i32, servers: HashMap<(String, bool, usize), Server>,
    pub bins: [String; 2], pub shim: String, high: [usize; MAXI],
    pub stats: Stats,
}
#[derive(Default, Clone)]
pub struct Stats { pub runs: u64, pub sim_ns: u128, pub steps: u64, pub fired: HashMap<(u8, u8), u64>, pub switches: u64, pub covpts: u64, pub multi: u64, pub procs: u64, pub tools: HashMap<String, u64> }
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs; self.sim_ns += o.sim_ns; self.steps += o.steps; self.switches += o.switches; self.covpts += o.covpts; self.multi += o.multi; self.procs += o.procs;
        for (k, v) in &o.fired { *self.fired.entry(*k).or_default() += v; }
        for (k, v) in &o.tools { *self.tools.entry(k.clone()).or_default() += v; }
    }
}
unsafe impl Send for Runner {}

impl Runner {
    pub fn new(bins: [String; 2], shim: String) -> Runner {
        unsafe {
            let fd = memfd_create(b"simworld\0".as_ptr(), 1);
            let total = HDR + MAXI * SLOT;
            if fd < 0 || ftruncate(fd, total as i64) != 0 { harness("memfd") }
            let base = mmap(std::ptr::null_mut(), total, 3, 1, fd, 0);
            if base as isize == -1 { harness("mmap") }
            assert!(std::mem::size_of::<World>() <= HDR);
            Runner { base, fd, servers: HashMap::new(), bins, shim, high: [0; MAXI], stats: Stats::default() }
        }
    }
    pub fn world(&self) -> &'static mut World { unsafe { &mut *(self.base as *mut World) } }
    fn slot(&self, i: usize) -> *mut u8 { unsafe { self.base.add(HDR + i * SLOT) } }
    fn server(&mut self, key: &(String, bool, usize)) -> &mut Server {
        if !self.servers.contains_key(key) {
            if self.servers.len() > 64 { self.servers.clear(); }
            let mut p = [0i32; 4];
            unsafe { if pipe2(p.as_mut_ptr(), 0o2000000) != 0 || pipe2(p.as_mut_ptr().add(2), 0o2000000) != 0 { harness("pipe2") } }
            /* keep the four ends away from 197..199 */
            for q in p.iter_mut() { if *q >= 190 && *q < 210 { unsafe { let n = fcntl(*q, 1030, 256); *q = n; } } }
            let (cr, cw, sr, sw) = (p[0], p[1], p[2], p[3]);
            let shm = self.fd;
            let mut c = Command::new(format!("{}/{}", self.bins[key.1 as usize], key.0));
            c.env_clear().env("LD_PRELOAD", &self.shim).env("SIM_WORLD", "1").env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            unsafe {
                c.pre_exec(move || {
                    personality(0x0040000);
                    if dup2(shm, 197) < 0 || dup2(cr, 198) < 0 || dup2(sw, 199) < 0 { return Err(std::io::Error::last_os_error()); }
                    Ok(())
                });
            }
            let w = self.world();
            w.version = VERSION; w.size = std::mem::size_of::<World>() as u32;
            let child = match c.spawn() { Ok(c) => c, Err(e) => harness(&format!("spawn {:?}: {}", key, e)) };
            let s = unsafe { drop(File::from_raw_fd(cr)); drop(File::from_raw_fd(sw)); Server { child, cmd: File::from_raw_fd(cw), st: File::from_raw_fd(sr) } };
            self.servers.insert(key.clone(), s);
        }
        self.servers.get_mut(key).unwrap()
    }
    pub fn run(&mut self, spec: &Spec) -> Out { self.run_opt(spec, false) }
    pub fn run_opt(&mut self, spec: &Spec, want_events: bool) -> Out {
        let np = spec.procs.len();
        assert!(np >= 1 && np <= MAXP && spec.files.len() <= MAXI && spec.faults.len() <= MAXFAULT);
        let mut keys = vec![];
        for (i, p) in spec.procs.iter().enumerate() {
            let inst = spec.procs[..i].iter().filter(|q| q.tool == p.tool && q.rel == p.rel).count();
            keys.push((p.tool.clone(), p.rel, inst));
        }
        for k in &keys { self.server(k); }
        /* let freshly started servers finish reading the header before it is rewritten: they check version and size only,
         * which never change */
        let base = self.base;
        let w = self.world();
        unsafe { std::ptr::write_bytes(base, 0, std::mem::size_of::<World>() - MAXEV * std::mem::size_of::<Ev>()); }
        w.version = VERSION; w.size = std::mem::size_of::<World>() as u32;
        w.nproc = np as u32; w.turn = 999; w.multi = (np > 1) as u32; w.ncpu = if spec.cpus == 0 { 4 } else { spec.cpus };
        /* processor time: far more than any tool needs, also for the slow motion of byte-wise delivery */
        w.cpu_s = 10 + (spec.files.iter().map(|f| f.data.len()).max().unwrap_or(0) / 25_000).min(60) as u32;
        if spec.cpu_s > 0 { w.cpu_s = spec.cpu_s; }
        w.quota = spec.quota;
        w.sched_mode = spec.sched_mode; w.sched_param = spec.sched_param; w.sched_state = spec.sched_seed;
        w.sched_limit = spec.sched_limit;
        for i in 0..MAXP * MAXT { w.prio[i] = (crate::rng::mix(spec.sched_seed ^ (i as u64 + 77)) >> 32) as u32; }
        w.clock_ns = if spec.clock0 == 0 { 1_000_000_000 } else { spec.clock0 };
        let clock0 = w.clock_ns;
        w.rt_off = 1_700_000_000_000_000_000 + spec.rt_off; w.tick = spec.tick.max(1);
        w.space_left = spec.space; w.step_cap = if spec.step_cap == 0 { 20_000_000 } else { spec.step_cap };
        w.layout = spec.layout; w.rand_seed = spec.rand_seed; w.rand_mode = spec.rand_mode; w.nfault = spec.faults.len() as u32;
        for (i, f) in spec.faults.iter().enumerate() {
            w.fault[i] = Fault { proc_: f.proc_, cls: f.cls, kind: f.kind, sticky: f.sticky as u8, nth: f.nth, arg: f.arg, arg2: f.arg2, fired: 0, pad: 0 };
        }
        for i in 0..MAXI { w.ino[i].kind = K_FREE; }
        for (i, f) in spec.files.iter().enumerate() {
            let n = &mut w.ino[i];
            assert!(f.name.len() < 64 && f.data.len() <= SLOT);
            n.name[..f.name.len()].copy_from_slice(f.name.as_bytes());
            n.kind = f.kind; n.open_errno = f.open_errno; n.len = f.data.len() as u64; n.cap = if f.cap == 0 { 2 * SLOT as u64 } else { f.cap };
            n.readers = f.readers; n.writers = f.writers; n.sink = f.sink; n.shash = 0;
            unsafe { std::ptr::copy_nonoverlapping(f.data.as_ptr(), self.slot(i), f.data.len()); }
        }
        for (i, p) in spec.procs.iter().enumerate() {
            let q = &mut w.proc_[i];
            let mut off = 0usize;
            q.argc = p.args.len() as u32 + 1;
            assert!(p.args.len() + 1 < MAXARG);
            for (k, a) in std::iter::once(&p.tool).chain(p.args.iter()).enumerate() {
                assert!(off + a.len() + 1 <= q.argbuf.len());
                q.argoff[k] = off as u16;
                q.argbuf[off..off + a.len()].copy_from_slice(a.as_bytes());
                off += a.len() + 1;
            }
            assert!(p.env.len() < 64);
            q.env[..p.env.len()].copy_from_slice(p.env.as_bytes());
            q.stdio = p.stdio;
            q.rd_mode = p.io.rdm; q.rd_param = p.io.rdp.max(1); q.wr_mode = p.io.wrm; q.wr_param = p.io.wrp.max(1); q.io_seed = p.io.seed;
            q.heap_limit = p.heap;
            q.state = S_READY; q.thr[0].state = T_READY;
            for f in q.fd.iter_mut() { f.inode = -1; }
            for k in 0..3 {
                let ino = p.stdio[k];
                q.fd[k] = Fd { inode: ino, flags: if k == 0 { 0 } else { 1 }, pos: if k == 0 && i == 0 { spec.pos0 } else { 0 } };
                if ino >= 0 && w.ino[ino as usize].kind == K_PIPE { if k == 0 { w.ino[ino as usize].readers += 1 } else { w.ino[ino as usize].writers += 1 } }
            }
        }
        for i in 0..np {
            let s = self.servers.get_mut(&keys[i]).unwrap();
            if s.cmd.write_all(&[i as u8]).is_err() { harness(&format!("fork server of {:?} is gone", keys[i])) }
        }
        let mut timeout = false;
        if np > 1 {
            let first = match spec.sched_mode { 1 | 2 | 3 => (crate::rng::mix(spec.sched_seed ^ 0xF1) % np as u64) as u32, _ => 0 };
            unsafe {
                std::ptr::write_volatile(&mut w.turn, first);
                syscall(202, &mut w.turn as *mut u32, 1i32, 1000i32, 0usize, 0usize, 0i32);
            }
        }
        for i in 0..np {
            let w = self.world();
            let s = self.servers.get_mut(&keys[i]).unwrap();
            let mut pf = PollFd { fd: s.st.as_raw_fd(), ev: 1, rev: 0 };
            let mut r = unsafe { poll(&mut pf, 1, 300_000) };
            if r <= 0 {
                timeout = true;
                unsafe {
                    std::ptr::write_volatile(&mut w.abort_all, 1);
                    std::ptr::write_volatile(&mut w.turn, 999);
                    syscall(202, &mut w.turn as *mut u32, 1i32, 1000i32, 0usize, 0usize, 0i32);
                    for k in 0..np { if w.proc_[k].pid > 1 && w.proc_[k].state != S_EXITED { kill(w.proc_[k].pid as i32, 9); } }
                    r = poll(&mut pf, 1, 10_000);
                }
            }
            let mut rep = [0u8; 8];
            if r <= 0 || s.st.read_exact(&mut rep).is_err() { harness(&format!("no status from the fork server of {:?}", keys[i])) }
            let st = u32::from_le_bytes(rep[4..8].try_into().unwrap());
            if st == 0xFF00 + 99 { harness("fork failed in a fork server") }
            w.proc_[i].status = st as i32;
        }
        let w = self.world();
        let mut o = Out { timeout, livelock: w.livelock != 0, deadlock: w.deadlock != 0, hash: w.log_hash, steps: w.steps, switches: w.sched_switches, covpts: (0..np).map(|i| w.proc_[i].covpts as u64).sum(), points: w.sched_points, sim_ns: w.clock_ns - clock0, ..Default::default() };
        for i in 0..np {
            let q = &w.proc_[i];
            o.procs.push(ProcOut { status: q.status, cnt: q.cnt, ops: q.ops, nalloc: q.nalloc, heap_peak: q.heap_peak, t_run_ns: q.t_end.saturating_sub(q.t_start), bytes_in: q.bytes_in, bytes_out: q.bytes_out, ops_after_wfail: if q.ops_at_wfail > 0 { q.ops - q.ops_at_wfail } else { 0 }, wfailed: q.ops_at_wfail > 0, threads: q.threads, clk: if q.nclk <= 10 { Some(q.clk[..q.nclk as usize].to_vec()) } else { None } });
        }
        for i in 0..MAXI {
            let n = &w.ino[i];
            if n.kind == K_FREE { continue; }
            let len = (n.len as usize).min(SLOT);
            if len > self.high[i] { self.high[i] = len; }
            let want = i >= spec.files.len() || n.touched != 0 || (n.kind == K_PIPE && len != spec.files[i].data.len());
            let data = if want { unsafe { std::slice::from_raw_parts(self.slot(i), len).to_vec() } } else { spec.files[i].data.clone() };
            let e = n.name.iter().position(|&c| c == 0).unwrap_or(64);
            o.files.push(FileOut { name: String::from_utf8_lossy(&n.name[..e]).into_owned(), data, touched: n.touched != 0, overflow: n.overflow != 0, exists: e > 0, rpos: n.rpos, len: n.len, shash: n.shash });
        }
        for i in 0..spec.faults.len() { o.fired.push(w.fault[i].fired); }
        self.stats.runs += 1; self.stats.sim_ns += o.sim_ns as u128; self.stats.steps += o.steps; self.stats.switches += o.switches; self.stats.covpts += o.covpts; self.stats.procs += np as u64;
        if np > 1 { self.stats.multi += 1; }
        for p in &spec.procs { *self.stats.tools.entry(format!("{}:{}", p.tool, if p.rel { "release" } else { "dev" })).or_default() += 1; }
        for (i, f) in spec.faults.iter().enumerate() { if o.fired[i] > 0 { *self.stats.fired.entry((f.cls, f.kind)).or_default() += o.fired[i] as u64; } }
        if want_events {
            let n = (w.nev as usize).min(MAXEV);
            for k in 0..n {
                let e = &w.ev[k];
                let op = match e.op { 1 => "switch", 2 => "block", 3 => "kill-before", 4 => "kill-after", 5 => "exit-switch", 10 => "open", 11 => "read", 12 => "write", 13 => "close", 14 => "stat", 15 => "sync", 16 => "rename", 17 => "unlink", 18 => "entropy", 19 => "alloc-fail", _ => "op" };
                o.extra.push(format!("p{} {:<6} ino={} -> {}{}", e.proc_, op, e.inode, e.res, if e.fault != 0 { format!("   [fault {}]", KIND[(e.fault as usize).min(13)]) } else { String::new() }));
            }
        }
        /* give big slots back */
        for i in 0..MAXI { if self.high[i] > 256 * 1024 { unsafe { fallocate(self.fd, 3, (HDR + i * SLOT) as i64, SLOT as i64); } self.high[i] = 0; } }
        o
    }
}
/// A failure of the machinery itself, never a verdict.
pub fn harness(m: &str) -> ! { eprintln!("HARNESS-ERROR: {}", m); std::process::exit(70) }
