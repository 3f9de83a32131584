//! repr(C) mirror of world.h.
#![allow(dead_code)]
pub const VERSION: u32 = 16;
pub const MAXP: usize = 4;
pub const MAXI: usize = 16;
pub const MAXFD: usize = 24;
pub const MAXT: usize = 40;
pub const MAXFAULT: usize = 48;
pub const MAXEV: usize = 2048;
pub const MAXARG: usize = 600;
pub const SLOT: usize = 16 << 20;
pub const HDR: usize = 1 << 20;
pub const NCLS: usize = 12;

pub const K_FREE: u32 = 0;
pub const K_REG: u32 = 1;
pub const K_PIPE: u32 = 2;
pub const K_DIR: u32 = 3;
pub const K_NULL: u32 = 4;
pub const K_SPECIAL: u32 = 5;
pub const K_RANDOM: u32 = 6;

pub const C_RD: u8 = 1;
pub const C_WR: u8 = 2;
pub const C_OP: u8 = 3;
pub const C_ST: u8 = 4;
pub const C_CL: u8 = 5;
pub const C_RN: u8 = 6;
pub const C_CK: u8 = 7;
pub const C_AL: u8 = 8;
pub const C_ANY: u8 = 9;
pub const C_WE: u8 = 10;
pub const C_MISC: u8 = 11;
pub const CLS: [&str; NCLS] = ["none", "read", "write", "open", "stat", "close", "entropy", "clock", "alloc", "anyop", "stderr-write", "misc"];

pub const F_SHORT: u8 = 1;
pub const F_EINTR: u8 = 2;
pub const F_ERRNO: u8 = 3;
pub const F_KILL_BEFORE: u8 = 4;
pub const F_KILL_AFTER: u8 = 5;
pub const F_STALL: u8 = 6;
pub const F_ZERO: u8 = 7;
pub const F_REPLACE: u8 = 8;
pub const F_APPEND: u8 = 9;
pub const F_JUMP: u8 = 10;
pub const F_SPACE: u8 = 11;
pub const F_NOMEM: u8 = 12;
pub const KIND: [&str; 14] = ["none", "short", "eintr", "errno", "kill-before", "kill-after", "stall", "zero", "replace", "append", "clock-jump", "disk-quota", "nomem", "starve"];

pub const S_READY: u32 = 1;
pub const S_EXITED: u32 = 2;
pub const T_READY: u32 = 1;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Inode { pub name: [u8; 64], pub kind: u32, pub open_errno: u32, pub len: u64, pub rpos: u64, pub readers: u32, pub writers: u32, pub cap: u64, pub overflow: u32, pub touched: u32, pub sink: u64, pub shash: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fd { pub inode: i32, pub flags: u32, pub pos: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fault { pub proc_: u8, pub cls: u8, pub kind: u8, pub sticky: u8, pub nth: u32, pub arg: i64, pub arg2: i64, pub fired: u32, pub pad: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev { pub proc_: u8, pub cls: u8, pub op: u8, pub fault: u8, pub inode: i32, pub res: i64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Thr { pub state: u32, pub wait: u32, pub detached: u32, pub timed_out: u32, pub addr: u64, pub deadline: u64, pub pth: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Proc {
    pub argc: u32, pub argoff: [u16; MAXARG], pub argbuf: [u8; 16384], pub env: [u8; 64],
    pub stdio: [i32; 3],
    pub rd_mode: u32, pub rd_param: u32, pub wr_mode: u32, pub wr_param: u32, pub io_seed: u64,
    pub heap_limit: u64,
    pub state: u32, pub covpts: u32, pub status: i32, pub pid: u32,
    pub cnt: [u64; NCLS], pub ops: u64, pub nalloc: u64, pub heap_cur: i64, pub heap_peak: i64,
    pub t_start: u64, pub t_end: u64, pub bytes_in: u64, pub bytes_out: u64, pub ops_at_wfail: u64, pub threads: u64,
    pub nclk: u64, pub clk: [u64; 10],
    pub fd: [Fd; MAXFD],
    pub thr: [Thr; MAXT],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct World {
    pub version: u32, pub size: u32,
    pub nproc: u32, pub turn: u32, pub abort_all: u32, pub started: u32,
    pub sched_mode: u32, pub sched_param: u32, pub sched_state: u64, pub sched_limit: u64, pub sched_points: u64, pub sched_switches: u64,
    pub prio: [u32; MAXP * MAXT], pub multi: u32, pub ncpu: u32, pub cpu_s: u32, pub quota: u32,
    pub clock_ns: u64, pub rt_off: i64, pub tick: u64, pub slept_ns: u64,
    pub space_left: i64,
    pub steps: u64, pub step_cap: u64, pub livelock: u32, pub deadlock: u32,
    pub rand_seed: u64, pub rand_ctr: u64, pub rand_mode: u32, pub nfault: u32, pub layout: u64,
    pub log_hash: u64, pub nev: u64,
    pub fault: [Fault; MAXFAULT],
    pub ino: [Inode; MAXI],
    pub proc_: [Proc; MAXP],
    pub ev: [Ev; MAXEV],
}
