/* The simulated world shared between the driver and every simulated process.
 * Mirrored by src/world.rs (repr(C)); keep both in step: WORLD_VERSION and sizeof are compared. */
#ifndef WORLD_H
#define WORLD_H
#include <stdint.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

#define WORLD_VERSION 16
#define MAXP 4
#define MAXI 16
#define MAXFD 24
#define MAXT 40
#define MAXFAULT 48
#define MAXEV 2048
#define MAXARG 600
#define SLOT (16u << 20)
#define HDR (1u << 20) /* bytes reserved for the header before the inode data slots */

enum { K_FREE, K_REG, K_PIPE, K_DIR, K_NULL, K_SPECIAL, K_RANDOM };
enum { C_NONE, C_RD, C_WR, C_OP, C_ST, C_CL, C_RN, C_CK, C_AL, C_ANY, C_WE, C_MISC, NCLS };
enum { F_NONE, F_SHORT, F_EINTR, F_ERRNO, F_KILL_BEFORE, F_KILL_AFTER, F_STALL, F_ZERO,
       F_REPLACE, F_APPEND, F_JUMP, F_SPACE, F_NOMEM, F_STARVE, NKIND };
enum { S_UNUSED, S_READY, S_EXITED }; /* processes */
enum { T_FREE, T_READY, T_RD, T_WR, T_FUTEX, T_SLEEP, T_JOIN, T_DONE }; /* threads; T_DONE until joined */

typedef struct { char name[64]; u32 kind; u32 open_errno; u64 len; u64 rpos; u32 readers, writers;
                 u64 cap; u32 overflow; u32 touched;
                 u64 sink, shash; /* a file of up to `sink` bytes of which only the first SLOT are kept, and a hash of all */ } Inode;
typedef struct { i32 inode; u32 flags; u64 pos; } Fd;
typedef struct { u8 proc, cls, kind, sticky; u32 nth; i64 arg; i64 arg2; u32 fired; u32 pad; } Fault;
typedef struct { u8 proc, cls, op, fault; i32 inode; i64 res; } Ev;

/* wait: inode (T_RD, T_WR) or thread (T_JOIN) waited for; deadline 0: none */
typedef struct { u32 state, wait, detached, timed_out; u64 addr, deadline, pth; } Thr;

typedef struct {
  u32 argc; u16 argoff[MAXARG]; char argbuf[16384]; char env[64];
  i32 stdio[3];
  u32 rd_mode, rd_param, wr_mode, wr_param; u64 io_seed;
  u64 heap_limit;
  /* results */
  u32 state, covpts; /* preemption points in instrumented code */ i32 status; u32 pid;
  u64 cnt[NCLS]; u64 ops; u64 nalloc; i64 heap_cur, heap_peak;
  u64 t_start, t_end; u64 bytes_in, bytes_out; u64 ops_at_wfail; u64 threads;
  u64 nclk, clk[10]; /* the readings of the monotonic clock */
  Fd fd[MAXFD];
  Thr thr[MAXT];
} Proc;

typedef struct {
  u32 version, size;
  u32 nproc, turn, abort_all, started;
  u32 sched_mode, sched_param; u64 sched_state; u64 sched_limit; u64 sched_points, sched_switches;
  u32 prio[MAXP * MAXT]; u32 multi, ncpu, cpu_s, quota;
  u64 clock_ns; i64 rt_off; u64 tick; u64 slept_ns;
  i64 space_left;
  u64 steps, step_cap; u32 livelock, deadlock;
  u64 rand_seed, rand_ctr; u32 rand_mode, nfault; u64 layout;
  u64 log_hash; u64 nev;
  Fault fault[MAXFAULT];
  Inode ino[MAXI];
  Proc proc[MAXP];
  Ev ev[MAXEV];
} World;
#endif
