/* Simulated kernel boundary, preloaded into the unmodified tools.
 *
 * Start-up: __libc_start_main is intercepted; instead of main the process runs a small fork server
 * (commands on fd 198, statuses on fd 199, world on fd 197).  Every run is a fork of the pristine
 * process image; in the child all I/O, clock, entropy and heap calls are decided by the World. */
#define _GNU_SOURCE
#include <link.h>
#include "world.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

#define EXPORT __attribute__((visibility("default")))
#define VBASE 300
#define FD_SHM 197
#define FD_CMD 198
#define FD_ST 199

static World *W;
static int g_active, me;
#define ACTIVE (g_active && !t_out)
static int kill_after;
extern char **environ;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
#define RAW6(n,a,b,c,d,e,f) ret_errno(raw((n),(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f)))
#define RAW4(n,a,b,c,d) RAW6(n,a,b,c,d,0,0)
#define RAW3(n,a,b,c) RAW6(n,a,b,c,0,0,0)

static unsigned char *slot(int i) { return (unsigned char *)W + HDR + (size_t)i * SLOT; }
#define P (&W->proc[me])

/* ---------- deterministic choices ---------- */
static u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static u64 sched_rand(void) { u64 x = W->sched_state; W->sched_state = x + 0x9E3779B97F4A7C15ull; return mix(x); }

static void die(void) { raw(SYS_kill, raw(SYS_getpid,0,0,0,0,0,0), SIGKILL, 0,0,0,0); for (;;) raw(SYS_pause,0,0,0,0,0,0); }

static int cur_tid(void);
static void log_ev(int proc, int cls, int op, int fault, int inode, i64 res) {
  u64 h = W->log_hash;
  h = (h ^ (u64)(proc | cls << 4 | op << 10 | fault << 18) ^ (u64)cur_tid() << 32) * 0x100000001B3ull;
  h = (h ^ (u64)res) * 0x100000001B3ull; h ^= h >> 29;
  W->log_hash = h;
  u64 k = W->nev++;
  if (k >= MAXEV) k = MAXEV / 2 + (k % (MAXEV / 2)); /* keep the first half and a ring of the last */
  W->ev[k] = (Ev){ (u8)proc, (u8)cls, (u8)op, (u8)fault, inode, res };
}

/* ---------- scheduler: exactly one thread of one process runs; hand-over by futex ----------
 * `turn` names the running thread: process | thread << 8.  Threads switch only at simulated calls. */
static __thread int tid __attribute__((tls_model("initial-exec")));
static __thread int t_out __attribute__((tls_model("initial-exec"))); /* this thread has left the simulation */
#define SELF ((int)((u32)me | (u32)tid << 8))
#define THR(e) (&W->proc[(e) & 255].thr[(e) >> 8])
static __thread int hold __attribute__((tls_model("initial-exec")));
static void futex_wake(void) { raw(SYS_futex, (long)&W->turn, FUTEX_WAKE, 1000, 0,0,0); }
static void futex_wait(u32 v) { raw(SYS_futex, (long)&W->turn, FUTEX_WAIT, v, 0,0,0); }
static volatile int dying; /* the kernel's id of a thread of this process that unwinds */
static void wait_turn(void) {
  for (;;) {
    if (__atomic_load_n(&W->abort_all, __ATOMIC_SEQ_CST)) die();
    u32 t = __atomic_load_n(&W->turn, __ATOMIC_SEQ_CST);
    if (t == (u32)SELF) {
      while (dying && raw(SYS_tgkill, raw(SYS_getpid, 0, 0,0,0,0,0), dying, 0, 0,0,0) == 0) raw(SYS_sched_yield, 0, 0,0,0,0,0);
      dying = 0;
      return;
    }
    futex_wait(t);
  }
}
static void abort_world(void) { __atomic_store_n(&W->abort_all, 1, __ATOMIC_SEQ_CST);
  __atomic_store_n(&W->turn, 999, __ATOMIC_SEQ_CST); futex_wake(); }

static int ready_list(int *ready) {
  int n = 0;
  for (u32 i = 0; i < W->nproc; i++) if (W->proc[i].state == S_READY) for (int t = 0; t < MAXT; t++) {
    Thr *h = &W->proc[i].thr[t];
    if ((h->state == T_SLEEP || h->state == T_FUTEX) && h->deadline && h->deadline <= W->clock_ns) { h->timed_out = 1; h->state = T_READY; }
    if (h->state == T_READY) ready[n++] = (int)(i | (u32)t << 8);
  }
  return n;
}
static int order(int e) { return (e & 255) * MAXT + (e >> 8); }
static int pick_next(int cur, int rotate) { /* cur may be not ready; rotate: prefer anybody else */
  int ready[MAXP * MAXT], n = ready_list(ready);
  if (!n) { /* everybody waits: let time pass until the first deadline */
    u64 d = 0;
    for (u32 i = 0; i < W->nproc; i++) if (W->proc[i].state == S_READY) for (int t = 0; t < MAXT; t++) {
      Thr *h = &W->proc[i].thr[t];
      if ((h->state == T_SLEEP || h->state == T_FUTEX) && h->deadline && (!d || h->deadline < d)) d = h->deadline;
    }
    if (!d) return -1;
    W->slept_ns += d - W->clock_ns; W->clock_ns = d;
    n = ready_list(ready);
  }
  int cur_ready = 0;
  for (int i = 0; i < n; i++) cur_ready |= ready[i] == cur;
  u64 pt = W->sched_points++;
  int mode = rotate ? 4 : pt >= W->sched_limit ? 0 : (int)W->sched_mode, r = -1;
  if (n == 1) r = ready[0];
  else if (mode == 1) r = ready[sched_rand() % n];
  else if (mode == 2) r = (cur_ready && (sched_rand() & 255) >= (W->sched_param & 255)) ? cur : ready[sched_rand() % n];
  else if (mode == 3) {
    u64 x = sched_rand();
    if ((x & 63) == 0) W->prio[order(ready[(x >> 8) % n])] = (u32)(x >> 32);
    r = ready[0];
    for (int i = 1; i < n; i++) if (W->prio[order(ready[i])] > W->prio[order(r)]) r = ready[i];
  } else if (mode == 4) { r = ready[0]; for (int i = 0; i < n; i++) if (order(ready[i]) > order(cur)) { r = ready[i]; break; } }
  else r = cur_ready ? cur : ready[0];
  if (r != cur) W->sched_switches++;
  return r;
}
static void give_turn(int p) { __atomic_store_n(&W->turn, (u32)p, __ATOMIC_SEQ_CST); futex_wake(); }
static void pass_to(int n, int why, int inode) { log_ev(n & 255, C_NONE, why, 0, inode, n >> 8); give_turn(n); wait_turn(); }
static void sched_point(void) {
  if (!W->multi) return;
  int n = pick_next(SELF, 0);
  if (n != SELF && n >= 0) pass_to(n, 1, -1);
}
static void count_step(void) { if (++W->steps > W->step_cap) { W->livelock = 1; abort_world(); die(); } }
static void block_self(int st, u32 wait, u64 addr, u64 deadline) {
  Thr *h = THR(SELF);
  h->wait = wait; h->addr = addr; h->deadline = deadline; h->timed_out = 0; h->state = (u32)st;
  int n = pick_next(SELF, 0);
  if (n < 0) { W->deadlock = 1; abort_world(); die(); } /* nobody can ever wake us */
  if (n != SELF) pass_to(n, 2, st == T_RD || st == T_WR ? (int)wait : -1);
}
static void block_on(int inode, int st) { block_self(st, (u32)inode, 0, 0); }
static void wake_waiters(int inode) {
  for (u32 i = 0; i < W->nproc; i++) for (int t = 0; t < MAXT; t++) {
    Thr *h = &W->proc[i].thr[t];
    if ((h->state == T_RD || h->state == T_WR) && h->wait == (u32)inode) h->state = T_READY;
  }
}
static void drop_fd(Proc *q, Fd *f) {
  if (f->inode < 0) return;
  Inode *i = &W->ino[f->inode];
  if (i->kind == K_PIPE) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) { if (i->readers) i->readers--; }
    else if (i->writers) i->writers--;
    wake_waiters(f->inode);
  }
  f->inode = -1; (void)q;
}

static int cur_tid(void) { return tid; }

/* ---------- faults ---------- */
static void mutate_fs(Fault *f) {
  if (f->kind == F_REPLACE) {
    Inode *n = &W->ino[f->arg], *o = &W->ino[f->arg2];
    memcpy(n->name, o->name, sizeof n->name); o->name[0] = 0;
  } else if (f->kind == F_APPEND) {
    Inode *n = &W->ino[f->arg], *o = &W->ino[f->arg2];
    u64 k = n->len; if (o->len + k > SLOT) k = SLOT - o->len;
    memcpy(slot((int)f->arg2) + o->len, slot((int)f->arg), k); o->len += k;
  }
}
/* returns the fault that decides this call, or 0; `*lim` may be lowered by F_SHORT */
static int run_faults(int cls, u64 nth, size_t *lim, int *fk) {
  int err = 0;
  for (u32 i = 0; i < W->nfault; i++) {
    Fault *f = &W->fault[i];
    if (f->proc != me || f->cls != cls) continue;
    u64 span = f->kind == F_EINTR && f->arg > 1 ? (u64)f->arg : 1;
    if (!(nth >= f->nth && (f->sticky || nth < f->nth + span))) continue;
    if ((f->kind == F_REPLACE || f->kind == F_APPEND || f->kind == F_SPACE) && f->fired) continue;
    f->fired++; *fk = f->kind;
    switch (f->kind) {
    case F_SHORT: if (lim && *lim > (size_t)f->arg) *lim = (size_t)f->arg; break;
    case F_EINTR: err = EINTR; break;
    case F_ERRNO: err = (int)f->arg; break;
    case F_KILL_BEFORE: log_ev(me, cls, 3, f->kind, -1, (i64)nth); die(); break;
    case F_KILL_AFTER: kill_after = 1; break;
    case F_STALL: W->clock_ns += (u64)f->arg; W->slept_ns += (u64)f->arg; break;
    case F_JUMP: if (f->arg2) W->rt_off += f->arg; else W->clock_ns += (u64)f->arg; break;
    case F_ZERO: err = -1; break;
    case F_SPACE: W->space_left = f->arg; break;
    case F_NOMEM: err = ENOMEM; break;
    default: mutate_fs(f);
    }
  }
  return err;
}
static int io_op(int cls, size_t *lim, int *fk) { /* bookkeeping + scheduling + faults for one I/O call */
  Proc *p = P;
  count_step();
  sched_point();
  W->clock_ns += W->tick;
  u64 nth = ++p->cnt[cls], op = ++p->ops;
  *fk = 0;
  if (!W->nfault) return 0;
  int e1 = run_faults(C_ANY, op, 0, fk);
  int e2 = run_faults(cls, nth, lim, fk);
  return e2 ? e2 : e1;
}
static void after(int cls) { if (kill_after) { log_ev(me, cls, 4, F_KILL_AFTER, -1, 0); die(); } }

static size_t chunk(u32 mode, u32 param, u64 salt, u64 n, size_t want) {
  if (!mode || !want) return want;
  u64 k = want;
  if (mode == 1) k = param;
  else if (mode == 2) k = 1 + mix(P->io_seed ^ salt ^ (n * 0x9E37u)) % param;
  else if (mode == 3) { u64 x = mix(P->io_seed ^ salt ^ (n * 0x9E37u)); k = (x & 3) == 0 ? 1 : (x & 3) == 1 ? 1 + (x >> 8) % param : want; }
  if (!k) k = 1;
  return k < want ? (size_t)k : want;
}

/* ---------- descriptors ---------- */
static Fd *vfd(int fd) {
  if (!ACTIVE) return 0;
  int k = fd >= 0 && fd <= 2 ? fd : fd >= VBASE && fd < VBASE + MAXFD - 3 ? fd - VBASE + 3 : -1;
  if (k < 0) return 0;
  Fd *f = &P->fd[k];
  return f->inode >= 0 || k >= 3 ? f : f;
}
static int is_vfd(int fd) { return ACTIVE && ((fd >= 0 && fd <= 2) || (fd >= VBASE && fd < VBASE + MAXFD - 3)); }
static int fdnum(int k) { return k < 3 ? k : VBASE + k - 3; }
static int find_path(const char *path) {
  if (!strcmp(path, "/dev/null")) { for (int i = 0; i < MAXI; i++) if (W->ino[i].kind == K_NULL) return i; return -1; }
  if (!strcmp(path, "/dev/random")) path = "/dev/urandom";
  for (int i = 0; i < MAXI; i++) if (W->ino[i].kind && W->ino[i].name[0] && !strcmp(W->ino[i].name, path)) return i;
  return -1;
}
static int empty_str(const char *p) { __asm__("" : "+r"(p)); return !p || !*p; }
static int is_vpath(const char *path) {
  __asm__("" : "+r"(path)); /* glibc declares these parameters nonnull; Rust's std probes statx with a null path */
  if (!ACTIVE || !path) return 0;
  return !strncmp(path, "/sim/", 5) || !strcmp(path, "/sim") || !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random") ||
         !strcmp(path, "/dev/stdin") || !strcmp(path, "/dev/stdout") || !strcmp(path, "/dev/stderr") || !strcmp(path, "/dev/null") ||
         !strcmp(path, "/proc/self/fd/0") || !strcmp(path, "/dev/fd/0");
}
static int std_alias(const char *p) {
  if (!strcmp(p, "/dev/stdin") || !strcmp(p, "/proc/self/fd/0") || !strcmp(p, "/dev/fd/0")) return 0;
  if (!strcmp(p, "/dev/stdout")) return 1;
  if (!strcmp(p, "/dev/stderr")) return 2;
  return -1;
}
static u64 rnd_bytes(unsigned char *b, u64 n) {
  for (u64 i = 0; i < n; i++) {
    u64 c = W->rand_ctr++;
    if (W->rand_mode == 1) b[i] = (unsigned char)W->rand_seed;       /* degenerate constant stream */
    else b[i] = (unsigned char)(mix((W->rand_mode >= 16 && c < W->rand_mode - 16 ? 0x5eed : W->rand_seed) + c / 8) >> (8 * (c & 7))); /* 16 + k: the first k bytes are common to all */
  }
  return n;
}

static int v_open(const char *path, int flags) {
  int fk; int e = io_op(C_OP, 0, &fk);
  if (e > 0) { log_ev(me, C_OP, 10, fk, -1, -e); after(C_OP); errno = e; return -1; }
  int acc = flags & O_ACCMODE;
  int s = std_alias(path);
  int i = s >= 0 ? P->fd[s].inode : find_path(path);
  int err = 0;
  if (i < 0) {
    if (!(flags & O_CREAT)) err = ENOENT;
    else {
      for (i = 0; i < MAXI; i++) if (!W->ino[i].kind) break;
      if (i == MAXI) { i = -1; err = ENOSPC; }
      else if (strlen(path) >= sizeof W->ino[i].name) { i = -1; err = ENAMETOOLONG; }
      else { Inode *n = &W->ino[i]; memset(n, 0, sizeof *n); n->kind = K_REG; strcpy(n->name, path); n->touched = 1; }
    }
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
  if (!err) {
    Inode *n = &W->ino[i];
    if (n->open_errno) err = (int)n->open_errno;
    else if (n->kind == K_DIR && acc != O_RDONLY) err = EISDIR;
  }
  if (err) { log_ev(me, C_OP, 10, fk, i, -err); after(C_OP); errno = err; return -1; }
  Inode *n = &W->ino[i];
  if ((flags & O_TRUNC) && acc != O_RDONLY && n->kind == K_REG) { n->len = 0; n->touched = 1; }
  int k; for (k = 3; k < MAXFD; k++) if (P->fd[k].inode < 0) break;
  if (k == MAXFD) { errno = EMFILE; return -1; }
  P->fd[k] = (Fd){ i, (u32)flags, 0 };
  if (s >= 0 && n->kind == K_REG) P->fd[k].pos = 0;
  if (n->kind == K_PIPE) { if (acc == O_RDONLY) n->readers++; else n->writers++; }
  log_ev(me, C_OP, 10, fk, i, fdnum(k)); after(C_OP);
  return fdnum(k);
}

static ssize_t v_read(int fd, void *buf, size_t want, i64 at) {
  Fd *f = vfd(fd);
  if (f->inode < 0) { errno = EBADF; return -1; }
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  int fk; size_t lim = want;
  Inode *n = &W->ino[f->inode];
  int cls = n->kind == K_RANDOM ? C_RN : C_RD;
  int e = io_op(cls, &lim, &fk);
  if (e > 0) { log_ev(me, cls, 11, fk, f->inode, -e); after(cls); errno = e; return -1; }
  if (n->kind == K_DIR) { log_ev(me, cls, 11, fk, f->inode, -EISDIR); after(cls); errno = EISDIR; return -1; }
  size_t c = chunk(P->rd_mode, P->rd_param, 0x11, P->cnt[C_RD], lim), got = 0;
  if (n->kind == K_RANDOM) got = rnd_bytes(buf, lim);
  else if (n->kind == K_PIPE) {
    while (n->rpos == n->len && n->writers > 0 && want) block_on(f->inode, T_RD);
    u64 av = n->len - n->rpos; got = c < av ? c : av;
    memcpy(buf, slot(f->inode) + n->rpos, got); n->rpos += got;
    if (got) wake_waiters(f->inode);
  } else if (n->kind == K_REG || n->kind == K_SPECIAL) {
    u64 pos = at >= 0 ? (u64)at : f->pos;
    u64 av = pos < n->len ? n->len - pos : 0; got = c < av ? c : av;
    memcpy(buf, slot(f->inode) + pos, got); if (at < 0) f->pos += got;
  }
  P->bytes_in += got;
  log_ev(me, cls, 11, fk, f->inode, (i64)got); after(cls);
  return (ssize_t)got;
}

static ssize_t v_write(int fd, const void *buf, size_t want, i64 at) {
  Fd *f = vfd(fd);
  if (f->inode < 0) { errno = EBADF; return -1; }
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  int cls = (f - P->fd) == 2 ? C_WE : C_WR;
  int fk; size_t lim = want, done = 0; int err = 0;
  Inode *n = &W->ino[f->inode];
  int e = io_op(cls, &lim, &fk);
  if (e) { if (!P->ops_at_wfail && cls == C_WR && e != EINTR) P->ops_at_wfail = P->ops;
    log_ev(me, cls, 12, fk, f->inode, e > 0 ? -e : 0); after(cls); if (e < 0) return 0; errno = e;
    if (e == EPIPE) { struct sigaction sa; sigaction(SIGPIPE, 0, &sa); if (sa.sa_handler == SIG_DFL) die(); }
    return -1; }
  size_t c = cls == C_WE ? want : chunk(P->wr_mode, P->wr_param, 0x22, P->cnt[C_WR], lim);
  if (n->kind == K_PIPE) {
    while (done < c) {
      if (!n->readers) { err = EPIPE; break; }
      u64 room = n->len - n->rpos < n->cap ? n->cap - (n->len - n->rpos) : 0;
      if (!room) { if (!done && n->len >= SLOT) { err = EIO; break; } block_on(f->inode, T_WR); continue; }
      u64 k = c - done < room ? c - done : room;
      if (n->len + k > SLOT) { n->overflow = 1; k = SLOT - n->len; if (!k) { err = EIO; break; } }
      memcpy(slot(f->inode) + n->len, (const char *)buf + done, k); n->len += k; done += k;
      wake_waiters(f->inode);
    }
  } else if (n->kind == K_NULL) done = c;
  else {
    u64 pos = at >= 0 ? (u64)at : (f->flags & O_APPEND) || f - P->fd < 3 ? n->len : f->pos;
    u64 k = c;
    if (W->space_left >= 0 && cls == C_WR) {
      u64 grow = pos + k > n->len ? pos + k - n->len : 0;
      if (grow > (u64)W->space_left) k -= grow - (u64)W->space_left;
      if (!k && c) err = ENOSPC;
    }
    if (n->sink && pos == n->len && pos + k <= n->sink && !err) {
      u64 h = n->len ? n->shash : 0xcbf29ce484222325ull;
      for (u64 i = 0; i < k; i++) h = (h ^ ((const u8 *)buf)[i]) * 0x100000001b3ull;
      n->shash = h;
      if (pos < SLOT) memcpy(slot(f->inode) + pos, buf, pos + k <= SLOT ? k : SLOT - pos);
      n->len += k; if (at < 0) f->pos = n->len;
      done = k;
    } else {
    if (pos + k > SLOT) { n->overflow = 1; u64 fit = pos < SLOT ? SLOT - pos : 0; if (cls == C_WE) { done = c; k = fit; } else if (!fit) err = EFBIG, k = 0; else k = fit; }
    if (!err && k) {
      if (pos > n->len) memset(slot(f->inode) + n->len, 0, pos - n->len);
      memcpy(slot(f->inode) + pos, buf, k);
      if (pos + k > n->len) { if (W->space_left >= 0 && cls == C_WR) W->space_left -= (i64)(pos + k - n->len); n->len = pos + k; }
      if (at < 0) f->pos = pos + k;
      if (!done) done = k;
    }
    }
    n->touched = 1;
  }
  if (cls == C_WR) P->bytes_out += done;
  if (err && !done) {
    if (!P->ops_at_wfail && cls == C_WR) P->ops_at_wfail = P->ops;
    log_ev(me, cls, 12, fk, f->inode, -err); after(cls);
    if (err == EPIPE) { struct sigaction sa; sigaction(SIGPIPE, 0, &sa); if (sa.sa_handler == SIG_DFL) die(); }
    errno = err; return -1;
  }
  log_ev(me, cls, 12, fk, f->inode, (i64)done); after(cls);
  return (ssize_t)done;
}

/* ---------- interposed: files ---------- */
EXPORT ssize_t read(int fd, void *b, size_t n) { if (is_vfd(fd)) return v_read(fd, b, n, -1); return RAW3(SYS_read, fd, b, n); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (is_vfd(fd)) return v_write(fd, b, n, -1); return RAW3(SYS_write, fd, b, n); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (is_vfd(fd)) return v_read(fd, b, n, o); return RAW4(SYS_pread64, fd, b, n, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (is_vfd(fd)) return v_write(fd, b, n, o); return RAW4(SYS_pwrite64, fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!is_vfd(fd)) return RAW3(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) {
    /* a short vectored read that fills (part of) the first non-empty buffer is a legal result */
    return v_read(fd, v[i].iov_base, v[i].iov_len, -1);
  }
  return c ? v_read(fd, v[0].iov_base, 0, -1) : 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_vfd(fd)) return RAW3(SYS_writev, fd, v, c);
  size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
  if (tot <= 65536) { char tmp[65536]; size_t o = 0; for (int i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return v_write(fd, tmp, tot, -1); }
  for (int i = 0; i < c; i++) if (v[i].iov_len) return v_write(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (is_vpath(p)) return v_open(p, fl);
  if (ACTIVE && p && (!strncmp(p, "/sys/", 5) || !strcmp(p, "/proc/self/cgroup"))) { errno = ENOENT; return -1; } /* no CPU quota */
  return (int)RAW4(SYS_openat, d, p, fl, m);
}
EXPORT int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat64(d, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat64(AT_FDCWD, p, fl, m); }
EXPORT int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat64(AT_FDCWD, p, fl, m); }
EXPORT int creat64(const char *p, mode_t m) { return openat64(AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, m); }
EXPORT int creat(const char *p, mode_t m) { return creat64(p, m); }
EXPORT int close(int fd) {
  if (!is_vfd(fd)) return (int)RAW3(SYS_close, fd, 0, 0);
  Fd *f = vfd(fd);
  if (f->inode < 0) { errno = EBADF; return -1; }
  int fk; io_op(C_CL, 0, &fk);
  int i = f->inode; drop_fd(P, f);
  log_ev(me, C_CL, 13, fk, i, 0); after(C_CL);
  return 0;
}
static u32 st_mode_of(Inode *n) {
  return n->kind == K_REG || n->kind == K_SPECIAL ? S_IFREG | 0644 : n->kind == K_PIPE ? S_IFIFO | 0600 : n->kind == K_DIR ? S_IFDIR | 0755 : S_IFCHR | 0666;
}
static u64 st_size_of(Inode *n) { return n->kind == K_REG ? n->len : n->kind == K_DIR ? 4096 : 0; }
static int v_stat_common(int inode_or_neg) {
  int fk; int e = io_op(C_ST, 0, &fk);
  if (e <= 0 && inode_or_neg < 0) e = ENOENT;
  log_ev(me, C_ST, 14, fk, inode_or_neg, e > 0 ? -e : 0); after(C_ST);
  if (e > 0) { errno = e; return -1; }
  return 0;
}
static int path_inode(const char *p) { int s = std_alias(p); return s >= 0 ? P->fd[s].inode : find_path(p); }
static int v_stat(int i, struct stat *st) {
  if (v_stat_common(i)) return -1;
  Inode *n = &W->ino[i]; memset(st, 0, sizeof *st);
  st->st_mode = st_mode_of(n); st->st_size = (off_t)st_size_of(n); st->st_ino = 1000 + (u64)i; st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
  return 0;
}
static int raw_stat(long nr, long a, long b, long c, long d) { return (int)RAW4(nr, a, b, c, d); }
EXPORT int fstat(int fd, struct stat *st) { if (is_vfd(fd)) return v_stat(vfd(fd)->inode, st); return raw_stat(SYS_fstat, fd, (long)st, 0, 0); }
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) { if (is_vpath(p)) return v_stat(path_inode(p), st); return raw_stat(SYS_stat, (long)p, (long)st, 0, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) { if (is_vpath(p)) return v_stat(path_inode(p), st); return raw_stat(SYS_lstat, (long)p, (long)st, 0, 0); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) {
  if (is_vpath(p)) return v_stat(path_inode(p), st);
  if ((fl & AT_EMPTY_PATH) && p && !*p && is_vfd(d)) return v_stat(vfd(d)->inode, st);
  return raw_stat(SYS_newfstatat, d, (long)p, (long)st, fl);
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
  int v = -2;
  if (is_vpath(p)) v = path_inode(p);
  else if ((fl & AT_EMPTY_PATH) && empty_str(p) && is_vfd(d)) v = vfd(d)->inode;
  if (v == -2) return (int)RAW6(SYS_statx, d, p, fl, mask, sx, 0);
  if (v_stat_common(v)) return -1;
  Inode *n = &W->ino[v]; memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (u16)st_mode_of(n); sx->stx_size = st_size_of(n); sx->stx_ino = 1000 + (u64)v; sx->stx_nlink = 1; sx->stx_blksize = 4096;
  return 0;
}
EXPORT off_t lseek64(int fd, off_t o, int wh) {
  if (!is_vfd(fd)) return (off_t)RAW3(SYS_lseek, fd, o, wh);
  Fd *f = vfd(fd);
  if (f->inode < 0) { errno = EBADF; return -1; }
  Inode *n = &W->ino[f->inode];
  if (n->kind != K_REG && n->kind != K_SPECIAL) { errno = ESPIPE; return -1; }
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->pos : (i64)st_size_of(n);
  if (b + o < 0) { errno = EINVAL; return -1; }
  f->pos = (u64)(b + o); return (off_t)f->pos;
}
EXPORT off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
EXPORT int ftruncate64(int fd, off_t l) {
  if (!is_vfd(fd)) return (int)RAW3(SYS_ftruncate, fd, l, 0);
  Fd *f = vfd(fd); if (f->inode < 0 || l < 0 || l > SLOT) { errno = EINVAL; return -1; }
  Inode *n = &W->ino[f->inode]; if (n->kind != K_REG) { errno = EINVAL; return -1; }
  if ((u64)l > n->len) memset(slot(f->inode) + n->len, 0, (u64)l - n->len);
  n->len = (u64)l; n->touched = 1; return 0;
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
static int v_sync(int fd) { int fk; int e = io_op(C_MISC, 0, &fk); log_ev(me, C_MISC, 15, fk, vfd(fd)->inode, -e); after(C_MISC); if (e > 0) { errno = e; return -1; } return 0; }
EXPORT int fsync(int fd) { if (is_vfd(fd)) return v_sync(fd); return (int)RAW3(SYS_fsync, fd, 0, 0); }
EXPORT int fdatasync(int fd) { if (is_vfd(fd)) return v_sync(fd); return (int)RAW3(SYS_fdatasync, fd, 0, 0); }
EXPORT int isatty(int fd) { if (is_vfd(fd)) { errno = ENOTTY; return 0; } char t[64]; return raw(SYS_ioctl, fd, 0x5401, (long)t, 0,0,0) == 0; }
EXPORT int ioctl(int fd, unsigned long r, ...) {
  va_list ap; va_start(ap, r); void *a = va_arg(ap, void *); va_end(ap);
  if (is_vfd(fd)) { errno = ENOTTY; return -1; }
  return (int)RAW3(SYS_ioctl, fd, r, a);
}
static int v_dup(int fd, int min) {
  Fd *f = vfd(fd); if (f->inode < 0) { errno = EBADF; return -1; }
  int k; for (k = min < 3 ? 3 : min; k < MAXFD; k++) if (P->fd[k].inode < 0) break;
  if (k >= MAXFD) { errno = EMFILE; return -1; }
  P->fd[k] = *f; Inode *n = &W->ino[f->inode];
  if (n->kind == K_PIPE) { if ((f->flags & O_ACCMODE) == O_RDONLY) n->readers++; else n->writers++; }
  if (n->kind == K_REG) P->fd[k].flags |= O_APPEND; /* shared offset approximated for the append-only uses */
  return fdnum(k);
}
EXPORT int dup(int fd) { if (is_vfd(fd)) return v_dup(fd, 3); return (int)RAW3(SYS_dup, fd, 0, 0); }
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (is_vfd(fd)) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return v_dup(fd, 3);
    if (cmd == F_GETFL) return (int)(vfd(fd)->flags & ~(u32)O_CLOEXEC);
    if (vfd(fd)->inode < 0) { errno = EBADF; return -1; }
    return 0;
  }
  return (int)RAW3(SYS_fcntl, fd, cmd, a);
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl64(fd, cmd, a); }
EXPORT int poll(struct pollfd *f, nfds_t n, int t) {
  if (ACTIVE && n) { int v = 0; for (nfds_t i = 0; i < n; i++) if (is_vfd(f[i].fd)) { v = 1; f[i].revents = f[i].events & (POLLIN | POLLOUT); } if (v) { int c = 0; for (nfds_t i = 0; i < n; i++) c += f[i].revents != 0; return c; } }
  return (int)RAW3(SYS_poll, f, n, t);
}
EXPORT int rename(const char *a, const char *b) {
  if (!is_vpath(a)) return (int)RAW3(SYS_rename, a, b, 0);
  int fk; int e = io_op(C_MISC, 0, &fk); int i = find_path(a), j = find_path(b);
  if (!e && i < 0) e = ENOENT;
  if (e <= 0 && strlen(b) < sizeof W->ino[i].name) { if (j >= 0 && j != i) W->ino[j].name[0] = 0; strcpy(W->ino[i].name, b); W->ino[i].touched = 1; }
  log_ev(me, C_MISC, 16, fk, i, -e); after(C_MISC);
  if (e > 0) { errno = e; return -1; } return 0;
}
EXPORT int renameat(int d, const char *a, int d2, const char *b) { if (is_vpath(a)) return rename(a, b); return (int)RAW4(SYS_renameat, d, a, d2, b); }
EXPORT int unlink(const char *a) {
  if (!is_vpath(a)) return (int)RAW3(SYS_unlink, a, 0, 0);
  int fk; int e = io_op(C_MISC, 0, &fk); int i = find_path(a);
  if (!e && i < 0) e = ENOENT;
  if (e <= 0) { W->ino[i].name[0] = 0; W->ino[i].touched = 1; }
  log_ev(me, C_MISC, 17, fk, i, -e); after(C_MISC);
  if (e > 0) { errno = e; return -1; } return 0;
}
EXPORT int unlinkat(int d, const char *a, int f) { if (is_vpath(a)) return unlink(a); return (int)RAW3(SYS_unlinkat, d, a, f); }
EXPORT int access(const char *a, int m) { if (is_vpath(a)) { if (path_inode(a) < 0) { errno = ENOENT; return -1; } return 0; } return (int)RAW3(SYS_access, a, m, 0); }
EXPORT int faccessat(int d, const char *a, int m, int f) { if (is_vpath(a)) return access(a, m); return (int)RAW4(SYS_faccessat, d, a, m, f); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { if (is_vpath(p)) { errno = path_inode(p) < 0 ? ENOENT : EINVAL; return -1; } return (ssize_t)RAW3(SYS_readlink, p, b, n); }
EXPORT char *realpath(const char *p, char *r) {
  static char *(*orig)(const char *, char *);
  if (is_vpath(p)) { if (path_inode(p) < 0) { errno = ENOENT; return 0; } if (!r) r = __libc_malloc(4096); return r ? strcpy(r, p) : 0; }
  if (!orig) orig = dlsym(RTLD_NEXT, "realpath");
  return orig(p, r);
}
EXPORT void *mmap64(void *a, size_t l, int pr, int fl, int fd, off_t o) {
  if (!(fl & MAP_ANONYMOUS) && is_vfd(fd)) {
    /* private snapshot of the simulated file */
    Fd *f = vfd(fd); if (f->inode < 0 || W->ino[f->inode].kind != K_REG || (fl & MAP_SHARED)) { errno = ENODEV; return MAP_FAILED; }
    long r = raw(SYS_mmap, (long)a, (long)l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    u64 len = W->ino[f->inode].len; if ((u64)o < len) { u64 k = len - (u64)o; memcpy((void *)r, slot(f->inode) + o, k < l ? k : l); }
    (void)pr; return (void *)r;
  }
  long r = raw(SYS_mmap, (long)a, (long)l, pr, fl, fd, o);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
EXPORT void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) { return mmap64(a, l, pr, fl, fd, o); }
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) { if (is_vfd(a) || is_vfd(b)) { errno = ENOSYS; return -1; } return (ssize_t)RAW6(SYS_copy_file_range, a, ao, b, bo, n, f); }
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { if (is_vfd(a) || is_vfd(b)) { errno = EINVAL; return -1; } return (ssize_t)RAW4(SYS_sendfile, a, b, o, n); }
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
EXPORT ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) { if (is_vfd(a) || is_vfd(b)) { errno = EINVAL; return -1; } return (ssize_t)RAW6(SYS_splice, a, ao, b, bo, n, f); }
EXPORT int posix_fadvise64(int fd, off_t o, off_t l, int ad) { if (is_vfd(fd)) return 0; return (int)-raw(SYS_fadvise64, fd, o, l, ad, 0, 0); }
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int ad) { return posix_fadvise64(fd, o, l, ad); }
EXPORT int flock(int fd, int op) { if (is_vfd(fd)) return 0; return (int)RAW3(SYS_flock, fd, op, 0); }
EXPORT int fchmod(int fd, mode_t m) { if (is_vfd(fd)) return 0; return (int)RAW3(SYS_fchmod, fd, m, 0); }
#define PID (4242 + (int)(W->layout % 20000))
static pid_t v_gettid(void) { return !ACTIVE ? (pid_t)raw(SYS_gettid, 0,0,0,0,0,0) : tid == 0 ? PID + me : 5000 + me * 100 + tid; }
EXPORT pid_t gettid(void) { return v_gettid(); }
EXPORT pid_t getpid(void) { return ACTIVE ? PID + me : (pid_t)raw(SYS_getpid, 0,0,0,0,0,0); }

/* ---------- interposed: time ---------- */
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!ACTIVE) return (int)RAW3(SYS_clock_gettime, id, ts, 0);
  u64 nth = ++P->cnt[C_CK]; int fk = 0;
  if (W->nfault) run_faults(C_CK, nth, 0, &fk);
  W->clock_ns += 1000;
  i64 t = (i64)W->clock_ns;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += W->rt_off;
  else if (P->nclk++ < 10) P->clk[P->nclk - 1] = (u64)t;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *z) { (void)z; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
  if (!ACTIVE) return (int)-raw(SYS_clock_nanosleep, id, fl, (long)rq, (long)rm, 0, 0);
  u64 d = (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec;
  int fk; io_op(C_MISC, 0, &fk);
  u64 base = id == CLOCK_REALTIME ? (u64)((i64)W->clock_ns + W->rt_off) : W->clock_ns;
  u64 end = !(fl & TIMER_ABSTIME) ? W->clock_ns + d : d > base ? W->clock_ns + (d - base) : W->clock_ns;
  if (!W->multi) { W->slept_ns += end - W->clock_ns; W->clock_ns = end; } else if (end > W->clock_ns) block_self(T_SLEEP, 0, 0, end);
  after(C_MISC); return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!ACTIVE) return (int)RAW3(SYS_nanosleep, rq, rm, 0);
  return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
}

/* ---------- interposed: entropy ---------- */
static ssize_t v_random(void *b, size_t n) {
  int fk = 0; size_t lim = n; u64 nth = ++P->cnt[C_RN];
  int e = W->nfault ? run_faults(C_RN, nth, &lim, &fk) : 0;
  if (e > 0) { log_ev(me, C_RN, 18, fk, -1, -e); errno = e; return -1; }
  rnd_bytes(b, lim); log_ev(me, C_RN, 18, fk, -1, (i64)lim); after(C_RN);
  return (ssize_t)lim;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { if (ACTIVE) return v_random(b, n); return (ssize_t)RAW3(SYS_getrandom, b, n, f); }
EXPORT int getentropy(void *b, size_t n) {
  size_t o = 0; while (o < n) { ssize_t r = getrandom((char *)b + o, n - o, 0); if (r < 0) { if (errno == EINTR) continue; return -1; } o += (size_t)r; } return 0;
}

/* ---------- interposed: threads ---------- */
EXPORT int sched_yield(void) {
  if (!ACTIVE || !W->multi) return (int)RAW3(SYS_sched_yield, 0, 0, 0);
  count_step();
  int n = pick_next(SELF, 1);
  if (n != SELF && n >= 0) pass_to(n, 1, -1);
  return 0;
}
static long v_futex(u32 *addr, int op, u32 val, const struct timespec *ts) {
  int cmd = op & 127;
  count_step();
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    u64 dl = 0;
    if (ts) {
      i64 d = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d += (i64)W->clock_ns; else if (op & FUTEX_CLOCK_REALTIME) d -= W->rt_off;
      if (d <= (i64)W->clock_ns) { errno = ETIMEDOUT; return -1; }
      dl = (u64)d;
    }
    block_self(T_FUTEX, 0, (u64)addr, dl);
    if (THR(SELF)->timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  long woken = 0;
  while (woken < (long)(int)val) {
    int w[MAXT], n = 0;
    for (int t = 0; t < MAXT; t++) if (P->thr[t].state == T_FUTEX && P->thr[t].addr == (u64)addr) w[n++] = t;
    if (!n) break;
    P->thr[w[W->sched_mode ? sched_rand() % n : 0]].state = T_READY; woken++;
  }
  if (woken) sched_point();
  return woken;
}
static int (*o_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*o_join)(pthread_t, void **), (*o_detach)(pthread_t);
typedef struct { void *(*fn)(void *); void *arg; int id; } Start;
static pthread_key_t thr_key;
static void thr_done(void) { /* give up the turn for good */
  Thr *h = THR(SELF);
  h->state = h->detached ? T_FREE : T_DONE;
  for (int t = 0; t < MAXT; t++) if (P->thr[t].state == T_JOIN && P->thr[t].wait == (u32)tid) P->thr[t].state = T_READY;
  log_ev(me, C_NONE, 7, 0, -1, tid);
  int n = pick_next(SELF, 0);
  t_out = 1;
  if (n < 0) { W->deadlock = 1; abort_world(); die(); }
  dying = (int)raw(SYS_gettid, 0, 0,0,0,0,0);
  give_turn(n);
}
/* runs after the destructors of thread-local values, which are still part of the simulation; the last round comes last */
static void thr_key_end(void *v) {
  long round = (long)v;
  if (round < 4) pthread_setspecific(thr_key, (void *)(round + 1));
  else if (ACTIVE) thr_done();
}
static void *trampoline(void *q) {
  Start st = *(Start *)q;
  tid = st.id;
  wait_turn();
  __libc_free(q);
  pthread_setspecific(thr_key, (void *)1l);
  return st.fn(st.arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!ACTIVE) return o_create(t, a, fn, arg);
  count_step();
  int id; for (id = 1; id < MAXT; id++) if (P->thr[id].state == T_FREE) break;
  if (id == MAXT) return EAGAIN;
  Start *st = __libc_malloc(sizeof *st); *st = (Start){ fn, arg, id };
  Thr *h = &P->thr[id]; memset(h, 0, sizeof *h);
  int det = 0; if (a) pthread_attr_getdetachstate(a, &det);
  h->detached = det == PTHREAD_CREATE_DETACHED;
  P->threads++; W->multi = 1;
  hold++; int r = o_create(t, a, trampoline, st); hold--;
  if (r) { __libc_free(st); return r; }
  h->pth = (u64)*t; h->state = T_READY;
  log_ev(me, C_NONE, 6, 0, -1, id);
  sched_point();
  return 0;
}
static int thr_of(pthread_t t) { for (int i = 1; i < MAXT; i++) if (P->thr[i].state != T_FREE && P->thr[i].pth == (u64)t) return i; return -1; }
EXPORT int pthread_join(pthread_t t, void **ret) {
  if (!ACTIVE) return o_join(t, ret);
  count_step();
  int i = thr_of(t);
  if (i > 0) { while (P->thr[i].state != T_DONE) block_self(T_JOIN, (u32)i, 0, 0); }
  hold++; int r = o_join(t, ret); hold--; /* the thread has nothing left to do but to unwind its stack */
  if (i > 0) P->thr[i].state = T_FREE;
  return r;
}
EXPORT int pthread_detach(pthread_t t) {
  if (ACTIVE) { int i = thr_of(t); if (i > 0) { P->thr[i].detached = 1; if (P->thr[i].state == T_DONE) P->thr[i].state = T_FREE; } }
  return o_detach(t);
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (!ACTIVE) { long r = RAW3(SYS_sched_getaffinity, p, n, m); return r < 0 ? -1 : 0; }
  memset(m, 0, n); for (u32 i = 0; i < W->ncpu && i < n * 8; i++) ((unsigned char *)m)[i / 8] |= (unsigned char)(1 << (i & 7));
  return 0;
}
EXPORT long sysconf(int k) {
  static long (*orig)(int);
  if (ACTIVE && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return W->ncpu;
  if (!orig) orig = dlsym(RTLD_NEXT, "sysconf");
  return orig(k);
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (ACTIVE) switch (n) {
    case SYS_gettid: return v_gettid();
    case SYS_sched_yield: return sched_yield();
    case SYS_futex: { int op = (int)b & 127; if (op == 0 || op == 1 || op == 9 || op == 10) return v_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d); break; }
    case SYS_getpid: return getpid();
    case SYS_getrandom: return v_random((void *)a, (size_t)b);
    case SYS_read: if (is_vfd((int)a)) return read((int)a, (void *)b, (size_t)c); break;
    case SYS_write: if (is_vfd((int)a)) return write((int)a, (void *)b, (size_t)c); break;
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
    case SYS_copy_file_range: if (is_vfd((int)a) || is_vfd((int)c)) { errno = ENOSYS; return -1; } break;
  }
  return RAW6(n, a, b, c, d, e, f);
}

/* ---------- interposed: heap ---------- */
/* threads may also be preempted where they allocate or free memory; not while the C library might hold a lock of its own */
static void heap_point(void) {
  if (!ACTIVE || hold || !P->threads || !W->sched_mode) return;
  u32 k = W->sched_param >> 8 & 31;
  static u32 used;
  int left = used < (W->quota ? W->quota : 20000);
  if (!left) k += 10;
  if (!k || (sched_rand() & ((1u << (k - 1)) - 1))) return;
  if (left) used++;
  sched_point();
}
/* the client program of the library is instrumented (SanitizerCoverage): its threads, and the library code they run,
 * may be preempted at every branch, load and store */
static u64 cov_left = 1, cov_gaps; /* points until the next preemption; frequent preemptions so far */
static void cov_slow(void) {
  u32 k = W->sched_param >> 13 & 31;
  if (!ACTIVE || hold) { cov_left = 1; return; }
  P->covpts++;
  if (!W->sched_mode || !k || cov_gaps >= (W->quota ? W->quota : 6000)) { /* nobody waits for ever for somebody who spins */
    cov_left = 1 << 20;
    int n = pick_next(SELF, 1); if (n >= 0 && n != SELF) pass_to(n, 1, -1);
    return;
  }
  u64 r = sched_rand(); /* bursts of preemptions */
  cov_gaps++; cov_left = 1 + ((r & 63) ? (r >> 8 & ((2ull << k) - 1)) : 1ull << (r >> 8 & 15));
  sched_point();
}
static inline void cov_point(void) { if (g_active && P->threads && !--cov_left) cov_slow(); }
/* shared data: atomics, and what lies in the program's static memory, may be preempted at more often, above all where an
 * address is used rarely */
static u64 data_lo, data_hi; static u32 hot[1024], hots;
static int find_data(struct dl_phdr_info *i, size_t n, void *d) { /* the first is the program itself */
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W) {
    u64 a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (!data_hi) data_lo = a, data_hi = b;
    else { if (a < data_lo) data_lo = a; if (b > data_hi) data_hi = b; }
  }
  return 1;
}
static void hot_slow(const volatile void *a) {
  u32 h = W->sched_param >> 18 & 7;
  if (!ACTIVE || hold || !W->sched_mode || !h || hots >= (W->quota ? W->quota : 6000)) return;
  u32 *n = &hot[(u64)a * 0x9E3779B97F4A7C15ull >> 54];
  if (*n < ~0u) ++*n;
  u32 lim = 1u << (h + 5), r = (u32)(sched_rand() >> 16);
  if (*n <= lim ? r & 1 : r % *n >= lim / 2) return;
  hots++; P->covpts++;
  sched_point();
}
static inline void hot_point(const volatile void *a) { if (g_active && P->threads) hot_slow(a); }
static inline void mem_point(void *a) { cov_point(); if ((u64)a - data_lo < data_hi - data_lo) hot_point(a); }
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) { cov_point(); }
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { }
#define COV(x) EXPORT void __sanitizer_cov_load##x(void *a) { mem_point(a); } EXPORT void __sanitizer_cov_store##x(void *a) { mem_point(a); }
COV(1) COV(2) COV(4) COV(8) COV(16)
EXPORT void __tsan_init(void) { }
EXPORT void __tsan_func_entry(void *a) { }
EXPORT void __tsan_func_exit(void) { }
EXPORT void __tsan_atomic_thread_fence(int o) { cov_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int o) { }
#define RMW(n, t, op) EXPORT t __tsan_atomic##n##_fetch_##op(volatile t *a, t v, int o) { cov_point(); hot_point(a); return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(n, t) \
  EXPORT t __tsan_atomic##n##_load(const volatile t *a, int o) { cov_point(); hot_point(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##n##_store(volatile t *a, t v, int o) { cov_point(); hot_point(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT t __tsan_atomic##n##_exchange(volatile t *a, t v, int o) { cov_point(); hot_point(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  RMW(n, t, add) RMW(n, t, sub) RMW(n, t, and) RMW(n, t, or) RMW(n, t, xor) RMW(n, t, nand) \
  EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *c, t v, int o, int p) { cov_point(); hot_point(a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *c, t v, int o, int p) { cov_point(); hot_point(a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT t __tsan_atomic##n##_compare_exchange_val(volatile t *a, t c, t v, int o, int p) { cov_point(); hot_point(a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
static int (*o_iter)(int (*)(struct dl_phdr_info *, size_t, void *), void *);
EXPORT int dl_iterate_phdr(int (*f)(struct dl_phdr_info *, size_t, void *), void *d) {
  if (!o_iter) o_iter = (int (*)(int (*)(struct dl_phdr_info *, size_t, void *), void *))dlsym(RTLD_NEXT, "dl_iterate_phdr");
  hold++; int r = o_iter(f, d); hold--; return r;
}
static int gate(size_t sz) {
  if (!ACTIVE) return 0;
  Proc *p = P; u64 nth = ++p->nalloc; p->cnt[C_AL]++;
  if (p->heap_limit && p->heap_cur + (i64)sz > (i64)p->heap_limit) { log_ev(me, C_AL, 19, F_NOMEM, -1, 0); return 1; }
  if (W->nfault) {
    int fk = 0, e = run_faults(C_AL, nth, 0, &fk);
    if (kill_after) die();
    if (e) { log_ev(me, C_AL, 19, fk, -1, (i64)nth); return 1; }
  }
  return 0;
}
static void heap_acct(void *q, int sign) { /* also of threads that unwind outside the simulation */
  if (!g_active || !q) return;
  i64 c = __atomic_add_fetch(&P->heap_cur, sign * (i64)malloc_usable_size(q), __ATOMIC_SEQ_CST);
  if (c > P->heap_peak) P->heap_peak = c;
}
static int poison = -1; /* what fresh memory contains */
static void spoil(void *q, size_t n) { if (poison >= 0 && q && ACTIVE) memset(q, poison, n < 1 << 20 ? n : 1 << 20); }
EXPORT void *malloc(size_t n) { heap_point(); if (gate(n)) { errno = ENOMEM; return 0; } void *q = __libc_malloc(n); heap_acct(q, 1); spoil(q, n); return q; }
EXPORT void *calloc(size_t a, size_t b) { heap_point(); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } if (gate(n)) { errno = ENOMEM; return 0; } void *q = __libc_calloc(a, b); heap_acct(q, 1); return q; }
EXPORT void *realloc(void *o, size_t n) {
  heap_point();
  if (ACTIVE && gate(o && malloc_usable_size(o) >= n ? 0 : n - (o ? malloc_usable_size(o) : 0))) { errno = ENOMEM; return 0; }
  heap_acct(o, -1);
  size_t was = o ? malloc_usable_size(o) : 0;
  void *q = __libc_realloc(o, n);
  if (q && n > was) spoil((char *)q + was, n - was);
  if (!q && n && o) heap_acct(o, 1); else heap_acct(q, 1);
  return q;
}
EXPORT void free(void *q) { heap_point(); heap_acct(q, -1); __libc_free(q); }
EXPORT void *memalign(size_t al, size_t n) { heap_point(); if (gate(n)) { errno = ENOMEM; return 0; } void *q = __libc_memalign(al, n); heap_acct(q, 1); spoil(q, n); return q; }
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) { void *q = memalign(al, n); if (!q) return ENOMEM; *o = q; return 0; }

/* ---------- fork server ---------- */
static int (*real_main)(int, char **, char **);
static void proc_exited(int p, int status) { /* runs in the fork server with the dead process's turn */
  Proc *q = &W->proc[p];
  q->state = S_EXITED; q->status = status; q->t_end = W->clock_ns;
  if (W->nproc <= 1) return;
  for (int k = 0; k < MAXFD; k++) drop_fd(q, &q->fd[k]);
  if (W->abort_all || (W->turn & 255) != (u32)p) return;
  int n = pick_next(p, 0);
  if (n >= 0) { log_ev(n & 255, C_NONE, 5, 0, -1, n >> 8); give_turn(n); return; }
  for (u32 i = 0; i < W->nproc; i++) if (W->proc[i].state == S_READY) { W->deadlock = 1; abort_world(); return; }
}
static char *cargv[MAXARG + 1], *cenv[8];
static int wrap_main(int argc, char **argv, char **envp) {
  if (!W) return real_main(argc, argv, envp);
  for (;;) {
    unsigned char cmd;
    long r = raw(SYS_read, FD_CMD, (long)&cmd, 1, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r != 1) { raw(SYS_exit_group, 0, 0,0,0,0,0); }
    me = cmd;
    pid_t c = fork();
    if (c == 0) {
      raw(SYS_close, FD_CMD, 0,0,0,0,0); raw(SYS_close, FD_ST, 0,0,0,0,0);
      struct rlimit rl = { W->cpu_s, W->cpu_s }; raw(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0,0,0,0);
      rl.rlim_cur = rl.rlim_max = 3ull << 30; raw(SYS_setrlimit, RLIMIT_AS, (long)&rl, 0,0,0,0);
      rl.rlim_cur = rl.rlim_max = 0; raw(SYS_setrlimit, RLIMIT_CORE, (long)&rl, 0,0,0,0);
      raw(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL, 0,0,0,0);
      Proc *p = P; p->pid = (u32)raw(SYS_getpid, 0,0,0,0,0,0);
      for (u32 i = 0; i < p->argc; i++) cargv[i] = p->argbuf + p->argoff[i];
      cargv[p->argc] = 0;
      int k = 0; cenv[k++] = "PATH=/usr/bin:/bin"; cenv[k++] = "LANG=C"; if (p->env[0]) cenv[k++] = p->env; cenv[k] = 0;
      environ = cenv;
      if (W->nproc > 1) wait_turn();
      mallopt(M_ARENA_MAX, 1);
      if (W->layout) { /* another address-space layout, and other garbage in fresh memory */
        u64 x = mix(W->layout ^ 0xA51); poison = (int)(x >> 40 & 255); void *volatile leak = __libc_malloc((x % 4096) * 16); (void)leak;
        raw(SYS_mmap, 0, (long)((x >> 16) % 64 + 1) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      }
      p->t_start = W->clock_ns;
      g_active = 1;
      return real_main((int)p->argc, cargv, cenv);
    }
    int st = 0;
    if (c < 0) st = 0xFF00 + 99;
    else while (raw(SYS_wait4, c, (long)&st, 0, 0, 0, 0) == -EINTR) {}
    proc_exited(me, st);
    u32 rep[2] = { (u32)me, (u32)st };
    raw(SYS_write, FD_ST, (long)rep, 8, 0, 0, 0);
  }
}
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rf)(void), void *se) {
  int (*orig)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
  real_main = m;
  o_create = dlsym(RTLD_NEXT, "pthread_create"); o_join = dlsym(RTLD_NEXT, "pthread_join"); o_detach = dlsym(RTLD_NEXT, "pthread_detach"); pthread_key_create(&thr_key, thr_key_end); dl_iterate_phdr(find_data, 0);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, "SIM_WORLD=1", 11)) {
    long r = raw(SYS_mmap, 0, HDR + (long)MAXI * SLOT, PROT_READ | PROT_WRITE, MAP_SHARED, FD_SHM, 0);
    if (r < 0 && r > -4096) raw(SYS_exit_group, 98, 0,0,0,0,0);
    W = (World *)r;
    if (W->version != WORLD_VERSION || W->size != sizeof(World)) raw(SYS_exit_group, 97, 0,0,0,0,0);
  }
  return orig(wrap_main, argc, argv, init, fini, rf, se);
}
