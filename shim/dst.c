// Deterministic simulation of a process's environment.
//
// This library is preloaded into the program under test.  It defines the C
// library symbols through which the program meets the outside world: files,
// clocks, entropy, processors, threads and futexes.  Exactly one thread runs
// at a time; who runs, what every I/O call returns, how time passes and where
// the process crashes is decided here, from one PRNG (random mode) or from an
// explicit list of decisions (replay mode).  The disk is an in-memory one with
// a durability model.
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <link.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// The program's copying is counted; the library's own is not.
static u64 moved; // bytes the program copied, read and wrote
static inline void *own_memcpy(void *d, const void *s, size_t n) {
  void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
#define memcpy own_memcpy

// ---------------------------------------------------------------- raw syscalls
static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void die(const char *msg) {
  rsys(SYS_write, 2, (long)"dst: ", 5, 0, 0, 0);
  rsys(SYS_write, 2, (long)msg, strlen(msg), 0, 0, 0);
  rsys(SYS_write, 2, (long)"\n", 1, 0, 0, 0);
  rsys(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- PRNG
typedef struct { u64 s; } Rng;
static u64 rnext(Rng *r) {
  u64 z = (r->s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rbelow(Rng *r, u64 n) { return n ? rnext(r) % n : 0; }
static Rng rng_io, rng_sched, rng_hash, rng_crash;

// ---------------------------------------------------------------- configuration
static struct {
  int random;          // draw decisions from the PRNG (else only the list)
  u64 seed, hseed, crash_seed;
  int ncpu;
  u64 steplimit;
  u64 tick;            // ns per clock reading
  long diskcap;        // bytes, -1 = unlimited
  // probabilities per 65536
  u32 p_sread, p_swrite, p_eintr, p_rerr, p_werr, p_oerr, p_merr, p_out, p_outerr, p_spawn, p_tjump, p_spur, p_slow, p_cjump, p_rskew;
  u64 linens;          // ns that pass with every write to stdout
  int sched;           // 0 = run until blocked, 1 = random, 2 = priorities (PCT)
  u64 pmean;           // mean number of steps between pre-emptions
  u32 p_sync;          // chance of a switch at synchronisation points
  int pct_d; u64 pct_len;
  int logio, cov;
  int fault_after;     // no random faults before this I/O ordinal
  u32 p_serr;          // failing sync
  u64 pid, ino0;       // process id, first number of new inodes
  int mem;             // follow the use of memory
} C;

typedef struct { char kind; u64 ord; long v1, v2; } Dec;
static Dec *forced; static int nforced;       // decisions given
static Dec *taken; static int ntaken, captaken; // decisions taken (non-default ones)
static void record(char kind, u64 ord, long v1, long v2) {
  if (ntaken == captaken) { captaken = captaken ? captaken * 2 : 256; taken = realloc(taken, captaken * sizeof(Dec)); }
  taken[ntaken++] = (Dec){kind, ord, v1, v2};
}
static int cmp_dec(const void *a, const void *b) {
  const Dec *x = a, *y = b;
  if (x->kind != y->kind) return x->kind < y->kind ? -1 : 1;
  return x->ord < y->ord ? -1 : x->ord > y->ord;
}
// The first decision of this kind at or after `ord` (they are sorted).
static Dec *next_forced(char kind, u64 ord) {
  int lo = 0, hi = nforced; Dec k = {kind, ord, 0, 0};
  while (lo < hi) { int m = (lo + hi) / 2; if (cmp_dec(&forced[m], &k) < 0) lo = m + 1; else hi = m; }
  return lo < nforced && forced[lo].kind == kind ? &forced[lo] : NULL;
}
static Dec *find_forced(char kind, u64 ord) {
  if (!nforced) return NULL;
  Dec *d = next_forced(kind, ord);
  return d && d->ord == ord ? d : NULL;
}

// ---------------------------------------------------------------- report buffer
typedef struct { char *p; size_t n, cap; } Buf;
static void bput(Buf *b, const void *d, size_t n) {
  if (b->n + n > b->cap) { size_t c = b->cap ? b->cap : 4096; while (c < b->n + n) c *= 2; b->p = realloc(b->p, c); if (!b->p) die("oom"); b->cap = c; }
  memcpy(b->p + b->n, d, n); b->n += n;
}
static void bfmt(Buf *b, const char *f, ...) {
  char t[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
  if (n > (int)sizeof t - 1) n = sizeof t - 1;
  bput(b, t, n);
}
static Buf hist, sout, serr;
static u64 last_out, max_gap; // step of the last standard output, longest time without any

static u64 evhash = 1469598103934665603ull, sig = 1469598103934665603ull;
static void mix(u64 *h, u64 v) { for (int i = 0; i < 8; i++) { *h ^= (v >> (8 * i)) & 255; *h *= 1099511628211ull; } }
static void mixs(u64 *h, const char *s) { for (; *s; s++) { *h ^= (u8)*s; *h *= 1099511628211ull; } }

enum { F_SREAD, F_SWRITE, F_EINTR, F_RERR, F_WERR, F_OERR, F_MERR, F_OUT, F_OUTERR, F_SPAWN, F_TJUMP, F_SPUR, F_DISKFULL, F_CRASH, F_PREEMPT, F_SYNCSW, F_SLOW, F_STALL, F_CJUMP, F_RSKEW, F_NCNT };
static const char *cntname[] = {"short_read", "short_write", "eintr", "read_error", "write_error", "open_error", "meta_error", "stdout_short", "stdout_error", "thread_start_failure", "time_jump", "spurious_wakeup", "disk_full", "crash", "preemption", "sync_switch", "slow_io", "stall", "clock_jump", "wall_clock_step"};
static u64 cnt[F_NCNT];

static u64 vtime = 1000000000ull; // virtual monotonic ns
static u64 io_ord, cur_ord, steps, next_stop = ~0ull, nswitch, nclock, nspawn, nunmodelled;

// ---------------------------------------------------------------- threads
#define MAXT 256
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct {
  int state; int sem; void *faddr; int bits; u64 deadline; int timedout; int join_on; pthread_t pt; int has_pt;
  void *(*fn)(void *); void *arg; u64 prio; int iter; u64 qord;
} Thr;
static Thr T[MAXT]; static int nthr = 1, nlive = 1, cur = 0; static u64 qcount;
static __thread int self_id;
static u64 next_preempt = ~0ull;
static u64 pct_points[16]; static int pct_n, pct_i, pct_based;
#define FAIR 4000000ull // steps after which a running thread yields even without a reason to
static int inited;

static void finish(const char *verdict, int code) __attribute__((noreturn));
static void write_report(const char *verdict);

static void wait_baton(int id) {
  while (!__atomic_load_n(&T[id].sem, __ATOMIC_SEQ_CST)) rsys(SYS_futex, (long)&T[id].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[id].sem, 0, __ATOMIC_SEQ_CST);
}
static void give(int id) {
  cur = id;
  __atomic_store_n(&T[id].sem, 1, __ATOMIC_SEQ_CST);
  rsys(SYS_futex, (long)&T[id].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int runnable(int id) { return T[id].state == T_RUN; }
static int nrunnable_except(int id) { int n = 0; for (int i = 0; i < nthr; i++) if (i != id && runnable(i)) n++; return n; }

static void set_next_stop(void) { next_stop = next_preempt < C.steplimit ? next_preempt : C.steplimit; }
static u64 geom(u64 mean) {
  if (mean < 1) mean = 1;
  // heavy-tailed: exponential-ish over a log-uniform mean
  u64 m = mean >> rbelow(&rng_sched, 4); if (m < 1) m = 1;
  return 1 + rbelow(&rng_sched, 2 * m);
}
static void plan_preempt(void) {
  next_preempt = ~0ull;
  if (nlive > 1) {
    Dec *f = nforced ? next_forced('P', steps + 1) : NULL;
    if (f) next_preempt = f->ord;
    // dense at first, thinner in long runs, which would take ages otherwise
    if (C.random && C.sched == 1) { u64 s = steps + geom(C.pmean * (1 + nswitch / 4000)); if (s < next_preempt) next_preempt = s; }
    if (C.random && C.sched == 2 && pct_i < pct_n) { u64 s = pct_points[pct_i]; if (s <= steps) s = steps + 1; if (s < next_preempt) next_preempt = s; }
    if (C.random && steps + FAIR < next_preempt) next_preempt = steps + FAIR;
  }
  set_next_stop();
}
static int top_prio(int except) {
  int b = -1;
  for (int i = 0; i < nthr; i++) if (i != except && runnable(i) && (b < 0 || T[i].prio > T[b].prio)) b = i;
  return b;
}
static int pick_other(int self) { // uniformly among other runnable threads
  int n = nrunnable_except(self); if (!n) return -1;
  int k = rbelow(&rng_sched, n);
  for (int i = 0; i < nthr; i++) if (i != self && runnable(i) && k-- == 0) return i;
  return -1;
}
static void note_switch(int from, int to, u64 where) { nswitch++; mix(&sig, (u64)from << 32 | (u64)to); mix(&sig, where); mix(&evhash, steps); mix(&evhash, (u64)to); }
static void switch_to(int to, u64 where) {
  int me = self_id; if (to == me) return;
  note_switch(me, to, where);
  give(to); wait_baton(me);
}
// The running thread cannot go on: choose who runs next.
static void mem_sample(void);
static void block_and_switch(u64 where) {
  int me = self_id;
  if (C.mem) mem_sample();
  for (;;) {
    int n = 0; for (int i = 0; i < nthr; i++) if (runnable(i)) n++;
    if (n) {
      int def = -1; for (int k = 1; k <= nthr; k++) { int i = (me + k) % nthr; if (runnable(i)) { def = i; break; } }
      int to = def;
      steps++;
      Dec *d = find_forced('B', steps);
      if (d && d->v1 < nthr && runnable(d->v1)) to = d->v1;
      else if (C.random && C.sched == 2) to = top_prio(-1);
      else if (C.random && C.sched == 1) { int k = rbelow(&rng_sched, n); for (int i = 0; i < nthr; i++) if (runnable(i) && k-- == 0) { to = i; break; } }
      if (to != def) record('B', steps, to, 0);
      if (next_preempt <= steps) plan_preempt();
      if (to == me) return;
      note_switch(me, to, where);
      int done = T[me].state == T_DONE;
      give(to);
      if (done) return; // exiting thread: no wait; its slot may be reused from here on
      wait_baton(me);
      return;
    }
    // nobody runnable: advance virtual time to the earliest deadline
    int b = -1; for (int i = 0; i < nthr; i++) if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline != ~0ull && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
    if (b < 0) finish("deadlock", 97);
    if (T[b].deadline > vtime) vtime = T[b].deadline;
    T[b].timedout = 1; T[b].state = T_RUN;
  }
}
static void slow_step(u64 where, int sync) {
  if (steps >= C.steplimit) finish("livelock", 96);
  int to = -1, me = self_id;
  Dec *d = find_forced('P', steps);
  if (d) { if (d->v1 < nthr && d->v1 != me && runnable(d->v1)) to = d->v1; }
  else if (C.random && steps >= next_preempt) {
    if (C.sched == 1) to = pick_other(me);
    else if (C.sched == 2 && (pct_i >= pct_n || pct_points[pct_i] > steps)) { T[me].prio = 0; to = top_prio(me); }
    else if (C.sched == 0) to = pick_other(me);
    else if (C.sched == 2 && pct_i < pct_n) { T[me].prio = pct_n - pct_i; pct_i++; int t = top_prio(-1); if (t != me) to = t; }
  }
  if (to >= 0 && to != me) { record('P', steps, to, 0); cnt[sync ? F_SYNCSW : F_PREEMPT]++; }
  plan_preempt();
  if (to >= 0 && to != me) switch_to(to, where);
}
// A synchronisation point (I/O, futex wake, thread creation ...).
static void mem_sample(void);
static void sched_point(u64 where) {
  steps++;
  if (C.mem) mem_sample();
  if (nlive <= 1) { if (steps >= next_stop) slow_step(where, 1); return; }
  if (steps >= next_stop) { slow_step(where, 1); return; }
  if (C.random) {
    int to = -1, me = self_id;
    if (C.sched == 1 && rbelow(&rng_sched, 65536) < C.p_sync) to = pick_other(me);
    else if (C.sched == 2) { int t = top_prio(-1); if (t != me) to = t; }
    if (to >= 0) { record('P', steps, to, 0); cnt[F_SYNCSW]++; switch_to(to, where); }
  }
}

// ---------------------------------------------------------------- instrumentation
static u8 *covmap; static u32 nguards;
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++nguards;
}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (__builtin_expect(covmap != NULL, 1)) covmap[*g] = 1;
  if (__builtin_expect(++steps < next_stop, 1)) return;
  if (!inited) return;
  slow_step(*g, 0);
}

// ---------------------------------------------------------------- simulated disk
typedef struct Pend { int trunc; size_t off, len; char *d; struct Pend *next; } Pend;
typedef struct Inode { char *d; size_t n, cap; char *dd; size_t dn; int shared, ddshared; Pend *pend, **ptail; int changed; int isdir; u32 mode; int links; u64 ino; } Inode;
typedef struct { char *path; Inode *ino; } Name;
typedef struct { int op; char *a, *b; Inode *ino; } DirOp; // 0 create a, 1 unlink a, 2 rename a->b
static Name *names; static int nnames, capnames;
static Name *dnames; static int ndnames;       // durable directory
static DirOp *dops; static int ndops, capdops;
static u64 inoctr = 100;
static u64 disk_used;
static long own_mem; // allocated by the simulated disk

static Name *lookup(const char *p) { for (int i = 0; i < nnames; i++) if (!strcmp(names[i].path, p)) return &names[i]; return NULL; }
static Inode *new_inode(int dir, u32 mode) { Inode *i = calloc(1, sizeof *i); i->isdir = dir; i->mode = mode; i->ptail = &i->pend; i->ino = inoctr++; i->links = 1; return i; }
static void add_name(const char *p, Inode *i) {
  if (nnames == capnames) { capnames = capnames ? capnames * 2 : 64; names = realloc(names, capnames * sizeof(Name)); }
  names[nnames++] = (Name){strdup(p), i};
}
static void del_name(Name *n) { free(n->path); *n = names[--nnames]; }
static void add_dop(int op, const char *a, const char *b, Inode *ino) {
  if (ndops == capdops) { capdops = capdops ? capdops * 2 : 64; dops = realloc(dops, capdops * sizeof(DirOp)); }
  dops[ndops++] = (DirOp){op, strdup(a), b ? strdup(b) : NULL, ino};
}
static void reserve(Inode *i, size_t n) {
  if (i->shared) { char *nd = malloc(n > i->n ? n : i->n + 1); memcpy(nd, i->d, i->n); i->cap = n > i->n ? n : i->n + 1; i->d = nd; i->shared = 0; own_mem += i->cap; }
  if (n > i->cap) { size_t c = i->cap ? i->cap : 256; while (c < n) c *= 2; i->d = realloc(i->d, c); if (!i->d) die("oom disk"); own_mem += c - i->cap; i->cap = c; }
}
static void add_pend(Inode *i, int trunc, size_t off, size_t len, const char *d) {
  Pend *p = malloc(sizeof *p); p->trunc = trunc; p->off = off; p->len = len; p->next = NULL;
  p->d = NULL; if (!trunc) { p->d = malloc(len ? len : 1); memcpy(p->d, d, len); own_mem += len + 16; }
  own_mem += sizeof *p + 16;
  *i->ptail = p; i->ptail = &p->next;
}
static void ino_write(Inode *i, size_t off, const char *d, size_t len) {
  if (off + len > i->n) { reserve(i, off + len); if (off > i->n) memset(i->d + i->n, 0, off - i->n); disk_used += off + len - i->n; i->n = off + len; }
  else reserve(i, i->n);
  memcpy(i->d + off, d, len); i->changed = 1; add_pend(i, 0, off, len, d);
}
static void ino_trunc(Inode *i, size_t n) {
  reserve(i, n > i->n ? n : i->n);
  if (n > i->n) memset(i->d + i->n, 0, n - i->n);
  disk_used += n - i->n;
  i->n = n; i->changed = 1; add_pend(i, 1, n, 0, NULL);
}
static void ino_sync(Inode *i) {
  if (i->dd && !i->ddshared) { free(i->dd); own_mem -= i->dn; }
  i->ddshared = 0;
  own_mem += i->n; i->dd = malloc(i->n ? i->n : 1); memcpy(i->dd, i->d, i->n); i->dn = i->n;
  for (Pend *p = i->pend; p;) { Pend *q = p->next; if (!p->trunc) own_mem -= p->len + 16; own_mem -= sizeof *p + 16; free(p->d); free(p); p = q; }
  i->pend = NULL; i->ptail = &i->pend;
}

// Content of an inode after a power failure.
static void ino_crash(Inode *i, char **out, size_t *outn) {
  size_t n = i->dn, cap = i->dn + 1; char *d = malloc(cap); if (n) memcpy(d, i->dd, n);
  int np = 0; for (Pend *p = i->pend; p; p = p->next) np++;
  int mode = rbelow(&rng_crash, 4); // 0 nothing, 1 everything, 2 torn prefix, 3 arbitrary subset
  int upto = mode == 0 ? 0 : mode == 2 ? (int)rbelow(&rng_crash, np + 1) : np;
  int k = 0;
  for (Pend *p = i->pend; p; p = p->next, k++) {
    int skip = 0; size_t len = p->len;
    if (k >= upto) {
      if (mode == 2 && k == upto && !p->trunc) len = rbelow(&rng_crash, p->len + 1); else break;
    }
    if (mode == 3 && rbelow(&rng_crash, 2)) skip = 1;
    if (p->trunc) { if (skip) continue; if (p->off > n) { d = realloc(d, p->off + 1); memset(d + n, 0, p->off - n); } n = p->off; continue; }
    if (p->off + len > n) { d = realloc(d, p->off + len + 1); memset(d + n, 0, p->off + len - n); n = p->off + len; }
    if (!skip) memcpy(d + p->off, p->d, len); // else: size grew but the data did not reach the disk
  }
  *out = d; *outn = n;
}
static void power_loss(void) {
  // Directory operations reach the disk in order, up to some point.
  int upto = rbelow(&rng_crash, 2) ? ndops : (int)rbelow(&rng_crash, ndops + 1);
  Name *cn = malloc((ndnames + ndops + 1) * sizeof(Name)); int ncn = ndnames;
  memcpy(cn, dnames, ndnames * sizeof(Name));
  for (int k = 0; k < upto; k++) {
    DirOp *o = &dops[k]; int f = -1;
    for (int i = 0; i < ncn; i++) if (!strcmp(cn[i].path, o->a)) f = i;
    if (o->op == 0) { if (f >= 0) cn[f].ino = o->ino; else cn[ncn++] = (Name){o->a, o->ino}; }
    else if (o->op == 1) { if (f >= 0) cn[f] = cn[--ncn]; }
    else {
      Inode *in = o->ino; if (f >= 0) cn[f] = cn[--ncn];
      int g = -1; for (int i = 0; i < ncn; i++) if (!strcmp(cn[i].path, o->b)) g = i;
      if (g >= 0) cn[g].ino = in; else cn[ncn++] = (Name){o->b, in};
    }
  }
  names = cn; nnames = ncn; capnames = ncn;
  for (int i = 0; i < nnames; i++) {
    Inode *in = names[i].ino; if (in->isdir) continue;
    if (!in->pend && in->dd) { if (in->n != in->dn || memcmp(in->d, in->dd, in->n)) { in->d = in->dd; in->n = in->dn; } continue; }
    char *d; size_t n; ino_crash(in, &d, &n); in->d = d; in->n = n; in->changed = 1; in->dd = d; in->dn = n; in->pend = NULL; in->ptail = &in->pend;
  }
}

// Normalise a path; returns 0 if it is not inside the simulated tree.
static int norm(const char *p, char *out) {
  char t[1024];
  if (p[0] != '/') snprintf(t, sizeof t, "/sim/%s", p); else snprintf(t, sizeof t, "%s", p);
  // collapse // . ..
  char *parts[64]; int np = 0; char *sv, *q;
  for (q = strtok_r(t, "/", &sv); q; q = strtok_r(NULL, "/", &sv)) {
    if (!strcmp(q, ".")) continue;
    if (!strcmp(q, "..")) { if (np) np--; continue; }
    if (np < 64) parts[np++] = q;
  }
  char *o = out; *o = 0;
  for (int i = 0; i < np; i++) { *o++ = '/'; size_t l = strlen(parts[i]); if (o - out + l > 1000) return 0; memcpy(o, parts[i], l); o += l; *o = 0; }
  if (!np) strcpy(out, "/");
  return !strncmp(out, "/sim/", 5) || !strcmp(out, "/sim");
}
static int parent_ok(const char *p) {
  char t[1024]; strcpy(t, p); char *s = strrchr(t, '/'); if (!s || s == t) return 0; *s = 0;
  if (!strcmp(t, "/sim")) return 1;
  Name *n = lookup(t); return n && n->ino->isdir;
}

typedef struct { Inode *ino; size_t off; int flags; int refs; char *path; int written; } Ofd;
#define FDBASE 1000
#define MAXFD 512
static Ofd *fds[MAXFD];
static Ofd *getfd(int fd) { if (fd < FDBASE || fd >= FDBASE + MAXFD) return NULL; return fds[fd - FDBASE]; }
static int newfd(Ofd *o) { for (int i = 0; i < MAXFD; i++) if (!fds[i]) { fds[i] = o; return FDBASE + i; } return -1; }

// ---------------------------------------------------------------- I/O events and faults
enum { OP_OPEN, OP_READ, OP_WRITE, OP_STAT, OP_SEEK, OP_SYNC, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_MKDIR, OP_OUT, OP_CLOSE };
static const char *opname[] = {"open", "read", "write", "stat", "seek", "sync", "rename", "unlink", "truncate", "mkdir", "out", "close"};
enum { K_SHORT = 1, K_EINTR = 2, K_ERR = 3, K_CBEFORE = 5, K_CMID = 6, K_CAFTER = 7 };
static int eintr_row;

static void event(int op, const char *path, long req, long ret) {
  mix(&evhash, op); mixs(&evhash, path); mix(&evhash, (u64)req); mix(&evhash, (u64)ret); mix(&evhash, vtime); mix(&evhash, self_id);
  if (C.logio) bfmt(&hist, "IO %llu %llu %d %s %ld %ld %s\n", (unsigned long long)cur_ord, (unsigned long long)vtime, self_id, opname[op], req, ret, path);
}
static void crash(int power) {
  cnt[F_CRASH]++;
  if (power) power_loss();
  finish("crash", 137);
}
static void sim_sleep(u64 ns) {
  T[self_id].state = T_SLEEP; T[self_id].deadline = vtime + ns; T[self_id].timedout = 0;
  block_and_switch(0x20001);
}
// Waits that end by now.
static void expire(void) {
  for (int i = 0; i < nthr; i++) if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline <= vtime) { T[i].timedout = 1; T[i].state = T_RUN; }
}
static const long durations[] = {1000000, 20000000, 150000000, 600000000, 2000000000, 11000000000, 31000000000, 61000000000, 130000000000, 3600000000000};
// A slow device (this thread waits, the others go on) or a stall of the whole process.
static void latency(void) {
  Dec *d = find_forced('L', cur_ord); long ns = 0, stall = 0;
  if (d) { ns = d->v1; stall = d->v2; }
  else if (C.random && C.p_slow && rbelow(&rng_io, 65536) < C.p_slow) { ns = durations[rbelow(&rng_io, 10)]; stall = rbelow(&rng_io, 3) == 0; }
  if (!ns) return;
  record('L', cur_ord, ns, stall); cnt[stall ? F_STALL : F_SLOW]++;
  if (stall) { vtime += ns; expire(); } else sim_sleep(ns);
}
// Another process changed files while this one was between two operations.
typedef struct { u64 at; char *path; u64 ino; char *d; size_t n; } XFile;
static XFile *xfiles; static int nxfiles;
static u64 *xats; static int nxats;
static void other_process(u64 at) {
  Name *nn = calloc(nnames + nxfiles + 1, sizeof(Name)); int k = 0;
  for (int i = 0; i < nnames; i++) if (names[i].ino->isdir) nn[k++] = names[i];
  for (int x = 0; x < nxfiles; x++) {
    XFile *f = &xfiles[x]; if (f->at != at) continue;
    Inode *in = NULL;
    for (int i = 0; i < nnames && !in; i++) if (names[i].ino->ino == f->ino) in = names[i].ino;
    for (int i = 0; i < MAXFD && !in; i++) if (fds[i] && fds[i]->ino->ino == f->ino) in = fds[i]->ino;
    if (!in) { in = new_inode(0, 0644); inoctr--; in->ino = f->ino; in->changed = 1; }
    if (in->n != f->n || memcmp(in->d ? in->d : "", f->d, f->n)) { ino_trunc(in, 0); ino_write(in, 0, f->d, f->n); ino_sync(in); }
    nn[k++] = (Name){strdup(f->path), in};
  }
  names = nn; nnames = capnames = k;
  disk_used = 0; for (int i = 0; i < nnames; i++) disk_used += names[i].ino->n;
  mix(&evhash, 0x9999 + at);
}
static u64 mem_peak;
static void mem_sample(void) {
  struct mallinfo2 m = mallinfo2(); long v = (long)(m.uordblks + m.hblkhd) - own_mem - (long)hist.cap - (long)sout.cap - (long)serr.cap - (long)(captaken * sizeof(Dec));
  if (v > 0 && (u64)v > mem_peak) mem_peak = v;
}
// Decide what happens to this operation.  Returns the fault kind, argument in *arg.
static int fault(int op, size_t req, long *arg) {
  u64 ord = ++io_ord;
  vtime += 1000;
  sched_point(0x10000 + op);
  cur_ord = ord;
  latency();
  cur_ord = ord;
  for (int i = 0; i < nxats; i++) if (xats[i] == ord) other_process(ord);
  if (C.mem) mem_sample();
  Dec *d = find_forced('I', ord);
  int k = 0; long a = 0;
  if (d) { k = d->v1; a = d->v2; }
  else if (C.random && ord > (u64)C.fault_after) {
    u32 r = rbelow(&rng_io, 65536);
    u64 x = rnext(&rng_io);
    if (op == OP_READ) {
      if (r < C.p_sread) { if (req > 1) { k = K_SHORT; a = 1 + (x % 3 ? x % (req - 1 < 16 ? req - 1 : 16) : x % (req - 1)); } }
      else if ((r -= C.p_sread) < C.p_eintr) k = K_EINTR;
      else if ((r -= C.p_eintr) < C.p_rerr) { k = K_ERR; a = EIO; }
    } else if (op == OP_WRITE) {
      if (r < C.p_swrite) { if (req > 1) { k = K_SHORT; a = 1 + (x % 3 ? x % (req - 1 < 16 ? req - 1 : 16) : x % (req - 1)); } }
      else if ((r -= C.p_swrite) < C.p_eintr) k = K_EINTR;
      else if ((r -= C.p_eintr) < C.p_werr) { k = K_ERR; a = x & 1 ? ENOSPC : EIO; }
    } else if (op == OP_OUT) {
      if (r < C.p_out) { if (req > 1 && (x & 1)) { k = K_SHORT; a = 1 + (x >> 1) % (req - 1); } else k = K_EINTR; }
      else if ((r -= C.p_out) < C.p_outerr) { k = K_ERR; a = x & 1 ? EPIPE : ENOSPC; }
    } else if (op == OP_OPEN) {
      if (r < C.p_eintr) k = K_EINTR;
      else if ((r -= C.p_eintr) < C.p_oerr) { static const int e[] = {EACCES, EMFILE, EIO, ENOENT}; k = K_ERR; a = e[x & 3]; }
    } else if (op == OP_SYNC) {
      if (r < C.p_eintr) k = K_EINTR; else if ((r -= C.p_eintr) < C.p_merr + C.p_serr) { k = K_ERR; a = EIO; }
    } else if (op != OP_CLOSE) {
      if (r < C.p_merr) { k = K_ERR; a = EIO; }
    }
    if (k == K_EINTR && eintr_row >= 3) k = 0;
  }
  if (k == K_SHORT && (size_t)a >= req) k = 0;
  if (k == K_SHORT && (op != OP_READ && op != OP_WRITE && op != OP_OUT)) k = 0;
  if (k == K_EINTR) eintr_row++; else eintr_row = 0;
  if (k) {
    record('I', ord, k, a);
    if (k == K_SHORT) cnt[op == OP_READ ? F_SREAD : op == OP_WRITE ? F_SWRITE : F_OUT]++;
    else if (k == K_EINTR) cnt[op == OP_OUT ? F_OUT : F_EINTR]++;
    else if (k == K_ERR) cnt[op == OP_READ ? F_RERR : op == OP_WRITE ? F_WERR : op == OP_OPEN ? F_OERR : op == OP_OUT ? F_OUTERR : F_MERR]++;
  }
  if (k == K_CBEFORE) crash(a);
  *arg = a;
  return k;
}
static void after(int k, long a) { if (k == K_CAFTER || k == K_CMID) crash(a); }
#define FAIL(e) do { errno = (e); return -1; } while (0)

static int is_json(const char *p) { size_t l = strlen(p); return l > 5 && !strcmp(p + l - 5, ".json"); }
static size_t pub_total;
static void publish(const char *path, Inode *i) {
  if (!is_json(path) || pub_total > (16u << 20)) return;
  pub_total += i->n;
  bfmt(&hist, "PUB %llu %llu %zu %s\n", (unsigned long long)cur_ord, (unsigned long long)vtime, i->n, path);
  bput(&hist, i->d, i->n); bput(&hist, "\n", 1);
}

// ---------------------------------------------------------------- interposed: files
static int sim_open(const char *path, int flags, u32 mode) {
  char p[1100];
  if (!norm(path, p)) FAIL(ENOENT);
  long a; int k = fault(OP_OPEN, 0, &a);
  if (k == K_EINTR) { event(OP_OPEN, p, flags, -EINTR); FAIL(EINTR); }
  if (k == K_ERR) { event(OP_OPEN, p, flags, -a); FAIL(a); }
  Name *n = lookup(p);
  int err = 0;
  if (n) {
    if ((flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
    else if (n->ino->isdir && (flags & O_ACCMODE) != O_RDONLY) err = EISDIR;
  } else {
    if (!(flags & O_CREAT)) err = ENOENT;
    else if (!parent_ok(p)) err = ENOENT;
  }
  if (flags & (O_TMPFILE & ~O_DIRECTORY)) err = EOPNOTSUPP;
  if (err) { event(OP_OPEN, p, flags, -err); FAIL(err); }
  Inode *i;
  if (!n) { i = new_inode(0, mode); i->changed = 1; i->dd = malloc(1); i->dn = 0; add_name(p, i); add_dop(0, p, NULL, i); }
  else { i = n->ino; if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) ino_trunc(i, 0); }
  Ofd *o = calloc(1, sizeof *o); o->ino = i; o->flags = flags; o->refs = 1; o->path = strdup(p);
  o->written = (flags & O_ACCMODE) != O_RDONLY && (!n || (flags & O_TRUNC));
  int fd = newfd(o);
  if (fd < 0) { event(OP_OPEN, p, flags, -EMFILE); FAIL(EMFILE); }
  event(OP_OPEN, p, flags, fd);
  after(k, a);
  return fd;
}
static u32 get_mode(int flags, va_list ap) { return (flags & (O_CREAT | (O_TMPFILE & ~O_DIRECTORY))) ? va_arg(ap, u32) : 0; }
EXPORT int open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); u32 m = get_mode(flags, ap); va_end(ap); return sim_open(path, flags, m); }
EXPORT int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); u32 m = get_mode(flags, ap); va_end(ap); return sim_open(path, flags, m); }
EXPORT int openat(int dfd, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); u32 m = get_mode(flags, ap); va_end(ap); if (dfd != AT_FDCWD && path[0] != '/') FAIL(ENOSYS); return sim_open(path, flags, m); }
EXPORT int openat64(int dfd, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); u32 m = get_mode(flags, ap); va_end(ap); if (dfd != AT_FDCWD && path[0] != '/') FAIL(ENOSYS); return sim_open(path, flags, m); }
EXPORT int creat(const char *path, mode_t m) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
EXPORT int creat64(const char *path, mode_t m) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }

static ssize_t sim_read(int fd, void *buf, size_t n, long at) {
  if (fd == 0) return 0;
  Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  if ((o->flags & O_ACCMODE) == O_WRONLY) FAIL(EBADF);
  if (o->ino->isdir) FAIL(EISDIR);
  size_t off = at >= 0 ? (size_t)at : o->off;
  size_t avail = off < o->ino->n ? o->ino->n - off : 0; size_t want = n < avail ? n : avail;
  long a; int k = fault(OP_READ, want, &a);
  if (k == K_EINTR) { event(OP_READ, o->path, n, -EINTR); FAIL(EINTR); }
  if (k == K_ERR) { event(OP_READ, o->path, n, -a); FAIL(a); }
  avail = off < o->ino->n ? o->ino->n - off : 0; if (want > avail) want = avail; // another thread may have truncated it
  if (k == K_SHORT && (size_t)a < want) want = a;
  memcpy(buf, o->ino->d + off, want);
  if (at < 0) o->off += want;
  moved += want;
  event(OP_READ, o->path, n, want);
  after(k, a);
  return want;
}
static void tjump(void) { // time passing while the program prints its progress
  Dec *d = find_forced('T', cur_ord);
  if (d) { vtime += d->v1; record('T', cur_ord, d->v1, 0); cnt[F_TJUMP]++; }
  else if (C.random && C.p_tjump && rbelow(&rng_io, 65536) < C.p_tjump) {
    static const long v[] = {1000000, 500000000, 5000000000, 20000000000, 31000000000, 59000000000, 60500000000, 75000000000, 130000000000, 3600000000000};
    long j = v[rbelow(&rng_io, 10)]; vtime += j; record('T', cur_ord, j, 0); cnt[F_TJUMP]++;
  }
}
static ssize_t sim_write(int fd, const void *buf, size_t n, long at) {
  long a;
  if (fd == 1 || fd == 2) {
    if (fd == 2) { if (serr.n < 1u << 20) bput(&serr, buf, n); return n; }
    int k = fault(OP_OUT, n, &a);
    if (k == K_EINTR) { event(OP_OUT, "", n, -EINTR); FAIL(EINTR); }
    if (k == K_ERR) { event(OP_OUT, "", n, -a); FAIL(a); }
    if (k == K_SHORT) n = a;
    bfmt(&hist, "OUTW %llu %llu %zu %zu\n", (unsigned long long)cur_ord, (unsigned long long)vtime, sout.n, n);
    bput(&sout, buf, n); if (steps - last_out > max_gap) max_gap = steps - last_out;
    last_out = steps;
    event(OP_OUT, "", n, n);
    vtime += C.linens; tjump();
    after(k, a);
    return n;
  }
  Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  if ((o->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
  size_t want = n;
  int k = fault(OP_WRITE, want, &a);
  if (k == K_EINTR) { event(OP_WRITE, o->path, n, -EINTR); FAIL(EINTR); }
  if (k == K_ERR) { event(OP_WRITE, o->path, n, -a); FAIL(a); }
  if (k == K_SHORT) want = a;
  if (k == K_CMID) want = rbelow(&rng_crash, n + 1);
  if (o->flags & O_APPEND) o->off = o->ino->n;
  size_t off = at >= 0 ? (size_t)at : o->off;
  if (C.diskcap >= 0 && off + want > o->ino->n) {
    size_t grow = off + want - o->ino->n; size_t left = disk_used < (u64)C.diskcap ? C.diskcap - disk_used : 0;
    if (grow > left) {
      cnt[F_DISKFULL]++;
      want = want > grow - left ? want - (grow - left) : 0;
      if (!want) { event(OP_WRITE, o->path, n, -ENOSPC); FAIL(ENOSPC); }
    }
  }
  ino_write(o->ino, off, buf, want); o->written = 1; moved += want;
  if (at < 0) o->off = off + want;
  event(OP_WRITE, o->path, n, want);
  after(k, a);
  return want;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return sim_read(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { return c > 0 ? sim_read(fd, v[0].iov_base, v[0].iov_len, -1) : 0; }
EXPORT ssize_t write(int fd, const void *b, size_t n) { return sim_write(fd, b, n, -1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
  char *b = malloc(t ? t : 1); size_t k = 0; for (int i = 0; i < c; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
  ssize_t r = sim_write(fd, b, t, -1); int e = errno; free(b); errno = e; return r;
}
EXPORT int close(int fd) {
  Ofd *o = getfd(fd);
  if (!o) { if (fd >= 0 && fd < 3) return 0; FAIL(EBADF); }
  long a; int k = fault(OP_CLOSE, 0, &a);
  fds[fd - FDBASE] = NULL;
  event(OP_CLOSE, o->path, fd, 0);
  if (--o->refs == 0) {
    if (o->written) { Name *n = lookup(o->path); if (n && n->ino == o->ino) publish(o->path, o->ino); }
    free(o->path); free(o);
  }
  after(k, a);
  return 0;
}
static long sim_seek(int fd, long off, int wh) {
  Ofd *o = getfd(fd); if (!o) FAIL(ESPIPE);
  long a; int k = fault(OP_SEEK, 0, &a);
  if (k == K_ERR) { event(OP_SEEK, o->path, off, -a); FAIL(a); }
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->off : (long)o->ino->n;
  if (b + off < 0) FAIL(EINVAL);
  o->off = b + off;
  event(OP_SEEK, o->path, off, o->off);
  after(k, a);
  return o->off;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return sim_seek(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return sim_seek(fd, o, w); }
static int sim_trunc(int fd, long n) {
  Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  long a; int k = fault(OP_TRUNC, 0, &a);
  if (k == K_ERR) { event(OP_TRUNC, o->path, n, -a); FAIL(a); }
  ino_trunc(o->ino, n); o->written = 1;
  event(OP_TRUNC, o->path, n, 0); after(k, a);
  return 0;
}
EXPORT int ftruncate(int fd, off_t n) { return sim_trunc(fd, n); }
EXPORT int ftruncate64(int fd, off64_t n) { return sim_trunc(fd, n); }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t l) { (void)fd; (void)o; (void)l; return 0; }
EXPORT int fsync(int fd) {
  Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  long a; int k = fault(OP_SYNC, 0, &a);
  if (k == K_EINTR) { event(OP_SYNC, o->path, 0, -EINTR); FAIL(EINTR); }
  if (k == K_ERR) { event(OP_SYNC, o->path, 0, -a); FAIL(a); }
  if (o->ino->isdir) { // commit all directory operations
    Name *nd = malloc((nnames + 1) * sizeof(Name)); memcpy(nd, names, nnames * sizeof(Name));
    for (int i = 0; i < nnames; i++) nd[i].path = strdup(nd[i].path);
    dnames = nd; ndnames = nnames; ndops = 0;
  } else ino_sync(o->ino);
  event(OP_SYNC, o->path, 0, 0); after(k, a);
  return 0;
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT void sync(void) { for (int i = 0; i < nnames; i++) if (!names[i].ino->isdir) ino_sync(names[i].ino); }
EXPORT int rename(const char *f, const char *t) {
  char a[1100], b[1100]; if (!norm(f, a) || !norm(t, b)) FAIL(ENOENT);
  long x; int k = fault(OP_RENAME, 0, &x);
  if (k == K_ERR) { event(OP_RENAME, b, 0, -x); FAIL(x); }
  Name *n = lookup(a); if (!n || !parent_ok(b)) { event(OP_RENAME, b, 0, -ENOENT); FAIL(ENOENT); }
  if (strcmp(a, b)) {
    Inode *i = n->ino; del_name(n); Name *m = lookup(b);
    if (m) { disk_used -= m->ino->n; del_name(m); }
    add_name(b, i); add_dop(2, a, b, i); i->changed = 1;
    publish(b, i);
  }
  event(OP_RENAME, b, 0, 0); after(k, x);
  return 0;
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { if (d1 != AT_FDCWD || d2 != AT_FDCWD) FAIL(ENOSYS); return rename(a, b); }
EXPORT int unlink(const char *f) {
  char a[1100]; if (!norm(f, a)) FAIL(ENOENT);
  long x; int k = fault(OP_UNLINK, 0, &x);
  if (k == K_ERR) { event(OP_UNLINK, a, 0, -x); FAIL(x); }
  Name *n = lookup(a); if (!n) { event(OP_UNLINK, a, 0, -ENOENT); FAIL(ENOENT); }
  if (n->ino->isdir) FAIL(EISDIR);
  disk_used -= n->ino->n;
  add_dop(1, a, NULL, n->ino); del_name(n);
  event(OP_UNLINK, a, 0, 0); after(k, x);
  return 0;
}
EXPORT int rmdir(const char *f);
EXPORT int unlinkat(int d, const char *f, int fl) { if (d != AT_FDCWD && *f != '/') FAIL(ENOSYS); return fl ? rmdir(f) : unlink(f); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char t[1100]; if (fl & ~1u) FAIL(EINVAL);
  if ((fl & 1) && norm(b, t) && lookup(t)) FAIL(EEXIST);
  return renameat(d1, a, d2, b);
}
EXPORT int remove(const char *f) { return unlink(f); }
EXPORT int mkdir(const char *f, mode_t m) {
  char a[1100]; if (!norm(f, a)) FAIL(EACCES);
  long x; int k = fault(OP_MKDIR, 0, &x);
  if (k == K_ERR) FAIL(x);
  if (lookup(a) || !strcmp(a, "/sim")) FAIL(EEXIST);
  if (!parent_ok(a)) FAIL(ENOENT);
  Inode *i = new_inode(1, m); add_name(a, i); add_dop(0, a, NULL, i);
  event(OP_MKDIR, a, 0, 0); after(k, x);
  return 0;
}
EXPORT int link(const char *f, const char *t) {
  char a[1100], b[1100]; if (!norm(f, a) || !norm(t, b)) FAIL(ENOENT);
  long x; int k = fault(OP_RENAME, 0, &x);
  if (k == K_ERR) { event(OP_RENAME, b, 0, -x); FAIL(x); }
  Name *n = lookup(a); if (!n || !parent_ok(b)) FAIL(ENOENT);
  if (lookup(b)) FAIL(EEXIST);
  Inode *i = n->ino; i->links++; add_name(b, i); add_dop(0, b, NULL, i); i->changed = 1; publish(b, i);
  event(OP_RENAME, b, 0, 0); after(k, x);
  return 0;
}
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int f) { (void)d1; (void)d2; (void)f; return link(a, b); }
EXPORT int symlink(const char *a, const char *b) { (void)a; (void)b; FAIL(EPERM); }
EXPORT int chmod(const char *a, mode_t m) { (void)a; (void)m; return 0; }
EXPORT int fchmod(int a, mode_t m) { (void)a; (void)m; return 0; }
EXPORT int flock(int a, int m) { (void)a; (void)m; return 0; }
EXPORT int posix_fadvise64(int a, off64_t o, off64_t l, int m) { (void)a; (void)o; (void)l; (void)m; return 0; }
EXPORT int access(const char *f, int m) { (void)m; char a[1100]; if (!norm(f, a)) FAIL(ENOENT); if (lookup(a) || !strcmp(a, "/sim")) return 0; FAIL(ENOENT); }
EXPORT char *realpath(const char *f, char *out) {
  char a[1100]; if (!norm(f, a) || !(lookup(a) || !strcmp(a, "/sim"))) { errno = ENOENT; return NULL; }
  if (!out) out = malloc(4096);
  strcpy(out, a); return out;
}
EXPORT ssize_t readlink(const char *f, char *b, size_t n) { (void)f; (void)b; (void)n; FAIL(EINVAL); }
EXPORT char *getcwd(char *b, size_t n) { if (n < 5) { errno = ERANGE; return NULL; } strcpy(b, "/sim"); return b; }

static int do_stat(const char *path, int fd, Inode **out, char *p) {
  if (path) {
    if (!norm(path, p)) FAIL(ENOENT);
  } else {
    Ofd *o = getfd(fd); if (!o) { *out = NULL; strcpy(p, "fd"); return 0; }
    strcpy(p, o->path);
  }
  long a; int k = fault(OP_STAT, 0, &a);
  if (k == K_ERR) { event(OP_STAT, p, 0, -a); FAIL(a); }
  if (path) {
    Name *n = lookup(p);
    static Inode root; root.isdir = 1; root.mode = 0755;
    if (n) *out = n->ino; else if (!strcmp(p, "/sim")) *out = &root; else { event(OP_STAT, p, 0, -ENOENT); FAIL(ENOENT); }
  } else *out = getfd(fd)->ino;
  event(OP_STAT, p, 0, (*out)->n);
  after(k, a);
  return 0;
}
static void fill(struct stat *s, Inode *i) {
  memset(s, 0, sizeof *s);
  s->st_mode = !i ? S_IFCHR | 0600 : i->isdir ? S_IFDIR | 0755 : S_IFREG | (i->mode & 0777);
  s->st_size = i ? i->n : 0; s->st_blksize = 4096; s->st_nlink = 1; s->st_ino = i ? i->ino : 1; s->st_dev = 7; s->st_blocks = (s->st_size + 511) / 512;
}
static int sim_stat(const char *path, int fd, struct stat *s) { Inode *i; char p[1100]; if (do_stat(path, fd, &i, p)) return -1; fill(s, i); return 0; }
EXPORT int stat(const char *p, struct stat *s) { return sim_stat(p, -1, s); }
EXPORT int lstat(const char *p, struct stat *s) { return sim_stat(p, -1, s); }
EXPORT int fstat(int fd, struct stat *s) { return sim_stat(NULL, fd, s); }
EXPORT int stat64(const char *p, struct stat64 *s) { return sim_stat(p, -1, (struct stat *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return sim_stat(p, -1, (struct stat *)s); }
EXPORT int fstat64(int fd, struct stat64 *s) { return sim_stat(NULL, fd, (struct stat *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) { if ((f & AT_EMPTY_PATH) && !*p) return sim_stat(NULL, d, (struct stat *)s); return sim_stat(p, -1, (struct stat *)s); }
EXPORT int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x) {
  (void)m;
  struct statx *volatile vx = x; const char *volatile vp = p; // (declared nonnull, but std probes with NULL)
  if (!vx || !vp) FAIL(EFAULT);
  struct stat s; int r;
  if (p && (f & AT_EMPTY_PATH) && !*p) r = sim_stat(NULL, d, &s); else if (!p) FAIL(EFAULT); else r = sim_stat(p, -1, &s);
  if (r) return -1;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_blksize = 4096; x->stx_nlink = 1; x->stx_ino = s.st_ino; x->stx_blocks = s.st_blocks; x->stx_dev_minor = 7;
  return 0;
}
typedef struct { char path[1100]; int pos; struct dirent64 e; } SimDir;
EXPORT SimDir *sim_opendir(const char *f) __asm__("opendir");
SimDir *sim_opendir(const char *f) {
  char a[1100]; if (!norm(f, a)) { errno = ENOENT; return NULL; }
  long x; int k = fault(OP_OPEN, 0, &x); if (k == K_EINTR) { errno = EINTR; return NULL; } if (k == K_ERR) { errno = x; return NULL; }
  Name *n = lookup(a); if (strcmp(a, "/sim") && (!n || !n->ino->isdir)) { errno = n ? ENOTDIR : ENOENT; return NULL; }
  SimDir *d = calloc(1, sizeof *d); strcpy(d->path, a); event(OP_OPEN, a, 0, 0); after(k, x); return d;
}
EXPORT SimDir *sim_fdopendir(int fd) __asm__("fdopendir");
SimDir *sim_fdopendir(int fd) { (void)fd; errno = ENOSYS; return NULL; }
EXPORT struct dirent64 *sim_readdir(SimDir *d) __asm__("readdir64");
struct dirent64 *sim_readdir(SimDir *d) {
  size_t l = strlen(d->path);
  for (; d->pos < nnames; d->pos++) {
    const char *p = names[d->pos].path;
    if (strncmp(p, d->path, l) || p[l] != '/' || strchr(p + l + 1, '/') || strlen(p + l + 1) > 250) continue;
    strcpy(d->e.d_name, p + l + 1); d->e.d_type = names[d->pos].ino->isdir ? DT_DIR : DT_REG; d->e.d_ino = names[d->pos].ino->ino; d->e.d_reclen = sizeof d->e;
    d->pos++; return &d->e;
  }
  return NULL;
}
EXPORT int sim_closedir(SimDir *d) __asm__("closedir");
int sim_closedir(SimDir *d) { free(d); return 0; }
EXPORT int sim_dirfd(SimDir *d) __asm__("dirfd");
int sim_dirfd(SimDir *d) { (void)d; return -1; }
EXPORT int rmdir(const char *f) {
  char a[1100]; if (!norm(f, a)) FAIL(ENOENT);
  Name *n = lookup(a); if (!n) FAIL(ENOENT); if (!n->ino->isdir) FAIL(ENOTDIR);
  size_t l = strlen(a); for (int i = 0; i < nnames; i++) if (!strncmp(names[i].path, a, l) && names[i].path[l] == '/') FAIL(ENOTEMPTY);
  add_dop(1, a, NULL, n->ino); del_name(n); return 0;
}
EXPORT int dup(int fd) { Ofd *o = getfd(fd); if (!o) FAIL(EBADF); o->refs++; return newfd(o); }
EXPORT int fcntl64(int fd, int cmd, ...) {
  Ofd *o = getfd(fd);
  if (cmd == F_GETFD) return 0;
  if (cmd == F_SETFD) return 0;
  if (cmd == F_GETFL) return o ? o->flags : 0;
  if ((cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) && o) { o->refs++; return newfd(o); }
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { return fcntl64(fd, cmd); }
EXPORT int isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
EXPORT int poll(struct pollfd *f, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) f[i].revents = 0; return 0; }
EXPORT int ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; FAIL(ENOTTY); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; FAIL(ENOSYS); }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; FAIL(EINVAL); }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; FAIL(EINVAL); }

// ---------------------------------------------------------------- interposed: time, entropy, processors
#define EPOCH 1700000000ull
static long skew; // of the wall clock, which may be set at any time
static int sim_clock(int clk, struct timespec *ts) {
  nclock++; vtime += C.tick;
  Dec *d = find_forced('K', nclock);
  if (d) { vtime += d->v1; skew += d->v2; record('K', nclock, d->v1, d->v2); cnt[d->v1 ? F_CJUMP : F_RSKEW]++; expire(); }
  else if (C.random && C.p_cjump && rbelow(&rng_io, 65536) < C.p_cjump) {
    long j = durations[rbelow(&rng_io, 10)]; vtime += j; record('K', nclock, j, 0); cnt[F_CJUMP]++; expire();
  } else if (C.random && C.p_rskew && rbelow(&rng_io, 65536) < C.p_rskew) {
    long j = durations[rbelow(&rng_io, 10)]; if (rbelow(&rng_io, 3)) j = -j;
    if (skew + j > -1000000000000000l) { skew += j; record('K', nclock, 0, j); cnt[F_RSKEW]++; }
  }
  u64 t = vtime;
  if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI) t += skew;
  if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI) t += EPOCH * 1000000000ull;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) { return sim_clock(c, ts); }
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec ts; sim_clock(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *t) { struct timespec ts; sim_clock(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int nanosleep(const struct timespec *r, struct timespec *m) { (void)m; sim_sleep(r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
  (void)m; u64 t = r->tv_sec * 1000000000ull + r->tv_nsec;
  if (f & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) t -= EPOCH * 1000000000ull; t = t > vtime ? t - vtime : 0; }
  sim_sleep(t); return 0;
}
EXPORT int usleep(useconds_t u) { sim_sleep(u * 1000ull); return 0; }
static long sim_random(void *b, size_t n) { u8 *p = b; for (size_t i = 0; i < n; i++) p[i] = rnext(&rng_hash); return n; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; return sim_random(b, n); }
EXPORT int getentropy(void *b, size_t n) { sim_random(b, n); return 0; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { (void)p; memset(s, 0, n); for (int i = 0; i < C.ncpu; i++) CPU_SET_S(i, n, s); return 0; }
static long (*real_sysconf)(int);
EXPORT long sysconf(int n) {
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return C.ncpu;
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(n);
}
EXPORT pid_t getpid(void) { return C.pid; }
EXPORT pid_t gettid(void) { return C.pid + self_id; }

// ---------------------------------------------------------------- interposed: threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static int maxlive = 1;
static int (*real_trylock)(pthread_mutex_t *);
static pthread_key_t exit_key;

static void thread_exit_hook(void *v) {
  int id = (int)(intptr_t)v - 1;
  if (++T[id].iter < 3) { pthread_setspecific(exit_key, v); return; } // run after every other destructor
  T[id].state = T_DONE; nlive--;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_JOIN && T[i].join_on == id) T[i].state = T_RUN;
  plan_preempt();
  block_and_switch(0x20002);
}
static void *thread_main(void *v) {
  int id = (int)(intptr_t)v; self_id = id;
  pthread_setspecific(exit_key, (void *)(intptr_t)(id + 1));
  wait_baton(id);
  return T[id].fn(T[id].arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  nspawn++;
  Dec *d = find_forced('C', nspawn); int failit = 0;
  if (d) failit = d->v1; else if (C.random && C.p_spawn && rbelow(&rng_io, 65536) < C.p_spawn) failit = 1;
  if (failit) { record('C', nspawn, 1, 0); cnt[F_SPAWN]++; mix(&evhash, 0xC0); return EAGAIN; }
  int id = 1;
  while (id < nthr && !(T[id].state == T_FREE || (T[id].state == T_DONE && !T[id].has_pt))) id++;
  if (id == MAXT) die("too many threads");
  T[id] = (Thr){0}; T[id].fn = fn; T[id].arg = arg; T[id].state = T_RUN;
  T[id].prio = C.random ? 1000 + rbelow(&rng_sched, 1000000) : 1000;
  if (id == nthr) nthr++;
  nlive++; if (nlive > maxlive) maxlive = nlive;
  int r = real_create(&T[id].pt, at, thread_main, (void *)(intptr_t)id);
  if (r) { die("pthread_create failed for real"); }
  T[id].has_pt = 1; *t = T[id].pt;
  if (!pct_based) { pct_based = 1; for (int i = 0; i < pct_n; i++) pct_points[i] += steps; }
  if (next_preempt == ~0ull) plan_preempt();
  sched_point(0x20003);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
  int id = -1; for (int i = 1; i < nthr; i++) if (T[i].has_pt && pthread_equal(T[i].pt, t)) id = i;
  if (id >= 0) {
    if (T[id].state != T_DONE) { T[self_id].state = T_JOIN; T[self_id].join_on = id; block_and_switch(0x20004); }
    T[id].has_pt = 0;
  }
  return real_join(t, ret);
}
EXPORT int pthread_detach(pthread_t t) {
  for (int i = 1; i < nthr; i++) if (T[i].has_pt && pthread_equal(T[i].pt, t)) T[i].has_pt = 0;
  return real_detach(t);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!real_trylock) real_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  for (;;) {
    int r = real_trylock(m);
    if (r != EBUSY) return r;
    int to = -1; for (int k = 1; k < nthr; k++) { int i = (self_id + k) % nthr; if (runnable(i)) { to = i; break; } }
    if (to < 0) finish("deadlock", 97);
    switch_to(to, 0x20006);
  }
}
EXPORT int sched_yield(void) { // whoever yields waits for something: let the others run
  steps++;
  int me = self_id, def = -1;
  for (int k = 1; k < nthr; k++) { int i = (me + k) % nthr; if (runnable(i)) { def = i; break; } }
  if (def < 0) { if (steps >= C.steplimit) finish("livelock", 96); return 0; }
  int to = def;
  Dec *d = find_forced('B', steps);
  if (d && d->v1 < nthr && runnable(d->v1)) to = d->v1;
  else if (C.random && C.sched == 2) { T[me].prio = 0; to = top_prio(me); }
  else if (C.random && C.sched == 1) to = pick_other(me);
  if (to != def) record('B', steps, to, 0);
  if (next_preempt <= steps) plan_preempt();
  if (steps >= C.steplimit) finish("livelock", 96);
  switch_to(to, 0x20005);
  return 0;
}
EXPORT int pause(void) { finish("deadlock", 97); }

static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *to, u32 bits) {
  int cmd = op & FUTEX_CMD_MASK, me = self_id;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point(0x30001);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) FAIL(EAGAIN);
    Dec *d = find_forced('S', steps); int sp = 0;
    if (d) sp = 1; else if (C.random && C.p_spur && rbelow(&rng_sched, 65536) < C.p_spur) sp = 1;
    if (sp) { record('S', steps, 1, 0); cnt[F_SPUR]++; return 0; }
    T[me].state = T_FUTEX; T[me].faddr = addr; T[me].bits = cmd == FUTEX_WAIT ? ~0 : (int)bits; T[me].timedout = 0; T[me].qord = ++qcount;
    T[me].deadline = ~0ull;
    if (to) {
      u64 t = to->tv_sec * 1000000000ull + to->tv_nsec;
      if (cmd == FUTEX_WAIT) t += vtime; else if (op & FUTEX_CLOCK_REALTIME) t -= EPOCH * 1000000000ull;
      T[me].deadline = t;
    }
    block_and_switch(0x30002);
    if (T[me].timedout) FAIL(ETIMEDOUT);
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long woken = 0;
    while ((u32)woken < val) {
      // waiters in arrival order
      int w[MAXT], n = 0;
      for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].faddr == addr && (cmd == FUTEX_WAKE || (T[i].bits & (int)bits))) {
        int j = n++; while (j > 0 && T[w[j - 1]].qord > T[i].qord) { w[j] = w[j - 1]; j--; } w[j] = i;
      }
      if (!n) break;
      int k = 0;
      steps++;
      Dec *d = n > 1 ? find_forced('F', steps) : NULL;
      if (d && d->v1 < n) k = d->v1; else if (C.random && C.sched && n > 1 && rbelow(&rng_sched, 2)) k = rbelow(&rng_sched, n);
      if (k) record('F', steps, k, 0);
      T[w[k]].state = T_RUN; woken++;
      if (next_preempt <= steps) plan_preempt();
    }
    sched_point(0x30003);
    return woken;
  }
  FAIL(ENOSYS);
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  switch (n) {
    case SYS_futex: return sim_futex((u32 *)a, b, c, (const struct timespec *)d, f);
    case SYS_gettid: return C.pid + self_id;
    case SYS_getrandom: return sim_random((void *)a, b);
    case SYS_read: return sim_read(a, (void *)b, c, -1);
    case SYS_write: return sim_write(a, (const void *)b, c, -1);
    case SYS_open: return sim_open((const char *)a, b, c);
    case SYS_openat: return sim_open((const char *)b, c, d);
    case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
    case SYS_rename: return rename((const char *)a, (const char *)b);
    case SYS_renameat: return renameat(a, (const char *)b, c, (const char *)d);
    case SYS_renameat2: return renameat2(a, (const char *)b, c, (const char *)d, e);
    case SYS_unlinkat: return unlinkat(a, (const char *)b, c);
    case SYS_linkat: return linkat(a, (const char *)b, c, (const char *)d, e);
    case SYS_mkdirat: return mkdir((const char *)b, c);
    case SYS_mkdir: return mkdir((const char *)a, b);
    case SYS_close: return close(a);
    case SYS_lseek: return sim_seek(a, b, c);
    case SYS_ftruncate: return sim_trunc(a, b);
    case SYS_pread64: return sim_read(a, (void *)b, c, d);
    case SYS_pwrite64: return sim_write(a, (const void *)b, c, d);
    case SYS_stat: return stat((const char *)a, (struct stat *)b);
    case SYS_lstat: return lstat((const char *)a, (struct stat *)b);
    case SYS_fstat: return fstat(a, (struct stat *)b);
    case SYS_newfstatat: return fstatat64(a, (const char *)b, (struct stat64 *)c, d);
    case SYS_getcwd: return getcwd((char *)a, b) ? 5 : -1;
    case SYS_sched_yield: return sched_yield();
    case SYS_getpid: return C.pid;
    case SYS_fcntl: return fcntl64(a, b);
    case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case SYS_flock: return 0;
    case SYS_access: return access((const char *)a, b);
    case SYS_faccessat: case 439: return access((const char *)b, c);
    case SYS_readlink: case SYS_readlinkat: FAIL(EINVAL);
    case SYS_nanosleep: sim_sleep(((const struct timespec *)a)->tv_sec * 1000000000ull + ((const struct timespec *)a)->tv_nsec); return 0;
    case SYS_unlink: return unlink((const char *)a);
    case SYS_fsync: case SYS_fdatasync: return fsync(a);
    case SYS_clock_gettime: return sim_clock(a, (struct timespec *)b);
    case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: case SYS_clone3: FAIL(ENOSYS);
  }
  nunmodelled++;
  long r = rsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) FAIL(-r);
  return r;
}
EXPORT void abort(void) { finish("abort", 134); }
EXPORT void _exit(int c) { finish("exit", c); }
EXPORT void _Exit(int c) { finish("exit", c); }

// ---------------------------------------------------------------- set-up and report
static char *out_path;
static int reported, trapped;
// System calls the program makes without the C library (inline assembly in a
// dependency) would by-pass the simulation: trap those and emulate them too.
static u64 text_lo, text_hi;
static void on_sys(int sg, siginfo_t *si, void *uc) {
  (void)sg; (void)si;
  greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs;
  int e = errno; long r;
  if (g[REG_RAX] == SYS_exit_group) finish("exit", g[REG_RDI]);
  errno = 0;
  r = syscall(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  if (r == -1 && errno) r = -errno;
  g[REG_RAX] = r; errno = e;
}
static int find_text(struct dl_phdr_info *i, size_t n, void *v) {
  (void)n; (void)v;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
    text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; text_hi = text_lo + i->dlpi_phdr[k].p_memsz;
  }
  return 1; // the first object is the program itself
}
static void trap_raw(void) {
  dl_iterate_phdr(find_text, NULL);
  if (!text_lo || (text_lo >> 32) != (text_hi >> 32)) return;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, NULL)) return;
#define LD(o) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, o)
#define IPO offsetof(struct seccomp_data, instruction_pointer)
  struct sock_filter f[] = {
    LD(IPO + 4), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)(text_lo >> 32), 0, 4),
    LD(IPO), BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32)text_lo, 0, 2), BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (u32)text_hi, 1, 0),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)};
  struct sock_fprog p = {sizeof f / sizeof *f, f};
  rsys(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0, 0);
  if (rsys(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, (long)&p, 0, 0, 0) == 0) trapped = 1;
}
static void raw_out(int fd, const char *p, size_t n) {
  while (n) { long r = rsys(SYS_write, fd, (long)p, n, 0, 0, 0); if (r == -EINTR) continue; if (r <= 0) die("cannot write report"); p += r; n -= r; }
}
static void write_report(const char *verdict) {
  if (reported || !out_path) return;
  reported = 1;
  Buf b = {0};
  bfmt(&b, "verdict %s\nsteps %llu\nlastout %llu\nmaxgap %llu\nvtime %llu\nioops %llu\nswitches %llu\nthreads %d\nspawns %llu\nclockreads %llu\nmempeak %llu\nmoved %llu\ntrapped %d\nunmodelled %llu\nsig %016llx\nevhash %016llx\n", verdict, (unsigned long long)steps, (unsigned long long)last_out, (unsigned long long)max_gap,
       (unsigned long long)vtime, (unsigned long long)io_ord, (unsigned long long)nswitch, maxlive, (unsigned long long)nspawn, (unsigned long long)nclock, (unsigned long long)mem_peak, (unsigned long long)moved, trapped, (unsigned long long)nunmodelled, (unsigned long long)sig, (unsigned long long)evhash);
  for (int i = 0; i < F_NCNT; i++) if (cnt[i]) bfmt(&b, "cnt %s %llu\n", cntname[i], (unsigned long long)cnt[i]);
  if (strcmp(verdict, "exit")) for (int i = 0; i < nthr; i++) bfmt(&b, "thr %d %d\n", i, T[i].state);
  for (int i = 0; i < ntaken; i++) bfmt(&b, "D %c %llu %ld %ld\n", taken[i].kind, (unsigned long long)taken[i].ord, taken[i].v1, taken[i].v2);
  bput(&b, hist.p, hist.n);
  for (int i = 0; i < nnames; i++) {
    Inode *in = names[i].ino;
    if (in->isdir) { bfmt(&b, "DIR %s\n", names[i].path); continue; }
    bfmt(&b, "INO %llu %s\n", (unsigned long long)in->ino, names[i].path);
    if (!in->changed) { bfmt(&b, "SAME %s\n", names[i].path); continue; }
    bfmt(&b, "FILE %zu %s\n", in->n, names[i].path); bput(&b, in->d, in->n); bput(&b, "\n", 1);
  }
  bfmt(&b, "STDOUT %zu\n", sout.n); bput(&b, sout.p ? sout.p : "", sout.n); bput(&b, "\n", 1);
  size_t sn = serr.n > 20000 ? 20000 : serr.n;
  bfmt(&b, "STDERR %zu\n", sn); bput(&b, serr.p ? serr.p : "", sn); bput(&b, "\n", 1);
  if (C.cov) { bfmt(&b, "COV %u\n", nguards + 1); bput(&b, covmap, nguards + 1); bput(&b, "\n", 1); }
  bfmt(&b, "END\n");
  int fd = rsys(SYS_open, (long)out_path, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0, 0);
  if (fd < 0) die("cannot open report");
  raw_out(fd, b.p, b.n);
  rsys(SYS_close, fd, 0, 0, 0, 0, 0);
}
static void finish(const char *verdict, int code) { write_report(verdict); rsys(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }

static void load(const char *path) {
  int fd = rsys(SYS_open, (long)path, O_RDONLY, 0, 0, 0, 0); if (fd < 0) die("cannot open scenario");
  struct stat st; if (rsys(SYS_fstat, fd, (long)&st, 0, 0, 0, 0)) die("fstat");
  char *p = (char *)rsys(SYS_mmap, 0, st.st_size + 1, 3, 2 /*MAP_PRIVATE*/, fd, 0);
  if ((long)p < 0 && (long)p > -4096) die("mmap scenario");
  char *end = p + st.st_size;
  rsys(SYS_close, fd, 0, 0, 0, 0, 0);
  while (p < end) {
    char *nl = memchr(p, '\n', end - p); if (!nl) die("bad scenario"); *nl = 0;
    char key[64]; unsigned long long v = 0; long v1 = 0, v2 = 0; char kd; size_t len; int off = 0;
    if (p[0] == 'D' && p[1] == ' ') {
      if (sscanf(p, "D %c %llu %ld %ld", &kd, &v, &v1, &v2) < 3) die("bad decision");
      if (nforced % 1024 == 0) forced = realloc(forced, (nforced + 1024) * sizeof(Dec)); forced[nforced++] = (Dec){kd, v, v1, v2};
      p = nl + 1; continue;
    }
    if (sscanf(p, "FILE %zu %n", &len, &off) == 1 && off) {
      Inode *i = new_inode(0, 0644); i->d = nl + 1; i->n = len; i->cap = len; i->shared = i->ddshared = 1; i->dd = i->d; i->dn = len; disk_used += len;
      add_name(p + off, i);
      p = nl + 1 + len + 1; continue;
    }
    unsigned long long xat, xino;
    if (sscanf(p, "FILEI %zu %llu %n", &len, &xino, &off) == 2 && off) {
      Inode *i = new_inode(0, 0644); inoctr--; i->ino = xino; i->d = nl + 1; i->n = len; i->cap = len; i->shared = i->ddshared = 1; i->dd = i->d; i->dn = len; disk_used += len;
      add_name(p + off, i);
      p = nl + 1 + len + 1; continue;
    }
    if (sscanf(p, "XFILE %llu %zu %llu %n", &xat, &len, &xino, &off) == 3 && off) {
      xfiles = realloc(xfiles, (nxfiles + 1) * sizeof(XFile)); xfiles[nxfiles++] = (XFile){xat, strdup(p + off), xino, nl + 1, len};
      p = nl + 1 + len + 1; continue;
    }
    if (sscanf(p, "XAT %llu", &xat) == 1) { xats = realloc(xats, (nxats + 1) * sizeof(u64)); xats[nxats++] = xat; p = nl + 1; continue; }
    if (!strncmp(p, "DIR ", 4)) { add_name(p + 4, new_inode(1, 0755)); p = nl + 1; continue; }
    if (!strcmp(p, "END")) break;
    if (sscanf(p, "%63s %llu", key, &v) != 2) die("bad scenario line");
#define OPT(n, f) else if (!strcmp(key, n)) C.f = v;
    if (0) {}
    OPT("random", random) OPT("seed", seed) OPT("hseed", hseed) OPT("crash_seed", crash_seed) OPT("ncpu", ncpu) OPT("steplimit", steplimit) OPT("tick", tick) OPT("diskcap", diskcap)
    OPT("p_sread", p_sread) OPT("p_swrite", p_swrite) OPT("p_eintr", p_eintr) OPT("p_rerr", p_rerr) OPT("p_werr", p_werr) OPT("p_oerr", p_oerr) OPT("p_merr", p_merr)
    OPT("p_out", p_out) OPT("p_outerr", p_outerr) OPT("p_spawn", p_spawn) OPT("p_tjump", p_tjump) OPT("p_spur", p_spur) OPT("p_slow", p_slow) OPT("p_cjump", p_cjump) OPT("p_rskew", p_rskew) OPT("linens", linens) OPT("sched", sched) OPT("pmean", pmean) OPT("p_sync", p_sync)
    OPT("pct_d", pct_d) OPT("pct_len", pct_len) OPT("logio", logio) OPT("cov", cov) OPT("fault_after", fault_after) OPT("p_serr", p_serr) OPT("pid", pid) OPT("ino0", ino0) OPT("mem", mem)
    else die("unknown option");
    p = nl + 1;
  }
}
__attribute__((constructor)) static void init(void) {
  char *in = getenv("DST_IN"); out_path = getenv("DST_OUT");
  if (!in || !out_path) die("DST_IN/DST_OUT not set");
  out_path = strdup(out_path);
  C.ncpu = 1; C.steplimit = 1ull << 40; C.tick = 1000; C.diskcap = -1; C.pmean = 1000; C.pid = 4242;
  load(in);
  if (C.ino0) inoctr = C.ino0;
  unsetenv("DST_IN"); unsetenv("DST_OUT"); unsetenv("LD_PRELOAD");
  rng_io.s = C.seed ^ 0x1111; rng_sched.s = C.seed * 31 + 0x2222; rng_hash.s = C.hseed + 77; rng_crash.s = C.crash_seed + 99;
  rnext(&rng_io); rnext(&rng_sched);
  covmap = calloc(1, 1u << 20);
  dnames = malloc((nnames + 1) * sizeof(Name)); memcpy(dnames, names, nnames * sizeof(Name)); ndnames = nnames;
  for (int i = 0; i < ndnames; i++) dnames[i].path = strdup(dnames[i].path);
  T[0].state = T_RUN; T[0].pt = pthread_self(); T[0].prio = C.random ? 1000 + rbelow(&rng_sched, 1000000) : 1000;
  if (C.random && C.sched == 2) {
    pct_n = C.pct_d > 15 ? 15 : C.pct_d;
    for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + rbelow(&rng_sched, C.pct_len ? C.pct_len : 1); // counted from the first thread start
    for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) { u64 t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
  }
  qsort(forced, nforced, sizeof(Dec), cmp_dec);
  real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join"); real_detach = dlsym(RTLD_NEXT, "pthread_detach"); real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  pthread_key_create(&exit_key, thread_exit_hook);
  set_next_stop();
  trap_raw();
  inited = 1;
}

#undef memcpy
static void *(*real_memmove)(void *, const void *, size_t);
EXPORT void *memcpy(void *d, const void *s, size_t n) {
  moved += n;
  return real_memmove ? real_memmove(d, s, n) : own_memcpy(d, s, n);
}
EXPORT void *memmove(void *d, const void *s, size_t n) {
  moved += n;
  if (real_memmove) return real_memmove(d, s, n);
  if ((uintptr_t)d - (uintptr_t)s >= n) return own_memcpy(d, s, n);
  for (size_t i = n; i--;) { ((volatile char *)d)[i] = ((const volatile char *)s)[i]; }
  return d;
}
__attribute__((constructor)) static void init_memmove(void) { real_memmove = dlsym(RTLD_NEXT, "memmove"); }
__attribute__((destructor)) static void fini(void) { write_report("exit"); }
