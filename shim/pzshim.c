/* LD_PRELOAD shim: runs a process on a virtual clock kept in shared memory.
 *
 * Time moves only when the controlling harness changes the base values and
 * bumps `epoch`. Every timed wait (futex, sleep, poll, socket receive timeout)
 * is registered in `slots`; a helper thread wakes the waiters whose virtual
 * deadline has passed and, when all of them have noticed, sets `ack`.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define NSLOTS 256
#define MAXFD 4096
#define NCLOG 4096
#define TICK_NS 100
#define K_FUTEX 1
#define K_SLEEP 2
#define K_POLL 3
#define K_RECV 4

struct slot {
  _Atomic uint32_t used; /* 0 free, 1 reserved, 2 registered */
  uint32_t kind;
  _Atomic uint64_t deadline; /* virtual monotonic ns */
  _Atomic uint64_t addr;
  uint32_t tid;
  _Atomic uint32_t word;
};

struct shm {
  uint64_t magic;                 /* 0 */
  _Atomic uint64_t mono;          /* 8 */
  _Atomic uint64_t boot;          /* 16 */
  _Atomic int64_t real;           /* 24 */
  _Atomic uint64_t ticks;         /* 32 */
  _Atomic uint32_t epoch;         /* 40 */
  _Atomic uint32_t ack;           /* 44 */
  _Atomic uint32_t hold;          /* 48: nonzero: threads created from now on park */
  _Atomic uint32_t held;          /* 52: how many are parked */
  _Atomic uint64_t spawned;       /* 56: child commands started */
  _Atomic uint64_t threads;       /* 64: threads created */
  _Atomic uint32_t pid;           /* 72 */
  _Atomic uint32_t helper_tid;    /* 76 */
  _Atomic uint32_t ready;         /* 80 */
  _Atomic uint32_t pend;          /* 84: threads created that have not reached user code */
  _Atomic uint64_t conns;         /* 88: TCP connect() calls made */
  _Atomic uint32_t stall_on;      /* 96: 0 off; else park at the clock read number stall_at */
  _Atomic uint32_t stall_at;      /* 100 */
  _Atomic uint32_t stalled;       /* 104 */
  _Atomic uint32_t stall_kind;    /* 108: 0 at clock reads and calls of the allocator, 1 at attempts to take a lock */
  _Atomic uint64_t nlog;          /* 112: entries written to the connect log */
  _Atomic uint64_t clog[NCLOG];   /* 120: (ip << 32) | port << 8 | kind, kind 1 connect, 2 name lookup */
  struct slot slots[NSLOTS];      /* 120 + 8*NCLOG */
};

static struct shm *S;
static int slot_efd[NSLOTS];
static _Atomic int64_t rcvto[MAXFD]; /* ns, 0 none */
static char logpath[108];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static long rawe(long n, long a, long b, long c, long d, long e, long f) {
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void real_usleep(long us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  raw(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
}

static uint64_t tick(void) { return atomic_fetch_add(&S->ticks, 1) * TICK_NS; }
static __thread uint64_t nreads;  /* of the monotonic clock since the last wait */
static uint64_t vmono(void) { return atomic_load(&S->mono) + tick(); }

static struct slot *reg(uint32_t kind, uint64_t deadline, uint64_t addr, int *idx) {
  nreads = 0;
  for (;;) {
    for (int i = 0; i < NSLOTS; i++) {
      uint32_t z = 0;
      if (atomic_compare_exchange_strong(&S->slots[i].used, &z, 1)) {
        struct slot *s = &S->slots[i];
        s->kind = kind;
        atomic_store(&s->deadline, deadline);
        atomic_store(&s->addr, addr);
        atomic_store(&s->word, 0);
        s->tid = (uint32_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
        if ((kind == K_POLL || kind == K_RECV)) {
          if (slot_efd[i] <= 0) slot_efd[i] = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
          uint64_t v;
          raw(SYS_read, slot_efd[i], (long)&v, 8, 0, 0, 0);
        }
        atomic_store(&s->used, 2);
        *idx = i;
        return s;
      }
    }
    real_usleep(100);
  }
}
static void unreg(struct slot *s) { atomic_store(&s->used, 0); }
static int expired(struct slot *s) { return atomic_load(&S->mono) + atomic_load(&S->ticks) * TICK_NS >= atomic_load(&s->deadline); }

static void *helper(void *x) {
  (void)x;
  sigset_t all;
  sigfillset(&all);
  pthread_sigmask(SIG_BLOCK, &all, NULL);
  atomic_store(&S->helper_tid, (uint32_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0));
  uint32_t seen = atomic_load(&S->ack);
  for (;;) {
    uint32_t e = atomic_load(&S->epoch);
    if (e == seen) {
      raw(SYS_futex, (long)&S->epoch, FUTEX_WAIT, e, 0, 0, 0);
      continue;
    }
    for (;;) {
      int any = 0;
      for (int i = 0; i < NSLOTS; i++) {
        struct slot *s = &S->slots[i];
        if (atomic_load(&s->used) != 2 || !expired(s)) continue;
        any = 1;
        if (s->kind == K_FUTEX)
          raw(SYS_futex, (long)atomic_load(&s->addr), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 0x7fffffff, 0, 0, 0);
        else if (s->kind == K_SLEEP) {
          atomic_store(&s->word, 1);
          raw(SYS_futex, (long)&s->word, FUTEX_WAKE, 0x7fffffff, 0, 0, 0);
        } else {
          uint64_t v = 1;
          raw(SYS_write, slot_efd[i], (long)&v, 8, 0, 0, 0);
        }
      }
      if (!any) break;
      real_usleep(30);
    }
    seen = e;
    atomic_store(&S->ack, e);
  }
  return NULL;
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pc_t real_pc(void) {
  static pc_t p;
  if (!p) p = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  return p;
}
static void start_helper(void) {
  pthread_t t;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 65536);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  real_pc()(&t, &a, helper, NULL);
  pthread_attr_destroy(&a);
}

static __thread int rust_fork;
static void atfork_child(void) {
  if (!S || rust_fork) return;
  for (int i = 0; i < NSLOTS; i++) atomic_store(&S->slots[i].used, 0);
  atomic_store(&S->pend, 0);
  atomic_store(&S->pid, (uint32_t)getpid());
  start_helper();
}

/* Only calls by the program itself count: libc calls free() while it holds locks of its own. */
static uintptr_t exe_base, exe_lo, exe_hi;
static void set_traps(const char *p);
static int exe_phdr(struct dl_phdr_info *i, size_t n, void *x) {
  (void)n; (void)x;
  exe_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      exe_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      exe_hi = exe_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1; /* the first one is the program */
}

__attribute__((constructor)) static void init(void) {
  const char *p = getenv("PZ_SHM");
  if (!p) return;
  int fd = open(p, O_RDWR | O_CLOEXEC);
  if (fd < 0) { fprintf(stderr, "pzshim: cannot open shm\n"); _exit(99); }
  void *m = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m == MAP_FAILED) _exit(99);
  dl_iterate_phdr(exe_phdr, NULL);
  S = m;
  const char *l = getenv("PZ_LOG");
  if (l) strncpy(logpath, l, sizeof logpath - 1);
  unsetenv("PZ_SHM");
  set_traps(getenv("PZ_TRAPS"));
  unsetenv("PZ_LOG");
  unsetenv("PZ_TRAPS");
  unsetenv("LD_PRELOAD");
  atomic_store(&S->pid, (uint32_t)getpid());
  pthread_atfork(NULL, NULL, atfork_child);
  start_helper();
  atomic_store(&S->ready, 1);
}

/* ---- points at which a thread can be made to wait: clock reads and calls of the allocator ---- */
static __thread int nostall __attribute__((tls_model("initial-exec")));
static void maybe_stall(uint32_t kind) {
  if (atomic_load_explicit(&S->stall_on, memory_order_relaxed) == 0 || nostall || atomic_load(&S->stall_kind) != kind) return;
  if (raw(SYS_gettid, 0, 0, 0, 0, 0, 0) == atomic_load(&S->helper_tid)) return;
  uint32_t me;
  do {
    if ((me = atomic_load(&S->stall_at)) == 0) return;
  } while (!atomic_compare_exchange_weak(&S->stall_at, &me, me - 1));
  if (me != 1) return;
  atomic_fetch_add(&S->stalled, 1);
  while (atomic_load(&S->stall_on)) raw(SYS_futex, (long)&S->stall_on, FUTEX_WAIT, 1, 0, 0, 0);
  atomic_fetch_sub(&S->stalled, 1);
}
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
#define POINT() do { uintptr_t ra = (uintptr_t)__builtin_return_address(0); if (S && ra >= exe_lo && ra < exe_hi) maybe_stall(0); } while (0)
void *malloc(size_t n) { POINT(); return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { POINT(); return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { POINT(); return __libc_realloc(p, n); }
void free(void *p) { POINT(); __libc_free(p); }

/* The functions that take locks (PZ_TRAPS: their offsets in the program, found by harness/build.py) start with a trap, which emulates the instruction it is in
   the place of. */
#define NTRAPS 64
static struct { uintptr_t at; int kind; long arg; } traps[NTRAPS];
static int ntraps;
static void on_trap(int sig, siginfo_t *si, void *ctx) {
  (void)sig; (void)si;
  greg_t *r = ((ucontext_t *)ctx)->uc_mcontext.gregs;
  uintptr_t at = (uintptr_t)r[REG_RIP] - 1;
  int e = errno;
  for (int i = 0; i < ntraps; i++) {
    if (traps[i].at != at) continue;
    if (S) maybe_stall(1);
    if (traps[i].kind == 0) {
      r[REG_RSP] -= traps[i].arg & 0xffffffff;
      r[REG_RIP] = (greg_t)(at + (size_t)(traps[i].arg >> 32));
    } else {
      static const int regs[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                                   REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
      uint64_t v = (uint64_t)r[regs[traps[i].arg]];
      r[REG_RSP] -= 8;
      *(uint64_t *)r[REG_RSP] = v;
      r[REG_RIP] = (greg_t)(at + (traps[i].arg >= 8 ? 2 : 1));
    }
    errno = e;
    return;
  }
  signal(SIGTRAP, SIG_DFL);
  raise(SIGTRAP);
}
static void set_traps(const char *p) {
  while (p && *p && ntraps < NTRAPS) {
    char *q;
    uintptr_t at = exe_base + strtoul(p, &q, 16);
    if (q == p) break;
    p = *q ? q + 1 : q;
    if (at < exe_lo || at >= exe_hi) continue;
    unsigned char *c = (unsigned char *)at;
    int kind = 0;
    long arg = 0;
    if (c[0] == 0x48 && c[1] == 0x83 && c[2] == 0xec && c[3] < 0x80) arg = c[3] | 4L << 32;
    else if (c[0] == 0x48 && c[1] == 0x81 && c[2] == 0xec && c[6] < 0x80) arg = (long)(c[3] | c[4] << 8 | c[5] << 16 | (unsigned)c[6] << 24) | 7L << 32;
    else if (c[0] >= 0x50 && c[0] < 0x58) kind = 1, arg = c[0] - 0x50;
    else if (c[0] == 0x41 && c[1] >= 0x50 && c[1] < 0x58) kind = 1, arg = c[1] - 0x50 + 8;
    else continue;
    uintptr_t pg = at & ~(uintptr_t)4095;
    if (mprotect((void *)pg, 4096, PROT_READ | PROT_WRITE | PROT_EXEC)) continue;
    traps[ntraps].at = at, traps[ntraps].kind = kind, traps[ntraps].arg = arg;
    ntraps++;
    *c = 0xcc;
    mprotect((void *)pg, 4096, PROT_READ | PROT_EXEC);
  }
  if (ntraps) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_RESTART | SA_NODEFER;
    sigaction(SIGTRAP, &sa, NULL);
  }
}

/* ---- clocks ---- */
/* A thread which computes against a time budget (lrpar's error recovery) gets to see its time pass. */
static uint64_t busy_skew(void) {
  return ++nreads > 3000 ? (nreads - 3000) * 200000 : 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!S) return (int)rawe(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  int64_t v;
  switch (c) {
  case CLOCK_MONOTONIC:
  case CLOCK_MONOTONIC_RAW:
  case CLOCK_MONOTONIC_COARSE: v = (int64_t)(vmono() + busy_skew()); break;
  case CLOCK_BOOTTIME: maybe_stall(0); v = (int64_t)(atomic_load(&S->boot) + tick()); break;
  case CLOCK_REALTIME:
  case CLOCK_REALTIME_COARSE: v = atomic_load(&S->real) + (int64_t)tick(); break;
  default: return (int)rawe(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  }
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

static uint64_t clamp_add(uint64_t a, uint64_t b) { return a + b < a ? UINT64_MAX : a + b; }
static uint64_t ts_ns(const struct timespec *ts) {
  if (ts->tv_sec < 0) return 0;
  if ((uint64_t)ts->tv_sec > UINT64_MAX / 1000000000ull - 2) return UINT64_MAX / 2;
  return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
}

/* ---- futex ---- */
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!S || n != SYS_futex || !d) return rawe(n, a, b, c, d, e, f);
  int op = (int)b & FUTEX_CMD_MASK;
  if (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) return rawe(n, a, b, c, d, e, f);
  uint64_t t = ts_ns((struct timespec *)d), dl;
  if (op == FUTEX_WAIT) dl = clamp_add(vmono(), t);
  else if (b & FUTEX_CLOCK_REALTIME) {
    int64_t rel = (int64_t)t - atomic_load(&S->real);
    dl = rel <= 0 ? 0 : clamp_add(vmono(), (uint64_t)rel);
  } else dl = t;
  int idx;
  struct slot *s = reg(K_FUTEX, dl, (uint64_t)a, &idx);
  if (vmono() >= dl) { unreg(s); if (atomic_load((_Atomic uint32_t *)a) != (uint32_t)c) { errno = EAGAIN; return -1; } errno = ETIMEDOUT; return -1; }
  long r = raw(SYS_futex, a, b & ~FUTEX_CLOCK_REALTIME, c, 0, e, f);
  int ex = expired(s);
  unreg(s);
  if (r == 0 && ex && atomic_load((_Atomic uint32_t *)a) == (uint32_t)c) { errno = ETIMEDOUT; return -1; }
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

/* ---- sleeps ---- */
static void vsleep(uint64_t dl) {
  int idx;
  struct slot *s = reg(K_SLEEP, dl, 0, &idx);
  while (vmono() < dl && !atomic_load(&s->word)) raw(SYS_futex, (long)&s->word, FUTEX_WAIT, 0, 0, 0, 0);
  unreg(s);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  if (!S) return -(int)raw(SYS_clock_nanosleep, c, flags, (long)req, (long)rem, 0, 0);
  uint64_t t = ts_ns(req), dl;
  if (flags & TIMER_ABSTIME) {
    if (c == CLOCK_REALTIME) { int64_t r = (int64_t)t - atomic_load(&S->real); dl = r <= 0 ? 0 : clamp_add(vmono(), (uint64_t)r); }
    else if (c == CLOCK_BOOTTIME) { int64_t r = (int64_t)(t - atomic_load(&S->boot)); dl = r <= 0 ? 0 : clamp_add(vmono(), (uint64_t)r); }
    else dl = t;
  } else {
    if (t < 1000000) { atomic_fetch_add(&S->ticks, t / TICK_NS); real_usleep(t / 1000 + 1); return 0; }
    dl = clamp_add(vmono(), t);
  }
  vsleep(dl);
  return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!S) return (int)rawe(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
  return clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
}
unsigned sleep(unsigned s) { struct timespec ts = {s, 0}; nanosleep(&ts, NULL); return 0; }
int usleep(useconds_t u) { struct timespec ts = {u / 1000000, (u % 1000000) * 1000}; nanosleep(&ts, NULL); return 0; }

/* ---- poll ---- */
int poll(struct pollfd *fds, nfds_t n, int timeout) {
  if (!S || timeout <= 0 || n > 60) return (int)rawe(SYS_poll, (long)fds, n, timeout, 0, 0, 0);
  uint64_t dl = clamp_add(vmono(), (uint64_t)timeout * 1000000ull);
  struct pollfd c[64];
  int idx;
  struct slot *s = reg(K_POLL, dl, 0, &idx);
  int ret;
  for (;;) {
    memcpy(c, fds, n * sizeof *fds);
    c[n].fd = slot_efd[idx];
    c[n].events = POLLIN;
    c[n].revents = 0;
    int to = expired(s) ? 0 : -1;
    long r = raw(SYS_poll, (long)c, n + 1, to, 0, 0, 0);
    if (r < 0) { errno = (int)-r; ret = -1; break; }
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++) { fds[i].revents = c[i].revents; if (c[i].revents) cnt++; }
    if (cnt) { ret = cnt; break; }
    if (expired(s)) { ret = 0; break; }
    uint64_t v;
    raw(SYS_read, slot_efd[idx], (long)&v, 8, 0, 0, 0);
  }
  int sv = errno;
  unreg(s);
  errno = sv;
  return ret;
}
int __poll_chk(struct pollfd *fds, nfds_t n, int timeout, size_t l) { (void)l; return poll(fds, n, timeout); }
int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *m) {
  if (!S || !ts || m) return (int)rawe(SYS_ppoll, (long)fds, n, (long)ts, (long)m, 8, 0);
  uint64_t ns = ts_ns(ts);
  uint64_t ms = (ns + 999999) / 1000000;
  return poll(fds, n, ms > 0x7fffffff ? 0x7fffffff : (int)ms);
}

/* ---- receive timeouts ---- */
static int64_t getto(int fd) { return (S && fd >= 0 && fd < MAXFD) ? atomic_load(&rcvto[fd]) : 0; }
/* wait until fd readable or virtual timeout; 1 readable/err, 0 timed out */
static int waitrd(int fd, int64_t to) {
  int fl = (int)raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
  if (fl >= 0 && (fl & O_NONBLOCK)) return 1;
  uint64_t dl = clamp_add(vmono(), (uint64_t)to);
  int idx;
  struct slot *s = reg(K_RECV, dl, 0, &idx);
  int ret;
  for (;;) {
    struct pollfd c[2] = {{fd, POLLIN, 0}, {slot_efd[idx], POLLIN, 0}};
    long r = raw(SYS_poll, (long)c, 2, expired(s) ? 0 : -1, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r < 0 || c[0].revents) { ret = 1; break; }
    if (expired(s)) { ret = 0; break; }
    uint64_t v;
    raw(SYS_read, slot_efd[idx], (long)&v, 8, 0, 0, 0);
  }
  unreg(s);
  return ret;
}
int setsockopt(int fd, int level, int opt, const void *val, socklen_t len) {
  if (S && level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && fd >= 0 && fd < MAXFD) {
    if (opt == SO_RCVTIMEO && len >= sizeof(struct timeval)) {
      const struct timeval *tv = val;
      atomic_store(&rcvto[fd], (int64_t)tv->tv_sec * 1000000000ll + (int64_t)tv->tv_usec * 1000ll);
    }
    return 0;
  }
  return (int)rawe(SYS_setsockopt, fd, level, opt, (long)val, len, 0);
}
int getsockopt(int fd, int level, int opt, void *val, socklen_t *len) {
  if (S && level == SOL_SOCKET && opt == SO_RCVTIMEO && fd >= 0 && fd < MAXFD && *len >= sizeof(struct timeval)) {
    int64_t t = atomic_load(&rcvto[fd]);
    struct timeval tv = {t / 1000000000ll, (t % 1000000000ll) / 1000};
    memcpy(val, &tv, sizeof tv);
    *len = sizeof tv;
    return 0;
  }
  return (int)rawe(SYS_getsockopt, fd, level, opt, (long)val, (long)len, 0);
}
int socket(int d, int t, int p) {
  int fd = (int)rawe(SYS_socket, d, t, p, 0, 0, 0);
  if (S && fd >= 0 && fd < MAXFD) atomic_store(&rcvto[fd], 0);
  return fd;
}
int accept4(int s, struct sockaddr *a, socklen_t *l, int f) {
  int fd = (int)rawe(SYS_accept4, s, (long)a, (long)l, f, 0, 0);
  if (S && fd >= 0 && fd < MAXFD) atomic_store(&rcvto[fd], 0);
  return fd;
}
int accept(int s, struct sockaddr *a, socklen_t *l) { return accept4(s, a, l, 0); }
ssize_t recv(int fd, void *b, size_t n, int f) {
  int64_t to = getto(fd);
  if (to > 0 && !(f & MSG_DONTWAIT) && !waitrd(fd, to)) { errno = EAGAIN; return -1; }
  return rawe(SYS_recvfrom, fd, (long)b, n, f, 0, 0);
}
ssize_t read(int fd, void *b, size_t n) {
  int64_t to = getto(fd);
  struct stat st;
  if (to > 0 && raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0 && S_ISSOCK(st.st_mode) && !waitrd(fd, to)) { errno = EAGAIN; return -1; }
  return rawe(SYS_read, fd, (long)b, n, 0, 0, 0);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  int64_t to = getto(fd);
  struct stat st;
  if (to > 0 && raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0 && S_ISSOCK(st.st_mode) && !waitrd(fd, to)) { errno = EAGAIN; return -1; }
  return rawe(SYS_readv, fd, (long)v, c, 0, 0, 0);
}

static void logc(uint64_t e) {
  uint64_t n = atomic_load(&S->nlog);
  static _Atomic int lk;
  while (atomic_exchange(&lk, 1)) real_usleep(10);
  n = atomic_load(&S->nlog);
  atomic_store(&S->clog[n % NCLOG], e);
  atomic_store(&S->nlog, n + 1);
  atomic_store(&lk, 0);
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
  static int (*r)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
  if (!r) r = dlsym(RTLD_NEXT, "getaddrinfo");
  if (S && node) {
    size_t l = strlen(node);
    if (l > 8 && !strcmp(node + l - 8, ".invalid")) { logc(2); return EAI_NONAME; }
  }
  return r(node, svc, h, res);
}

/* ---- connections: count TCP ones, divert the syslog socket ---- */
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (S && a->sa_family == AF_UNIX && logpath[0]) {
    const char *p = ((const struct sockaddr_un *)a)->sun_path;
    if (!strcmp(p, "/dev/log") || !strcmp(p, "/var/run/syslog") || !strcmp(p, "/var/run/log")) {
      struct sockaddr_un u = {.sun_family = AF_UNIX};
      strcpy(u.sun_path, logpath);
      return (int)rawe(SYS_connect, fd, (long)&u, sizeof u, 0, 0, 0);
    }
  }
  if (S && (a->sa_family == AF_INET || a->sa_family == AF_INET6)) {
    uint64_t e = 1;
    if (a->sa_family == AF_INET) {
      const struct sockaddr_in *i = (const struct sockaddr_in *)a;
      e |= ((uint64_t)ntohl(i->sin_addr.s_addr) << 32) | ((uint64_t)ntohs(i->sin_port) << 8);
    } else e |= (uint64_t)ntohs(((const struct sockaddr_in6 *)a)->sin6_port) << 8;
    logc(e);
  }
  return (int)rawe(SYS_connect, fd, (long)a, l, 0, 0, 0);
}

/* ---- children ---- */
#define SPAWN(name)                                                                                          \
  int name(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, \
           char *const argv[], char *const envp[]) {                                                        \
    static int (*r)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *,   \
                    char *const[], char *const[]);                                                          \
    if (!r) r = dlsym(RTLD_NEXT, #name);                                                                    \
    if (S) atomic_fetch_add(&S->spawned, 1);                                                                \
    nostall++;                                                                                              \
    int x = r(pid, path, fa, at, argv, envp);                                                               \
    nostall--;                                                                                              \
    if (S && x) atomic_fetch_sub(&S->spawned, 1);                                                           \
    return x;                                                                                               \
  }
SPAWN(posix_spawn)
SPAWN(posix_spawnp)
pid_t fork(void) {
  static pid_t (*r)(void);
  if (!r) r = dlsym(RTLD_NEXT, "fork");
  rust_fork = 1;
  if (S) atomic_fetch_add(&S->spawned, 1);
  nostall++;
  pid_t p = r();
  if (p) nostall--;
  if (p) rust_fork = 0;
  return p;
}

/* ---- thread start ---- */
struct tstart { void *(*f)(void *); void *x; };
static void *tmain(void *v) {
  struct tstart t = *(struct tstart *)v;
  nostall++;
  free(v);
  nostall--;
  if (atomic_load(&S->hold)) {
    atomic_fetch_add(&S->held, 1);
    for (;;) {
      uint32_t h = atomic_load(&S->hold);
      if (!h) break;
      raw(SYS_futex, (long)&S->hold, FUTEX_WAIT, h, 0, 0, 0);
    }
    atomic_fetch_sub(&S->held, 1);
  }
  atomic_fetch_sub(&S->pend, 1);
  return t.f(t.x);
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  if (!S) return real_pc()(t, a, f, x);
  nostall++;
  struct tstart *s = malloc(sizeof *s);
  s->f = f;
  s->x = x;
  atomic_fetch_add(&S->threads, 1);
  atomic_fetch_add(&S->pend, 1);
  int r = real_pc()(t, a, tmain, s);
  if (r) { free(s); atomic_fetch_sub(&S->pend, 1); }
  nostall--;
  return r;
}
