#include "ctlsched.h"
#include <sys/single_threaded.h>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
pthread_t __real_pthread_self(void);
int __real_pthread_once(pthread_once_t *, void (*)(void)) __attribute__((weak)); int __real_close(int) __attribute__((weak));
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
off_t __real_lseek(int, off_t, int); off64_t __real_lseek64(int, off64_t, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_pread64(int, void *, size_t, off64_t); ssize_t __real_pwrite64(int, const void *, size_t, off64_t);
extern char __data_start[], _end[];
}

enum { NT = 5, STK = 512 * 1024 };   // thread 0 = main
enum St { RUN, WANT_LOCK, WAITING, WAKE_LOCK, DONE };
struct Fiber {
  ucontext_t uc; char *stk = 0; std::function<void()> body; St st = DONE; void *on = 0, *mx = 0; uint32_t steps = 0;
};
struct Mx { int owner = -1; uint16_t vc[NT] = {0}; };
static Fiber F[NT];
static ucontext_t mainuc;
static int cur = 0, nf = 0;
static bool active = false;          // inside an execution
static bool par = false;             // threads are running
static bool quiet = false;           // inside the runtime itself
static uint16_t VC[NT][NT];
static std::map<void *, Mx> *mxs;
static std::map<void *, std::vector<int>> *cvs;
static std::map<int, Mx> *offs;     // file offsets as shared variables: last access
static std::string failmsg, failcls;
static jmp_buf bail;

struct Sh { uint32_t gen; uint16_t wclk; uint8_t wtid, fl; uint16_t r[NT - 1]; };   // 16 bytes
static const size_t ARENA = 16u << 20;
static char *arena; static Sh *ash; static size_t atop; static uint32_t gen = 1;
static Sh *dsh; static size_t dlen;
static std::map<char *, size_t> *blocks;
static struct { char *a, *b; } lazy[64]; static int nlazy;    // large blocks: shadow filled on first use
static bool in_lazy(const char *p) { for (int i = 0; i < nlazy; i++) if (p >= lazy[i].a && p < lazy[i].b) return true; return false; }

// ---- choices
struct Cand { int tid; int kind; int cost, scost; };   // kind 0 run, 1 spurious wake
struct Point { std::vector<Cand> alts; size_t at; };
static std::vector<Point> path; static size_t depth; static int usedp, useds; static SchedBounds B;
static std::string schedtxt; static uint64_t npoints;
static SchedResult *R;

void sched_fail(const char *cls, const std::string &m) { bool q = quiet; quiet = true; if (failmsg.empty()) { failcls = cls; failmsg = m; } quiet = q; }
bool sched_failed() { return !failmsg.empty(); }
const char *sched_current() { return schedtxt.c_str(); }
static void to_main() { int c = cur; cur = 0; swapcontext(&F[c].uc, &mainuc); }
static void die(const char *cls, const char *fmt, ...) {
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  quiet = true; sched_fail(cls, b); quiet = false;
  if (cur > 0) { F[cur].st = DONE; to_main(); }
  longjmp(bail, 1);
}
// ---- memory
static inline bool onstack(const char *p) { for (int i = 1; i <= nf; i++) if (p >= F[i].stk && p < F[i].stk + STK) return true; return false; }
static void access(const void *vp, size_t n, bool wr, bool fr = false) {
  if (!par || quiet) return;         // before the first and after the last thread everything is ordered
  const char *p = (const char *)vp; Sh *s; bool heap = false;
  if (p >= arena && p < arena + ARENA) { s = ash + (p - arena); heap = true; }
  else if (p >= __data_start && p < _end) s = dsh + (p - __data_start);
  else return;
  int t = cur;
  for (size_t i = 0; i < n; i++) {
    Sh &x = s[i];
    if (heap && x.gen != gen && in_lazy(p + i)) { __real_memset(&x, 0, sizeof x); x.gen = gen; }
    if (heap && x.gen != gen) { die("heap-overflow", "thread %d accesses %zu bytes outside an allocated block", t, n); return; }
    if (!heap && x.gen != gen) { memset(&x, 0, sizeof x); x.gen = gen; }
    if (heap && (x.fl & 1)) { die("use-after-free", "thread %d accesses freed memory", t); return; }
    if (x.wclk && x.wtid != t && x.wclk > VC[t][x.wtid]) { die("data-race", "thread %d %s memory that thread %d writes without synchronization", t, wr ? "writes" : "reads", x.wtid); return; }
    if (wr) for (int u = 0; u < NT - 1; u++) if (u != t && x.r[u] > VC[t][u]) { die("data-race", "thread %d writes memory that thread %d reads without synchronization", t, u); return; }
    if (wr) { x.wclk = VC[t][t]; x.wtid = t; if (fr) x.fl |= 1; }
    else if (t < NT - 1) x.r[t] = VC[t][t];
  }
}
static char *amalloc(size_t n) {
  size_t o = (atop + 15) & ~15ull; if (o + n + 32 > ARENA) return 0;
  char *p = arena + o; atop = o + n + 32;
  Sh z; __real_memset(&z, 0, sizeof z); z.gen = gen; z.wtid = cur; z.wclk = par ? VC[cur][cur] : 0;
  if (n >= 4096 && !par && nlazy < 64) { lazy[nlazy].a = p; lazy[nlazy].b = p + n; nlazy++; }
  else for (size_t i = 0, e = n ? n : 1; i < e; i++) ash[o + i] = z;
  quiet = true; (*blocks)[p] = n; quiet = false;
  __real_memset(p, 0xbe, n < 4096 ? n : 4096);
  return p;
}
// ---- scheduling
static bool enabled(int t) {
  Fiber &f = F[t];
  switch (f.st) {
    case RUN: return true;
    case WANT_LOCK: case WAKE_LOCK: return (*mxs)[f.mx].owner < 0;
    default: return false;
  }
}
static void point() {       // called in a fiber: hand control to the scheduler
  if (cur > 0) { F[cur].steps++; to_main(); }
}
static void acquire(Mx &m, int t) { m.owner = t; for (int i = 0; i < NT; i++) if (m.vc[i] > VC[t][i]) VC[t][i] = m.vc[i]; }
static void release(Mx &m, int t) { __real_memcpy(m.vc, VC[t], sizeof m.vc); VC[t][t]++; m.owner = -1; }

extern "C" {
pthread_t __wrap_pthread_self(void) { return active ? (pthread_t)(0x1000 + cur) : __real_pthread_self(); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if (!active) return __real_pthread_mutex_init(m, a);
  access(m, sizeof *m, true); quiet = true; (*mxs)[m] = Mx(); quiet = false; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!active) return __real_pthread_mutex_destroy(m);
  access(m, sizeof *m, true); quiet = true; mxs->erase(m); quiet = false; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active) return __real_pthread_mutex_lock(m);
  access(m, 1, false);
  quiet = true; Mx *x = &(*mxs)[m]; quiet = false;
  if (cur == 0) { if (x->owner >= 0) die("deadlock", "the main thread waits for a lock nobody releases"); acquire(*x, 0); return 0; }
  if (x->owner == cur) die("deadlock", "thread %d locks a mutex it holds", cur);
  F[cur].st = WANT_LOCK; F[cur].mx = m;
  point();
  F[cur].st = RUN; acquire((*mxs)[m], cur);
  access(m, 1, false);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active) return __real_pthread_mutex_trylock(m);
  access(m, 1, false); point();
  quiet = true; Mx *x = &(*mxs)[m]; quiet = false;
  if (x->owner >= 0) return EBUSY;
  acquire(*x, cur); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active) return __real_pthread_mutex_unlock(m);
  access(m, 1, false);
  quiet = true; Mx *x = &(*mxs)[m]; quiet = false;
  if (x->owner != cur) { die("unlock", "thread %d unlocks a mutex it does not hold", cur); return 0; }
  release(*x, cur); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  if (!active) return __real_pthread_cond_init(c, a);
  access(c, sizeof *c, true); quiet = true; (*cvs)[c].clear(); quiet = false; return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
  if (!active) return __real_pthread_cond_destroy(c);
  access(c, sizeof *c, true);
  if (!(*cvs)[c].empty()) die("cond-destroy", "thread %d destroys a condition variable another thread waits on", cur);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!active) return __real_pthread_cond_wait(c, m);
  access(c, 1, false); access(m, 1, false);
  if (cur == 0) die("deadlock", "the main thread waits on a condition nobody signals");
  quiet = true; (*cvs)[c].push_back(cur); Mx *x = &(*mxs)[m]; quiet = false;
  if (x->owner != cur) { die("cond-wait", "thread %d waits without holding the mutex", cur); return 0; }
  release(*x, cur);
  F[cur].st = WAITING; F[cur].on = c; F[cur].mx = m;
  point();
  F[cur].st = RUN; acquire((*mxs)[m], cur);
  access(c, 1, false); access(m, 1, false);
  return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!active) return __real_pthread_once(o, fn);
  point();
  quiet = true; Mx *x = &(*mxs)[o]; quiet = false;
  if (*(int *)o == 0) { fn(); *(int *)o = 2; release(*x, cur); }
  else for (int i = 0; i < NT; i++) if (x->vc[i] > VC[cur][i]) VC[cur][i] = x->vc[i];
  return 0;
}
int __wrap_close(int f) { if (active) { point(); quiet = true; offs->erase(f); quiet = false; } return __real_close(f); }
static int wake(pthread_cond_t *c, bool all) {
  access(c, 1, false);
  auto &w = (*cvs)[c];
  while (!w.empty()) { int t = w.front(); w.erase(w.begin()); F[t].st = WAKE_LOCK; if (!all) break; }
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!active) return __real_pthread_cond_signal(c); point(); return wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!active) return __real_pthread_cond_broadcast(c); point(); return wake(c, true); }

void *__wrap_malloc(size_t n) { if (active && !quiet) { char *p = amalloc(n); if (p) return p; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (active && !quiet) { char *p = amalloc(a * b); if (p) { __real_memset(p, 0, a * b); return p; } } return __real_calloc(a, b); }
void __wrap_free(void *p) {
  char *c = (char *)p;
  if (c >= arena && c < arena + ARENA && arena) {
    if (!active) return;
    auto it = blocks->find(c);
    if (it == blocks->end()) { die("bad-free", "thread %d frees memory that is not an allocated block", cur); return; }
    size_t n = it->second; access(c, n ? n : 1, true, true);
    if (!par && n < 4096) for (size_t i = 0; i < (n ? n : 1); i++) ash[c - arena + i].fl |= 1;
    quiet = true; blocks->erase(it); quiet = false;
    return;
  }
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  char *c = (char *)p;
  if (active && !quiet && (!c || (c >= arena && c < arena + ARENA))) {
    char *q = amalloc(n); if (!q) return 0;
    if (c) { size_t o = (*blocks)[c]; __real_memcpy(q, c, o < n ? o : n); __wrap_free(c); }
    return q;
  }
  return __real_realloc(p, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { access(d, n, true); return __real_memset(d, v, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
// the offset of a file descriptor is shared: two unordered uses are a race
static void offset_use(int fd) {
  if (!active) return;
  point();
  quiet = true; Mx &m = (*offs)[fd]; quiet = false;
  if (m.owner >= 0 && m.owner != cur && m.vc[m.owner] > VC[cur][m.owner]) die("offset-race", "threads %d and %d move the file offset without synchronization", m.owner, cur);
  m.owner = cur; m.vc[cur] = VC[cur][cur];
}
off_t __wrap_lseek(int f, off_t o, int w) { offset_use(f); return __real_lseek(f, o, w); }
off64_t __wrap_lseek64(int f, off64_t o, int w) { offset_use(f); return __real_lseek64(f, o, w); }
ssize_t __wrap_read(int f, void *b, size_t n) { offset_use(f); access(b, n, true); return __real_read(f, b, n); }
ssize_t __wrap_write(int f, const void *b, size_t n) { offset_use(f); access(b, n, false); return __real_write(f, b, n); }
ssize_t __wrap_pread(int f, void *b, size_t n, off_t o) { if (active) point(); access(b, n, true); return __real_pread(f, b, n, o); }
ssize_t __wrap_pwrite(int f, const void *b, size_t n, off_t o) { if (active) point(); access(b, n, false); return __real_pwrite(f, b, n, o); }
ssize_t __wrap_pread64(int f, void *b, size_t n, off64_t o) { if (active) point(); access(b, n, true); return __real_pread64(f, b, n, o); }
ssize_t __wrap_pwrite64(int f, const void *b, size_t n, off64_t o) { if (active) point(); access(b, n, false); return __real_pwrite64(f, b, n, o); }

// ---- instrumentation runtime
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
#define RW(N) void __tsan_read##N(void *p) { access(p, N, false); } void __tsan_write##N(void *p) { access(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false); } void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { access(p, N, false); } void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
// atomics: a scheduling point that also synchronizes
static void atom(const volatile void *p) {
  if (!active) return;
  point();
  quiet = true; Mx &m = (*mxs)[(void *)p]; quiet = false;
  for (int i = 0; i < NT; i++) if (m.vc[i] > VC[cur][i]) VC[cur][i] = m.vc[i];
  __real_memcpy(m.vc, VC[cur], sizeof m.vc); VC[cur][cur]++;
}
#define AT(W, T) \
  T __tsan_atomic##W##_load(const volatile T *p, int) { atom(p); return *p; } \
  void __tsan_atomic##W##_store(volatile T *p, T v, int) { atom(p); *p = v; } \
  T __tsan_atomic##W##_exchange(volatile T *p, T v, int) { atom(p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##W##_fetch_add(volatile T *p, T v, int) { atom(p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##W##_fetch_sub(volatile T *p, T v, int) { atom(p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##W##_fetch_or(volatile T *p, T v, int) { atom(p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##W##_fetch_and(volatile T *p, T v, int) { atom(p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##W##_fetch_xor(volatile T *p, T v, int) { atom(p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atom(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atom(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atom(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

static void tramp(int t) {
  F[t].body();
  F[t].st = DONE; F[t].steps++;
  to_main();
}
static int choose(int last) {
  npoints++;
  std::vector<Cand> all;
  bool le = last > 0 && enabled(last);
  if (le) all.push_back({last, 0, 0, 0});
  for (int t = 1; t <= nf; t++) if (t != last && enabled(t)) all.push_back({t, 0, le ? 1 : 0, 0});
  bool any = !all.empty();
  for (int t = 1; t <= nf; t++) if (F[t].st == WAITING && any) all.push_back({t, 1, 0, 1});
  if (!any) return -1;
  // abstract state
  uint64_t h = 1469598103934665603ull;
  for (int t = 1; t <= nf; t++) { h = (h ^ (F[t].steps * 8 + F[t].st)) * 1099511628211ull; h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull; }
  h = (h ^ last) * 1099511628211ull;
  R->states.insert(h);
  std::vector<Cand> ok;
  for (auto &c : all) if (usedp + c.cost <= B.preempt && useds + c.scost <= B.spurious) ok.push_back(c);
  size_t at = 0;
  if (depth < path.size()) at = path[depth].at;
  else path.push_back({ok, 0});
  Cand c = ok[at]; depth++;
  usedp += c.cost; useds += c.scost;
  if (ok.size() > 1) { schedtxt += c.kind ? "s" : ""; schedtxt += std::to_string(c.tid); }
  if (c.kind == 1) {    // spurious wakeup
    auto &w = (*cvs)[F[c.tid].on];
    for (size_t i = 0; i < w.size(); i++) if (w[i] == c.tid) { w.erase(w.begin() + i); break; }
    F[c.tid].st = WAKE_LOCK;
    return 0;
  }
  return c.tid;
}

SchedResult sched_explore(const SchedBounds &b, std::function<void()> setup, std::vector<std::function<void()>> bodies, std::function<void()> finish) {
  __libc_single_threaded = 0;      // fibers stand for threads: the C++ library must use its atomic reference counts
  SchedResult res; R = &res; B = b; nf = (int)bodies.size();
  if (!arena) {
    arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ash = (Sh *)mmap(0, ARENA * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dlen = _end - __data_start;
    dsh = (Sh *)mmap(0, dlen * sizeof(Sh) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mxs = new std::map<void *, Mx>; cvs = new std::map<void *, std::vector<int>>; offs = new std::map<int, Mx>; blocks = new std::map<char *, size_t>;
    for (int i = 1; i < NT; i++) F[i].stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  path.clear();
  for (;;) {
    alarm(20); gen++; atop = 0; nlazy = 0; blocks->clear(); mxs->clear(); cvs->clear(); offs->clear(); failmsg.clear(); failcls.clear(); schedtxt.clear();
    memset(VC, 0, sizeof VC); VC[0][0] = 1; cur = 0; depth = 0; usedp = useds = 0; quiet = false;
    for (int i = 1; i <= nf; i++) F[i].st = DONE;
    active = true;
    if (setjmp(bail) == 0) {
      setup();
      if (failmsg.empty()) {
        for (int i = 1; i <= nf; i++) {
          Fiber &f = F[i]; quiet = true; f.body = bodies[i - 1]; quiet = false; f.st = RUN; f.steps = 0;
          __real_memcpy(VC[i], VC[0], sizeof VC[i]); VC[i][i] = 1;
          getcontext(&f.uc); f.uc.uc_stack.ss_sp = f.stk; f.uc.uc_stack.ss_size = STK; f.uc.uc_link = 0;
          makecontext(&f.uc, (void (*)())tramp, 1, i);
        }
        VC[0][0]++;
        int last = 0; par = true;
        for (;;) {
          bool alldone = true; for (int i = 1; i <= nf; i++) if (F[i].st != DONE) alldone = false;
          if (alldone || !failmsg.empty()) break;
          quiet = true; int t = choose(last); quiet = false;
          if (t < 0) { sched_fail("deadlock", "every thread waits for another one"); break; }
          if (t == 0) continue;
          last = t; cur = t;
          swapcontext(&mainuc, &F[t].uc);
          cur = 0;
        }
        par = false;
        for (int i = 1; i <= nf; i++) for (int k = 0; k < NT; k++) if (VC[i][k] > VC[0][k]) VC[0][k] = VC[i][k];
        if (failmsg.empty()) finish();
      }
    }
    active = false; par = false;
    res.schedules++;
    if (!failmsg.empty()) { res.fail = failmsg; res.klass = failcls; res.schedule = schedtxt; break; }
    if (b.maxsched && res.schedules >= b.maxsched) { res.capped = true; break; }
    while (!path.empty() && path.back().at + 1 >= path.back().alts.size()) path.pop_back();
    if (path.empty()) break;
    path.back().at++;
  }
  res.points = npoints; npoints = 0;
  return res;
}
