// See vrt.h. Built without -fsanitize; the code under test is built with
// -fsanitize=thread and linked against the __tsan_* functions defined here.
#include "vrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <unordered_set>

#define EXPORT extern "C" __attribute__((visibility("default")))
using std::string;

namespace vrt {
// ================================================================ globals
static volatile bool g_active = false; // inside begin()..end()
bool is_running() { return g_active; }
bool trace_on = true;
NetHooks hooks;
Params next_params;
static Params P;
static int g_mode = 0;
static uint64_t g_rng = 88172645463325252ull;
uint64_t rnd()
{
  uint64_t x = (g_rng += 0x9e3779b97f4a7c15ull);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static long g_steps = 0;
static long g_idle_polls = 0;
static int64_t g_now = 0;
static int64_t g_base_us = 0;
static const int64_t kMonoOff = 5000000; // monotonic clock = 5 s + now
static uint32_t g_p_sync = 0, g_p_acc = 0; // per 2^20
static uint32_t g_q_dem = 0;

struct Shared { volatile uint32_t len; volatile int status; char msg[240]; char buf[4 << 20]; };
static Shared *g_sh = nullptr;
enum { ST_RUN = 0, ST_OK = 1, ST_FAIL = 2 };

// ================================================================ trace
static void raw_append(char const *s, size_t n)
{
  if (!g_sh) return;
  uint32_t l = g_sh->len;
  if (l + n + 2 >= sizeof g_sh->buf) return;
  for (size_t i = 0; i < n; ++i) g_sh->buf[l + i] = s[i];
  g_sh->len = uint32_t(l + n);
}
void ev(char const *fmt, ...)
{
  if (!g_sh || !trace_on) return;
  char b[8192];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 2, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > int(sizeof b) - 3) n = int(sizeof b) - 3;
  b[n++] = '\n';
  raw_append(b, size_t(n));
}
[[noreturn]] void fail(char const *what, char const *detail)
{
  if (g_sh && g_sh->status == ST_RUN) {
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", detail);
    for (char *p = g_sh->msg; *p; ++p) if (*p == '"' || *p == '\\' || *p < 32) *p = '\'';
    char b[400];
    int n = snprintf(b, sizeof b, "{\"e\":\"Bad\",\"w\":\"%s\"}\n", what);
    raw_append(b, size_t(n));
    g_sh->status = ST_FAIL;
  }
  syscall(SYS_exit_group, 3);
  __builtin_unreachable();
}
[[noreturn]] void end()
{
  if (g_sh) g_sh->status = ST_OK;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ================================================================ threads
struct VThread {
  int id = 0;
  pthread_t real{};
  volatile int futex = 0;
  enum { RUN, BLOCK, DONE } st = RUN;
  std::function<bool()> const *pred = nullptr;
  int64_t deadline = -1;
  bool quiescer = false;
  int64_t qmax = 0;
  uint64_t prio = 0;
  void *cond = nullptr; bool signaled = false;
  int rearm = 0;
  void *(*fn)(void *) = nullptr; void *arg = nullptr;
  bool detached = false;
};
static std::vector<VThread *> *g_threads;
static VThread *g_cur = nullptr;
static __thread VThread *t_self = nullptr;
static pthread_key_t g_key; static bool g_key_ok = false;
static int64_t net_next_deadline();
static void net_time_advanced(int64_t from, int64_t to);

static void futex_wait(volatile int *p) { while (!*p) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); *p = 0; }
static void futex_wake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// a condition of the harness is evaluated at one instant
static bool g_in_pred = false;
static bool eval(std::function<bool()> const &f) { g_in_pred = true; bool r = f(); g_in_pred = false; return r; }
void atomically(std::function<void()> const &f) { bool o = g_in_pred; g_in_pred = true; f(); g_in_pred = o; }
static bool thr_enabled(VThread *t)
{
  if (t->quiescer) return false;
  if (t->st == VThread::RUN) return true;
  if (t->st == VThread::DONE) return false;
  return (t->deadline >= 0 && t->deadline <= g_now) || eval(*t->pred);
}
static void set_now(int64_t t)
{
  int64_t from = g_now; g_now = t; g_idle_polls = 0;
  net_time_advanced(from, t);
}
[[noreturn]] static void deadlock()
{
  char b[200]; int n = 0;
  for (auto t : *g_threads) if (t->st != VThread::DONE && n < 150) n += snprintf(b + n, sizeof b - n, "t%d ", t->id);
  fail("Deadlock", b);
}
// picks the next thread to run; the current one must have set its state
static VThread *choose(bool must_consider_self)
{
  static VThread *en[256];
  for (;;) {
    int n = 0;
    for (auto t : *g_threads) if (thr_enabled(t) && n < 256) en[n++] = t;
    (void)must_consider_self;
    if (n) {
      if (n == 1) return en[0];
      if (g_mode == 2) {
        VThread *b = en[0];
        for (int i = 1; i < n; ++i) if (en[i]->prio > b->prio) b = en[i];
        return b;
      }
      return en[rnd(n)];
    }
    VThread *q = nullptr;
    for (auto t : *g_threads) if (t->quiescer && (!q || t->qmax < q->qmax)) q = t;
    int64_t next = -1;
    for (auto t : *g_threads)
      if (t->st == VThread::BLOCK && !t->quiescer && t->deadline > g_now && (next < 0 || t->deadline < next)) next = t->deadline;
    int64_t nn = net_next_deadline();
    if (nn > g_now && (next < 0 || nn < next)) next = nn;
    if (q && (next < 0 || next > q->qmax)) {
      if (q->qmax > g_now && q->qmax < (int64_t(1) << 60)) set_now(q->qmax);
      q->quiescer = false; q->st = VThread::RUN;
      return q;
    }
    if (next < 0) deadlock();
    set_now(next);
  }
}
static void switch_to(VThread *n)
{
  VThread *me = g_cur;
  if (n == me) return;
  g_cur = n;
  futex_wake(&n->futex);
  futex_wait(&me->futex);
}
static void budget()
{
  if (++g_steps > P.max_steps) fail("Livelock", "step budget");
}
static void sync_point()
{
  if (!g_active || !t_self || t_self != g_cur) return;
  budget();
  if (g_threads->size() < 2) return;
  if (g_mode == 2) {
    if ((rnd() & 0xfffff) < g_q_dem) { g_cur->prio = rnd() >> 33; }
    switch_to(choose(true));
  } else if ((rnd() & 0xfffff) < g_p_sync) {
    switch_to(choose(true));
  }
}
void point() { sync_point(); }
static bool do_block(std::function<bool()> const &pred, int64_t deadline)
{
  VThread *me = g_cur;
  for (;;) {
    if (eval(pred)) return true;
    if (deadline >= 0 && deadline <= g_now) return false;
    me->st = VThread::BLOCK; me->pred = &pred; me->deadline = deadline;
    VThread *n = choose(false);
    if (n != me) switch_to(n);
    me->st = VThread::RUN; me->pred = nullptr; me->deadline = -1;
  }
}
void block(std::function<bool()> const &pred) { sync_point(); do_block(pred, -1); }
bool block(std::function<bool()> const &pred, int64_t d) { sync_point(); return do_block(pred, d); }
int64_t wall() { return g_base_us + g_now; }
void set_wall(int64_t us) { g_base_us += us; }
int64_t now() { return g_now; }
void advance(int64_t us) { if (us > 0) set_now(g_now + us); sync_point(); }
void sleep_until(int64_t us) { block([] { return false; }, us); }
int self() { return t_self ? t_self->id : -1; }
int live_threads()
{
  int n = 0;
  for (auto t : *g_threads) if (t->id != 0 && t->st != VThread::DONE) ++n;
  return n;
}
int unjoined_threads()
{
  int n = 0;
  for (auto t : *g_threads) if (t->id != 0 && t->st == VThread::DONE && !t->detached) ++n;
  return n;
}
void quiesce(int64_t maxt)
{
  VThread *me = g_cur;
  me->quiescer = true; me->qmax = maxt; me->st = VThread::BLOCK;
  VThread *n = choose(false);
  if (n != me) switch_to(n);
  me->quiescer = false; me->st = VThread::RUN;
}
static void thread_finish(VThread *t)
{
  t->st = VThread::DONE;
  VThread *n = choose(false);
  g_cur = n;
  t_self = nullptr;
  futex_wake(&n->futex);
}
static void key_dtor(void *p)
{
  VThread *t = static_cast<VThread *>(p);
  if (t->rearm-- > 0) { pthread_setspecific(g_key, p); return; }
  thread_finish(t);
}
static void *thread_tramp(void *a)
{
  VThread *t = static_cast<VThread *>(a);
  t_self = t;
  futex_wait(&t->futex);
  t->rearm = 1;
  pthread_setspecific(g_key, t);
  return t->fn(t->arg);
}

// ================================================================ heap
static const size_t kArena = size_t(2) << 30;
static char *g_arena = nullptr; static unsigned char *g_shadow = nullptr;
static size_t g_top = 0; static long g_blocks = 0; static __thread int t_kern = 0; // blocks of the simulated kernel are not counted
Kernel::Kernel() { ++t_kern; }
Kernel::~Kernel() { --t_kern; }
static volatile int g_hlock = 0;
struct Hdr { uint64_t size; uint32_t magic; uint32_t off; };
static const uint32_t kLive = 0x1eafbeef, kLiveK = 0x1eafbee0, kDead = 0xdeadbeef;
static void *g_free[64];
static void hlock() { while (__atomic_exchange_n(&g_hlock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void hunlock() { __atomic_store_n(&g_hlock, 0, __ATOMIC_RELEASE); }
static void heap_init()
{
  if (g_arena) return;
  void *p = (void *)syscall(SYS_mmap, (void *)0x200000000000ull, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *s = (void *)syscall(SYS_mmap, nullptr, kArena / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || s == MAP_FAILED) syscall(SYS_exit_group, 99);
  g_shadow = (unsigned char *)s; g_arena = (char *)p;
}
static int size_class(size_t n) { size_t c = (n + 15) / 16; return c < 64 ? int(c) : -1; }
static void fillb(char *p, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); }
static void copyb(char *d, char const *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void mark_live(char *u, size_t n)
{
  size_t o = size_t(u - g_arena) >> 3;
  fillb((char *)g_shadow + o, 8, n >> 3);
  if (n & 7) g_shadow[o + (n >> 3)] = (unsigned char)(n & 7);
}
static void *halloc(size_t n, size_t al)
{
  hlock(); heap_init();
  if (n == 0) n = 1;
  if (!t_kern) ++g_blocks;
  int c = al <= 16 ? size_class(n) : -1;
  if (c >= 0 && g_free[c]) {
    char *u = (char *)g_free[c];
    g_free[c] = *(void **)u;
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->size = n; h->magic = t_kern ? kLiveK : kLive;
    // clear old shadow then mark
    fillb((char *)g_shadow + (size_t(u - g_arena) >> 3), 0, (size_t(c) * 16) >> 3);
    mark_live(u, n);
    hunlock();
    return u;
  }
  if (al < 16) al = 16;
  size_t body = (n + 15) & ~size_t(15);
  size_t at = g_top + sizeof(Hdr);
  at = (at + al - 1) & ~(al - 1);
  if (at + body + 16 > kArena) { hunlock(); return nullptr; }
  g_top = at + body + 16; // 16 bytes of red zone
  char *u = g_arena + at;
  Hdr *h = (Hdr *)(u - sizeof(Hdr));
  h->size = n; h->magic = t_kern ? kLiveK : kLive; h->off = uint32_t(al);
  mark_live(u, n);
  hunlock();
  return u;
}
static void hfree(void *p)
{
  if (!p) return;
  if ((char *)p < g_arena || (char *)p >= g_arena + kArena) return; // early rtld memory
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != kLive && h->magic != kLiveK) {
    if (g_active) fail("MemError", h->magic == kDead ? "double free" : "bad free");
    return;
  }
  hlock();
  if (h->magic == kLive) --g_blocks;
  size_t n = h->size;
  h->magic = kDead;
  size_t body = (n + 15) & ~size_t(15);
  fillb((char *)g_shadow + (size_t((char *)p - g_arena) >> 3), 0xfd, body >> 3);
  if (g_active) fillb((char *)p, 0xdb, n < 65536 ? body : 65536);
  int c = h->off <= 16 ? size_class(n) : -1;
  if (P.reuse && g_active && c >= 0) { *(void **)p = g_free[c]; g_free[c] = p; }
  hunlock();
}
long heap_blocks() { return g_blocks; }
static inline void check_mem(void const *p, size_t n)
{
  size_t o = size_t((char const *)p - g_arena);
  if (__builtin_expect(o >= kArena, 1)) return;
  if (!g_active) return;
  unsigned char s = g_shadow[o >> 3];
  if (__builtin_expect(s == 8 && ((o & 7) + n <= 8), 1)) return;
  size_t end = o + n;
  for (size_t a = o; a < end;) {
    s = g_shadow[a >> 3];
    size_t lim = (a | 7) + 1; if (lim > end) lim = end;
    if (s == 0xfd) fail("MemError", "use after free");
    if (s == 0 || ((lim - 1) & 7) >= s) fail("MemError", "out of bounds");
    a = lim;
  }
}
void check_range(void const *p, size_t n) { if (g_active && n) check_mem(p, n); }

// shared-access detection: one entry per hashed granule
struct AccEnt { uint64_t tag; };
static AccEnt g_acc[1 << 16];
static inline void access(void const *p, size_t n, bool w)
{
  check_mem(p, n);
  if (!g_active || !g_p_acc || t_self != g_cur || !t_self || g_in_pred) return;
  if (++g_steps > P.max_steps) fail("Livelock", "step budget");
  if (g_threads->size() < 2) return;
  uint64_t g = uint64_t(p) >> 3;
  AccEnt &e = g_acc[(g * 0x9e3779b97f4a7c15ull) >> 48];
  // tag: addr<<12 | tid<<2 | shared<<1 | written
  uint64_t tag = e.tag;
  if ((tag >> 12) != g) { e.tag = (g << 12) | (uint64_t(t_self->id & 0x3ff) << 2) | (w ? 1 : 0); return; }
  bool sh = tag & 2, wr = (tag & 1) | w;
  if (!sh && ((tag >> 2) & 0x3ff) != uint64_t(t_self->id & 0x3ff)) sh = true;
  e.tag = (tag & ~3ull) | (sh ? 2 : 0) | (wr ? 1 : 0);
  if (!sh || !wr) return;
  if ((rnd() & 0xfffff) >= g_p_acc) return;
  if (g_mode == 2) g_cur->prio = rnd() >> 33;
  switch_to(choose(true));
}

// ================================================================ begin
static void on_signal(int s)
{
  char b[40]; snprintf(b, sizeof b, "signal %d", s);
  fail(s == SIGABRT ? "Abort" : "Crash", b);
}
void begin(Params const &p)
{
  P = p;
  g_rng = P.seed * 0x2545f4914f6cdd1dull + 12345;
  for (int i = 0; i < 4; ++i) rnd();
  uint64_t m = rnd();
  g_mode = P.mode >= 0 ? P.mode : int(m % 4);
  // 0: switch only when blocked; 1: uniform at calls; 2: priorities; 3: uniform + accesses
  static const uint32_t q[] = {0x100000 / 8, 0x100000 / 30, 0x100000 / 120};
  switch (g_mode) {
    case 0: g_p_sync = 0x100000 / 50; g_p_acc = 0; break;
    case 1: g_p_sync = 0x100000 * 3 / 10; g_p_acc = 0; break;
    case 2: g_q_dem = q[rnd(3)]; g_p_acc = rnd(2) ? 0x100000 / 40 : 0x100000 / 300; break;
    default: g_p_sync = 0x100000 / 8; g_p_acc = rnd(2) ? 0x100000 / 20 : 0x100000 / 4; break;
  }
  if (P.tick_us < 0) P.tick_us = rnd(2);
  g_base_us = P.base_sec * 1000000 + (P.base_usec >= 0 ? P.base_usec : int64_t(rnd(3) ? rnd(1000000) : 999980));
  g_now = 0;
  g_threads = new std::vector<VThread *>;
  g_threads->reserve(300);
  auto t = new VThread; t->id = 0; t->real = pthread_self(); t->prio = rnd() >> 33;
  g_threads->push_back(t); g_cur = t; t_self = t;
  pthread_key_create(&g_key, key_dtor); g_key_ok = true;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  static char altst[65536]; stack_t ss; ss.ss_sp = altst; ss.ss_size = sizeof altst; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  g_active = true;
}

// ================================================================ sync objs
// the pthread objects' own memory holds our state
struct VMutex { int locked; unsigned cnt; int owner; unsigned nusers; int kind; };
static VMutex *vm(pthread_mutex_t *m) { return reinterpret_cast<VMutex *>(m); }
static int mtx_lock(pthread_mutex_t *mm, int64_t deadline = -1)
{
  VMutex *m = vm(mm);
  check_mem(m, sizeof(VMutex));
  if (!g_active || !t_self) { m->locked++; return 0; }
  sync_point();
  int me = g_cur->id + 1;
  if (m->locked && m->owner == me) {
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->cnt++; return 0; }
    if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (!do_block([m] { return m->locked == 0; }, deadline)) return ETIMEDOUT;
  check_mem(m, sizeof(VMutex));
  m->locked = 1; m->owner = me; m->cnt = 1;
  return 0;
}
static int mtx_trylock(pthread_mutex_t *mm)
{
  VMutex *m = vm(mm);
  check_mem(m, sizeof(VMutex));
  if (!g_active || !t_self) { m->locked++; return 0; }
  sync_point();
  int me = g_cur->id + 1;
  if (m->locked) {
    if (m->owner == me && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->cnt++; return 0; }
    return EBUSY;
  }
  m->locked = 1; m->owner = me; m->cnt = 1;
  return 0;
}
static int mtx_unlock_nopoint(VMutex *m)
{
  check_mem(m, sizeof(VMutex));
  if (!g_active || !t_self) { if (m->locked > 0) m->locked--; return 0; }
  if (m->locked && m->owner == g_cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && --m->cnt > 0) return 0;
  m->locked = 0; m->owner = 0; m->cnt = 0;
  return 0;
}
static int64_t abs_to_virtual(timespec const *ts)
{
  int64_t us = int64_t(ts->tv_sec) * 1000000 + (ts->tv_nsec + 999) / 1000;
  if (us > g_base_us / 2) return us - g_base_us;
  return us - kMonoOff;
}
static int cnd_wait(pthread_cond_t *c, pthread_mutex_t *mm, int64_t deadline)
{
  VMutex *m = vm(mm);
  check_mem(c, sizeof *c);
  if (!g_active || !t_self) return 0;
  sync_point();
  VThread *me = g_cur;
  unsigned cnt = m->cnt;
  me->cond = c; me->signaled = false;
  m->locked = 0; m->owner = 0; m->cnt = 0;
  bool spur = P.spurious && rnd(8) == 0;
  bool ok = true;
  if (!spur) ok = do_block([me] { return me->signaled; }, deadline);
  else sync_point();
  if (me->signaled) ok = true;
  me->cond = nullptr; me->signaled = false;
  do_block([m] { return m->locked == 0; }, -1);
  check_mem(m, sizeof(VMutex));
  m->locked = 1; m->owner = me->id + 1; m->cnt = cnt;
  return ok ? 0 : ETIMEDOUT;
}
static int cnd_signal(pthread_cond_t *c, bool all)
{
  check_mem(c, sizeof *c);
  if (!g_active || !t_self) return 0;
  sync_point();
  VThread *w[256]; int n = 0;
  for (auto t : *g_threads) if (t->cond == c && !t->signaled && t->st != VThread::DONE) w[n++] = t;
  if (!n) return 0;
  if (all) for (int i = 0; i < n; ++i) w[i]->signaled = true;
  else w[rnd(n)]->signaled = true;
  sync_point();
  return 0;
}

// ================================================================ net sim
struct Epi { int fd; uint64_t serial; epoll_data_t data; uint32_t events; bool pending; };
struct VConn {
  int id; string to_local; size_t rpos = 0; bool fin = false, rst = false, lshut = false;
  bool connected = false, connecting = false, selfc = false; int so_err = 0; bool eof_seen = false;
  size_t window = SIZE_MAX; bool nospace = false; int lport = 0, rport = 0; int fd = -1;
  bool closed = false; int64_t resolve_at = -1; int res = 0; bool ever = false;
};
struct VFile {
  int kind = K_NONE; uint64_t serial = 0;
  uint64_t counter = 0;                 // eventfd
  int64_t texp = -1, tint = 0;          // timerfd
  std::vector<Epi> items; std::deque<int> order; // epoll
  std::shared_ptr<VConn> conn;          // sock
  int port = 0; std::deque<int> backlog; int pend_port = 0; // listen / unconnected
  bool nonblock = false, v6 = false;
};
static std::map<int, VFile> *g_fds;
static std::vector<std::shared_ptr<VConn>> *g_conns;
static std::deque<Outcome> *g_outcomes;
static Outcome g_def_outcome;
static std::deque<int> *g_accept_errs;
static uint64_t g_serial = 0;
static size_t g_def_window = SIZE_MAX;
static const int kFirstFd = 100;
static void net_init()
{
  if (g_fds) return;
  g_fds = new std::map<int, VFile>; g_conns = new std::vector<std::shared_ptr<VConn>>;
  g_outcomes = new std::deque<Outcome>; g_accept_errs = new std::deque<int>;
}
static VFile *getf(int fd) { net_init(); auto it = g_fds->find(fd); return it == g_fds->end() ? nullptr : &it->second; }
static VFile *needf(int fd, char const *op)
{
  VFile *f = getf(fd);
  if (!f && (fd >= kFirstFd || fd < 0)) { if (hooks.on_badfd && g_active) hooks.on_badfd(fd, op); errno = EBADF; }
  return f;
}
static int newfd(int kind)
{
  net_init();
  if (int(g_fds->size()) >= P.max_fds) { errno = EMFILE; return -1; }
  int fd = kFirstFd;
  for (auto &kv : *g_fds) { if (kv.first != fd) break; ++fd; }
  VFile f; f.kind = kind; f.serial = ++g_serial;
  (*g_fds)[fd] = f;
  return fd;
}
static uint32_t fmask(VFile &f)
{
  switch (f.kind) {
    case K_EVENTFD: return (f.counter ? EPOLLIN : 0) | (f.counter < UINT64_MAX - 1 ? EPOLLOUT : 0);
    case K_TIMERFD: return f.texp >= 0 && f.texp <= g_now ? EPOLLIN : 0;
    case K_LISTEN: return !f.backlog.empty() ? EPOLLIN : 0;
    case K_SOCK: {
      VConn &c = *f.conn;
      if (c.connecting) return 0;
      if (!c.connected && !c.ever) {
        if (c.so_err || c.res) return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (c.so_err ? EPOLLERR : 0);
        return EPOLLOUT | EPOLLHUP;
      }
      uint32_t m = 0;
      if (c.rpos < c.to_local.size() || c.fin || c.rst) m |= EPOLLIN;
      if (c.fin || c.rst) m |= EPOLLRDHUP;
      if (c.window > 0 || c.lshut || c.rst) m |= EPOLLOUT;
      if (c.so_err) m |= EPOLLERR;
      if (c.rst || (c.fin && c.lshut)) m |= EPOLLHUP;
      return m;
    }
    default: return EPOLLIN | EPOLLOUT;
  }
}
static void notify(int fd, uint32_t key)
{
  for (auto &kv : *g_fds) if (kv.second.kind == K_EPOLL)
    for (auto &it : kv.second.items) if (it.fd == fd && (!key || (key & (it.events | EPOLLERR | EPOLLHUP)))) it.pending = true;
}
static int64_t net_next_deadline()
{
  if (!g_fds) return -1;
  int64_t n = -1;
  for (auto &kv : *g_fds) if (kv.second.kind == K_TIMERFD && kv.second.texp > g_now && (n < 0 || kv.second.texp < n)) n = kv.second.texp;
  for (auto &c : *g_conns) if (c->connecting && !c->closed && c->resolve_at > g_now && (n < 0 || c->resolve_at < n)) n = c->resolve_at;
  return n;
}
static void do_resolve(VConn &c, int res)
{
  if (!c.connecting || c.closed) return;
  c.connecting = false; c.resolve_at = -1; c.res = res;
  if (res) { c.so_err = res; } else { c.connected = true; c.ever = true; }
  notify(c.fd, 0);
}
static void net_time_advanced(int64_t from, int64_t to)
{
  if (!g_fds) return;
  for (auto &kv : *g_fds) if (kv.second.kind == K_TIMERFD && kv.second.texp > from && kv.second.texp <= to) notify(kv.first, EPOLLIN);
  for (auto &c : *g_conns) if (c->connecting && !c->closed && c->resolve_at >= 0 && c->resolve_at <= to) do_resolve(*c, c->res);
}
static std::shared_ptr<VConn> new_conn()
{
  auto c = std::make_shared<VConn>(); c->id = int(g_conns->size()); c->window = g_def_window;
  c->lport = 40000 + c->id; g_conns->push_back(c); return c;
}
static VConn *conn(int i) { return g_conns && i >= 0 && i < int(g_conns->size()) ? (*g_conns)[size_t(i)].get() : nullptr; }
int net_connect(int port)
{
  sync_point(); net_init();
  for (auto &kv : *g_fds) if (kv.second.kind == K_LISTEN && kv.second.port == port) {
    auto c = new_conn(); c->connected = true; c->ever = true; c->rport = 50000 + c->id; c->lport = port;
    kv.second.backlog.push_back(c->id);
    if (hooks.on_arrive) hooks.on_arrive(c->id);
    notify(kv.first, EPOLLIN);
    return c->id;
  }
  return -1;
}
int net_make_connected()
{
  net_init();
  int fd = newfd(K_SOCK); if (fd < 0) return -1;
  auto c = new_conn(); c->connected = true; c->ever = true; c->rport = 50000 + c->id; c->fd = fd;
  getf(fd)->conn = c; getf(fd)->nonblock = true;
  return c->id;
}
void net_send(int i, string const &b) { sync_point(); VConn *c = conn(i); if (!c || c->closed || c->fin || c->rst) return; c->to_local += b; notify(c->fd, EPOLLIN); }
void net_fin(int i) { sync_point(); VConn *c = conn(i); if (!c || c->closed || c->fin || c->rst) return; c->fin = true; notify(c->fd, EPOLLIN | EPOLLRDHUP | (c->lshut ? EPOLLHUP : 0)); }
void net_rst(int i) { sync_point(); VConn *c = conn(i); if (!c || c->closed || c->rst) return; c->rst = true; c->so_err = c->fin ? EPIPE : ECONNRESET; notify(c->fd, 0); }
void net_grant(int i, size_t n) { sync_point(); VConn *c = conn(i); if (!c || c->closed) return; c->window += n; if (c->window < n) c->window = SIZE_MAX; if (c->nospace) { c->nospace = false; notify(c->fd, EPOLLOUT); } }
void net_window(int i, size_t n) { VConn *c = conn(i); if (c) c->window = n; }
void net_set_default_window(size_t n) { g_def_window = n; }
size_t net_unread(int i) { VConn *c = conn(i); return c ? c->to_local.size() - c->rpos : 0; }
bool net_local_closed(int i) { VConn *c = conn(i); return !c || c->closed; }
bool net_sock_is_open(int i) { VConn *c = conn(i); return c && !c->closed && c->fd >= 0; }
int net_fd(int i) { VConn *c = conn(i); return c && !c->closed ? c->fd : -1; }
int open_fds(int kind) { net_init(); int n = 0; for (auto &kv : *g_fds) n += kv.second.kind == kind; return n; }
int open_fds() { net_init(); return int(g_fds->size()); }
int fd_interest(int fd)
{
  if (!g_fds) return -1;
  for (auto &kv : *g_fds) if (kv.second.kind == K_EPOLL)
    for (auto &it : kv.second.items) if (it.fd == fd) return int(it.events & (EPOLLIN | EPOLLOUT | EPOLLPRI));
  return -1;
}
void net_push_outcome(Outcome const &o) { net_init(); g_outcomes->push_back(o); }
void net_set_default_outcome(Outcome const &o) { g_def_outcome = o; }
void net_resolve(int i, int res) { sync_point(); VConn *c = conn(i); if (c) do_resolve(*c, res); }
void net_push_accept_err(int e) { net_init(); g_accept_errs->push_back(e); }
void net_set_max_fds(int n) { P.max_fds = n; }
int net_conns() { return g_conns ? int(g_conns->size()) : 0; }
int net_backlog(int port) { net_init(); for (auto &kv : *g_fds) if (kv.second.kind == K_LISTEN && kv.second.port == port) return int(kv.second.backlog.size()); return -1; }

static ssize_t sock_send(VFile &f, iovec const *iov, int cnt)
{
  VConn &c = *f.conn;
  if (cnt < 0 || cnt > 1024) { errno = EINVAL; return -1; }
  size_t tot = 0; for (int i = 0; i < cnt; ++i) tot += iov[i].iov_len;
  int err = 0;
  if (c.so_err) { err = c.so_err; c.so_err = 0; }
  else if (!c.ever) err = c.connecting ? EAGAIN : ENOTCONN;
  else if (c.lshut || c.rst) err = EPIPE;
  if (err) { if (hooks.on_write_err) hooks.on_write_err(c.id, err); errno = err; return -1; }
  if (tot == 0) return 0;
  size_t n = std::min(tot, c.window);
  if (n < tot) c.nospace = true;
  if (n == 0) { if (hooks.on_write_err) hooks.on_write_err(c.id, EAGAIN); errno = EAGAIN; return -1; }
  string d; d.reserve(n);
  for (int i = 0; i < cnt && d.size() < n; ++i) {
    size_t k = std::min(n - d.size(), iov[i].iov_len);
    check_mem(iov[i].iov_base, k ? k : 1);
    d.append((char *)iov[i].iov_base, k);
  }
  if (c.window != SIZE_MAX) c.window -= n;
  if (hooks.on_write) hooks.on_write(c.id, d.data(), n, tot);
  return ssize_t(n);
}
static ssize_t sock_recv(VFile &f, iovec const *iov, int cnt)
{
  VConn &c = *f.conn;
  if (cnt < 0 || cnt > 1024) { errno = EINVAL; return -1; }
  size_t cap = 0; for (int i = 0; i < cnt; ++i) cap += iov[i].iov_len;
  size_t av = c.to_local.size() - c.rpos;
  if (av > 0 && cap > 0) {
    size_t n = std::min(av, cap), left = n;
    if (hooks.on_read) hooks.on_read(c.id, c.to_local.data() + c.rpos, n);
    for (int i = 0; i < cnt && left; ++i) {
      size_t k = std::min(left, iov[i].iov_len);
      if (k) check_mem(iov[i].iov_base, k);
      copyb((char *)iov[i].iov_base, c.to_local.data() + c.rpos, k);
      c.rpos += k; left -= k;
    }
    return ssize_t(n);
  }
  if (cap == 0) return 0;
  if (c.so_err) { errno = c.so_err; c.so_err = 0; if (hooks.on_read_end) hooks.on_read_end(c.id, errno); return -1; }
  if (c.fin || c.rst) { if (hooks.on_read_end) hooks.on_read_end(c.id, 0); return 0; }
  if (!c.ever) { errno = ENOTCONN; return -1; }
  errno = EAGAIN; return -1;
}
static ssize_t gen_read(int fd, iovec const *iov, int cnt, char const *op)
{
  Kernel k;
  sync_point();
  VFile *f = needf(fd, op); if (!f) return -1;
  if (f->kind == K_SOCK) return sock_recv(*f, iov, cnt);
  if (f->kind == K_EVENTFD) {
    if (!f->counter) { errno = EAGAIN; return -1; }
    uint64_t v = f->counter; f->counter = 0; copyb((char *)iov[0].iov_base, (char *)&v, 8); return 8;
  }
  if (f->kind == K_TIMERFD) {
    if (f->texp < 0 || f->texp > g_now) { errno = EAGAIN; return -1; }
    uint64_t v = 1;
    if (f->tint > 0) { v += uint64_t((g_now - f->texp) / f->tint); f->texp += int64_t(v) * f->tint; } else f->texp = -1;
    copyb((char *)iov[0].iov_base, (char *)&v, 8); return 8;
  }
  if (f->kind == K_DEVNULL) return 0;
  errno = EINVAL; return -1;
}
static ssize_t gen_write(int fd, iovec const *iov, int cnt, char const *op)
{
  Kernel k;
  sync_point();
  VFile *f = needf(fd, op); if (!f) return -1;
  if (f->kind == K_SOCK) return sock_send(*f, iov, cnt);
  if (f->kind == K_EVENTFD) {
    uint64_t v; copyb((char *)&v, (char *)iov[0].iov_base, 8); f->counter += v; notify(fd, EPOLLIN); return 8;
  }
  if (f->kind == K_DEVNULL) { size_t t = 0; for (int i = 0; i < cnt; ++i) t += iov[i].iov_len; return ssize_t(t); }
  errno = EINVAL; return -1;
}
static void idle_check()
{
  if (++g_idle_polls > P.max_idle_polls) fail("Livelock", "polling spins");
}
static bool epi_ready(Epi &it, uint32_t &ev)
{
  VFile *f = getf(it.fd);
  if (!f || f->serial != it.serial) return false;
  uint32_t m = fmask(*f) & it.events; // 0: a one-shot that has fired
  if (!m) return false;
  if ((it.events & EPOLLET) && !it.pending) return false;
  ev = m; return true;
}
static int ep_wait(int epfd, epoll_event *evs, int max, int timeout)
{
  sync_point(); idle_check();
  VFile *ep = needf(epfd, "epoll_wait"); if (!ep) return -1;
  if (hooks.on_poll) hooks.on_poll(0);
  if (hooks.on_pollset) {
    std::vector<std::pair<int, int>> v;
    for (auto &it : ep->items) { VFile *f = getf(it.fd); if (f && f->kind == K_SOCK) v.push_back({it.fd, int(it.events & (EPOLLIN | EPOLLOUT))}); }
    hooks.on_pollset(0, v);
  }
  if (max <= 0) { errno = EINVAL; return -1; }
  uint64_t ser = ep->serial;
  auto ready = [epfd, ser]() -> bool {
    VFile *e = getf(epfd);
    if (!e || e->serial != ser) return false;
    uint32_t x;
    for (auto &it : e->items) if (epi_ready(it, x)) return true;
    return false;
  };
  if (timeout != 0) do_block(ready, timeout < 0 ? -1 : g_now + int64_t(timeout) * 1000);
  ep = getf(epfd);
  std::vector<std::pair<Epi *, uint32_t>> r;
  for (auto &it : ep->items) { uint32_t x; if (epi_ready(it, x)) r.push_back({&it, x}); }
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[size_t(rnd(int(i)))]);
  int n = 0;
  for (auto &p : r) {
    if (n >= max) break;
    check_mem(&evs[n], sizeof evs[n]);
    evs[n].events = p.second; evs[n].data = p.first->data; ++n;
    p.first->pending = false;
    if (p.first->events & EPOLLONESHOT) p.first->events = 0;
  }
  if (hooks.on_pollset) {
    std::vector<std::pair<int, int>> v;
    for (int i = 0; i < n; ++i) { VFile *f = getf(r[size_t(i)].first->fd); if (f && f->kind == K_SOCK) v.push_back({r[size_t(i)].first->fd, int(r[size_t(i)].second)}); }
    hooks.on_pollset(1, v);
  }
  if (hooks.on_poll) hooks.on_poll(1);
  return n;
}
static int ep_ctl(int epfd, int op, int fd, epoll_event *e)
{
  sync_point();
  VFile *ep = needf(epfd, "epoll_ctl"); if (!ep) return -1;
  VFile *f = needf(fd, "epoll_ctl"); if (!f) return -1;
  auto it = std::find_if(ep->items.begin(), ep->items.end(), [&](Epi &x) { return x.fd == fd && x.serial == f->serial; });
  if (op == EPOLL_CTL_ADD) {
    if (it != ep->items.end()) { errno = EEXIST; return -1; }
    ep->items.push_back(Epi{fd, f->serial, e->data, e->events | EPOLLERR | EPOLLHUP, true});
  } else if (op == EPOLL_CTL_MOD) {
    if (it == ep->items.end()) { errno = ENOENT; return -1; }
    it->events = e->events | EPOLLERR | EPOLLHUP; it->data = e->data; it->pending = true;
  } else if (op == EPOLL_CTL_DEL) {
    if (it == ep->items.end()) { errno = ENOENT; return -1; }
    ep->items.erase(it);
  } else { errno = EINVAL; return -1; }
  return 0;
}
static int do_poll(pollfd *p, nfds_t n, int timeout)
{
  sync_point(); idle_check();
  if (hooks.on_poll) hooks.on_poll(0);
  auto report = [&](int ret) {
    if (!hooks.on_pollset) return;
    std::vector<std::pair<int, int>> v;
    for (nfds_t i = 0; i < n; ++i) {
      VFile *f = p[i].fd < 0 ? nullptr : getf(p[i].fd);
      if (p[i].fd >= 0 && (!f || f->kind == K_SOCK) && (!ret || p[i].revents)) v.push_back({p[i].fd, ret ? int(p[i].revents) : int(p[i].events & (POLLIN | POLLOUT))});
    }
    hooks.on_pollset(ret, v);
  };
  report(0);
  auto calc = [p, n]() -> int {
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      VFile *f = getf(p[i].fd);
      if (!f) { p[i].revents = POLLNVAL; ++k; continue; }
      uint32_t m = fmask(*f) & (uint32_t((unsigned short)p[i].events) | POLLERR | POLLHUP);
      p[i].revents = short(m); if (m) ++k;
    }
    return k;
  };
  check_mem(p, n ? n * sizeof(pollfd) : 1);
  if (timeout != 0) do_block([&] { return calc() > 0; }, timeout < 0 ? -1 : g_now + int64_t(timeout) * 1000);
  int k = calc();
  if (hooks.on_badfd) for (nfds_t i = 0; i < n; ++i) if (p[i].revents & POLLNVAL) hooks.on_badfd(p[i].fd, "poll");
  report(1);
  if (hooks.on_poll) hooks.on_poll(1);
  return k;
}
static int do_close(int fd)
{
  sync_point();
  VFile *f = needf(fd, "close"); if (!f) return -1;
  int kind = f->kind, cid = f->conn ? f->conn->id : -1;
  if (f->conn) { f->conn->closed = true; }
  for (auto &kv : *g_fds) if (kv.second.kind == K_EPOLL) {
    auto &v = kv.second.items;
    v.erase(std::remove_if(v.begin(), v.end(), [&](Epi &x) { return x.fd == fd; }), v.end());
  }
  for (int b : f->backlog) if (VConn *c = conn(b)) c->rst = true;
  g_fds->erase(fd);
  if (hooks.on_close) hooks.on_close(fd, kind, cid);
  return 0;
}
static void fill_addr(sockaddr *a, socklen_t *l, int port, bool v6)
{
  if (!a || !l) return;
  if (v6) {
    sockaddr_in6 in; memset(&in, 0, sizeof in); in.sin6_family = AF_INET6; in.sin6_port = htons(uint16_t(port)); in.sin6_addr = in6addr_loopback;
    memcpy(a, &in, std::min(size_t(*l), sizeof in)); *l = sizeof in;
  } else {
    sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(uint16_t(port)); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &in, std::min(size_t(*l), sizeof in)); *l = sizeof in;
  }
}
static int do_accept(int fd, sockaddr *a, socklen_t *l, int flags)
{
  sync_point();
  VFile *f = needf(fd, "accept"); if (!f) return -1;
  if (f->kind != K_LISTEN) { errno = EINVAL; return -1; }
  if (!g_accept_errs->empty() && !f->backlog.empty()) {
    int e = g_accept_errs->front(); g_accept_errs->pop_front();
    if (e == ECONNABORTED) { if (VConn *c = conn(f->backlog.front())) c->rst = true; f->backlog.pop_front(); }
    if (e) { if (hooks.on_accept) hooks.on_accept(-1, e); errno = e; return -1; }
  }
  if (int(g_fds->size()) >= P.max_fds) { if (hooks.on_accept) hooks.on_accept(-1, EMFILE); errno = EMFILE; return -1; }
  if (f->backlog.empty()) { errno = EAGAIN; return -1; }
  int cid = f->backlog.front(); f->backlog.pop_front();
  int nf = newfd(K_SOCK); if (nf < 0) return -1;
  VConn *c = conn(cid); c->fd = nf;
  VFile *n = getf(nf); n->conn = (*g_conns)[size_t(cid)]; n->nonblock = flags & SOCK_NONBLOCK; n->v6 = getf(fd)->v6;
  fill_addr(a, l, c->rport, n->v6);
  if (hooks.on_accept) hooks.on_accept(cid, 0);
  return nf;
}

// ================================================================ driver
int Op::i(size_t k, int d) const { return k < a.size() ? atoi(a[k].c_str()) : d; }
string Op::s(size_t k, char const *d) const { return k < a.size() ? a[k] : string(d); }
int Script::geti(char const *k, int d) const { auto it = opt.find(k); return it == opt.end() ? d : atoi(it->second.c_str()); }
string Script::gets(char const *k, char const *d) const { auto it = opt.find(k); return it == opt.end() ? string(d) : it->second; }
std::vector<Op> const *Script::find(char const *t) const { for (auto &p : thr) if (p.first == t) return &p.second; return nullptr; }

static std::vector<string> split(string const &s, char c)
{
  std::vector<string> r; string cur;
  for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
  r.push_back(cur); return r;
}
static std::vector<string> words(string const &s)
{
  std::vector<string> r; string cur;
  for (char x : s) { if (x == ' ' || x == '\n' || x == '\t') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += x; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
// job line:  id nseeds seed0 k=v ... | thr op a b ; op a | thr ...
static bool parse(string const &line, Script &s, int &nseeds, uint64_t &seed0)
{
  auto parts = split(line, '|');
  auto h = words(parts[0]);
  if (h.size() < 3) return false;
  s.id = h[0]; nseeds = atoi(h[1].c_str()); seed0 = strtoull(h[2].c_str(), nullptr, 10);
  for (size_t i = 3; i < h.size(); ++i) { auto e = h[i].find('='); if (e != string::npos) s.opt[h[i].substr(0, e)] = h[i].substr(e + 1); }
  for (size_t i = 1; i < parts.size(); ++i) {
    std::vector<Op> ops; string name; bool first = true;
    for (auto &seg : split(parts[i], ';')) {
      auto w = words(seg);
      size_t k = 0;
      if (first) { if (w.empty()) break; name = w[k++]; first = false; }
      if (k < w.size()) { Op o; o.name = w[k++]; o.a.assign(w.begin() + long(k), w.end()); ops.push_back(o); }
    }
    if (!name.empty()) s.thr.push_back({name, ops});
  }
  return true;
}
static uint64_t fnv(char const *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
static int64_t real_us() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000ll + ts.tv_nsec / 1000; }

// usage: prog jobs out [budget_seconds]
int driver(int argc, char **argv, void (*run)(Script const &, uint64_t), void (*warm)())
{
  if (argc < 3) { fprintf(stderr, "usage: %s jobs out [seconds]\n", argv[0]); return 2; }
  FILE *jf = fopen(argv[1], "r"); FILE *of = fopen(argv[2], "w");
  if (!jf || !of) { perror("open"); return 2; }
  double budget = argc > 3 ? atof(argv[3]) : 1e9;
  bool noisy = getenv("VRT_NOISY") != nullptr;
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (warm) warm();
  int64_t t0 = real_us();
  long runs = 0; bool cut = false;
  std::unordered_set<uint64_t> seen;
  char *line = nullptr; size_t cap = 0; ssize_t len;
  while ((len = getline(&line, &cap, jf)) > 0) {
    Script s; int ns = 0; uint64_t s0 = 0;
    if (!parse(line, s, ns, s0)) continue;
    std::unordered_set<uint64_t> mine;
    for (int k = 0; k < ns; ++k) {
      if (double(real_us() - t0) / 1e6 > budget) { cut = true; break; }
      uint64_t seed = s0 + uint64_t(k);
      g_sh->len = 0; g_sh->status = ST_RUN; g_sh->msg[0] = 0;
      fflush(of);
      pid_t pid = fork();
      if (pid < 0) { usleep(1000); --k; continue; }
      if (pid == 0) {
        if (!noisy) { int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR); syscall(SYS_dup2, dn, 1); syscall(SYS_dup2, dn, 2); }
        rlimit rl{20, 20}; setrlimit(RLIMIT_CPU, &rl);
        rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        next_params = Params(); next_params.seed = seed;
        next_params.spurious = s.geti("spurious", 0) && (seed & 1);
        next_params.reuse = s.gets("reuse") == "r" ? bool((seed >> 1) & 1) : bool(s.geti("reuse", 0));
        if (s.opt.count("mode")) next_params.mode = s.geti("mode", -1);
        if (s.opt.count("tick")) next_params.tick_us = s.geti("tick", 0);
        if (s.opt.count("basesec")) next_params.base_sec = atoll(s.gets("basesec").c_str());
        if (s.opt.count("baseusec")) next_params.base_usec = atoll(s.gets("baseusec").c_str());
        if (s.opt.count("maxfds")) next_params.max_fds = s.geti("maxfds", 1 << 20);
        if (s.opt.count("steps")) next_params.max_steps = atol(s.gets("steps").c_str());
        run(s, seed);
        end();
      }
      int st = 0; waitpid(pid, &st, 0);
      ++runs;
      if (g_sh->status == ST_RUN) { // killed: out of CPU time or exit() called
        char const *w = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "Livelock" : "Crash") : "Exit";
        char b[100]; int n = snprintf(b, sizeof b, "{\"e\":\"Bad\",\"w\":\"%s\"}\n", w);
        raw_append(b, size_t(n)); g_sh->status = ST_FAIL;
        snprintf(g_sh->msg, sizeof g_sh->msg, "wait status %d", st);
      }
      uint64_t h = fnv(g_sh->buf, g_sh->len);
      bool dup = !mine.insert(h).second;
      if (dup) continue;
      fprintf(of, "@ %s %llu %d %s\n", s.id.c_str(), (unsigned long long)seed, g_sh->status == ST_OK ? 0 : 1, g_sh->msg);
      fwrite(g_sh->buf, 1, g_sh->len, of);
    }
    if (cut) break;
  }
  fprintf(of, "# runs %ld cut %d\n", runs, cut ? 1 : 0);
  fclose(of);
  return 0;
}
} // namespace vrt
using namespace vrt;

// ================================================================ interposition
static inline bool simfd(int fd) { return g_active && (fd >= kFirstFd || fd < 0); }
#define ACT (g_active && t_self)

EXPORT int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a)
{
  memset(m, 0, sizeof *m); int k = 0;
  if (a) pthread_mutexattr_gettype(a, &k);
  vm(m)->kind = k; return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) { check_mem(m, sizeof(VMutex)); if (ACT && vm(m)->locked) return EBUSY; return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { return mtx_lock(m); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { return mtx_trylock(m); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, timespec const *ts) { return mtx_lock(m, abs_to_virtual(ts)); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, timespec const *ts) { return mtx_lock(m, abs_to_virtual(ts)); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) { int r = mtx_unlock_nopoint(vm(m)); sync_point(); return r; }
EXPORT int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c) { check_mem(c, sizeof *c); return 0; }
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cnd_wait(c, m, -1); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *ts) { int64_t d = abs_to_virtual(ts); return cnd_wait(c, m, d < 0 ? 0 : d); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, timespec const *ts) { int64_t d = abs_to_virtual(ts); return cnd_wait(c, m, d < 0 ? 0 : d); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) { return cnd_signal(c, false); }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) { return cnd_signal(c, true); }

struct VRw { int writer; int readers; };
EXPORT int pthread_rwlock_init(pthread_rwlock_t *r, pthread_rwlockattr_t const *) { memset(r, 0, sizeof *r); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *r) { VRw *w = (VRw *)r; if (!ACT) return 0; sync_point(); do_block([w] { return !w->writer; }, -1); w->readers++; return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *r) { VRw *w = (VRw *)r; if (!ACT) return 0; sync_point(); if (w->writer) return EBUSY; w->readers++; return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *r) { VRw *w = (VRw *)r; if (!ACT) return 0; sync_point(); do_block([w] { return !w->writer && !w->readers; }, -1); w->writer = 1; return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *r) { VRw *w = (VRw *)r; if (!ACT) return 0; sync_point(); if (w->writer || w->readers) return EBUSY; w->writer = 1; return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *r) { VRw *w = (VRw *)r; if (!ACT) return 0; if (w->writer) w->writer = 0; else w->readers--; sync_point(); return 0; }
EXPORT int pthread_spin_init(pthread_spinlock_t *s, int) { *(volatile int *)s = 0; return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t *s) { if (!ACT) return 0; sync_point(); do_block([s] { return *s == 0; }, -1); *(volatile int *)s = 1; return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t *s) { if (!ACT) return 0; sync_point(); if (*s) return EBUSY; *(volatile int *)s = 1; return 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t *s) { *(volatile int *)s = 0; sync_point(); return 0; }
EXPORT int pthread_once(pthread_once_t *o, void (*fn)())
{
  if (!ACT) { if (*o == 2) return 0; *o = 1; fn(); *o = 2; return 0; }
  sync_point();
  if (*o == 2) return 0;
  if (*o == 1) { do_block([o] { return *o != 1; }, -1); if (*o == 2) return 0; }
  *o = 1;
  try { fn(); } catch (...) { *o = 0; throw; }
  *o = 2; return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t *g)
{
  unsigned char *b = (unsigned char *)g;
  if (b[0]) return 0;
  if (ACT && b[1]) { do_block([b] { return b[0] || !b[1]; }, -1); if (b[0]) return 0; }
  b[1] = 1; return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) { unsigned char *b = (unsigned char *)g; b[1] = 0; b[0] = 1; }
EXPORT void __cxa_guard_abort(uint64_t *g) { ((unsigned char *)g)[1] = 0; }

typedef int (*create_t)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *);
EXPORT int pthread_create(pthread_t *th, pthread_attr_t const *a, void *(*fn)(void *), void *arg)
{
  static create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!ACT) return real(th, a, fn, arg);
  sync_point();
  auto t = new VThread; t->id = int(g_threads->size()); t->prio = rnd() >> 33; t->fn = fn; t->arg = arg;
  pthread_t tmp;
  int r = real(&tmp, nullptr, thread_tramp, t);
  if (r) return r;
  check_mem(th, sizeof *th); *th = tmp;
  t->real = tmp; g_threads->push_back(t);
  sync_point();
  return 0;
}
EXPORT int pthread_join(pthread_t th, void **rv)
{
  static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  if (!ACT) return real(th, rv);
  VThread *t = nullptr;
  for (auto x : *g_threads) if (x->id && pthread_equal(x->real, th) && !x->detached) t = x;
  if (!t) { fail("Join", "pthread_join of no thread"); }
  if (t == g_cur) return EDEADLK;
  sync_point();
  do_block([t] { return t->st == VThread::DONE; }, -1);
  t->detached = true;
  return real(th, rv);
}
EXPORT int pthread_detach(pthread_t th)
{
  static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  if (ACT) {
    sync_point();
    VThread *t = nullptr;
    for (auto x : *g_threads) if (x->id && pthread_equal(x->real, th) && !x->detached) t = x;
    if (!t) { fail("Detach", "pthread_detach of no thread"); }
    t->detached = true;
  }
  return real(th);
}
EXPORT int sched_yield() { if (ACT) { if (g_mode == 2) g_cur->prio = rnd() >> 40; sync_point(); } return 0; }

// clocks
static void tick() { if (ACT && P.tick_us) set_now(g_now + P.tick_us); }
static void get_ts(clockid_t c, timespec *ts)
{
  tick();
  int64_t us = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? g_base_us + g_now : kMonoOff + g_now;
  ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000;
}
EXPORT int clock_gettime(clockid_t c, timespec *ts) noexcept
{
  if (!ACT) return (int)syscall(SYS_clock_gettime, c, ts);
  get_ts(c, ts); return 0;
}
EXPORT int gettimeofday(timeval *tv, void *) noexcept
{
  timespec ts; if (!ACT) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else get_ts(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *p) noexcept
{
  timespec ts; if (!ACT) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else get_ts(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int nanosleep(timespec const *a, timespec *)
{
  if (!ACT) return (int)syscall(SYS_nanosleep, a, nullptr);
  sleep_until(g_now + a->tv_sec * 1000000ll + (a->tv_nsec + 999) / 1000); return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, timespec const *a, timespec *)
{
  if (!ACT) return (int)syscall(SYS_clock_nanosleep, c, fl, a, nullptr);
  if (fl & TIMER_ABSTIME) sleep_until(abs_to_virtual(a)); else sleep_until(g_now + a->tv_sec * 1000000ll + (a->tv_nsec + 999) / 1000);
  return 0;
}
EXPORT int usleep(useconds_t us) { timespec t{time_t(us / 1000000), long(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { timespec t{time_t(s), 0}; nanosleep(&t, nullptr); return 0; }

// descriptors
EXPORT ssize_t read(int fd, void *b, size_t n)
{
  if (!simfd(fd)) return syscall(SYS_read, fd, b, n);
  iovec v{b, n}; return gen_read(fd, &v, 1, "read");
}
EXPORT ssize_t readv(int fd, iovec const *v, int c) { if (!simfd(fd)) return syscall(SYS_readv, fd, v, c); check_mem(v, sizeof(iovec) * size_t(c > 0 ? c : 1)); return gen_read(fd, v, c, "readv"); }
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { if (!simfd(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, 0, 0); iovec v{b, n}; return gen_read(fd, &v, 1, "recv"); }
EXPORT ssize_t recvmsg(int fd, msghdr *m, int fl) { if (!simfd(fd)) return syscall(SYS_recvmsg, fd, m, fl); return gen_read(fd, m->msg_iov, int(m->msg_iovlen), "recvmsg"); }
EXPORT ssize_t write(int fd, void const *b, size_t n)
{
  if (!simfd(fd)) return syscall(SYS_write, fd, b, n);
  iovec v{const_cast<void *>(b), n}; return gen_write(fd, &v, 1, "write");
}
EXPORT ssize_t writev(int fd, iovec const *v, int c) { if (!simfd(fd)) return syscall(SYS_writev, fd, v, c); if (c > 0) check_mem(v, sizeof(iovec) * size_t(c)); return gen_write(fd, v, c, "writev"); }
EXPORT ssize_t send(int fd, void const *b, size_t n, int fl) { if (!simfd(fd)) return syscall(SYS_sendto, fd, b, n, fl, 0, 0); iovec v{const_cast<void *>(b), n}; return gen_write(fd, &v, 1, "send"); }
EXPORT ssize_t sendmsg(int fd, msghdr const *m, int fl) { if (!simfd(fd)) return syscall(SYS_sendmsg, fd, m, fl); return gen_write(fd, m->msg_iov, int(m->msg_iovlen), "sendmsg"); }
EXPORT int close(int fd) { if (!simfd(fd)) return (int)syscall(SYS_close, fd); return do_close(fd); }
EXPORT int eventfd(unsigned init, int) noexcept { if (!ACT) return (int)syscall(SYS_eventfd2, init, 0); int fd = newfd(K_EVENTFD); if (fd >= 0) getf(fd)->counter = init; return fd; }
EXPORT int timerfd_create(clockid_t c, int fl) noexcept { if (!ACT) return (int)syscall(SYS_timerfd_create, c, fl); return newfd(K_TIMERFD); }
EXPORT int timerfd_settime(int fd, int fl, itimerspec const *n, itimerspec *o) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_timerfd_settime, fd, fl, n, o);
  sync_point();
  VFile *f = needf(fd, "timerfd_settime"); if (!f) return -1;
  if (o) memset(o, 0, sizeof *o);
  if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
  int64_t us = n->it_value.tv_sec * 1000000ll + (n->it_value.tv_nsec + 999) / 1000;
  f->tint = n->it_interval.tv_sec * 1000000ll + n->it_interval.tv_nsec / 1000;
  if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) { f->texp = -1; return 0; }
  f->texp = (fl & TFD_TIMER_ABSTIME) ? abs_to_virtual(&n->it_value) : g_now + us;
  if (f->texp < 0) f->texp = 0;
  if (f->texp <= g_now) notify(fd, EPOLLIN);
  return 0;
}
EXPORT int timerfd_gettime(int fd, itimerspec *o) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_timerfd_gettime, fd, o);
  VFile *f = needf(fd, "timerfd_gettime"); if (!f) return -1;
  memset(o, 0, sizeof *o); if (f->texp > g_now) { o->it_value.tv_sec = (f->texp - g_now) / 1000000; o->it_value.tv_nsec = (f->texp - g_now) % 1000000 * 1000; } return 0;
}
EXPORT int epoll_create1(int fl) noexcept { if (!ACT) return (int)syscall(SYS_epoll_create1, fl); return newfd(K_EPOLL); }
EXPORT int epoll_create(int) noexcept { return epoll_create1(0); }
EXPORT int epoll_ctl(int e, int op, int fd, epoll_event *ev) noexcept { if (!simfd(e)) return (int)syscall(SYS_epoll_ctl, e, op, fd, ev); return ep_ctl(e, op, fd, ev); }
EXPORT int epoll_wait(int e, epoll_event *ev, int m, int t) { if (!simfd(e)) return (int)syscall(SYS_epoll_wait, e, ev, m, t); return ep_wait(e, ev, m, t); }
EXPORT int epoll_pwait(int e, epoll_event *ev, int m, int t, sigset_t const *) { return epoll_wait(e, ev, m, t); }
EXPORT int poll(pollfd *p, nfds_t n, int t) { if (!ACT) { return (int)syscall(SYS_poll, p, n, t); } return do_poll(p, n, t); }
EXPORT int ppoll(pollfd *p, nfds_t n, timespec const *ts, sigset_t const *) { return poll(p, n, ts ? int(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
EXPORT int __poll_chk(pollfd *p, nfds_t n, int t, size_t) { return poll(p, n, t); }
EXPORT int socket(int d, int ty, int p) noexcept
{
  if (!ACT) return (int)syscall(SYS_socket, d, ty, p);
  sync_point();
  int fd = newfd(K_SOCK); if (fd < 0) return -1;
  auto c = new_conn(); c->fd = fd; VFile *f = getf(fd); f->conn = c; f->nonblock = ty & SOCK_NONBLOCK; f->v6 = d == AF_INET6;
  if (hooks.on_socket) hooks.on_socket(c->id);
  return fd;
}
EXPORT int bind(int fd, sockaddr const *a, socklen_t l) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_bind, fd, a, l);
  VFile *f = needf(fd, "bind"); if (!f) return -1;
  f->pend_port = ntohs(((sockaddr_in const *)a)->sin_port); return 0;
}
EXPORT int listen(int fd, int n) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_listen, fd, n);
  VFile *f = needf(fd, "listen"); if (!f) return -1;
  f->kind = K_LISTEN; f->port = f->pend_port; f->conn.reset(); if (hooks.on_listen) hooks.on_listen(fd); return 0;
}
EXPORT int accept4(int fd, sockaddr *a, socklen_t *l, int fl) { if (!simfd(fd)) return (int)syscall(SYS_accept4, fd, a, l, fl); return do_accept(fd, a, l, fl); }
EXPORT int accept(int fd, sockaddr *a, socklen_t *l) { if (!simfd(fd)) return (int)syscall(SYS_accept, fd, a, l); return do_accept(fd, a, l, 0); }
EXPORT int connect(int fd, sockaddr const *a, socklen_t l)
{
  if (!simfd(fd)) return (int)syscall(SYS_connect, fd, a, l);
  sync_point();
  VFile *f = needf(fd, "connect"); if (!f) return -1;
  VConn &c = *f->conn;
  Outcome o = g_def_outcome;
  if (!g_outcomes->empty()) { o = g_outcomes->front(); g_outcomes->pop_front(); }
  c.rport = ntohs(((sockaddr_in const *)a)->sin_port);
  if (o.selfc) { c.selfc = true; c.rport = c.lport; }
  if (hooks.on_connect) hooks.on_connect(c.id, o.imm);
  if (o.imm == 0) { c.connected = c.ever = true; return 0; }
  if (o.imm == EINPROGRESS || o.imm == EINTR || o.imm == EALREADY) {
    c.connecting = true; c.res = o.res; c.resolve_at = o.delay < 0 ? -1 : g_now + o.delay;
    if (o.delay == 0) do_resolve(c, o.res);
    errno = o.imm; return -1;
  }
  errno = o.imm; return -1;
}
EXPORT int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_getsockopt, fd, lv, nm, v, l);
  VFile *f = needf(fd, "getsockopt"); if (!f) return -1;
  int x = 0;
  if (nm == SO_ERROR && lv == SOL_SOCKET && f->conn) { x = f->conn->so_err; f->conn->so_err = 0; }
  memcpy(v, &x, sizeof x); return 0;
}
EXPORT int setsockopt(int fd, int lv, int nm, void const *v, socklen_t l) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_setsockopt, fd, lv, nm, v, l);
  return needf(fd, "setsockopt") ? 0 : -1;
}
EXPORT int getsockname(int fd, sockaddr *a, socklen_t *l) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_getsockname, fd, a, l);
  VFile *f = needf(fd, "getsockname"); if (!f) return -1;
  fill_addr(a, l, f->conn ? f->conn->lport : f->port, f->v6); return 0;
}
EXPORT int getpeername(int fd, sockaddr *a, socklen_t *l) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_getpeername, fd, a, l);
  VFile *f = needf(fd, "getpeername"); if (!f) return -1;
  if (!f->conn || !f->conn->connected || f->conn->rst) { errno = ENOTCONN; return -1; }
  fill_addr(a, l, f->conn->rport, f->v6); return 0;
}
EXPORT int shutdown(int fd, int how) noexcept
{
  if (!simfd(fd)) return (int)syscall(SYS_shutdown, fd, how);
  sync_point();
  VFile *f = needf(fd, "shutdown"); if (!f) return -1;
  if (!f->conn || !f->conn->ever || f->conn->rst) { errno = ENOTCONN; return -1; }
  VConn &c = *f->conn;
  if (how != SHUT_RD) { c.lshut = true; notify(fd, EPOLLOUT | (c.fin ? EPOLLHUP : 0)); }
  if (hooks.on_shutdown) hooks.on_shutdown(c.id, how);
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!simfd(fd)) return (int)syscall(SYS_fcntl, fd, cmd, a);
  VFile *f = needf(fd, "fcntl"); if (!f) return -1;
  if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) f->nonblock = a & O_NONBLOCK;
  return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
static int do_open(char const *p, int fl, int mode)
{
  if (ACT && p && !strcmp(p, "/dev/null")) { sync_point(); return newfd(K_DEVNULL); }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
EXPORT int open(char const *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
EXPORT int open64(char const *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }

// heap
EXPORT void *malloc(size_t n) { void *p = halloc(n, 16); if (!p) errno = ENOMEM; return p; }
EXPORT void free(void *p) { hfree(p); }
EXPORT void *calloc(size_t a, size_t b)
{
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = halloc(n, 16); if (p) fillb((char *)p, 0, n); return p;
}
EXPORT void *realloc(void *p, size_t n)
{
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (g_active && h->magic != kLive && h->magic != kLiveK) fail("MemError", "bad realloc");
  size_t o = h->size; void *q = halloc(n, 16); if (!q) return nullptr;
  copyb((char *)q, (char *)p, o < n ? o : n); hfree(p); return q;
}
EXPORT void *memalign(size_t a, size_t n) { return halloc(n, a); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return halloc(n, a); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) { *p = halloc(n, a); return *p ? 0 : ENOMEM; }
EXPORT void *valloc(size_t n) { return halloc(n, 4096); }
EXPORT size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((char *)p - sizeof(Hdr)))->size : 0; }
EXPORT void *memcpy(void *d, void const *s, size_t n) noexcept
{
  if (g_active && n) { check_mem(d, n); check_mem(s, n); }
  copyb((char *)d, (char const *)s, n); return d;
}
EXPORT void *memmove(void *d, void const *s, size_t n) noexcept
{
  if (g_active && n) { check_mem(d, n); check_mem(s, n); }
  if (d <= s || (char *)d >= (char const *)s + n) copyb((char *)d, (char const *)s, n);
  else { char *dd = (char *)d + n - 1; char const *ss = (char const *)s + n - 1; size_t k = n; __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(k) : : "memory"); }
  return d;
}
EXPORT void *memset(void *d, int c, size_t n) noexcept { if (g_active && n) check_mem(d, n); fillb((char *)d, c, n); return d; }

// ---------------------------------------------------------------- __tsan_*
#define RW(N) \
  EXPORT void __tsan_read##N(void *p) { access(p, N, false); } \
  EXPORT void __tsan_write##N(void *p) { access(p, N, true); } \
  EXPORT void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
  EXPORT void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
  EXPORT void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
  EXPORT void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
  EXPORT void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
  EXPORT void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); } \
  EXPORT void __tsan_read##N##_pc(void *p, void *) { access(p, N, false); } \
  EXPORT void __tsan_write##N##_pc(void *p, void *) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void *) {}
EXPORT void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
EXPORT void __tsan_vptr_read(void **p) { access(p, 8, false); }
EXPORT void __tsan_read_range(void *p, long n) { if (n > 0) access(p, size_t(n), false); }
EXPORT void __tsan_write_range(void *p, long n) { if (n > 0) access(p, size_t(n), true); }
EXPORT void __tsan_atomic_thread_fence(int) { sync_point(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
static inline void at(void const volatile *p, size_t n) { check_mem((void const *)p, n); sync_point(); }
#define ATOM(B, T) \
  EXPORT T __tsan_atomic##B##_load(T const volatile *a, int) { at(a, sizeof(T)); return *a; } \
  EXPORT void __tsan_atomic##B##_store(T volatile *a, T v, int) { at(a, sizeof(T)); *a = v; } \
  EXPORT T __tsan_atomic##B##_exchange(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##B##_fetch_add(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(o + v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_sub(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(o - v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_and(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(o & v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_or(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(o | v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_xor(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(o ^ v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_nand(T volatile *a, T v, int) { at(a, sizeof(T)); T o = *a; *a = T(~(o & v)); return o; } \
  EXPORT bool __tsan_atomic##B##_compare_exchange_strong(T volatile *a, T *c, T v, int, int) { at(a, sizeof(T)); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
  EXPORT bool __tsan_atomic##B##_compare_exchange_weak(T volatile *a, T *c, T v, int, int) { at(a, sizeof(T)); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(T volatile *a, T c, T v, int, int) { at(a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64; typedef unsigned __int128 a128;
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64) ATOM(128, a128)
