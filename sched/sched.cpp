#include "sched.h"
#include <algorithm>
#include <bits/atomic_futex.h>
#include <cstdio>
#include <cxxabi.h>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <thread>
#include <unistd.h>

extern "C"
{
  void *__libc_malloc(size_t);
  void __libc_free(void *);
  void *__libc_calloc(size_t, size_t);
  void *__libc_realloc(void *, size_t);
  void *__libc_memalign(size_t, size_t);
}

namespace
{
const int MAXT = 12;
typedef uint32_t u32;
typedef uint64_t u64;
struct VC
{
  u32 c[MAXT];
  void join(const VC &o)
  {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum St { FREE, RUN, WMUTEX, WJOIN, WCOND, WADDR, WGUARD, WRW, DONE };
struct Thr
{
  St st = FREE;
  const void *on = nullptr;
  u32 val = 0;
  sem_t sem;
  VC vc;
  pthread_t real;
  bool timed = false, signalled = false, rdwait = false;
};
Thr T[MAXT];
int nthr = 0, cur = 0;
bool active = false;
thread_local int me __attribute__((tls_model("initial-exec"))) = -1;
thread_local int off __attribute__((tls_model("initial-exec"))) = 0; // inside the runtime
struct Off
{
  Off() { off++; }
  ~Off() { off--; }
};
inline bool on() { return active && me >= 0 && !off; }

struct Mx
{
  int owner = -1, depth = 0;
  VC vc{};
};
std::map<const void *, Mx> mutexes;
struct Rw
{
  int w = -1, r = 0;
  VC vc{};
};
std::map<const void *, Rw> rws;
std::map<const void *, VC> syncvc;
std::vector<std::string> raceList;

// ---------------------------------------------------------------- exploration
struct Step
{
  int k, c, cost0; // number of options, chosen, 1 if a non-zero choice is a preemption
};
std::vector<Step> trace;
std::vector<int> prefix;
long nswitch = 0;

void fatal(const char *what)
{
  active = false;
  std::string s = std::string("FATAL: ") + what + " in " + sched::schedule() + "\n";
  for (auto &r : raceList) s += r + "\n";
  (void)!write(1, s.data(), s.size());
  _exit(98);
}

bool enabled(int t)
{
  auto &x = T[t];
  switch (x.st)
  {
  case RUN: return true;
  case WMUTEX: return mutexes[x.on].owner == -1;
  case WJOIN: return T[x.val].st == DONE;
  case WCOND: return x.signalled;
  case WADDR: return *(volatile u32 *)x.on != x.val;
  case WGUARD: return ((volatile char *)x.on)[1] == 0;
  case WRW: return rws[x.on].w == -1 && (x.rdwait || rws[x.on].r == 0);
  default: return false;
  }
}

// a scheduling point: pick the thread to run next
void pick()
{
  int opt[MAXT], k = 0;
  bool meEn = T[me].st != DONE && enabled(me);
  if (meEn) opt[k++] = me;
  for (int t = 0; t < nthr; t++)
    if (t != me && T[t].st != DONE && enabled(t)) opt[k++] = t;
  if (k == 0)
  {
    // timed waits may now expire
    for (int t = 0; t < nthr; t++)
      if (T[t].st == WCOND && T[t].timed)
      {
        T[t].signalled = true;
        opt[k++] = t;
        break;
      }
  }
  if (k == 0)
  {
    bool all = true;
    for (int t = 0; t < nthr; t++) all &= T[t].st == DONE;
    if (all) return;
    fatal("deadlock (no thread can proceed)");
  }
  int c = 0;
  if (k > 1)
  {
    size_t s = trace.size();
    if (s < prefix.size()) c = prefix[s];
    if (c >= k) fatal("schedule replay diverged (nondeterministic code under test)");
    trace.push_back({k, c, meEn ? 1 : 0});
    if (trace.size() > 2000000) fatal("execution does not end (livelock)");
  }
  int n = opt[c];
  if (n != me)
  {
    nswitch++;
    cur = n;
    sem_post(&T[n].sem);
    if (T[me].st != DONE)
      while (sem_wait(&T[me].sem) != 0 && errno == EINTR) {}
  }
}
void point()
{
  Off o;
  T[me].st = RUN;
  pick();
}
void block(St st, const void *addr, u32 val = 0)
{
  Off o;
  T[me].st  = st;
  T[me].on  = addr;
  T[me].val = val;
  pick();
  T[me].st = RUN;
}
void acquire(const VC &v) { T[me].vc.join(v); }
void release(VC &v)
{
  v.join(T[me].vc);
  T[me].vc.c[me]++;
}

template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

// ---------------------------------------------------------------- shadow memory
struct Cell
{
  u32 w;
  uint8_t wt, wm;
  u32 r[MAXT];
  uint8_t rm[MAXT];
};
struct Page
{
  u64 key;
  u32 epoch;
  Cell c[512];
};
const size_t NB = 1 << 16;
Page *tab[NB];
u32 epoch = 1;
u64 lastKey = ~0ull;
Page *lastPage = nullptr;

Page *page(u64 key, bool create)
{
  if (key == lastKey) return lastPage;
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 48;
  while (tab[h] && tab[h]->key != key) h = (h + 1) % NB;
  if (!tab[h])
  {
    if (!create) return nullptr;
    tab[h]        = (Page *)__libc_calloc(1, sizeof(Page));
    tab[h]->key   = key;
    tab[h]->epoch = epoch;
  }
  Page *p = tab[h];
  if (p->epoch != epoch)
  {
    if (!create) return nullptr;
    std::memset(p->c, 0, sizeof p->c);
    p->epoch = epoch;
  }
  lastKey  = key;
  lastPage = p;
  return p;
}
std::string where(void *pc)
{
  Dl_info i;
  char b[64];
  if (dladdr(pc, &i) && i.dli_sname) return std::string(i.dli_sname);
  snprintf(b, sizeof b, "%p", pc);
  return b;
}
void __attribute__((noinline)) report(const char *kind, int other, void *pc)
{
  Off o;
  if (raceList.size() < 5)
    raceList.push_back(std::string("data race: ") + kind + " by thread " + std::to_string(me) + " in " + where(pc) + ", unordered with thread " + std::to_string(other));
}
inline void cellAccess(Cell &x, unsigned mask, bool wr, void *pc)
{
  Thr &t = T[me];
  if (x.w && x.wt != me && (x.wm & mask) && x.w > t.vc.c[x.wt]) report(wr ? "write after write" : "read after write", x.wt, pc);
  if (wr)
  {
    for (int i = 0; i < nthr; i++)
      if (i != me && x.r[i] > t.vc.c[i] && (x.rm[i] & mask)) report("write after read", i, pc);
    if (x.w == t.vc.c[me] && x.wt == me)
      x.wm |= mask;
    else
    {
      x.w  = t.vc.c[me];
      x.wt = me;
      x.wm = mask;
    }
  }
  else
  {
    if (x.r[me] == t.vc.c[me])
      x.rm[me] |= mask;
    else
    {
      x.r[me]  = t.vc.c[me];
      x.rm[me] = mask;
    }
  }
}
void access(const void *p, size_t n, bool wr, void *pc)
{
  if (!on() || nthr < 2) return;
  off++;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e)
  {
    uintptr_t g = a >> 3, ge = std::min<uintptr_t>((g + 1) << 3, e);
    unsigned mask = ((1u << (ge - a)) - 1) << (a & 7);
    Page *q = page(a >> 12, true);
    cellAccess(q->c[g & 511], mask, wr, pc);
    a = ge;
  }
  off--;
}
void clearRange(const void *p, size_t n)
{
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e)
  {
    uintptr_t pe = std::min<uintptr_t>(((a >> 12) + 1) << 12, e);
    if (Page *q = page(a >> 12, false))
    {
      size_t i0 = (a & 4095) >> 3, i1 = ((pe - 1) & 4095) >> 3;
      std::memset(&q->c[i0], 0, (i1 - i0 + 1) * sizeof(Cell));
    }
    a = pe;
  }
}
void onSignal(int s)
{
  char b[64];
  snprintf(b, sizeof b, "crash (signal %d)", s);
  fatal(b);
}
} // namespace

#define PC __builtin_return_address(0)
extern "C"
{
  void *malloc(size_t n)
  {
    void *p = __libc_malloc(n);
    if (on() && p)
    {
      off++;
      clearRange(p, malloc_usable_size(p));
      off--;
    }
    return p;
  }
  void *calloc(size_t a, size_t b)
  {
    void *p = __libc_calloc(a, b);
    if (on() && p)
    {
      off++;
      clearRange(p, malloc_usable_size(p));
      off--;
    }
    return p;
  }
  void *realloc(void *q, size_t n)
  {
    void *p = __libc_realloc(q, n);
    if (on() && p)
    {
      off++;
      clearRange(p, malloc_usable_size(p));
      off--;
    }
    return p;
  }
  void free(void *p)
  {
    if (p && on()) access(p, malloc_usable_size(p), true, PC);
    __libc_free(p);
  }

  void *__real_memcpy(void *, const void *, size_t);
  void *__real_memmove(void *, const void *, size_t);
  void *__real_memset(void *, int, size_t);
  void *__wrap_memcpy(void *d, const void *s, size_t n)
  {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memmove(d, s, n);
  }
  void *__wrap_memmove(void *d, const void *s, size_t n)
  {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memmove(d, s, n);
  }
  void *__wrap_memset(void *d, int c, size_t n)
  {
    access(d, n, true, PC);
    return __real_memset(d, c, n);
  }

  void __tsan_init() {}
  void __tsan_func_entry(void *) {}
  void __tsan_func_exit(void) {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *p) { access(p, N, false, PC); }                    \
  void __tsan_write##N(void *p) { access(p, N, true, PC); }                    \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); }          \
  void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); }          \
  void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); }           \
  void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); }           \
  void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, PC); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void *p, long n) { access(p, n, false, PC); }
  void __tsan_write_range(void *p, long n) { access(p, n, true, PC); }
  void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
  void __tsan_vptr_update(void **p, void *v)
  {
    if (*p != v) access(p, 8, true, PC);
  }
  void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
  void __tsan_atomic_signal_fence(int) {}
}
static void atomicPre(const volatile void *a, int mo, bool ld, bool st)
{
  if (!on() || nthr < 2) return;
  point();
  Off o;
  auto &v = syncvc[(const void *)a];
  if (ld && mo != __ATOMIC_RELAXED) acquire(v);
  if (st && mo != __ATOMIC_RELAXED) release(v);
}
extern "C"
{
#define AT(B, TY)                                                                                              \
  TY __tsan_atomic##B##_load(const volatile TY *a, int mo)                                                     \
  {                                                                                                            \
    atomicPre(a, mo, true, false);                                                                             \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                            \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo)                                                  \
  {                                                                                                            \
    atomicPre(a, mo, false, true);                                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                            \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo)                                                 \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo)                                                \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo)                                                \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo)                                                \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo)                                                 \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                          \
  }                                                                                                            \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo)                                                \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int)                     \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
  }                                                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int)                       \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
  }                                                                                                            \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int)                          \
  {                                                                                                            \
    atomicPre(a, mo, true, true);                                                                              \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
    return c;                                                                                                  \
  }
  AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

  // ---------------------------------------------------------------- threads
  struct Start
  {
    void *(*f)(void *);
    void *a;
    int id;
  };
  static void *trampoline(void *p)
  {
    Start s = *(Start *)p;
    __libc_free(p);
    me = s.id;
    off++;
    pthread_attr_t at;
    void *sp   = nullptr;
    size_t ssz = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0)
    {
      pthread_attr_getstack(&at, &sp, &ssz);
      pthread_attr_destroy(&at);
    }
    while (sem_wait(&T[me].sem) != 0 && errno == EINTR) {}
    if (sp) clearRange(sp, ssz); // may have been the stack of a thread that ended
    off--;
    void *r = s.f(s.a);
    off++;
    T[me].st = DONE;
    pick();
    me = -1;
    return r;
  }
  int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
  {
    static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!on()) return r(t, at, f, a);
    int id;
    {
      Off o;
      if (nthr >= MAXT) fatal("more threads than the checker supports");
      id    = nthr++;
      T[id].vc = T[me].vc;
      T[id].vc.c[id]++;
      T[me].vc.c[me]++;
      T[id].st = RUN;
      sem_init(&T[id].sem, 0, 0);
      Start *s = (Start *)__libc_malloc(sizeof(Start));
      *s       = {f, a, id};
      int rc   = r(t, at, trampoline, s);
      if (rc)
      {
        T[id].st = DONE;
        return rc;
      }
      T[id].real = *t;
    }
    point();
    return 0;
  }
  int pthread_join(pthread_t t, void **v)
  {
    static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    if (on())
    {
      int id = -1;
      for (int i = 1; i < nthr; i++)
        if (T[i].real == t) id = i; // the latest one with this handle
      if (id >= 0)
      {
        point();
        if (T[id].st != DONE) block(WJOIN, nullptr, id);
        acquire(T[id].vc);
      }
      Off o;
      return r(t, v);
    }
    return r(t, v);
  }
  int pthread_mutex_lock(pthread_mutex_t *m)
  {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (!on()) return r(m);
    point();
    Off o;
    Mx &x = mutexes[m];
    if (x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
      x.depth++;
      return 0;
    }
    while (x.owner != -1) block(WMUTEX, m);
    x.owner = me;
    x.depth = 1;
    acquire(x.vc);
    return 0;
  }
  int pthread_mutex_trylock(pthread_mutex_t *m)
  {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    if (!on()) return r(m);
    point();
    Off o;
    Mx &x = mutexes[m];
    if (x.owner != -1) return EBUSY;
    x.owner = me;
    x.depth = 1;
    acquire(x.vc);
    return 0;
  }
  int pthread_mutex_unlock(pthread_mutex_t *m)
  {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    if (!on()) return r(m);
    Off o;
    Mx &x = mutexes[m];
    if (x.owner != me) fatal("unlock of a mutex that is not held");
    if (--x.depth > 0) return 0;
    x.owner = -1;
    release(x.vc);
    return 0;
  }
  int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
  {
    static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    if (!on()) return r(c, m);
    off++;
    mutexes[m].owner = -1;
    release(mutexes[m].vc);
    T[me].timed     = false;
    T[me].signalled = false;
    block(WCOND, c);
    Mx &x = mutexes[m];
    while (x.owner != -1) block(WMUTEX, m);
    x.owner = me;
    x.depth = 1;
    acquire(x.vc);
    acquire(syncvc[c]);
    off--;
    return 0;
  }
  static int condtimed(pthread_cond_t *c, pthread_mutex_t *m)
  {
    off++;
    mutexes[m].owner = -1;
    release(mutexes[m].vc);
    T[me].timed     = true;
    T[me].signalled = false;
    block(WCOND, c);
    T[me].timed = false;
    Mx &x = mutexes[m];
    while (x.owner != -1) block(WMUTEX, m);
    x.owner = me;
    x.depth = 1;
    acquire(x.vc);
    acquire(syncvc[c]);
    off--;
    return ETIMEDOUT;
  }
  int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
  {
    static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
    return on() ? condtimed(c, m) : r(c, m, t);
  }
  int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
  {
    static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
    return on() ? condtimed(c, m) : r(c, m, k, t);
  }
  static void wake(pthread_cond_t *c, bool all)
  {
    Off o;
    release(syncvc[c]);
    for (int t = 0; t < nthr; t++)
      if (T[t].st == WCOND && T[t].on == c && !T[t].signalled)
      {
        T[t].signalled = true;
        if (!all) break;
      }
  }
  int pthread_cond_signal(pthread_cond_t *c)
  {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    if (!on()) return r(c);
    point();
    wake(c, false);
    return 0;
  }
  int pthread_cond_broadcast(pthread_cond_t *c)
  {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    if (!on()) return r(c);
    point();
    wake(c, true);
    return 0;
  }
  int pthread_rwlock_rdlock(pthread_rwlock_t *m)
  {
    static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    if (!on()) return r(m);
    point();
    Off o;
    Rw &x = rws[m];
    while (x.w != -1)
    {
      T[me].rdwait = true;
      block(WRW, m);
    }
    x.r++;
    acquire(x.vc);
    return 0;
  }
  int pthread_rwlock_wrlock(pthread_rwlock_t *m)
  {
    static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    if (!on()) return r(m);
    point();
    Off o;
    Rw &x = rws[m];
    while (x.w != -1 || x.r)
    {
      T[me].rdwait = false;
      block(WRW, m);
    }
    x.w = me;
    acquire(x.vc);
    return 0;
  }
  int pthread_rwlock_unlock(pthread_rwlock_t *m)
  {
    static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    if (!on()) return r(m);
    Off o;
    Rw &x = rws[m];
    if (x.w == me)
      x.w = -1;
    else
      x.r--;
    release(x.vc);
    return 0;
  }
  int pthread_once(pthread_once_t *c, void (*f)())
  {
    static auto r = real<int (*)(pthread_once_t *, void (*)())>("pthread_once");
    if (!on()) return r(c, f);
    point();
    while (*(volatile int *)c == 1) block(WADDR, c, 1);
    if (*(volatile int *)c == 2)
    {
      Off o;
      acquire(syncvc[c]);
      return 0;
    }
    *(volatile int *)c = 1;
    try
    {
      f();
    }
    catch (...)
    {
      *(volatile int *)c = 0;
      throw;
    }
    Off o;
    release(syncvc[c]);
    *(volatile int *)c = 2;
    return 0;
  }
  int sched_yield()
  {
    static auto r = real<int (*)()>("sched_yield");
    if (!on()) return r();
    point();
    return 0;
  }

int vrt_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
  void vrt_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
  void vrt_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
  int vrt_guard_acquire(uint64_t *g)
  {
    static int (*r)(uint64_t *);
    char *b = (char *)g;
    if (!on())
    {
      if (!r) r = real<int (*)(uint64_t *)>("__cxa_guard_acquire");
      return r(g);
    }
    point();
    Off o;
    while (b[1]) block(WGUARD, g);
    if (b[0])
    {
      acquire(syncvc[g]);
      return 0;
    }
    b[1] = 1;
    return 1;
  }
  void vrt_guard_release(uint64_t *g)
  {
    static void (*r)(uint64_t *);
    char *b = (char *)g;
    if (!on())
    {
      if (!r) r = real<void (*)(uint64_t *)>("__cxa_guard_release");
      return r(g);
    }
    Off o;
    release(syncvc[g]);
    b[1] = 0;
    b[0] = 1;
  }
  void vrt_guard_abort(uint64_t *g)
  {
    static void (*r)(uint64_t *);
    char *b = (char *)g;
    if (!on())
    {
      if (!r) r = real<void (*)(uint64_t *)>("__cxa_guard_abort");
      return r(g);
    }
    b[1] = 0;
  }
}

// futures: libstdc++ waits on a futex word
namespace std
{
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool, chrono::seconds, chrono::nanoseconds)
{
  if (!on())
  {
    while (*(volatile unsigned *)a == v) usleep(50);
    return true;
  }
  point();
  if (*(volatile unsigned *)a == v) block(WADDR, a, v);
  Off o;
  acquire(syncvc[a]);
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a)
{
  if (!on()) return;
  Off o;
  release(syncvc[a]);
}
} // namespace std

namespace sched
{
int tid() { return active ? me : -1; }
const std::vector<std::string> &races() { return raceList; }
std::string schedule()
{
  std::string s = "schedule [";
  long zeros    = 0;
  for (size_t i = 0; i < trace.size(); i++)
  {
    if (!trace[i].c) continue;
    s += " point " + std::to_string(i) + (trace[i].cost0 ? ": preempt, option " : ": option ") + std::to_string(trace[i].c);
  }
  (void)zeros;
  return s + " ] of " + std::to_string(trace.size()) + " points";
}
Stats explore(const Opt &o, const std::function<void()> &body, const std::function<bool()> &after)
{
  Stats st;
  static bool sig = false;
  if (!sig)
  {
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onSignal);
    sig = true;
  }
  prefix.clear();
  for (;;)
  {
    epoch++;
    lastKey = ~0ull;
    mutexes.clear();
    rws.clear();
    syncvc.clear();
    raceList.clear();
    trace.clear();
    nthr = 1;
    for (auto &t : T)
    {
      t.st = FREE;
      std::memset(&t.vc, 0, sizeof t.vc);
    }
    T[0].st      = RUN;
    T[0].vc.c[0] = 1;
    sem_init(&T[0].sem, 0, 0);
    T[0].real = pthread_self();
    me        = 0;
    cur       = 0;
    nswitch   = 0;
    active    = true;
    body();
    // threads left running (detached ones) finish now
    off++;
    for (bool more = true; more;)
    {
      more = false;
      for (int t = 1; t < nthr; t++)
        if (T[t].st != DONE) more = true;
      if (more)
      {
        for (int t = 1; t < nthr; t++)
          if (T[t].st != DONE)
          {
            T[0].st  = WJOIN;
            T[0].val = t;
            pick();
            T[0].st = RUN;
            break;
          }
      }
    }
    off--;
    active = false;
    me     = -1;
    int nd = 0;
    long d1 = 0;
    for (size_t i = 0; i < trace.size(); i++)
      if (trace[i].c && nd++ == 0) d1 = (long)i + trace[i].c;
    bool mine = nd >= 2 || d1 % o.nparts == o.part;
    if (mine)
    {
      st.schedules++;
      st.points += (long)trace.size();
      st.switches += nswitch;
      st.maxpoints = std::max<long>(st.maxpoints, (long)trace.size());
      if (!after()) return st;
    }
    if (st.schedules >= o.maxexec)
    {
      st.capped = true;
      return st;
    }
    // backtrack
    long s = (long)trace.size() - 1;
    std::vector<int> cost(trace.size() + 1, 0), ndev(trace.size() + 1, 0);
    std::vector<long> dev1(trace.size() + 1, 0);
    for (size_t i = 0; i < trace.size(); i++)
    {
      cost[i + 1] = cost[i] + (trace[i].c && trace[i].cost0);
      ndev[i + 1] = ndev[i] + (trace[i].c != 0);
      dev1[i + 1] = dev1[i];
      if (trace[i].c && !ndev[i]) dev1[i + 1] = (long)i * 13 + trace[i].c;
    }
    int nc = 0;
    for (; s >= 0; s--)
    {
      nc = trace[s].c + 1;
      if (nc >= trace[s].k) continue;
      if (trace[s].cost0)
      {
        if (cost[s] + 1 > o.pb) continue;
        if (o.last && s >= o.first && s < (long)trace.size() - o.last) continue;
      }
      if (ndev[s] == 1) // the part a schedule belongs to is decided by its first two deviations
        while (nc < trace[s].k && (dev1[s] * 31 + s * 7 + nc) % o.nparts != o.part) nc++;
      if (nc < trace[s].k) break;
    }
    if (s < 0) return st;
    prefix.resize(s + 1);
    for (long i = 0; i < s; i++) prefix[i] = trace[i].c;
    prefix[s] = nc;
  }
}
} // namespace sched
