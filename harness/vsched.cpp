#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <malloc.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

namespace vs {
std::function<void(const char *)> onStuck;
std::function<void(const char *, long)> onThread;

namespace {
enum State { READY, SLEEP, MUTEX, FUTEX, JOIN, ONCE, COND, DONE };
const char *stateName[] = {"ready", "sleep", "mutex", "futex", "join", "once", "cond", "done"};
const char *roleName[] = {"main", "worker", "compute", "client"};

struct Thr {
  int id = 0;
  Role role = MAIN;
  pthread_t real{};
  State state = READY;
  const void *obj = nullptr;
  bool deadline = false;
  int64_t wake = 0;
  bool timedOut = false;
  int atomicDepth = 0;
  long points = 0;
  long blocked = 0;
  int prio = 0;
  int baton = 0;  // futex word
  const char *stackLo = nullptr, *stackHi = nullptr;
  std::vector<unsigned> vc;   // vector clock: happens-before, from synchronisation only
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  int64_t owed = 0;           // virtual time still to pass in the optimiser
};

bool managed = false;
Config cfg;
std::vector<Thr *> *thr;
thread_local Thr *self = nullptr;
int64_t clockNs = 1000000000LL * 1000;
const int64_t kStart = 1000000000LL * 1000;
uint64_t rngState = 1;
long nPoints = 0;
bool stuck = false;
bool clientMode = false;
// directed scheduling
struct RunRole { bool on = false; Thr *target = nullptr; Thr *back = nullptr; long left = 0; } rr;
struct PreAt { bool on = false; Thr *who = nullptr; long at = 0; Role role = WORKER; long n = 0; bool stores = false; } pre;
std::vector<long> *pctPoints;

struct MutexState { Thr *owner = nullptr; int depth = 0; };
std::unordered_map<const void *, MutexState> *mutexes;
// happens-before over the synchronisation of the code under test, and accesses to heap memory not ordered by it
typedef std::vector<unsigned> VC;
std::unordered_map<const void *, VC> *syncVC;
struct Cell { int live, wt, rt, rt2; unsigned wc, rc, rc2; const void *wpc, *rpc; };   // thread + 1; 0: none
Cell *shadow = nullptr;
uintptr_t heapLo = 0, heapHi = 0;
const uintptr_t kHeapMax = 192u << 20;
const char *fieldLo = nullptr, *fieldHi = nullptr;
void joinVC(VC &a, const VC &b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i];
}
unsigned at(const VC &a, int i) { return (size_t)i < a.size() ? a[i] : 0; }
void acq(const void *o) {
  if (!cfg.races || !self) return;
  auto it = syncVC->find(o);
  if (it != syncVC->end()) joinVC(self->vc, it->second);
}
void tick(Thr *t) {
  if ((size_t)t->id >= t->vc.size()) t->vc.resize(t->id + 1);
  t->vc[t->id]++;
}
void rel(const void *o) {
  if (!cfg.races || !self) return;
  joinVC((*syncVC)[o], self->vc);
  tick(self);
}

struct RwState { Thr *writer = nullptr; int readers = 0; };
std::unordered_map<const void *, RwState> *rwlocks;

uint64_t rnd() {
  rngState += 0x9E3779B97F4A7C15ULL;
  uint64_t z = rngState;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

void futexWait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void futexWake(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void fail(const char *what) {
  if (!stuck) {
    stuck = true;
    if (onStuck) onStuck(what);
  }
  _exit(97);
}

bool ready(Thr *t) {
  if (t->state == READY) return true;
  if (t->deadline && t->wake <= clockNs && t->state != DONE) return true;
  return false;
}
void makeReady(Thr *t, bool timedOut) {
  t->state = READY;
  t->deadline = false;
  t->timedOut = timedOut;
  t->obj = nullptr;
}
void wakeDue() {
  for (auto *t : *thr)
    if (t->state != READY && t->state != DONE && t->deadline && t->wake <= clockNs) makeReady(t, true);
}

void handTo(Thr *t) {
  if (t == self) return;
  Thr *me = self;
  futexWake(&t->baton);
  futexWait(&me->baton);
}

// jump the clock to the moment t wakes
void jumpTo(Thr *t) {
  if (t->deadline && t->wake > clockNs) clockNs = t->wake;
  wakeDue();
}

Thr *chooseReady() {
  wakeDue();
  std::vector<Thr *> c;
  for (auto *t : *thr)
    if (t->state == READY) c.push_back(t);
  if (c.empty()) {
    Thr *best = nullptr;
    for (auto *t : *thr)
      if (t->state != DONE && t->deadline && (!best || t->wake < best->wake)) best = t;
    if (!best) return nullptr;
    jumpTo(best);
    return chooseReady();
  }
  if (cfg.policy == PCT) {
    Thr *b = c[0];
    for (auto *t : c) if (t->prio > b->prio) b = t;
    return b;
  }
  if (cfg.policy == NONE) return c[0];
  return c[rnd() % c.size()];
}

// self is no longer READY (or done): give the processor away
void giveUp() {
  Thr *me = self;
  me->blocked++;
  if (rr.on && rr.target == me) {
    if (me->state != DONE && me->deadline && rr.left > 0) {  // run through sleeps
      jumpTo(me);
      return;
    }
    Thr *b = rr.back;
    rr.on = false;
    if (b->state == READY) { 
      if (me->state == DONE) { futexWake(&b->baton); return; }
      handTo(b);
      return;
    }
  }
  if ((double)(clockNs - kStart) * 1e-9 > cfg.max_time) fail("livelock: virtual time limit");
  Thr *n = chooseReady();
  if (!n) fail("deadlock");
  if (me->state == DONE) { futexWake(&n->baton); return; }
  handTo(n);
}

void blockOn(State s, const void *obj, bool deadline, int64_t wake) {
  self->state = s;
  self->obj = obj;
  self->deadline = deadline;
  self->wake = wake;
  self->timedOut = false;
  while (self->state != READY) giveUp();
}
void wakeAll(State s, const void *obj, int n = 1 << 30) {
  for (auto *t : *thr)
    if (n > 0 && t->state == s && t->obj == obj) { makeReady(t, false); n--; }
}

void doRunRole(Role r, long n) {
  if (n <= 0) return;
  Thr *target = nullptr;
  for (auto *t : *thr)
    if (t->role == r && t != self && t->state != DONE &&
        (t->state == READY || t->deadline)) { target = t; break; }
  if (!target) return;
  jumpTo(target);
  if (target->state != READY) return;
  rr.on = true; rr.target = target; rr.back = self; rr.left = n;
  handTo(target);
  rr.on = false;
}

bool afterStore = false;   // the point right after a store to an atomic
void pointImpl() {
  if (!managed || !self) return;
  Thr *me = self;
  nPoints++;
  me->points++;
  if (me->role == COMPUTE && onThread) onThread("cp", me->id);
  clockNs += 1000;
  if (nPoints > cfg.max_points) fail("livelock: point limit");
  if (pre.on && pre.who == me && (!pre.stores || afterStore)) {
    if (--pre.at < 0) {
      pre.on = false;
      doRunRole(pre.role, pre.n);
      return;
    }
  }
  if (rr.on) {
    if (rr.target == me && --rr.left <= 0) {
      Thr *b = rr.back;
      rr.on = false;
      if (b->state == READY) { handTo(b); return; }
    }
    return;  // nobody else runs while directed
  }
  if (me->atomicDepth > 0) return;
  if (cfg.policy == NONE) return;
  if (cfg.policy == PCT) {
    for (auto p : *pctPoints)
      if (p == nPoints) me->prio = -(int)(nPoints);
    wakeDue();
    Thr *b = me;
    for (auto *t : *thr) if (t->state == READY && t->prio > b->prio) b = t;
    if (b != me) handTo(b);
    return;
  }
  if (rnd01() >= cfg.preempt) return;
  wakeDue();
  std::vector<Thr *> c;
  bool sl = rnd01() < cfg.sleeper;
  for (auto *t : *thr) {
    if (t == me || t->state == DONE) continue;
    if (t->state == READY || (sl && t->deadline && t->role != CLIENT && t->role != MAIN)) c.push_back(t);
  }
  if (c.empty()) return;
  Thr *n = c[rnd() % c.size()];
  if (n->state != READY) jumpTo(n);
  if (n->state == READY) handTo(n);
}

void storePoint() {
  afterStore = pre.on && pre.stores && self && pre.who == self;
  pointImpl();
  afterStore = false;
}

template <class F> F real(const char *name) {
  static std::map<std::string, void *> cache;
  void *&p = cache[name];
  if (!p) p = dlsym(RTLD_NEXT, name);
  return (F)p;
}

void bounds(Thr *t);
void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  self = t;
  if (cfg.races || cfg.mempre > 0) bounds(t);
  futexWait(&t->baton);
  if (t->role == COMPUTE && cfg.compute_cost > 0) {
    double c = cfg.compute_cost * (1.0 + cfg.compute_jitter * (2 * rnd01() - 1));
    t->owed = (int64_t)(c * cfg.compute_mid * 1e9);
    if (cfg.compute_mid < 1) blockOn(SLEEP, nullptr, true, clockNs + (int64_t)(c * 1e9) - t->owed);
  }
  if (t->role == COMPUTE && onThread) onThread("cbody", t->id);
  void *r = t->fn(t->arg);
  if (t->role == COMPUTE && onThread) onThread("cend", t->id);
  t->ret = r;
  rel(t);
  t->state = DONE;
  wakeAll(JOIN, t);
  self = nullptr;   // TLS destructors run unmanaged
  Thr *me = t;
  self = me;
  giveUp();
  self = nullptr;
  return r;
}

Thr *newThread(Role role) {
  Thr *t = new Thr;
  t->id = (int)thr->size();
  t->role = role;
  t->prio = (int)(rnd() % 1000) + 1;
  thr->push_back(t);
  if (cfg.races) { if (self) { t->vc = self->vc; tick(self); } tick(t); }
  return t;
}
bool on() { return managed && self != nullptr; }
}  // namespace

void start(const Config &c) {
  cfg = c;
  rngState = c.seed * 0x9E3779B97F4A7C15ULL + 12345;
  thr = new std::vector<Thr *>();
  mutexes = new std::unordered_map<const void *, MutexState>();
  rwlocks = new std::unordered_map<const void *, RwState>();
  pctPoints = new std::vector<long>();
  for (int i = 0; i < c.pct_depth; i++) pctPoints->push_back((long)(rnd() % (uint64_t)c.pct_len));
  syncVC = new std::unordered_map<const void *, VC>();
  if (c.races) {
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    char *q = (char *)malloc(64);
    heapLo = ((uintptr_t)sbrk(0) - (64u << 20)) & ~7UL;
    (void)q;
    // start of the heap: the lowest address a block can have
    FILE *f = fopen("/proc/self/maps", "r");
    char line[512];
    while (f && fgets(line, sizeof line, f)) if (strstr(line, "[heap]")) heapLo = strtoul(line, nullptr, 16);
    if (f) fclose(f);
    heapHi = (uintptr_t)sbrk(0);
    shadow = (Cell *)mmap(nullptr, (kHeapMax >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) shadow = nullptr;
  }
  Thr *m = newThread(MAIN);
  if (c.races || c.mempre > 0) bounds(m);
  m->real = pthread_self();
  self = m;
  managed = true;
}
long points() { return self ? self->points : 0; }
void setPolicy(Policy p, double pr) { cfg.policy = p; cfg.preempt = pr; }
void setComputeCost(double s, double j) { cfg.compute_cost = s; cfg.compute_jitter = j; }
double now() { return (double)(clockNs - kStart) * 1e-9; }
void sleepFor(double s) { if (on()) blockOn(SLEEP, nullptr, true, clockNs + (int64_t)(s * 1e9)); }
void atomicBegin() { if (self) self->atomicDepth++; }
void atomicEnd() { if (self) self->atomicDepth--; }
long blockedCount() { return self ? self->blocked : 0; }
long liveThreads() {
  long n = 0;
  for (auto *t : *thr) if (t->role != MAIN && t->role != CLIENT && t->state != DONE) n++;
  return n;
}
bool roleAlive(Role r) {
  for (auto *t : *thr) if (t->role == r && t->state != DONE) return true;
  return false;
}
int selfId() { return self ? self->id : -1; }
void runRole(Role r, long n) { doRunRole(r, n); }
void preemptAt(long at, Role r, long n, bool stores) { pre.on = true; pre.stores = stores; pre.who = self; pre.at = at; pre.role = r; pre.n = n; }
void preemptOff() { pre.on = false; }
long totalPoints() { return nPoints; }
std::string whereAll() {
  std::string s;
  for (auto *t : *thr) {
    char b[160];
    snprintf(b, sizeof b, "%s#%d:%s(points=%ld) ", roleName[t->role], t->id, stateName[t->state], t->points);
    s += b;
  }
  return s;
}
static std::vector<Thr *> clients;
void spawn(std::function<void()> f) {
  clientMode = true;
  auto *pf = new std::function<void()>(std::move(f));
  pthread_t th;
  pthread_create(&th, nullptr, [](void *p) -> void * { (*(std::function<void()> *)p)(); return nullptr; }, pf);
  clientMode = false;
  clients.push_back(thr->back());
}
void joinClients() {
  for (auto *t : clients) { while (t->state != DONE) blockOn(JOIN, t, false, 0); acq(t); }
  clients.clear();
}

// ------------------------------------------------------------------ memory accesses
namespace {
void report(const char *kind, const void *a, const void *pc, const void *other) {
  static int n = 0;
  if (getenv("VS_RACES")) {
    Dl_info i, j;
    dladdr(pc, &i); dladdr(other, &j);
    dprintf(2, "race %s addr %p pc %lx other %lx\n", kind, a, (long)((char *)pc - (char *)i.dli_fbase), (long)((char *)other - (char *)j.dli_fbase));
    if (++n > 20) _exit(99);
    return;
  }
  bool field = (const char *)a >= fieldLo && (const char *)a < fieldHi;
  if (!field) fail("unsynchronised accesses to shared memory");
}
void accessOne(uintptr_t a, bool w, const void *pc) {
  Cell &c = shadow[(a - heapLo) >> 3];
  if (c.live == 0) return;
  if (c.live == 2) { c.live = 0; report(w ? "write/freed" : "read/freed", (void *)a, pc, pc); return; }
  int id = self->id;
  if (c.wt && c.wt != id + 1 && c.wc > at(self->vc, c.wt - 1)) { const void *o = c.wpc; c.wt = 0; report(w ? "write/write" : "write/read", (void *)a, pc, o); }
  if (w) {
    if (c.rt && c.rt != id + 1 && c.rc > at(self->vc, c.rt - 1)) { c.rt = 0; report("read/write", (void *)a, pc, c.rpc); }
    if (c.rt2 && c.rt2 != id + 1 && c.rc2 > at(self->vc, c.rt2 - 1)) { c.rt2 = 0; report("read/write", (void *)a, pc, c.rpc); }
    c.wt = id + 1; c.wc = at(self->vc, id); c.wpc = pc;
  } else {
    if (c.rt != id + 1) { c.rt2 = c.rt; c.rc2 = c.rc; }
    c.rt = id + 1; c.rc = at(self->vc, id); c.rpc = pc;
  }
}
long burstLeft = 0;
bool burstOn = true;
int memSwitches = 0;
__attribute__((noinline)) void access(const void *p, size_t n, bool w, const void *pc) {
  if (!managed || !self) return;
  const char *c = (const char *)p;
  if (c >= self->stackLo && c < self->stackHi) return;
  if (shadow && (uintptr_t)p >= heapLo && (uintptr_t)p < heapHi)
    for (uintptr_t a = (uintptr_t)p & ~7UL; a < (uintptr_t)p + n && a < heapHi; a += 8) accessOne(a, w, pc);
  if (cfg.mempre <= 0 || rr.on || self->atomicDepth > 0 || cfg.policy == NONE) return;
  // bursts of a few switches, at most memmax in a run
  if (--burstLeft < 0) { burstLeft = (long)(3 / cfg.mempre); burstOn = rnd01() < cfg.memburst; }
  if (!burstOn || memSwitches >= cfg.memmax || rnd01() >= cfg.mempre) return;
  memSwitches++;
  wakeDue();
  std::vector<Thr *> k;
  for (auto *t : *thr) if (t != self && (t->state == READY || (t->deadline && t->state == SLEEP && t->role == WORKER))) k.push_back(t);
  if (k.empty()) return;
  Thr *t = k[rnd() % k.size()];
  if (t->state != READY) jumpTo(t);
  if (t->state == READY) handTo(t);
}
void fresh(const void *p, size_t n, int live) {
  if (!shadow || (uintptr_t)p < heapLo || (uintptr_t)p + n > heapLo + kHeapMax) return;
  if ((uintptr_t)p + n > heapHi) heapHi = (uintptr_t)p + n;
  Cell *c = &shadow[((uintptr_t)p - heapLo) >> 3];
  size_t k = (n + 7) >> 3;
  if (live == 1) memset(c, 0, k * sizeof(Cell));
  for (size_t i = 0; i < k; i++) c[i].live = live;
}
void bounds(Thr *t) {
  pthread_attr_t a;
  void *b = nullptr; size_t n = 0;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &b, &n);
  pthread_attr_destroy(&a);
  t->stackLo = (char *)b; t->stackHi = t->stackLo + n;
}
}  // namespace
void fields(const void *p, size_t n) { fieldLo = (const char *)p; fieldHi = fieldLo + n; }

// ------------------------------------------------------------------ heap
namespace {
const size_t kHdr = 16;
struct Q { unsigned char *p; size_t n; };
Q *quar = nullptr;
size_t qcap = 0, qhead = 0, qsize = 0, qbytes = 0;
long poisonBad = 0;
std::atomic_flag qlock = ATOMIC_FLAG_INIT;
bool checkQ(const Q &q) {
  for (size_t i = 0; i < q.n; i++) if (q.p[i] != 0xDD) return false;
  return true;
}
void qlockf() { while (qlock.test_and_set(std::memory_order_acquire)) sched_yield(); }
void qunlockf() { qlock.clear(std::memory_order_release); }
void evict() {
  Q q = quar[qhead];
  qhead = (qhead + 1) % qcap;
  qsize--;
  qbytes -= q.n;
  if (!checkQ(q)) poisonBad++;
  fresh(q.p, q.n, 0);
  free(q.p - kHdr);
}
void qpush(unsigned char *p, size_t n) {
  qlockf();
  if (!quar) { qcap = 1 << 17; quar = (Q *)malloc(qcap * sizeof(Q)); }
  if (qsize == qcap) evict();
  quar[(qhead + qsize) % qcap] = Q{p, n};
  qsize++;
  qbytes += n;
  while (qbytes > (48u << 20) && qsize > 1) evict();
  qunlockf();
}
void *xalloc(size_t n) {
  unsigned char *b = (unsigned char *)malloc(n + kHdr);
  if (!b) abort();
  *(size_t *)b = n;
  *(uint64_t *)(b + 8) = 0xA110CA7EDULL;
  memset(b + kHdr, 0xCD, n < 4096 ? n : 4096);
  fresh(b + kHdr, n, 1);
  return b + kHdr;
}
void xfree(void *p) {
  if (!p) return;
  unsigned char *u = (unsigned char *)p;
  if (*(uint64_t *)(u - 8) != 0xA110CA7EDULL) { fprintf(stderr, "BAD FREE\n"); abort(); }
  size_t n = *(size_t *)(u - kHdr);
  *(uint64_t *)(u - 8) = 0xDEADDEADDEADULL;
  memset(u, 0xDD, n);
  fresh(u, n, 2);
  qpush(u, n);
}
}  // namespace
long poisonViolations() {
  qlockf();
  long bad = poisonBad;
  for (size_t i = 0; i < qsize; i++)
    if (!checkQ(quar[(qhead + i) % qcap])) bad++;
  qunlockf();
  return bad;
}
}  // namespace vs

void *operator new(size_t n) { return vs::xalloc(n); }
void *operator new[](size_t n) { return vs::xalloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vs::xalloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vs::xalloc(n); }
void operator delete(void *p) noexcept { vs::xfree(p); }
// the instrumented build is linked with --wrap: memory that Eigen takes from malloc is watched, too
extern "C" {
void *__wrap_malloc(size_t n) { return vs::xalloc(n); }
void __wrap_free(void *p) {
  if (p && ((uint64_t *)p)[-1] != 0xA110CA7EDULL && ((uint64_t *)p)[-1] != 0xDEADDEADDEADULL) { free(p); return; }
  vs::xfree(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (p && ((uint64_t *)p)[-1] != 0xA110CA7EDULL) return realloc(p, n);
  void *r = vs::xalloc(n);
  if (p) { size_t m = ((size_t *)p)[-2]; memcpy(r, p, m < n ? m : n); vs::xfree(p); }
  return r;
}
}
void operator delete[](void *p) noexcept { vs::xfree(p); }
void operator delete(void *p, size_t) noexcept { vs::xfree(p); }
void operator delete[](void *p, size_t) noexcept { vs::xfree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vs::xfree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vs::xfree(p); }

using namespace vs;
extern "C" {
// ------------------------------------------------------------------ mutexes
static int lockImpl(pthread_mutex_t *m, bool try_, bool timed, int64_t wake) {
  if (!on()) return 0;
  pointImpl();
  for (;;) {
    MutexState &s = (*mutexes)[m];
    if (!s.owner) { s.owner = self; s.depth = 1; acq(m); return 0; }
    if (s.owner == self) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
      if (try_) return EBUSY;
      fail("deadlock: thread locks a mutex it holds");
    }
    if (try_) return EBUSY;
    blockOn(MUTEX, m, timed, wake);
    if (timed && self->timedOut) return ETIMEDOUT;
  }
}
int pthread_mutex_lock(pthread_mutex_t *m) { return lockImpl(m, false, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lockImpl(m, true, false, 0); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) return 0;
  auto it = mutexes->find(m);
  if (it != mutexes->end()) {
    if (--it->second.depth <= 0) {
      rel(m);
      mutexes->erase(it);
      wakeAll(MUTEX, m);
    }
  }
  pointImpl();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (on()) mutexes->erase(m);
  return 0;
}
static int64_t toNs(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return lockImpl(m, false, true, toNs(t)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) { return lockImpl(m, false, true, toNs(t)); }

// ------------------------------------------------------------------ rwlocks
static int rdImpl(pthread_rwlock_t *l, bool wr, bool try_) {
  if (!on()) return 0;
  pointImpl();
  for (;;) {
    RwState &s = (*rwlocks)[l];
    if (wr ? (!s.writer && s.readers == 0) : !s.writer) {
      if (wr) s.writer = self; else s.readers++;
      acq(l);
      return 0;
    }
    if (try_) return EBUSY;
    blockOn(MUTEX, l, false, 0);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rdImpl(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rdImpl(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rdImpl(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rdImpl(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  RwState &s = (*rwlocks)[l];
  rel(l);
  if (s.writer == self) s.writer = nullptr; else s.readers--;
  wakeAll(MUTEX, l);
  pointImpl();
  return 0;
}

// ------------------------------------------------------------------ condition variables
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t wake) {
  if (!on()) return 0;
  pointImpl();
  rel(m);
  mutexes->erase(m);
  wakeAll(MUTEX, m);
  blockOn(COND, c, timed, wake);
  bool to = self->timedOut;
  lockImpl(m, false, false, 0);
  return timed && to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return condWait(c, m, true, toNs(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return condWait(c, m, true, toNs(t)); }
int pthread_cond_signal(pthread_cond_t *c) { if (on()) { wakeAll(COND, c, 1); pointImpl(); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (on()) { wakeAll(COND, c); pointImpl(); } return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

// ------------------------------------------------------------------ threads
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!on()) return f(th, a, fn, arg);
  Role role = self->role == WORKER ? COMPUTE : clientMode ? CLIENT : WORKER;
  Thr *t = newThread(role);
  t->fn = fn;
  t->arg = arg;
  int rc = f(&t->real, a, trampoline, t);
  if (rc) fail("pthread_create failed");
  *th = t->real;
  if (role == COMPUTE && onThread) onThread("cstart", t->id);
  pointImpl();
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  auto f = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!on()) return f(th, ret);
  pointImpl();
  Thr *t = nullptr;
  for (auto *x : *thr) if (x != self && pthread_equal(x->real, th)) t = x;  // latest wins
  if (!t) return f(th, ret);
  while (t->state != DONE) blockOn(JOIN, t, false, 0);
  acq(t);
  if (ret) *ret = t->ret;
  void *dummy;
  return f(th, &dummy);
}
int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!on()) {
    if (*o != 2) { *o = 1; fn(); *o = 2; }
    return 0;
  }
  pointImpl();
  while (*o == 1) blockOn(ONCE, o, false, 0);
  if (*o == 2) { acq(o); return 0; }
  *o = 1;
  try { fn(); } catch (...) { *o = 0; wakeAll(ONCE, o); throw; }
  *o = 2;
  rel(o);
  wakeAll(ONCE, o);
  pointImpl();
  return 0;
}
// the heart of a computation: what it is given takes virtual time, whoever runs it
int nlopt_optimize(void *opt, double *x, double *f) {
  auto g = real<int (*)(void *, double *, double *)>("nlopt_optimize");
  if (on() && cfg.compute_cost > 0) {
    int64_t c = self->role == COMPUTE ? self->owed : (int64_t)(cfg.compute_cost * 1e9);
    self->owed = 0;
    if (c > 0) blockOn(SLEEP, nullptr, true, clockNs + c);
  }
  return g(opt, x, f);
}
int sched_yield() {
  if (!on()) return (int)syscall(SYS_sched_yield);
  blockOn(SLEEP, nullptr, true, clockNs + 50000);
  return 0;
}

// ------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!managed) return (int)syscall(SYS_clock_gettime, c, ts);
  if (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME && c != CLOCK_MONOTONIC_RAW)
    return (int)syscall(SYS_clock_gettime, c, ts);
  ts->tv_sec = clockNs / 1000000000LL;
  ts->tv_nsec = clockNs % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!on()) return (int)syscall(SYS_nanosleep, t, rem);
  pointImpl();
  blockOn(SLEEP, nullptr, true, clockNs + toNs(t));
  if (self->role == WORKER && onThread) onThread("wake", self->id);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  if (!on()) return (int)syscall(SYS_clock_nanosleep, c, flags, t, rem);
  pointImpl();
  blockOn(SLEEP, nullptr, true, (flags & TIMER_ABSTIME) ? toNs(t) : clockNs + toNs(t));
  if (self->role == WORKER && onThread) onThread("wake", self->id);
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}

// ------------------------------------------------------------------ std::future waits
static bool futexUntil(unsigned *addr, unsigned val, bool has, int64_t wake) {
  if (!on()) return true;
  pointImpl();
  if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) return true;
  if (has && wake <= clockNs) return false;
  blockOn(FUTEX, addr, has, wake);
  return !self->timedOut;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *a, unsigned v, bool has, int64_t s, int64_t ns) {
  return futexUntil(a, v, has, s * 1000000000LL + ns);
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void *, unsigned *a, unsigned v, bool has, int64_t s, int64_t ns) {
  return futexUntil(a, v, has, s * 1000000000LL + ns);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) {
  if (!on()) return;
  wakeAll(FUTEX, a);
  pointImpl();
}

// ------------------------------------------------------------------ atomics of the code under test
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef int morder;
static void both(void *a) { if (on()) { acq(a); rel(a); } }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define A(f, n, w) void f##n(void *p) { access(p, n, w, __builtin_return_address(0)); }
#define RW(n) A(__tsan_read, n, false) A(__tsan_write, n, true) A(__tsan_unaligned_read, n, false) A(__tsan_unaligned_write, n, true) \
  A(__tsan_read_write, n, true) A(__tsan_unaligned_read_write, n, true) A(__tsan_volatile_read, n, false) A(__tsan_volatile_write, n, true)
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, true, __builtin_return_address(0)); return memset(d, c, n); }
#define AT(bits, T)                                                                               \
  T __tsan_atomic##bits##_load(const volatile T *a, morder) { pointImpl(); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); acq((void *)a); return r; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, morder) { pointImpl(); rel((void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); storePoint(); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, morder) { pointImpl(); both((void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, morder, morder) { pointImpl(); both((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, morder, morder) { pointImpl(); both((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, morder, morder) { pointImpl(); both((void *)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(morder) {}
void __tsan_atomic_signal_fence(morder) {}
}
