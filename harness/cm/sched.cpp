#include "sched.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <map>
#include <memory>
#include <mutex>
#include <stdio.h>
#include <stdlib.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
}
namespace sched {
struct Thr { sem_t sem; pthread_t th; std::function<void()> f; std::function<bool()> ready; bool done = false, noyield = false, started = false, sleeping = false; int prio = 0; };
static std::vector<std::unique_ptr<Thr>> thr;
static thread_local int me = 0;
static thread_local bool inside = false;
static Config cfg; static uint64_t rng; static bool dead = false; static sem_t done_sem; static int last = 0;
uint64_t yields = 0, spins = 0; volatile int64_t sys_ns = 0; bool rt_in_cycle = false; int rt_id = 0; uintptr_t mem_lo = 0, mem_hi = 0;
std::function<void()> on_sleep, on_excess;
struct VM { int owner = 0, count = 0; };
static std::map<void*, VM> vms;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 11; }
static int turns = 0; static uint64_t spin = 0;   // a thread that waits without ever sleeping makes way too, eventually
void reset(const Config& c) { cfg = c; rng = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rng) rng = 1; for (int i = 0; i < 4; ++i) rnd(); thr.clear(); vms.clear(); dead = false; yields = 0; turns = 0; spin = 0; last = 0; rt_in_cycle = false; rt_id = 0; mem_lo = mem_hi = 0; sys_ns = 0; on_sleep = on_excess = nullptr; }
int self() { return me; }
bool alive(int id) { return id >= 1 && id <= (int)thr.size() && !thr[id - 1]->done; }
bool deadlocked() { return dead; }
void no_yield(bool on) { if (me) thr[me - 1]->noyield = on; }
static bool runnable(int i) { Thr& t = *thr[i]; if (t.done) return false; return !t.ready || t.ready(); }
bool others_runnable() { for (size_t i = 0; i < thr.size(); ++i) if (int(i) + 1 != rt_id && runnable(i)) return true; return false; }
static int choose();
static void elapse(int64_t ns) { if (!rt_in_cycle || me == rt_id || rnd() % 4 == 0) sys_ns = sys_ns + (ns > 100000000 ? ns : 100000000); }  // a sleep may always last longer
static int pick() { int n = choose(); if (n == me - 1) ++turns; else turns = 0; spin = 0; return n; }
static int choose() { // returns index or -1
  std::vector<int> r; for (size_t i = 0; i < thr.size(); ++i) if (runnable(i)) r.push_back(i);
  if (r.empty()) return -1;
  if (turns > 3000 && r.size() == 1) { turns = 0; ++spins; elapse(0); }   // waits for one that waits for others to sleep
  int cur = me - 1; bool cur_ok = false; for (int x : r) if (x == cur) cur_ok = true;
  if (turns > 3000 && r.size() > 1) { std::vector<int> o; for (int x : r) if (x != cur) o.push_back(x); if (cfg.mode == PCT && cur >= 0) { int lo = 0; for (auto& t : thr) if (t->prio < lo) lo = t->prio; thr[cur]->prio = lo - 1; } for (int x : o) if (x > cur) return x; return o[0]; }
  if (cfg.mode == FIX) { auto it = cfg.pre.find(yields); if (it != cfg.pre.end()) { int w = (it->second ? it->second : rt_id) - 1; for (int x : r) if (x == w) return w; } }
  if (cfg.mode == SEQ || cfg.mode == FIX) { if (cur_ok && !thr[cur]->sleeping) return cur; for (int x : r) if (x > cur) return x; return r[0]; }
  if (cfg.mode == PCT) { // highest priority; sleeping threads and lucky draws lower it
    if (cur >= 0 && (thr[cur]->sleeping || int(rnd() % 1000) < cfg.preempt_pct)) { int lo = 0; for (auto& t : thr) if (t->prio < lo) lo = t->prio; thr[cur]->prio = lo - 1; }
    int best = r[0]; for (int x : r) if (thr[x]->prio > thr[best]->prio) best = x; return best; }
  if (cur_ok && !thr[cur]->sleeping && int(rnd() % 100) >= cfg.preempt_pct) return cur;
  return r[rnd() % r.size()];
}
static void hand_over() {
  int n = pick();
  if (n < 0) { bool all = true; for (auto& t : thr) if (!t->done) all = false; if (!all) dead = true; sem_post(&done_sem); if (!all) { for (;;) { sem_t s; sem_init(&s, 0, 0); sem_wait(&s); } } return; }
  if (n == me - 1) return;
  int m = me; sem_post(&thr[n]->sem);
  if (m && !thr[m - 1]->done) while (sem_wait(&thr[m - 1]->sem)) {}
}
static uintptr_t cur_addr = 0; static bool verbose = getenv("YDBG") != nullptr;
void yield(const char* where) {
  if (!me || inside || thr[me - 1]->noyield) return;
  inside = true; if (++yields > 1000000 && on_excess) on_excess(); if (verbose) fprintf(stderr, "y%lu th%d %s %lx\n", (unsigned long)yields, me, where, where[0] == 'm' ? (unsigned long)(cur_addr - mem_lo) : 0ul);
  hand_over();
  inside = false;
}
Quiet::Quiet() : was(inside) { inside = true; }
Quiet::~Quiet() { inside = was; }
void block(std::function<bool()> ready) {
  if (!me) return; Thr& t = *thr[me - 1];
  Quiet q;   // the condition itself is no place to hand over at
  if (!ready()) { t.ready = ready; hand_over(); t.ready = nullptr; }
}
void rest() { if (!me) return; Thr& t = *thr[me - 1]; t.sleeping = true; yield("rest"); t.sleeping = false; }
static void* entry(void* p) { me = int(intptr_t(p)); Thr& t = *thr[me - 1]; while (sem_wait(&t.sem)) {} t.f(); t.done = true; inside = true; hand_over(); return nullptr; }
int spawn(std::function<void()> f) { thr.emplace_back(new Thr); Thr& t = *thr.back(); sem_init(&t.sem, 0, 0); t.f = f; t.prio = int(rnd() % 1000000); return thr.size(); }
void run() {
  sem_init(&done_sem, 0, 0);
  for (size_t i = 0; i < thr.size(); ++i) pthread_create(&thr[i]->th, nullptr, entry, (void*)(intptr_t)(i + 1));
  int n = pick(); if (n < 0) return; sem_post(&thr[n]->sem);
  while (sem_wait(&done_sem)) {}
  if (!dead) for (auto& t : thr) pthread_join(t->th, nullptr);
}
static void vsleep(int64_t ns) {
  Thr& t = *thr[me - 1]; bool sv = t.noyield; t.noyield = false;
  if (on_sleep) on_sleep();
  elapse(ns);
  t.sleeping = true; inside = false; yield("sleep"); t.sleeping = false; (void)sv; }
static bool managed() { return me && !inside; }
}
using namespace sched;
static void mem(uintptr_t a) {
  if (!me || inside) return;
  if (++spin > 200000) { spin = 0; turns = 3001; ++spins; elapse(0); yield("spin"); }   // who waits without sleeping lets time pass, too
  if (!cfg.mem_pct) return;
  bool obj = a >= mem_lo && a < mem_hi, heap = me == rt_id && rt_in_cycle;   // the manager itself, and in a cycle all but the stack
  if (!obj && heap) { uintptr_t sp = (uintptr_t)__builtin_frame_address(0); heap = a + 4096 < sp || a > sp + 65536; }
  if ((obj || heap) && int(rnd() % 100) < cfg.mem_pct) { cur_addr = a; yield("mem"); } }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_lock(m);
  yield("lock"); Quiet q; VM& v = vms[m]; bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (v.count && v.owner == me && rec) { ++v.count; return 0; }
  int id = me; Thr& t = *thr[me - 1]; bool sv = t.noyield; t.noyield = false;
  block([m] { return vms[m].count == 0; });
  t.noyield = sv; VM& w = vms[m]; w.owner = id; w.count = 1; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_trylock(m);
  yield("trylock"); Quiet q; VM& v = vms[m]; bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (v.count && !(v.owner == me && rec)) return EBUSY;
  v.owner = me; ++v.count; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_unlock(m);
  VM& v = vms[m]; if (v.count && --v.count == 0) v.owner = 0; yield("unlock"); return 0; }
static int patient(int (*take)(void*), void* m) { for (int k = 0; k < 20; ++k) { if (!take(m)) return 0; vsleep(1000000); } return ETIMEDOUT; }
static int trym(void* m) { return __wrap_pthread_mutex_trylock((pthread_mutex_t*)m); }
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const struct timespec*);
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return managed() ? patient(trym, m) : __real_pthread_mutex_timedlock(m, t); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return managed() ? patient(trym, m) : __real_pthread_mutex_lock(m); }
// readers and writers: count < 0 while one writes, else the number of readers
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
static void rwtake(void* m, bool w) { yield("lock"); Quiet q; Thr& t = *thr[me - 1]; bool sv = t.noyield; t.noyield = false; block([m, w] { return w ? vms[m].count == 0 : vms[m].count >= 0; }); t.noyield = sv; vms[m].count += w ? -1 : 1; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_rdlock(m); rwtake(m, false); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_wrlock(m); rwtake(m, true); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_tryrdlock(m); yield("trylock"); VM& v = vms[m]; if (v.count < 0) return EBUSY; ++v.count; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_trywrlock(m); yield("trylock"); VM& v = vms[m]; if (v.count) return EBUSY; v.count = -1; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_unlock(m); VM& v = vms[m]; if (v.count < 0) v.count = 0; else if (v.count) --v.count; yield("unlock"); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { __wrap_pthread_mutex_unlock(m); if (me) vsleep(100000); return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { __wrap_pthread_mutex_unlock(m); if (me) vsleep(1000000); __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
int __wrap_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) { __wrap_pthread_mutex_unlock(m); if (me) vsleep(1000000); __wrap_pthread_mutex_lock(m); return ETIMEDOUT; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, std::unique_lock<std::mutex>& l) { pthread_mutex_t* m = l.mutex()->native_handle(); __wrap_pthread_mutex_unlock(m); if (me) vsleep(100000); __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_cond_signal(pthread_cond_t*) { return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t*) { return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!me) return __real_nanosleep(t, r); vsleep(int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) { if (!me) return 0; int64_t n = int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec; if (fl) n -= sys_ns; vsleep(n); return 0; }
int __wrap_usleep(unsigned us) { if (me) vsleep(int64_t(us) * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { if (me) vsleep(int64_t(s) * 1000000000LL); return 0; }
int __wrap_sched_yield() { if (me) vsleep(1000); return 0; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (managed()) yield("clock"); return sys_ns; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return __wrap__ZNSt6chrono3_V212system_clock3nowEv(); }
#define MEM(n) void __sanitizer_cov_load##n(void* p) { mem((uintptr_t)p); } void __sanitizer_cov_store##n(void* p) { mem((uintptr_t)p); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
}
