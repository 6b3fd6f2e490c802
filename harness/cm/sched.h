// Deterministic baton scheduler: exactly one managed thread runs at a time, it hands over only at yield points.
// Mutexes, sleeps and clocks of managed threads are virtual (see the __wrap_ functions in sched.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace sched {
enum Mode { SEQ, RANDOM, PCT, FIX };        // FIX: sequential except for the listed preemptions
struct Config { Mode mode = RANDOM; uint64_t seed = 1; int preempt_pct = 30; int mem_pct = 0; std::map<uint64_t, int> pre;  /* yield count -> thread (0 = real-time) */ };
void reset(const Config& c);
int spawn(std::function<void()> f);       // thread ids 1..n, in order
void run();                               // runs all threads to completion (or deadlock)
bool deadlocked();
int self();                               // 0 = unmanaged
void yield(const char* where);            // yield point
void rest();                             // let others go first
void block(std::function<bool()> ready);  // wait until ready()
struct Quiet { bool was; Quiet(); ~Quiet(); };   // no handing over inside
void no_yield(bool on);                   // per thread
bool alive(int id);
bool others_runnable();                   // any thread but the real-time one
uint64_t rnd();
extern uint64_t yields, spins;
extern volatile int64_t sys_ns;           // virtual system clock
extern bool rt_in_cycle;
extern int rt_id;
extern uintptr_t mem_lo, mem_hi;          // memory range whose accesses are yield points
extern std::function<void()> on_excess;   // called when a run takes far too many steps
extern std::function<void()> on_sleep;    // called on each virtual sleep
}
