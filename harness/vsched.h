// Deterministic cooperative scheduler with virtual time.
//
// vsched.cpp defines pthread_*, sleep, clock, futex-wait and __tsan_* entry points, so that the
// real threads of the code under test run one at a time, may only switch at synchronisation
// points (locks, atomics, sleeps, waits, thread creation), and see a virtual clock.
// The code under test is not changed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace vs {

enum Policy { NONE = 0, RANDOM = 1, PCT = 2 };
enum Role { MAIN = 0, WORKER = 1, COMPUTE = 2, CLIENT = 3 };

struct Config {
  uint64_t seed = 1;
  Policy policy = RANDOM;
  double preempt = 0.05;        // RANDOM: probability of a switch at a point
  double sleeper = 0.3;         // RANDOM: probability that a switch may pick a sleeping thread
  int pct_depth = 3;            // PCT: number of priority change points
  int pct_len = 3000;           // PCT: assumed length of the run
  double compute_cost = 0.02;   // virtual seconds that a computation thread takes
  double compute_jitter = 0.0;  // relative
  double compute_mid = 0.0;     // the part of it that passes inside the optimiser, the rest before the computation begins
  double mempre = 0;            // probability of a switch at a memory access (instrumented build)
  double memburst = 1;          // ... part of the time they may happen in
  int memmax = 1000000;         // ... at most
  bool races = false;           // stop at accesses to heap memory that no synchronisation orders (instrumented build)
  long max_points = 4000000;    // beyond this: livelock
  double max_time = 4000;       // virtual seconds; beyond this: livelock
};

void start(const Config &cfg);  // the calling thread becomes managed thread 0 (MAIN)
void setPolicy(Policy p, double preempt);
void setComputeCost(double s, double jitter);
double now();                   // virtual time, seconds
long points();                // synchronisation points the calling thread has passed
void sleepFor(double s);        // virtual sleep of the calling thread
void atomicBegin();             // the calling thread is not preempted (it can still block)
void atomicEnd();
long blockedCount();            // how often the calling thread had to give up the processor
long liveThreads();             // managed threads, other than MAIN and CLIENT, not finished
bool roleAlive(Role r);
int selfId();
void runRole(Role r, long n);   // let the thread of this role run n points, then come back
void preemptAt(long mainPoint, Role r, long n, bool stores = false);  // do runRole(r,n) at a later point of the caller
void preemptOff();
void spawn(std::function<void()> f);             // a CLIENT thread
void joinClients();
std::string whereAll();
extern std::function<void(const char *)> onStuck;  // deadlock, livelock
extern std::function<void(const char *, long)> onThread; // "cstart", "cbody", "cend": life of a computation thread
long poisonViolations();        // writes to freed memory seen so far
long totalPoints();
void fields(const void *p, size_t n);   // members of the object under test: single words may be read without a lock
}  // namespace vs
