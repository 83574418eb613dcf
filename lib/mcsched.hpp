// Controlled scheduler for real code: pthread/futex calls and (through the
// compiler's thread-sanitizer instrumentation, with this runtime in place of
// libtsan) atomics and plain accesses of the code under test.
#ifndef MCSCHED_HPP
#define MCSCHED_HPP
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace mc {
struct Result {
  std::vector<int> choices, nopts;       // decision taken / number of options, per decision
  std::vector<uint64_t> cost;            // cost[i]: deviations spent before decision i
  std::vector<std::vector<int>> optcost; // cost of each option of decision i
  std::string violation;                 // empty: none
  std::string log;
  std::vector<int> events;               // what the body reported
  uint64_t steps = 0;
  int threads = 0, failed_creates = 0;
  uint64_t trace_hash = 0;
};
struct Config {
  bool atomics_are_points = true;
  int spurious = 0;        // spurious wakeups allowed per execution
  int fail_create_at = -1; // the n-th pthread_create of the body fails with EAGAIN
  uint64_t max_steps = 20000;
};
// Runs body under the scheduler, following prefix then default choices.
// Any violation that leaves threads stuck calls on_stuck and must not return.
Result run(const std::function<void()> &body, const std::vector<int> &prefix, const Config &cfg);
extern std::function<void(const Result &)> on_stuck;
int self();          // id of the running controlled thread
bool active();
void yield();
bool joining(int t);      // thread t is blocked in a join
void event(int e);       // append to the execution's event list (no synchronisation implied)
std::vector<int> events();
void fail_alloc(long k); // the k-th operator new of this thread from now on throws bad_alloc (-1: none)
long allocs();
}
#endif
