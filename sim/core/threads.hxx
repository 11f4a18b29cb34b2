// Seeded thread scheduler: real threads of one process, of which exactly one runs at any time. The code
// under test is compiled with -fsanitize-coverage=trace-pc, so that every basic block is a point at which
// the running thread can be preempted; locks, once-flags and guarded static initialisation are seams too.
#pragma once
#include <cstdint>
#include <functional>
#include <utility>
#include <vector>

namespace thr
{
struct Switch
{
  int op;          // global number of the operation during which the switch happens
  uint64_t at;     // number of basic blocks into the operation, or ...
  uintptr_t pc;    // ... (if not 0) this code location, ...
  uint64_t hit;    // ... when it is reached for the n-th time in the operation
  int to;          // preferred next thread
  int burst;       // further switches ...
  int len;         // ... each after this many basic blocks
  uint64_t salt;
};
struct Stats
{
  uint64_t hash = 1469598103934665603ull;  // of the sequence of switches taken
  uint64_t switches = 0, blocked = 0, slices = 0, blocks = 0;
  bool deadlock = false;
};
/// Runs body(0..n-1) in threads of their own under the plan; returns when all have ended.
Stats run(int n, const std::vector<Switch>& plan, const std::function<void(int)>& body);
/// Around every call of the code under test.
void enter(int op);
uint64_t leave();  // number of basic blocks executed since enter
/// Code locations reached since enter and how often (only while recording), by address.
std::vector<std::pair<uintptr_t, uint64_t>> locations();
extern bool recording;
void outside(bool on);  // the running thread enters or leaves code that is not under test
struct Pause       // the simulator's own code is not preempted
{
  bool was;
  Pause();
  ~Pause();
};
}  // namespace thr
