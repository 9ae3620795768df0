// Controlled-execution runtime: runs the real (ThreadSanitizer-instrumented) library code on
// cooperative threads, with every synchronisation operation a scheduling point, every plain
// memory access checked for happens-before races, and observable events recorded.
#ifndef VT_RT_H_
#define VT_RT_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

// --- called by scenarios (on controlled threads) ---
// Record an observable event. `fields` is a JSON fragment such as  "\"e\":\"ExecCall\",\"n\":3".
void vt_event(const std::string& fields);
void vt_yield();       // a scheduling point
int vt_self();         // id of the controlled thread
bool vt_active();
long vt_live_blocks();  // heap blocks obtained in this run by instrumented code and not freed
int vt_name(const void* p);  // small number naming an address, in order of first use in the run
int vt_threads_created();
int vt_threads_exited();

// --- called by the driver (main) ---
struct VtRunResult {
  std::string trace;         // JSON array of events
  std::vector<int> choices;  // option index taken at every decision
  std::vector<int> nopt;
  std::vector<std::vector<unsigned char>> cost;
  std::vector<int> tids;  // thread id chosen at every decision
  bool bad;               // ended by deadlock / abort / crash / hang (also visible as last event)
  long steps;
};
enum VtMode { VT_DFS, VT_RANDOM, VT_HINT };
struct VtRunOptions {
  VtMode mode = VT_DFS;
  std::vector<int> prefix;   // VT_DFS: option indices; VT_HINT: thread ids
  uint64_t seed = 1;
  int switch_permille = 250;
  int exhaust_permille = 60;
  int spurious_permille = 10;
  int max_spurious = 1;
  int max_exhaust = 4;
  long max_steps = 400000;
  double watchdog_s = 20;
};
VtRunResult vt_run(void (*fn)(void*), void* arg, const VtRunOptions& o);
// When set, every run happens in a forked process, so that the library's static state (guards,
// globals) is as in a fresh process at the start of each run.
extern bool vt_isolate;
// When set, a sleeping thread is recorded ("Sleep") and gives way to the others.
extern bool vt_sleep_events;
// Number of thread-specific keys that exist (a process has 1024).
extern int vt_key_limit;

struct VtExploreStats {
  long runs = 0, decisions = 0, unique = 0, steps = 0;
  bool complete = false;  // DFS exhausted the bound
  bool bad = false;
};
// Depth-first exploration with a bound on the total cost (preemptions + early ends of
// busy-waiting + spurious wake-ups); `sink` gets each distinct trace.
typedef void (*VtSink)(void* ctx, const VtRunResult&, const char* how);
VtExploreStats vt_dfs(void (*fn)(void*), void* arg, int bound, long max_runs, double max_s,
                      VtSink sink, void* ctx);
VtExploreStats vt_random(void (*fn)(void*), void* arg, uint64_t seed, long max_runs, double max_s,
                         VtSink sink, void* ctx);
#endif
