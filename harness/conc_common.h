// Shared driver of the controlled-schedule harnesses.
//   prog OUT MODE BOUND MAXRUNS MAXSECONDS SEED SCENARIO...   MODE = dfs | random | hint:FILE | replay:FILE
// Every distinct observable trace of every scenario is appended to OUT as one JSON line
//   {"scn": "...", "how": "...", "sched": [option indices], "ev": [...]}
// and one line of statistics goes to stdout.
#ifndef CONC_COMMON_H_
#define CONC_COMMON_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "../rt/rt.h"

typedef void (*ScenarioFn)(void* arg);  // arg: const char* scenario text

struct SinkCtx { FILE* f; const char* scn; };
static inline std::string ints(const std::vector<int>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
  return s + "]";
}
static inline void conc_sink(void* c, const VtRunResult& r, const char* how) {
  SinkCtx* x = (SinkCtx*)c;
  fprintf(x->f, "{\"scn\":\"%s\",\"how\":\"%s\",\"sched\":%s,\"ev\":%s}\n", x->scn, how,
          ints(r.choices).c_str(), r.trace.c_str());
}
static inline std::vector<int> read_ints(const char* p) {
  std::vector<int> v;
  FILE* f = fopen(p, "r");
  if (!f) { perror(p); exit(3); }
  int x;
  while (fscanf(f, "%d", &x) == 1) v.push_back(x);
  fclose(f);
  return v;
}
static inline int conc_main(int argc, char** argv, ScenarioFn fn) {
  if (argc < 8) { fprintf(stderr, "usage\n"); return 3; }
  FILE* f = fopen(argv[1], "w");
  if (!f) { perror(argv[1]); return 3; }
  std::string mode = argv[2];
  int bound = atoi(argv[3]);
  long max_runs = atol(argv[4]);
  double max_s = atof(argv[5]);
  uint64_t seed = strtoull(argv[6], 0, 10);
  for (int i = 7; i < argc; i++) {
    SinkCtx c{f, argv[i]};
    VtExploreStats st;
    if (mode == "dfs") st = vt_dfs(fn, argv[i], bound, max_runs, max_s, conc_sink, &c);
    else if (mode == "random") st = vt_random(fn, argv[i], seed, max_runs, max_s, conc_sink, &c);
    else if (mode.compare(0, 5, "hint:") == 0) {
      // file of whitespace-separated thread ids; negative numbers separate schedules
      std::vector<int> all = read_ints(mode.c_str() + 5), one;
      all.push_back(-1);
      for (int x : all) {
        if (x >= 0) { one.push_back(x); continue; }
        if (one.empty()) continue;
        VtRunOptions o;
        o.mode = VT_HINT;
        o.prefix = one;
        VtRunResult r = vt_run(fn, argv[i], o);
        st.runs++; st.steps += r.steps; st.decisions += (long)r.choices.size();
        conc_sink(&c, r, "spec");
        one.clear();
        if (r.bad) { st.bad = true; break; }
      }
    } else if (mode.compare(0, 7, "replay:") == 0) {
      VtRunOptions o;
      o.mode = VT_DFS;
      o.prefix = read_ints(mode.c_str() + 7);
      VtRunResult r = vt_run(fn, argv[i], o);
      st.runs = 1;
      conc_sink(&c, r, "replay");
    } else return 3;
    printf("{\"scn\":\"%s\",\"runs\":%ld,\"steps\":%ld,\"decisions\":%ld,\"complete\":%s,\"bad\":%s}\n",
           argv[i], st.runs, st.steps, st.decisions, st.complete ? "true" : "false",
           st.bad ? "true" : "false");
    fflush(stdout);
    fflush(f);
  }
  fclose(f);
  return 0;
}
#endif
