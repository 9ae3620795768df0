// See rt.h. Compiled without instrumentation. Defines the __tsan_* ABI, pthread_*, allocation
// wrappers and the scheduler.
#include "rt.h"

#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <new>
#include <unordered_map>
#include <unordered_set>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_memalign(size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace {
const int MAXT = 24;
const size_t STACK = 512 * 1024;

struct VC {
  uint32_t c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
  bool leq(const VC& o) const {
    for (int i = 0; i < MAXT; i++)
      if (c[i] > o.c[i]) return false;
    return true;
  }
  void clear() { memset(c, 0, sizeof c); }
};

enum St { RUN, B_MUTEX, B_COND, B_JOIN, SPIN, B_GUARD, DONE, UNUSED };
struct Thread {
  int id;
  St st = UNUSED;
  void* on = nullptr;   // mutex / cond / guard / spin address
  int join_on = -1;
  ucontext_t uc;
  char* stack = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool joined = false, detached = false;
  VC vc, fence_rel, fence_acq;
  uintptr_t spin_addr = 0;
  uint64_t spin_val = 0;
  int spin_size = 0;
  int spin_cnt = 0;
  bool exhausting = false, futile = false;
  bool woken = false;  // cond
  bool timed = false;  // timed wait
  std::unordered_map<unsigned, void*> tls;
  int in_rt = 0;
};
struct Sync {
  VC rel;          // mutex: last unlock; atomic: current release sequence
  VC acc, wr;      // atomic accesses / writes
  int owner = -1;  // mutex
  bool destroyed = false, is_mutex = false, is_cond = false;
};

Thread th[MAXT];
int nth = 0;
int cur = -1;
bool active = false;
ucontext_t driver_uc;
jmp_buf driver_jb;
std::unordered_map<uintptr_t, Sync> syncs;
VtRunOptions opt;
VtRunResult* res = nullptr;
uint64_t rng;
size_t hint_pos;
int spurious_used, exhaust_used;
long consecutive, plain_since;
bool give_way;
int created, exited;

int no_thread_in_rt = 0;
int& in_rt_ref() { return cur >= 0 ? th[cur].in_rt : no_thread_in_rt; }
#define in_rt (in_rt_ref())
// Marks runtime-internal code, whose own allocations are not the library's.
struct G {
  int* p;
  G() : p(&in_rt_ref()) { ++*p; }
  ~G() { --*p; }
};

struct Ev { int t; uint32_t clk; };
std::vector<Ev> evs;

uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL;
}

// ---------------------------------------------------------------- shadow memory
struct Cell {
  uint32_t w;   // tid<<24 | clk of last write (0 = none)
  uint32_t r;   // same for last read; 0xff...: index into rvs
};
const uint32_t FREED = 0xfefefefeu;
struct Page {
  uint32_t gen;
  Cell c[4096];
};
uint32_t gen = 1;
std::unordered_map<uintptr_t, Page*> pages;
uintptr_t last_pg = ~0ul;
Page* last_p = nullptr;
std::vector<VC> rvs;
std::unordered_set<uintptr_t> atomic_lines;  // addr>>3 that have had atomic accesses
std::unordered_set<std::string> race_seen;

Page* page(uintptr_t a) {
  uintptr_t k = a >> 12;
  if (k == last_pg && last_p->gen == gen) return last_p;
  G g;
  Page*& p = pages[k];
  if (!p) {
    p = (Page*)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p->gen = gen;
  }
  if (p->gen != gen) {
    memset(p->c, 0, sizeof p->c);
    p->gen = gen;
  }
  last_pg = k;
  last_p = p;
  return p;
}
Cell& cell(uintptr_t a) { return page(a)->c[a & 4095]; }
uint32_t ep(int t) { return (uint32_t)(t + 1) << 24 | th[t].vc.c[t]; }
bool ep_leq(uint32_t e, const VC& v) {
  int t = (int)(e >> 24) - 1;
  return (e & 0xffffff) <= v.c[t];
}
[[noreturn]] void finish_bad(const char* what, const std::string& extra);

void report_race(const char* kind, uintptr_t a, void* pc) {
  G g;
  // One event per kind and code location keeps traces short.
  char b[64];
  snprintf(b, sizeof b, "%s@%p", kind, pc);
  if (!race_seen.insert(b).second) return;
  char d[160];
  snprintf(d, sizeof d, "\"e\":\"%s\"", kind);
  vt_event(d);
  if (getenv("VT_VERBOSE")) {
    fprintf(stderr, "%s addr=%#lx thread %d pc=%p\n", kind, (long)a, cur, pc);
    void* bt[12];
    int n = backtrace(bt, 12);
    backtrace_symbols_fd(bt, n, 2);
  }
}
inline void plain_tick();
void rd(uintptr_t a, int n, void* pc) {
  if (!active || cur < 0 || in_rt) return;
  plain_tick();
  VC& v = th[cur].vc;
  uint32_t me = ep(cur);
  bool at = false;
  for (int i = 0; i < n; i++) {
    Cell& c = cell(a + i);
    if (c.w == FREED) { report_race("UseAfterFree", a, pc); return; }
    if (c.r == me) continue;
    if (c.w && !ep_leq(c.w, v)) { report_race("Race", a, pc); return; }
    if (c.r == 0) c.r = me;
    else if ((c.r >> 24) == 0xff) rvs[c.r & 0xffffff].c[cur] = v.c[cur];
    else if (ep_leq(c.r, v)) c.r = me;
    else {
      G g;
      VC nv;
      nv.c[(c.r >> 24) - 1] = c.r & 0xffffff;
      nv.c[cur] = v.c[cur];
      rvs.push_back(nv);
      c.r = 0xff000000u | (uint32_t)(rvs.size() - 1);
    }
    at = true;
  }
  if (at && !atomic_lines.empty() && atomic_lines.count(a >> 3)) {
    auto it = syncs.find(a);
    if (it != syncs.end() && !it->second.wr.leq(v)) report_race("Race", a, pc);
  }
}
void wr(uintptr_t a, int n, void* pc, bool is_free = false) {
  if (!active || cur < 0 || (in_rt && !is_free)) return;
  plain_tick();
  VC& v = th[cur].vc;
  uint32_t me = ep(cur);
  bool at = false;
  for (int i = 0; i < n; i++) {
    Cell& c = cell(a + i);
    if (c.w == FREED) { report_race(is_free ? "DoubleFree" : "UseAfterFree", a, pc); return; }
    if (c.w == me && c.r == 0) { at = true; continue; }
    if (c.w && !ep_leq(c.w, v)) { report_race("Race", a, pc); return; }
    if (c.r) {
      bool ok = (c.r >> 24) == 0xff ? rvs[c.r & 0xffffff].leq(v) : ep_leq(c.r, v);
      if (!ok) { report_race("Race", a, pc); return; }
    }
    c.w = me;
    c.r = 0;
    at = true;
  }
  if (at && !atomic_lines.empty() && !is_free && atomic_lines.count(a >> 3)) {
    auto it = syncs.find(a);
    if (it != syncs.end() && !it->second.acc.leq(v)) report_race("Race", a, pc);
  }
}
void shadow_clear(uintptr_t a, size_t n) {
  for (size_t i = 0; i < n; i++) {
    Cell& c = cell(a + i);
    c.w = c.r = 0;
  }
}

// ---------------------------------------------------------------- heap
struct Blk { size_t n; };
std::unordered_map<void*, Blk> live;
std::vector<void*> quarantine;

void note_alloc(void* p, size_t n) {
  if (!active || cur < 0 || !p || in_rt) return;
  in_rt++;
  shadow_clear((uintptr_t)p, n);
  for (uintptr_t a = (uintptr_t)p & ~7ul; a < (uintptr_t)p + n; a += 8)
    if (atomic_lines.count(a >> 3)) { atomic_lines.erase(a >> 3); syncs.erase(a); }
  live[p] = Blk{n};
  in_rt--;
}
// returns true if the block is now owned by the quarantine
bool note_free(void* p) {
  if (!active || cur < 0 || !p || in_rt) return false;
  in_rt++;
  auto it = live.find(p);
  bool mine = it != live.end();
  if (mine) {
    size_t n = it->second.n;
    live.erase(it);
    void* pc = __builtin_return_address(0);
    wr((uintptr_t)p, (int)n, pc, true);
    // atomics living in the block
    for (uintptr_t a = (uintptr_t)p & ~7ul; a < (uintptr_t)p + n; a += 8)
      if (atomic_lines.count(a >> 3)) {
        auto s = syncs.find(a);
        if (s != syncs.end() && !s->second.acc.leq(th[cur].vc)) report_race("Race", a, pc);
      }
    for (size_t i = 0; i < n; i++) {
      Cell& c = cell((uintptr_t)p + i);
      c.w = FREED;
      c.r = 0;
    }
    quarantine.push_back(p);
  } else {
    for (void* q : quarantine)
      if (q == p) { report_race("DoubleFree", (uintptr_t)p, p); mine = true; break; }
  }
  in_rt--;
  return mine;
}

// ---------------------------------------------------------------- scheduler
void tick(int t) { th[t].vc.c[t]++; }

struct Opt { int t; int kind; int cost; };  // kind 0 run, 1 end busy-wait, 2 spurious wake-up

void switch_to(int t) {
  int from = cur;
  if (from == t) return;
  cur = t;
  consecutive = 0;
  swapcontext(&th[from].uc, &th[t].uc);
}
void leave_run() { setcontext(&driver_uc); }

// Chooses who runs next; the caller has set th[cur].st. Returns when this thread is chosen.
void pick(bool preemptible) {
  G g;
  if (++res->steps > opt.max_steps) finish_bad("Livelock", "");
  Opt o[3 * MAXT];
  int n = 0;
  bool cur_ok = th[cur].st == RUN;
  bool rotate = cur_ok && (consecutive > 600 || give_way);
  give_way = false;
  if (cur_ok && !rotate) o[n++] = {cur, 0, 0};
  if (!cur_ok || preemptible)
    for (int k = 1; k <= nth; k++) {
      int i = (cur + k) % nth;
      if (i != cur && th[i].st == RUN) o[n++] = {i, 0, (cur_ok && !rotate) ? 1 : 0};
    }
  if (rotate) o[n++] = {cur, 0, n ? 1 : 0};
  bool any_run = n > 0;
  if (!cur_ok || preemptible) {
    for (int i = 0; i < nth; i++)
      if (th[i].st == SPIN && !th[i].futile && (!any_run || exhaust_used < opt.max_exhaust))
        o[n++] = {i, 1, any_run ? 1 : 0};
    for (int i = 0; i < nth; i++)
      if (th[i].st == B_COND && th[i].timed && (!any_run)) o[n++] = {i, 2, 0};
    bool can_progress = n > 0;
    for (int i = 0; i < nth; i++)
      if (th[i].st == B_COND && can_progress && spurious_used < opt.max_spurious)
        o[n++] = {i, 2, 1};
  }
  if (n == 0) finish_bad("Deadlock", "");
  int c = 0;
  if (n > 1) {
    size_t d = res->choices.size();
    if (opt.mode == VT_DFS) {
      if (d < opt.prefix.size()) c = opt.prefix[d];
      if (c >= n) c = 0;
    } else if (opt.mode == VT_HINT) {
      while (hint_pos < opt.prefix.size()) {
        int want = opt.prefix[hint_pos];
        int f = -1;
        for (int i = 0; i < n && f < 0; i++)
          if (o[i].t == want && o[i].kind == 0) f = i;
        for (int i = 0; i < n && f < 0; i++)
          if (o[i].t == want && o[i].kind == 1) f = i;
        hint_pos++;
        if (f >= 0) { c = f; break; }
      }
    } else {
      int free_n = 0;
      while (free_n < n && o[free_n].cost == 0) free_n++;
      uint64_t x = rnd() % 1000;
      c = free_n > 1 ? (int)(rnd() % free_n) : 0;
      std::vector<int> a, b, s;
      for (int i = 0; i < n; i++) {
        if (o[i].kind == 0 && o[i].cost) a.push_back(i);
        if (o[i].kind == 1 && o[i].cost) b.push_back(i);
        if (o[i].kind == 2 && o[i].cost) s.push_back(i);
      }
      if (!a.empty() && (int)x < opt.switch_permille) c = a[rnd() % a.size()];
      else if (!b.empty() && (int)x < opt.switch_permille + opt.exhaust_permille)
        c = b[rnd() % b.size()];
      else if (!s.empty() &&
               (int)x < opt.switch_permille + opt.exhaust_permille + opt.spurious_permille)
        c = s[rnd() % s.size()];
    }
    res->choices.push_back(c);
    res->nopt.push_back(n);
    std::vector<unsigned char> cs(n);
    for (int i = 0; i < n; i++) cs[i] = (unsigned char)o[i].cost;
    res->cost.push_back(cs);
    res->tids.push_back(o[c].t);
  }
  Opt x = o[c];
  if (x.kind == 1) {
    if (x.cost) exhaust_used++;
    th[x.t].exhausting = true;
    th[x.t].st = RUN;
  } else if (x.kind == 2) {
    if (x.cost) spurious_used++;
    th[x.t].st = RUN;
  }
  consecutive++;
  plain_since = 0;
  switch_to(x.t);
}
void sched_point() {
  G g;
  th[cur].spin_cnt = 0;
  th[cur].exhausting = false;
  pick(true);
}
inline void plain_tick() {
  if (++plain_since > 4000000) { plain_since = 0;   G g;
pick(true); }
}
void block(St s, void* on) {
  th[cur].st = s;
  th[cur].on = on;
  pick(true);
}

void json_events_append(const std::string& s) {
  if (res->trace.size() > 1) res->trace += ",";
  res->trace += s;
}
[[noreturn]] void finish_bad(const char* what, const std::string& extra) {
  G g;
  std::string s = "\"e\":\"";
  s += what;
  s += "\"";
  if (!extra.empty()) s += "," + extra;
  vt_event(s);
  res->bad = true;
  leave_run();
  abort();
}
void wake_mutex(void* m) {
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_MUTEX && th[i].on == m) th[i].st = RUN;
}
Sync& sy(void* p) { return syncs[(uintptr_t)p]; }

void lock_mutex(void* m) {
  Sync* s = &sy(m);
  if (s->destroyed) report_race("UseAfterDestroy", (uintptr_t)m, m);
  s->is_mutex = true;
  while (sy(m).owner != -1) block(B_MUTEX, m);
  s = &sy(m);
  s->owner = cur;
  th[cur].vc.join(s->rel);
}
void unlock_mutex(void* m) {
  Sync& s = sy(m);
  if (s.owner != cur) report_race("UnlockNotOwner", (uintptr_t)m, m);
  s.owner = -1;
  s.rel = th[cur].vc;
  tick(cur);
  wake_mutex(m);
}

void run_tls_dtors(int t);
void entry(int id) {
  Thread& t = th[id];
  t.ret = t.fn(t.arg);
  run_tls_dtors(id);
  t.st = DONE;
  exited++;
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_JOIN && th[i].join_on == id) th[i].st = RUN;
  if (id == 0) {
    // Main finished: let the others run on; anything still alive is reported by the caller.
    bool any = false;
    for (int i = 1; i < nth; i++) any |= th[i].st == RUN;
    if (!any) leave_run();
  } else {
    vt_event("\"e\":\"ThreadExit\"");
    bool all = true;
    for (int i = 0; i < nth; i++) all &= th[i].st == DONE;
    if (all) leave_run();
    if (th[0].st == DONE) {
      bool any = false;
      for (int i = 0; i < nth; i++) any |= th[i].st == RUN;
      if (!any) leave_run();
    }
  }
  pick(true);
  abort();
}

// ---------------------------------------------------------------- tls keys
struct Key { bool used; void (*dtor)(void*); };
Key keys[1024];
void run_tls_dtors(int t) {
  for (int round = 0; round < 4; round++) {
    bool again = false;
    for (unsigned k = 0; k < 1024; k++) {
      if (!keys[k].used) continue;
      auto it = th[t].tls.find(k);
      if (it == th[t].tls.end() || !it->second) continue;
      void* v = it->second;
      it->second = nullptr;
      if (keys[k].dtor) { keys[k].dtor(v); again = true; }
    }
    if (!again) break;
  }
}

// ---------------------------------------------------------------- atomics
enum { RLX = 0, CON = 1, ACQ = 2, REL = 3, AR = 4, SC = 5 };
bool is_acq(int m) { return m == CON || m == ACQ || m == AR || m == SC; }
bool is_rel(int m) { return m == REL || m == AR || m == SC; }

void atomic_common(uintptr_t a, int n, bool write, void* pc) {
  // conflict with plain accesses
  VC& v = th[cur].vc;
  for (int i = 0; i < n; i++) {
    Cell& c = cell(a + i);
    if (c.w == FREED) { report_race("UseAfterFree", a, pc); break; }
    if (c.w && !ep_leq(c.w, v)) { report_race("Race", a, pc); break; }
    if (write && c.r) {
      bool ok = (c.r >> 24) == 0xff ? rvs[c.r & 0xffffff].leq(v) : ep_leq(c.r, v);
      if (!ok) { report_race("Race", a, pc); break; }
    }
  }
  atomic_lines.insert(a >> 3);
  Sync& s = syncs[a];
  s.acc.c[cur] = v.c[cur];
  if (write) s.wr.c[cur] = v.c[cur];
}
void acq_edge(Sync& s, int mo) {
  if (is_acq(mo)) th[cur].vc.join(s.rel);
  else th[cur].fence_acq.join(s.rel);
}
template <typename T> T ld(const volatile T* p) { return *p; }
template <typename T> void wake_spin(volatile T* p) {
  for (int i = 0; i < nth; i++)
    if (th[i].spin_addr == (uintptr_t)p) {
      th[i].futile = false;
      if (th[i].st == SPIN && (uint64_t)ld(p) != th[i].spin_val) {
        th[i].st = RUN;
        th[i].spin_cnt = 0;
        th[i].exhausting = false;
      }
    }
}
template <typename T> T a_load(const volatile T* p, int mo, void* pc) {
  if (!active || cur < 0 || in_rt) return *p;
  G g;
  Thread& t = th[cur];
  if (t.exhausting && t.spin_addr == (uintptr_t)p && (uint64_t)ld(p) == t.spin_val) {
    acq_edge(syncs[(uintptr_t)p], mo);
    return ld(p);
  }
  t.exhausting = false;
  if (t.spin_addr == (uintptr_t)p && t.spin_cnt > 0) {
    // consecutive load of the same location: no scheduling point unless it spins
    if ((uint64_t)ld(p) == t.spin_val && ++t.spin_cnt >= 3) {
      t.st = SPIN;
      t.on = (void*)p;
      pick(true);
      if (t.exhausting) t.futile = true;  // cleared when the location is written
    } else {
      pick(true);
    }
  } else {
    t.spin_cnt = 0;
    t.futile = false;
    pick(true);
  }
  T v = ld(p);
  if (t.spin_addr != (uintptr_t)p || t.spin_val != (uint64_t)v) {
    t.spin_addr = (uintptr_t)p;
    t.spin_val = (uint64_t)v;
    t.spin_cnt = 1;
    t.futile = false;
  } else if (t.spin_cnt == 0) t.spin_cnt = 1;
  atomic_common((uintptr_t)p, sizeof(T), false, pc);
  acq_edge(syncs[(uintptr_t)p], mo);
  return v;
}
template <typename T> void a_store(volatile T* p, T v, int mo, void* pc) {
  if (!active || cur < 0) { *p = v; return; }
  G g;
  sched_point();
  atomic_common((uintptr_t)p, sizeof(T), true, pc);
  Sync& s = syncs[(uintptr_t)p];
  if (is_rel(mo)) s.rel = th[cur].vc;
  else s.rel = th[cur].fence_rel;
  *p = v;
  tick(cur);
  wake_spin(p);
}
template <typename T, typename F> T a_rmw(volatile T* p, F f, int mo, void* pc) {
  if (!active || cur < 0) { T o = *p; *p = f(o); return o; }
  G g;
  sched_point();
  atomic_common((uintptr_t)p, sizeof(T), true, pc);
  Sync& s = syncs[(uintptr_t)p];
  acq_edge(s, mo);
  if (is_rel(mo)) s.rel.join(th[cur].vc);
  else s.rel.join(th[cur].fence_rel);
  T o = *p;
  *p = f(o);
  tick(cur);
  wake_spin(p);
  return o;
}
template <typename T> int a_cas(volatile T* p, T* e, T v, int mo, int fmo, void* pc) {
  if (!active || cur < 0) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
  G g;
  Thread& t = th[cur];
  (void)t;
  sched_point();
  T o = *p;
  bool ok = o == *e;
  atomic_common((uintptr_t)p, sizeof(T), ok, pc);
  Sync& s = syncs[(uintptr_t)p];
  acq_edge(s, ok ? mo : fmo);
  if (ok) {
    if (is_rel(mo)) s.rel.join(th[cur].vc);
    else s.rel.join(th[cur].fence_rel);
    *p = v;
    tick(cur);
    wake_spin(p);
  } else *e = o;
  return ok;
}

void on_signal(int sig) {
  if (!active || !res || cur < 0) _exit(99);
  const char* w = sig == SIGVTALRM ? "Hang" : sig == SIGSEGV ? "Segv" : sig == SIGFPE ? "Fpe" : "Bus";
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, sig);
  sigprocmask(SIG_UNBLOCK, &ss, 0);
  finish_bad(w, "");
}
}  // namespace

// ---------------------------------------------------------------- public API
static std::unordered_map<const void*, int> names;
int vt_name(const void* p) {
  G g;
  auto it = names.find(p);
  if (it != names.end()) return it->second;
  int id = (int)names.size() + 1;
  names[p] = id;
  return id;
}
bool vt_active() { return active && cur >= 0; }
int vt_self() { return cur; }
void vt_yield() { if (vt_active()) sched_point(); }
long vt_live_blocks() { return (long)live.size(); }
int vt_threads_created() { return created; }
int vt_threads_exited() { return exited; }

void vt_event(const std::string& f) {
  if (!active || cur < 0) return;
  G g;
  th[cur].spin_cnt = 0;
  th[cur].exhausting = false;
  tick(cur);
  const VC& v = th[cur].vc;
  std::string s = "{" + f + ",\"t\":" + std::to_string(cur) + ",\"nb\":[";
  bool first = true;
  for (size_t i = 0; i < evs.size(); i++)
    if (evs[i].t != cur && evs[i].clk > v.c[evs[i].t]) {
      if (!first) s += ",";
      first = false;
      s += std::to_string(i + 1);
    }
  s += "]}";
  evs.push_back({cur, v.c[cur]});
  json_events_append(s);
  tick(cur);
}

static void* scen_main(void*);
static void (*scen_fn)(void*);
static void* scen_arg;
static void* scen_main(void*) { scen_fn(scen_arg); return nullptr; }

VtRunResult vt_run_here(void (*fn)(void*), void* arg, const VtRunOptions& o) {
  VtRunResult r;
  r.bad = false;
  r.steps = 0;
  r.trace = "[";
  opt = o;
  res = &r;
  rng = o.seed * 0x9E3779B97F4A7C15ULL + 1;
  hint_pos = 0;
  spurious_used = exhaust_used = 0;
  consecutive = plain_since = 0;
  created = exited = 0;
  gen++;
  rvs.clear();
  evs.clear();
  race_seen.clear();
  names.clear();
  live.clear();
  // keep no synchronisation history between runs
  syncs.clear();
  atomic_lines.clear();
  for (int i = 0; i < MAXT; i++) {
    char* st = th[i].stack;
    th[i] = Thread();
    th[i].stack = st;
    th[i].id = i;
  }
  static bool sig = false;
  if (!sig) {
    sig = true;
    stack_t ss;
    ss.ss_sp = __real_malloc(1 << 16);
    ss.ss_size = 1 << 16;
    ss.ss_flags = 0;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;  // runs on the controlled stack so that the run can be abandoned
    sigaction(SIGVTALRM, &sa, 0);
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
  }
  itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = (long)o.watchdog_s;
  tv.it_value.tv_usec = (long)((o.watchdog_s - (long)o.watchdog_s) * 1e6);
  setitimer(ITIMER_VIRTUAL, &tv, 0);
  scen_fn = fn;
  scen_arg = arg;
  nth = 1;
  Thread& t = th[0];
  if (!t.stack) t.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  t.fn = scen_main;
  t.st = RUN;
  t.vc.c[0] = 1;
  getcontext(&t.uc);
  t.uc.uc_stack.ss_sp = t.stack;
  t.uc.uc_stack.ss_size = STACK;
  t.uc.uc_link = 0;
  makecontext(&t.uc, (void (*)())entry, 1, 0);
  volatile int back = 0;
  getcontext(&driver_uc);
  if (!back) {
    back = 1;
    cur = 0;
    active = true;
    setcontext(&t.uc);
  }
  active = false;
  memset(&tv, 0, sizeof tv);
  setitimer(ITIMER_VIRTUAL, &tv, 0);
  int alive = 0;
  for (int i = 0; i < nth; i++) alive += th[i].st != DONE;
  cur = -1;
  r.trace += (r.trace.size() > 1 ? "," : "");
  r.trace += "{\"e\":\"End\",\"t\":0,\"alive\":" + std::to_string(alive) + ",\"blocks\":" +
             std::to_string(live.size()) + ",\"nb\":[]}]";
  no_thread_in_rt = 0;
  if (!r.bad)
    for (void* p : quarantine) __real_free(p);
  quarantine.clear();
  res = nullptr;
  return r;
}

bool vt_isolate = false;
bool vt_sleep_events = false;
int vt_key_limit = 1024;
VtRunResult vt_run(void (*fn)(void*), void* arg, const VtRunOptions& o) {
  if (!vt_isolate) return vt_run_here(fn, arg, o);
  static int32_t* sh = nullptr;
  const size_t CAP = 16 << 20;
  if (!sh) sh = (int32_t*)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    VtRunResult r = vt_run_here(fn, arg, o);
    int32_t* q = sh + 1;
    *q++ = r.bad;
    *q++ = (int32_t)r.steps;
    *q++ = (int32_t)r.choices.size();
    for (size_t i = 0; i < r.choices.size(); i++) {
      *q++ = r.choices[i];
      *q++ = r.nopt[i];
      *q++ = r.tids[i];
      for (unsigned char c : r.cost[i]) *q++ = c;
    }
    *q++ = (int32_t)r.trace.size();
    memcpy(q, r.trace.data(), r.trace.size());
    if ((char*)q + r.trace.size() > (char*)sh + CAP) _exit(3);
    sh[0] = 1;
    _exit(0);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
  VtRunResult r;
  r.bad = false;
  r.steps = 0;
  if (!sh[0]) {  // the process itself died
    r.bad = true;
    r.trace = "[{\"e\":\"Crash\",\"t\":0,\"nb\":[]}]";
    return r;
  }
  int32_t* q = sh + 1;
  r.bad = *q++;
  r.steps = *q++;
  int n = *q++;
  for (int i = 0; i < n; i++) {
    r.choices.push_back(*q++);
    int no = *q++;
    r.nopt.push_back(no);
    r.tids.push_back(*q++);
    std::vector<unsigned char> c;
    for (int j = 0; j < no; j++) c.push_back((unsigned char)*q++);
    r.cost.push_back(c);
  }
  int len = *q++;
  r.trace.assign((char*)q, len);
  return r;
}

static double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

VtExploreStats vt_dfs(void (*fn)(void*), void* arg, int bound, long max_runs, double max_s,
                      VtSink sink, void* ctx) {
  VtExploreStats st;
  std::unordered_set<std::string> seen;
  VtRunOptions o;
  o.mode = VT_DFS;
  double t0 = now();
  for (;;) {
    VtRunResult r = vt_run(fn, arg, o);
    st.runs++;
    st.decisions += (long)r.choices.size();
    st.steps += r.steps;
    if (seen.insert(r.trace).second) { st.unique++; sink(ctx, r, "dfs"); }
    if (r.bad) { st.bad = true; return st; }
    // backtrack
    int d = (int)r.choices.size() - 1;
    std::vector<int> pre(d + 1);
    int total = 0;
    for (int i = 0; i <= d; i++) { pre[i] = total; total += r.cost[i][r.choices[i]]; }
    int nxt = -1, alt = -1;
    for (; d >= 0 && nxt < 0; d--)
      for (int c = r.choices[d] + 1; c < r.nopt[d]; c++)
        if (pre[d] + r.cost[d][c] <= bound) { nxt = d; alt = c; break; }
    if (nxt < 0) { st.complete = true; return st; }
    o.prefix.assign(r.choices.begin(), r.choices.begin() + nxt);
    o.prefix.push_back(alt);
    if (st.runs >= max_runs || now() - t0 > max_s) return st;
  }
}
VtExploreStats vt_random(void (*fn)(void*), void* arg, uint64_t seed, long max_runs, double max_s,
                         VtSink sink, void* ctx) {
  VtExploreStats st;
  std::unordered_set<std::string> seen;
  double t0 = now();
  for (long i = 0; i < max_runs && now() - t0 < max_s; i++) {
    VtRunOptions o;
    o.mode = VT_RANDOM;
    o.seed = seed * 1000003 + i + 1;
    static const int sw[] = {30, 100, 250, 500};
    o.switch_permille = sw[i % 4];
    o.exhaust_permille = (i / 4) % 2 ? 150 : 30;
    VtRunResult r = vt_run(fn, arg, o);
    st.runs++;
    st.decisions += (long)r.choices.size();
    st.steps += r.steps;
    if (seen.insert(r.trace).second) { st.unique++; sink(ctx, r, "random"); }
    if (r.bad) { st.bad = true; return st; }
  }
  return st;
}

// ---------------------------------------------------------------- interposed functions
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { wr((uintptr_t)p, 8, PC); }
void __tsan_vptr_read(void** p) { rd((uintptr_t)p, 8, PC); }
#define RW(n)                                                                   \
  void __tsan_read##n(void* p) { rd((uintptr_t)p, n, PC); }                     \
  void __tsan_write##n(void* p) { wr((uintptr_t)p, n, PC); }                    \
  void __tsan_volatile_read##n(void* p) { rd((uintptr_t)p, n, PC); }            \
  void __tsan_volatile_write##n(void* p) { wr((uintptr_t)p, n, PC); }           \
  void __tsan_unaligned_read##n(void* p) { rd((uintptr_t)p, n, PC); }           \
  void __tsan_unaligned_write##n(void* p) { wr((uintptr_t)p, n, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { rd((uintptr_t)p, (int)n, PC); }
void __tsan_write_range(void* p, size_t n) { wr((uintptr_t)p, (int)n, PC); }

#define AT(n, T)                                                                               \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); }      \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); }      \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) {                                  \
    return a_rmw<T>(p, [=](T) { return v; }, mo, PC); }                                        \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) {                                 \
    return a_rmw<T>(p, [=](T x) { return (T)(x + v); }, mo, PC); }                             \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) {                                 \
    return a_rmw<T>(p, [=](T x) { return (T)(x - v); }, mo, PC); }                             \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) {                                 \
    return a_rmw<T>(p, [=](T x) { return (T)(x & v); }, mo, PC); }                             \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) {                                  \
    return a_rmw<T>(p, [=](T x) { return (T)(x | v); }, mo, PC); }                             \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) {                                 \
    return a_rmw<T>(p, [=](T x) { return (T)(x ^ v); }, mo, PC); }                             \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {  \
    return a_cas<T>(p, e, v, mo, fmo, PC); }                                                   \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {    \
    return a_cas<T>(p, e, v, mo, fmo, PC); }                                                   \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {        \
    a_cas<T>(p, &e, v, mo, fmo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!active || cur < 0) return;
  Thread& t = th[cur];
  if (is_acq(mo)) t.vc.join(t.fence_acq);
  if (is_rel(mo)) { t.fence_rel = t.vc; tick(cur); }
}
void __tsan_atomic_signal_fence(int) {}

int __cxa_guard_acquire(uint64_t* gd) {
  G g;
  volatile uint8_t* b = (volatile uint8_t*)gd;
  if (!active || cur < 0) { if (b[0]) return 0; b[1] = 1; return 1; }
  for (;;) {
    if (b[0]) { th[cur].vc.join(syncs[(uintptr_t)gd].rel); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block(B_GUARD, gd);
  }
}
void __cxa_guard_release(uint64_t* gd) {
  G g;
  volatile uint8_t* b = (volatile uint8_t*)gd;
  b[0] = 1;
  b[1] = 0;
  if (!active || cur < 0) return;
  syncs[(uintptr_t)gd].rel = th[cur].vc;
  tick(cur);
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_GUARD && th[i].on == gd) th[i].st = RUN;
}
void __cxa_guard_abort(uint64_t* gd) { ((volatile uint8_t*)gd)[1] = 0; }

int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  G g;
  if (!active || cur < 0) { fprintf(stderr, "rt: pthread_create outside a run\n"); abort(); }
  sched_point();
  if (nth >= MAXT) finish_bad("TooManyThreads", "");
  vt_event("\"e\":\"ThreadCreate\",\"c\":" + std::to_string(nth));
  int id = nth++;
  Thread& t = th[id];
  t.id = id;
  if (!t.stack) t.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  t.fn = fn;
  t.arg = arg;
  t.st = RUN;
  t.vc = th[cur].vc;
  t.vc.c[id] = 1;
  tick(cur);
  created++;
  getcontext(&t.uc);
  t.uc.uc_stack.ss_sp = t.stack;
  t.uc.uc_stack.ss_size = STACK;
  t.uc.uc_link = 0;
  makecontext(&t.uc, (void (*)())entry, 1, id);
  *out = (pthread_t)(id + 1);
  pick(true);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  G g;
  int id = (int)p - 1;
  if (!vt_active()) return EINVAL;
  sched_point();
  if (id < 0 || id >= nth) { finish_bad("BadJoin", ""); }
  Thread& t = th[id];
  if (t.joined) finish_bad("DoubleJoin", "");
  while (t.st != DONE) { th[cur].join_on = id; block(B_JOIN, nullptr); }
  t.joined = true;
  th[cur].vc.join(t.vc);
  if (ret) *ret = t.ret;
  vt_event("\"e\":\"ThreadJoin\",\"c\":" + std::to_string(id));
  return 0;
}
int pthread_detach(pthread_t p) { th[(int)p - 1].detached = true; return 0; }
pthread_t pthread_self() { return vt_active() ? (pthread_t)(cur + 1) : (pthread_t)1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) {
  G g;
  memset(m, 0, sizeof *m);
  syncs[(uintptr_t)m] = Sync();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  G g;
  if (!vt_active()) return 0;
  Sync& s = sy(m);
  if (s.owner != -1) report_race("DestroyLocked", (uintptr_t)m, m);
  s.destroyed = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  lock_mutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  if (sy(m).owner != -1) return EBUSY;
  lock_mutex(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  unlock_mutex(m);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  G g;
  memset(c, 0, sizeof *c);
  syncs[(uintptr_t)c] = Sync();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  G g;
  if (!vt_active()) return 0;
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_COND && th[i].on == c) report_race("DestroyWaited", (uintptr_t)c, c);
  sy(c).destroyed = true;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  if (sy(c).destroyed) report_race("UseAfterDestroy", (uintptr_t)c, c);
  unlock_mutex(m);
  block(B_COND, c);
  lock_mutex(m);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  unlock_mutex(m);
  th[cur].timed = true;
  block(B_COND, c);
  th[cur].timed = false;
  lock_mutex(m);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  G g;
  return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  if (sy(c).destroyed) report_race("UseAfterDestroy", (uintptr_t)c, c);
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_COND && th[i].on == c) { th[i].st = RUN; break; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  G g;
  if (!vt_active()) return 0;
  sched_point();
  if (sy(c).destroyed) report_race("UseAfterDestroy", (uintptr_t)c, c);
  for (int i = 0; i < nth; i++)
    if (th[i].st == B_COND && th[i].on == c) th[i].st = RUN;
  return 0;
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  for (unsigned i = 0; i < (unsigned)vt_key_limit; i++)
    if (!keys[i].used) {
      keys[i] = Key{true, d};
      *k = i;
      return 0;
    }
  return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) { keys[k].used = false; return 0; }
void* pthread_getspecific(pthread_key_t k) {
  if (!vt_active()) return nullptr;
  auto it = th[cur].tls.find(k);
  return it == th[cur].tls.end() ? nullptr : it->second;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
  G g;
  if (!vt_active()) return 0;
  th[cur].tls[k] = (void*)v;
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (*(int*)o == 0) { *(int*)o = 1; f(); }
  return 0;
}
static int sleepy() {
  G g;
  if (!vt_active()) return 0;
  if (vt_sleep_events) { vt_event("\"e\":\"Sleep\""); give_way = true; }
  Thread& t = th[cur];
  bool was = t.exhausting;
  int c = t.spin_cnt;
  t.exhausting = false;
  pick(true);
  // sleeping does not end a spin: the next equal load blocks again, and is futile if it
  // already went through a full busy-wait.
  t.spin_cnt = was ? 2 : c;
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return sleepy(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sleepy(); }
int usleep(useconds_t) { return sleepy(); }
int sched_yield() { return sleepy(); }

void abort() {
  if (active && res && cur >= 0) finish_bad("Abort", "");
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  if (getenv("VT_VERBOSE")) fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  if (active && res && cur >= 0) finish_bad("Assert", "");
  fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  _exit(134);
}

void* __wrap_memcpy(void* d, const void* q, size_t n) {
  if (n && vt_active() && !in_rt) { rd((uintptr_t)q, (int)n, PC); wr((uintptr_t)d, (int)n, PC); }
  return __real_memcpy(d, q, n);
}
void* __wrap_memmove(void* d, const void* q, size_t n) {
  if (n && vt_active() && !in_rt) { rd((uintptr_t)q, (int)n, PC); wr((uintptr_t)d, (int)n, PC); }
  return __real_memmove(d, q, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n && vt_active() && !in_rt) wr((uintptr_t)d, (int)n, PC);
  return __real_memset(d, c, n);
}
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n ? n : 1); note_alloc(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); note_alloc(p, a * b); return p; }
void __wrap_free(void* p) { if (!note_free(p)) __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!vt_active() || in_rt) return __real_realloc(p, n);
  void* q = __wrap_malloc(n);
  if (p) { memcpy(q, p, std::min(n, malloc_usable_size(p))); __wrap_free(p); }
  return q;
}
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  int r = __real_posix_memalign(p, a, n);
  if (!r) note_alloc(*p, n);
  return r;
}
void* __wrap_memalign(size_t a, size_t n) { void* p = __real_memalign(a, n); note_alloc(p, n); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); note_alloc(p, n); return p; }
}
// Only instrumented code's new/delete should be tracked; the runtime's own containers set in_rt or
// run outside of library calls, and tracking them would be harmless apart from cost.
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); note_alloc(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (!note_free(p)) __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
