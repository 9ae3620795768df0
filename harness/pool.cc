// Worker pool under controlled schedules (C05, C06) and blocking counter (C07).
// Scenario text: comma-separated operations on one pool, which is destroyed at the end:
//   E<n>  template Execute(n, tasks[])        L<n>  legacy Execute(vector) which owns its tasks
// or   B<n>x<k>[,...]  blocking-counter rounds: n decrements spread over k threads
#include <atomic>
#include "internal/multi_thread_gemm.h"
#include "conc_common.h"

using gemmlowp::Allocator;

static std::string kv(const char* k, long v) {
  return std::string(",\"") + k + "\":" + std::to_string(v);
}

struct Shared {
  int input;
  int result[16];
};

struct MyTask : gemmlowp::Task {
  int b = 0, k = 0;
  Shared* sh = nullptr;
  bool legacy = false;
  void Run() override {
    vt_event("\"e\":\"TaskBegin\"" + kv("b", b) + kv("k", k) + kv("a", vt_name(local_allocator)));
    int in = sh->input;  // plain read of what the caller wrote before Execute
    // use the scratch allocator as a GEMM task does
    auto h = local_allocator->Reserve<std::int32_t>(8);
    local_allocator->Commit();
    std::int32_t* p = local_allocator->GetPointer<std::int32_t>(h);
    for (int i = 0; i < 8; i++) p[i] = in + k;
    vt_yield();
    int s = 0;
    for (int i = 0; i < 8; i++) s += p[i];
    local_allocator->Decommit();
    sh->result[k] = s;  // plain write the caller reads after Execute
    vt_event("\"e\":\"TaskEnd\"" + kv("b", b) + kv("k", k) + kv("ok", s == 8 * (in + k)));
  }
  ~MyTask() override {
    if (legacy) vt_event("\"e\":\"TaskDelete\"" + kv("b", b) + kv("k", k));
  }
};

static void pool_scenario(const char* s) {
  std::vector<std::pair<char, int>> ops;
  while (*s) {
    char c = *s++;
    int n = (int)strtol(s, (char**)&s, 10);
    ops.push_back({c, n});
    if (*s == ',') s++;
  }
  Shared sh;
  gemmlowp::WorkersPool* pool = new gemmlowp::WorkersPool;
  int b = 0;
  for (auto& op : ops) {
    b++;
    int n = op.second;
    sh.input = 100 * b;
    for (int i = 0; i < n; i++) sh.result[i] = -1;
    if (op.first == 'E') {
      MyTask* tasks = new MyTask[n];
      for (int i = 0; i < n; i++) { tasks[i].b = b; tasks[i].k = i; tasks[i].sh = &sh; }
      vt_event("\"e\":\"ExecCall\"" + kv("b", b) + kv("n", n) + kv("own", 0));
      pool->Execute(n, tasks);
      int good = 1;
      for (int i = 0; i < n; i++) good &= sh.result[i] == 8 * (100 * b + i);
      vt_event("\"e\":\"ExecRet\"" + kv("b", b) + kv("ok", good));
      delete[] tasks;
    } else {
      std::vector<gemmlowp::Task*> tasks;
      for (int i = 0; i < n; i++) {
        MyTask* t = new MyTask;
        t->b = b; t->k = i; t->sh = &sh; t->legacy = true;
        tasks.push_back(t);
      }
      vt_event("\"e\":\"ExecCall\"" + kv("b", b) + kv("n", n) + kv("own", 1));
      pool->Execute(tasks);
      int good = 1;
      for (int i = 0; i < n; i++) good &= sh.result[i] == 8 * (100 * b + i);
      vt_event("\"e\":\"ExecRet\"" + kv("b", b) + kv("ok", good));
    }
  }
  vt_event("\"e\":\"DestroyCall\"");
  delete pool;
  vt_event("\"e\":\"DestroyRet\"");
}

// ---------------------------------------------------------------- blocking counter
struct BcArg {
  gemmlowp::BlockingCounter* bc;
  int count, first, round;
  int* data;
};
static void* bc_thread(void* a) {
  BcArg* x = (BcArg*)a;
  for (int i = 0; i < x->count; i++) {
    x->data[x->first + i] = x->round;  // must be visible to the waiter
    vt_event("\"e\":\"DecCall\"" + kv("b", x->round) + kv("k", x->first + i));
    bool z = x->bc->DecrementCount();
    vt_event("\"e\":\"DecRet\"" + kv("b", x->round) + kv("k", x->first + i) + kv("z", z));
  }
  return nullptr;
}
static void bc_scenario(const char* s) {
  gemmlowp::BlockingCounter bc;
  int data[16];
  int round = 0;
  while (*s) {
    s++;
    int n = (int)strtol(s, (char**)&s, 10);
    s++;
    int k = (int)strtol(s, (char**)&s, 10);
    if (*s == ',') s++;
    round++;
    for (int i = 0; i < n; i++) data[i] = 0;
    vt_event("\"e\":\"Reset\"" + kv("b", round) + kv("n", n));
    bc.Reset(n);
    pthread_t th[8];
    BcArg args[8];
    int first = 0;
    for (int i = 0; i < k; i++) {
      int c = n / k + (i < n % k);
      args[i] = BcArg{&bc, c, first, round, data};
      first += c;
      pthread_create(&th[i], nullptr, bc_thread, &args[i]);
    }
    vt_event("\"e\":\"WaitCall\"" + kv("b", round));
    bc.Wait();
    int good = 1;
    for (int i = 0; i < n; i++) good &= data[i] == round;
    vt_event("\"e\":\"WaitRet\"" + kv("b", round) + kv("ok", good));
    for (int i = 0; i < k; i++) pthread_join(th[i], nullptr);
  }
}

static void scenario(void* a) {
  const char* s = (const char*)a;
  if (*s == 'B') bc_scenario(s);
  else pool_scenario(s);
}
int main(int argc, char** argv) { return conc_main(argc, argv, scenario); }
