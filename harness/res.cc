// C19: what contexts and the legacy API hold on to. Histories (GemmGen.tla, LegacyGen.tla) are replayed with
// malloc/free and thread creation counted: memory blocks obtained while library code runs (on any thread) and
// threads started by it.
//   prog IN OUT SAMPLES SEED [START]; a history starting with "L;" drives the legacy API, "P;" worker pools
#include <dlfcn.h>
#include <malloc.h>
#include <atomic>
#include <map>
#include "public/gemmlowp.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "gemm_common.h"
using namespace gemmlowp;

// ---- counting
static thread_local int t_off = 0;         // >0: the harness itself, or glibc inside pthread_create
static std::atomic<int> g_lock(0), g_threads(0);
static const int kTab = 1 << 17;
static void* g_tab[kTab];
static size_t g_sz[kTab];
static int g_blocks = 0;
static long g_bytes = 0;
struct Spin { Spin() { while (g_lock.exchange(1, std::memory_order_acquire)) {} } ~Spin() { g_lock.store(0, std::memory_order_release); } };
static int slot(void* p) { return (int)(((std::uintptr_t)p >> 4) * 2654435761u % kTab); }
static void add(void* p, size_t n) {
  if (!p || t_off) return;
  Spin s;
  int i = slot(p);
  while (g_tab[i] && g_tab[i] != (void*)1) i = (i + 1) % kTab;
  g_tab[i] = p; g_sz[i] = n; g_blocks++; g_bytes += n;
}
static void del(void* p) {
  if (!p) return;
  Spin s;
  for (int i = slot(p), k = 0; k < kTab && g_tab[i]; i = (i + 1) % kTab, k++)
    if (g_tab[i] == p) { g_tab[i] = (void*)1; g_blocks--; g_bytes -= g_sz[i]; return; }
}
static void clear_table() { Spin s; memset(g_tab, 0, sizeof g_tab); g_blocks = 0; g_bytes = 0; }
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p, n); return p; }
void free(void* p) { del(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); add(p, a * b); return p; }
void* realloc(void* q, size_t n) { del(q); void* p = __libc_realloc(q, n); add(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); add(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return 12; *out = p; return 0; }
struct Start { void* (*f)(void*); void* arg; };
static void thread_done(void*) { g_threads--; }
static void* trampoline(void* v) {
  Start s = *(Start*)v;
  __libc_free(v);
  void* r;
  pthread_cleanup_push(thread_done, nullptr);
  r = s.f(s.arg);
  pthread_cleanup_pop(1);
  return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  typedef int (*fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  t_off++;
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  Start* s = (Start*)__libc_malloc(sizeof(Start));
  s->f = f; s->arg = arg;
  g_threads++;
  int rc = real(t, a, trampoline, s);
  if (rc) g_threads--;
  t_off--;
  return rc;
}
}
// threads that were told to stop may still be returning
static int threads_left(int want) {
  for (int i = 0; i < 5000 && g_threads > want; i++) usleep(1000);
  return g_threads;
}
struct Lib { Lib() { t_off--; } ~Lib() { t_off++; } };   // library code runs in this scope

static std::vector<std::uint8_t> g_a, g_b;
static std::vector<std::int32_t> g_c;
static std::string live() { return "\"b\":" + std::to_string(g_blocks) + ",\"y\":" + std::to_string((int)std::min<long>(g_bytes, 2000000000)) + ",\"t\":" + std::to_string((int)g_threads); }

template <MapOrder LO, MapOrder RO, MapOrder SO>
static void gemm(GemmContext* ctx, int m, int k, int n, int pipe) {
  const int ls = LO == MapOrder::RowMajor ? k : m, rs = RO == MapOrder::RowMajor ? n : k, ss = SO == MapOrder::RowMajor ? n : m;
  MatrixMap<const std::uint8_t, LO> a(g_a.data(), m, k, ls);
  MatrixMap<const std::uint8_t, RO> b(g_b.data(), k, n, rs);
  if (pipe % 2) {
    MatrixMap<std::int32_t, SO> c(g_c.data(), m, n, ss);
    Lib l;
    GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(ctx, a, b, &c, -3, 5, std::make_tuple());
  } else {
    MatrixMap<std::uint8_t, SO> c((std::uint8_t*)g_c.data(), m, n, ss);
    OutputStageQuantizeDownInt32ToUint8Scale q;
    q.result_offset = 3; q.result_mult_int = 5; q.result_shift = 9;
    OutputStageSaturatingCastToUint8 s;
    Lib l;
    GemmWithOutputPipeline<std::uint8_t, std::uint8_t, DefaultL8R8BitDepthParams>(ctx, a, b, &c, -3, 5, std::make_tuple(q, s));
  }
}
static void call(GemmContext* ctx, const std::vector<int>& v) {
  const int m = v[0], k = v[1], n = v[2];
  alarm(120);
  if (v[3]) { if (v[4]) gemm<MapOrder::RowMajor, MapOrder::RowMajor, MapOrder::RowMajor>(ctx, m, k, n, v[11]);
              else gemm<MapOrder::RowMajor, MapOrder::ColMajor, MapOrder::ColMajor>(ctx, m, k, n, v[11]); }
  else if (v[4]) gemm<MapOrder::ColMajor, MapOrder::RowMajor, MapOrder::RowMajor>(ctx, m, k, n, v[11]);
  else gemm<MapOrder::ColMajor, MapOrder::ColMajor, MapOrder::ColMajor>(ctx, m, k, n, v[11]);
  alarm(0);
}
static void lcall(const std::vector<int>& v) {
  using namespace eight_bit_int_gemm;
  const int m = v[4], n = v[5], k = v[6];
  const int ls = v[1] ? k : m, rs = v[2] ? n : k, ss = v[3] ? n : m;
  alarm(120);
  if (v[0]) { Lib l; EightBitIntGemm(v[1], v[2], v[3], m, n, k, g_a.data(), -1, ls, g_b.data(), 2, rs, (float*)g_c.data(), 0.5f, ss, BitDepthSetting::A8B8); }
  else { Lib l; EightBitIntGemm(v[1], v[2], v[3], m, n, k, g_a.data(), -1, ls, g_b.data(), 2, rs, (std::uint8_t*)g_c.data(), 1, 2, 10, ss, BitDepthSetting::A8B8); }
  alarm(0);
}
struct CountTask : Task {
  std::atomic<int>* n;
  std::size_t want;
  void Run() override {
    if (want) { local_allocator->Reserve<std::uint8_t>(want); local_allocator->Commit(); local_allocator->Decommit(); }
    (*n)++;
  }
};

int main(int argc, char** argv) {
  t_off = 1;
  if (argc < 5) return 3;
  FILE* in = fopen(argv[1], "r");
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  g_a.assign(3000000, 7); g_b.assign(3000000, 9); g_c.assign(1000000, 0);
  // what is set up once per process is set up here
  for (int rep = 0; rep < 2; rep++) {
    GemmContext* w;
    { Lib l; w = new GemmContext; w->set_max_num_threads(3); }
    for (int i = 0; i < 8; i++) call(w, {96, 64, 96, i & 1, i >> 1 & 1, 0, 0, 0, 0, 0, 0, i >> 2 & 1});
    { Lib l; delete w; eight_bit_int_gemm::SetMaxNumThreads(3); }
    for (int i = 0; i < 16; i++) lcall({i & 1, i >> 1 & 1, i >> 2 & 1, i >> 3 & 1, 96, 96, 64});
    { Lib l; eight_bit_int_gemm::FreePersistentResources(); }
    threads_left(0);
  }
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"ev\":[";
    bool first = true, legacy = line[0] == 'L', pools = line[0] == 'P';
    if (legacy || pools) std::getline(is, op, ';');
    clear_table();
    GemmContext* ctx = nullptr;
    WorkersPool* pool = nullptr;
    std::vector<int> last;
    auto begin = [&](const char* o) { if (!first) g_partial += ","; first = false; g_partial += std::string("{\"op\":\"") + o + "\""; };
    auto end = [&](const std::string& s) { g_partial += ",\"fault\":0" + s + "}"; };
    auto make = [&] { if (!legacy && !pools && !ctx) { Lib l; ctx = new GemmContext; } };
    auto again = [&] {   // the last call, many times
      if (last.empty()) return;
      begin("R");
      std::string s = ",\"lives\":[";
      for (int i = 0; i < 24; i++) {
        if (legacy) lcall(last); else call(ctx, last);
        s += std::string(i ? "," : "") + "[" + std::to_string(g_blocks) + "," + std::to_string((int)std::min<long>(g_bytes, 2000000000)) + "," + std::to_string((int)g_threads) + "]";
      }
      end(s + "]");
    };
    auto drop = [&] {
      begin("Z");
      alarm(60);
      if (legacy) { Lib l; eight_bit_int_gemm::FreePersistentResources(); }
      else { Lib l; delete ctx; delete pool; }
      alarm(0);
      ctx = nullptr; pool = nullptr;
      int t = threads_left(0);
      (void)t;
      end("," + live());
      last.clear();
    };
    make();
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o;
      os >> o;
      std::vector<int> v;
      for (std::string w; os >> w;) v.push_back(atoi(w.c_str()));
      if (pools) {   // P: number of tasks, bytes each reserves, which Execute
        begin("G");
        alarm(60);
        std::atomic<int> ran(0);
        if (!pool) { Lib l; pool = new WorkersPool; }
        if (v[2] == 0) {
          std::vector<Task*> ts;
          { Lib l;
            for (int i = 0; i < v[0]; i++) { CountTask* t = new CountTask; t->n = &ran; t->want = v[1]; ts.push_back(t); }
            pool->LegacyExecuteAndDestroyTasks(ts);
            std::vector<Task*>().swap(ts);
          }
        } else {
          Lib l;
          std::vector<CountTask> ts(v[0]);
          for (auto& t : ts) { t.n = &ran; t.want = v[1]; }
          pool->Execute(v[0], ts.data());
        }
        alarm(0);
        end(",\"ran\":" + std::to_string((int)ran) + ",\"tasks\":" + std::to_string(v[0]) + "," + live());
        if (v[3]) drop();
        continue;
      }
      if (o == "T") { if (legacy) { Lib l; eight_bit_int_gemm::SetMaxNumThreads(v[0]); } else { Lib l; ctx->set_max_num_threads(v[0]); } }
      else if (o == "C") { Lib l; ctx->set_l1_bytes_to_use(v[0]); ctx->set_l2_bytes_to_use(v[1]); ctx->set_l2_rhs_factor(v[2] / 100.0f); }
      else if (o == "N" || o == "F") { if ((no + (int)last.size()) % 2) again(); drop(); make(); }
      else if (o == "G") {
        begin("G");
        if (legacy) lcall(v); else call(ctx, v);
        end(",\"ran\":1,\"tasks\":1," + live());
        last = v;
      }
    }
    again();
    drop();
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
  }
  fclose(g_out);
  _exit(0);
}
