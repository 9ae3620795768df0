// C08: how a GEMM splits its work. A context with its own pool implementation receives the tasks,
// runs them one at a time in a chosen order on freshly filled result memory, and records which
// entries each one writes. A second mode uses the library's own pool and counts created threads.
#include <dlfcn.h>
#include <array>
#include <thread>
#include <algorithm>
#include <atomic>
#include "public/gemmlowp.h"
#include "gemm_common.h"
using namespace gemmlowp;

static std::atomic<int> g_created(0);
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  typedef int (*fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  g_created++;
  return real(t, a, f, arg);
}

static unsigned char* g_res; static size_t g_reslen; static unsigned char g_fill;
static std::vector<unsigned char> g_shadow;
static std::vector<std::vector<std::vector<char>>> g_wrote;  // exec, task, entry
static int g_exec_no, g_elem;
static Rng* g_perm;
static bool g_pass2;

struct RecPool {
  Allocator alloc[3];
  int rot = 0;
  void RunAll(const std::vector<Task*>& tasks) {
    std::vector<int> ord;
    for (size_t i = 0; i < tasks.size(); i++) ord.push_back(i);
    int how = g_perm->range(0, 2);
    if (how == 1) std::reverse(ord.begin(), ord.end());
    if (how == 2) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g_perm->range(0, i - 1)]);
    if (!g_pass2) g_wrote.push_back(std::vector<std::vector<char>>(tasks.size(), std::vector<char>(g_reslen / g_elem, 0)));
    for (int t : ord) {
      memset(g_res, g_fill, g_reslen);
      tasks[t]->local_allocator = &alloc[rot++ % 3];
      tasks[t]->Run();
      for (size_t i = 0; i < g_reslen / g_elem; i++) {
        bool w = false;
        for (int b = 0; b < g_elem; b++) w |= g_res[i * g_elem + b] != g_fill;
        if (w) {
          if (g_exec_no < (int)g_wrote.size() && t < (int)g_wrote[g_exec_no].size()) g_wrote[g_exec_no][t][i] = 1;
          memcpy(&g_shadow[i * g_elem], g_res + i * g_elem, g_elem);
        }
      }
    }
    g_exec_no++;
  }
  void Execute(const std::vector<Task*>& tasks) { RunAll(tasks); for (Task* t : tasks) delete t; }
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& tasks) { Execute(tasks); }
  template <typename T> void Execute(int n, T* tasks) {
    std::vector<Task*> v;
    for (int i = 0; i < n; i++) v.push_back(&tasks[i]);
    RunAll(v);
  }
};
struct RecContext : MultiThreadGemmContextBase {
  RecPool pool;
  RecPool* workers_pool() { return &pool; }
};

static GemmContext* g_real = nullptr;
static RecContext* g_rec = nullptr;

// rectangles [r0,r1)x[c0,c1) whose disjoint union is the write set
static std::string rects(const std::vector<char>& w, int m, int n, int so, int ss) {
  std::vector<std::array<int, 4>> out, open;
  for (int r = 0; r <= m; r++) {
    std::vector<std::array<int, 4>> runs;
    if (r < m)
      for (int c = 0; c < n;) {
        auto at = [&](int c2) { return w[so == 0 ? r * ss + c2 : c2 * ss + r]; };
        if (!at(c)) { c++; continue; }
        int c0 = c;
        while (c < n && at(c)) c++;
        runs.push_back({{r, r + 1, c0, c}});
      }
    std::vector<std::array<int, 4>> next;
    for (auto& o : open) {
      bool ext = false;
      for (auto& q : runs) if (q[2] == o[2] && q[3] == o[3]) { q[0] = o[0]; ext = true; }
      if (!ext) out.push_back(o);
    }
    open = runs;
  }
  std::string s;
  for (size_t i = 0; i < out.size() && i < 40; i++) s += std::string(i ? "," : "") + "[" + std::to_string(out[i][0]) + "," + std::to_string(out[i][1]) + "," + std::to_string(out[i][2]) + "," + std::to_string(out[i][3]) + "]";
  return s;
}

template <MapOrder LO, MapOrder RO, MapOrder SO, typename Out, typename Pipe>
static void call(const Case& cs, const Pipe& pipe, std::string* ev) {
  const int m = cs.m, k = cs.k, n = cs.n;
  Rng r(cs.seed);
  const int ls = (LO == MapOrder::RowMajor ? k : m) + cs.lpad, rs = (RO == MapOrder::RowMajor ? n : k) + cs.rpad,
            ss = (SO == MapOrder::RowMajor ? n : m) + cs.spad;
  std::vector<std::uint8_t> A((size_t)ls * (LO == MapOrder::RowMajor ? m : k)), B((size_t)rs * (RO == MapOrder::RowMajor ? k : n));
  std::vector<Out> C((size_t)ss * (SO == MapOrder::RowMajor ? m : n));
  for (auto& x : A) x = r.range(0, 255);
  for (auto& x : B) x = r.range(0, 255);
  int o1 = -r.range(0, 255), o2 = -r.range(0, 255);
  MatrixMap<const std::uint8_t, LO> ma(A.data(), m, k, ls);
  MatrixMap<const std::uint8_t, RO> mb(B.data(), k, n, rs);
  MatrixMap<Out, SO> mc(C.data(), m, n, ss);
  // alone, on a fresh single-threaded context
  { GemmContext ref; GemmWithOutputPipeline<std::uint8_t, Out, DefaultL8R8BitDepthParams>(&ref, ma, mb, &mc, o1, o2, pipe); }
  std::vector<Out> want = C;
  auto hash = [&](const Out* p) {
    HashPair h;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) h.add(&p[SO == MapOrder::RowMajor ? i * ss + j : j * ss + i], sizeof(Out));
    return h.json();
  };
  std::string hw = hash(want.data());
  // recording pool, twice
  g_res = (unsigned char*)C.data(); g_reslen = C.size() * sizeof(Out); g_elem = sizeof(Out);
  g_wrote.clear();
  std::string hrec[2];
  int direct = 0;
  int c0 = g_created;
  for (int pass = 0; pass < 2; pass++) {
    g_pass2 = pass; g_exec_no = 0; g_fill = pass ? 0xa5 : 0x3c;
    memset(g_res, g_fill, g_reslen);
    g_shadow.assign(g_reslen, g_fill);
    Rng perm(cs.seed * 7 + pass);
    g_perm = &perm;
    GemmWithOutputPipeline<std::uint8_t, Out, DefaultL8R8BitDepthParams>(g_rec, ma, mb, &mc, o1, o2, pipe);
    direct = g_exec_no == 0;
    hrec[pass] = hash(direct ? C.data() : (Out*)g_shadow.data());
  }
  int rec_created = g_created - c0;
  // the library's own pool
  int before = g_created;
  memset(g_res, 0x77, g_reslen);
  // (many tiny column blocks mean as many hand-overs to the pool: too slow with many threads)
  bool run_real = g_wrote.size() <= 12;
  if (run_real) GemmWithOutputPipeline<std::uint8_t, Out, DefaultL8R8BitDepthParams>(g_real, ma, mb, &mc, o1, o2, pipe);
  std::string& e = *ev;
  e += "{\"op\":\"G\",\"m\":" + std::to_string(m) + ",\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(n) + ",\"so\":" + std::to_string(cs.so) +
       ",\"h\":" + hw + ",\"hr1\":" + hrec[0] + ",\"hr2\":" + hrec[1] + ",\"hreal\":" + (run_real ? hash(C.data()) : std::string("[]")) + ",\"recnew\":" + std::to_string(rec_created) + ",\"new\":" + std::to_string(g_created - before) + ",\"execs\":[";
  for (size_t x = 0; x < g_wrote.size(); x++) {
    e += std::string(x ? "," : "") + "{\"tasks\":" + std::to_string(g_wrote[x].size()) + ",\"r\":[";
    std::string all;
    for (size_t t = 0; t < g_wrote[x].size(); t++) {
      std::string q = rects(g_wrote[x][t], m, n, SO == MapOrder::RowMajor ? 0 : 1, ss);
      all += (all.empty() || q.empty() ? "" : ",") + q;
    }
    e += all + "]}";
  }
  e += "]}";
}

// Very many rows: only the end of the result is looked at.
static void huge(const std::string& what, std::string* ev) {
  long rows = atol(what.c_str());
  size_t bytes = (size_t)rows;
  std::uint8_t* A = (std::uint8_t*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::uint8_t* C = (std::uint8_t*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::uint8_t B[1] = {1};
  int bad = -1, sig = sigsetjmp(g_jb, 1);
  if (!sig) {
    g_in_call = true;
    for (long i = 0; i < rows; i += 4096) A[i] = (std::uint8_t)(i / 4096);
    MatrixMap<const std::uint8_t, MapOrder::ColMajor> ma(A, rows, 1, rows);
    MatrixMap<const std::uint8_t, MapOrder::ColMajor> mb(B, 1, 1, 1);
    MatrixMap<std::uint8_t, MapOrder::ColMajor> mc(C, rows, 1, rows);
    Gemm<std::uint8_t, DefaultL8R8BitDepthParams>(g_real, ma, mb, &mc, 0, 0, 5, 1, 0);
    bad = 0;
    for (long i = 0; i < rows; i++) bad += C[i] != (std::uint8_t)std::min(255, (i % 4096 ? 0 : (std::uint8_t)(i / 4096)) + 5);
  }
  g_in_call = false;
  munmap(A, bytes); munmap(C, bytes);
  *ev += "{\"op\":\"H\",\"rows\":" + std::to_string(rows) + ",\"fault\":" + std::to_string(sig) + ",\"bad\":" + std::to_string(bad) + "}";
}

int main(int argc, char** argv) {
  FILE* in = fopen(argv[1], "r");
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    delete g_real; g_real = new GemmContext;
    delete g_rec; g_rec = new RecContext;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"hw\":" + std::to_string(std::thread::hardware_concurrency()) + ",\"ev\":[";
    bool first = true;
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o, ev;
      os >> o;
      if (o.empty()) continue;
      if (!first) ev += ",";
      first = false;
      if (o == "T") {
        int n; os >> n;
        g_real->set_max_num_threads(n); g_rec->set_max_num_threads(n);
        ev += "{\"op\":\"T\",\"n\":" + std::to_string(n) + "}";
      } else if (o == "C") {
        int a, b, f; os >> a >> b >> f;
        g_real->set_l1_bytes_to_use(a); g_real->set_l2_bytes_to_use(b); g_real->set_l2_rhs_factor(f / 100.f);
        g_rec->set_l1_bytes_to_use(a); g_rec->set_l2_bytes_to_use(b); g_rec->set_l2_rhs_factor(f / 100.f);
        ev += "{\"op\":\"C\"}";
      } else if (o == "N") {
        delete g_real; g_real = new GemmContext;
        delete g_rec; g_rec = new RecContext;
        ev += "{\"op\":\"N\"}";
      } else if (o == "H") {
        std::string x; os >> x;
        std::string tmp = ev; ev.clear();
        size_t mark = g_partial.size();
        g_partial += tmp + "{\"op\":\"X\"";
        huge(x, &ev);
        g_partial.resize(mark);
        ev = tmp + ev;
      } else {
        Case c;
        os >> c.m >> c.k >> c.n >> c.lo >> c.ro >> c.so >> c.lpad >> c.rpad >> c.spad >> c.bd >> c.offk >> c.pipe >> c.pat >> c.seed >> c.at_end;
        const MapOrder R = MapOrder::RowMajor, L = MapOrder::ColMajor;
        OutputStageQuantizeDownInt32ToUint8Scale q; q.result_offset = 3; q.result_mult_int = 2; q.result_shift = 10;
        auto p8 = std::make_tuple(q, OutputStageSaturatingCastToUint8());
        std::string tmp = ev; ev.clear();
        size_t mark = g_partial.size();
        g_partial += tmp + "{\"op\":\"X\"";   // a crash inside ends the history like this
        if (c.so == 0) { if (c.pipe % 2) call<R, L, R, std::uint8_t>(c, p8, &ev); else call<L, R, R, std::int32_t>(c, std::make_tuple(), &ev); }
        else { if (c.pipe % 2) call<R, L, L, std::uint8_t>(c, p8, &ev); else call<R, L, L, std::int32_t>(c, std::make_tuple(), &ev); }
        g_partial.resize(mark);
        ev = tmp + ev;
      }
      g_partial += ev;
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
    fflush(g_out);
  }
  delete g_real;
  delete g_rec;
  fclose(g_out);
  return 0;
}
