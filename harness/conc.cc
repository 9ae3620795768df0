// Concurrent callers under controlled schedules (C14).
// Scenario: "ops|ops|..." one part per caller thread; ops as in spec/SerialGen.tla.
#include <sys/wait.h>
#include <unistd.h>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "public/gemmlowp.h"
#include "conc_common.h"
using namespace gemmlowp;
namespace ebi = gemmlowp::eight_bit_int_gemm;

static std::string kv(const char* k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static const int NC = 12;
struct CaseD { int m, n, k; };
static const CaseD kCases[NC] = {{8, 8, 8}, {17, 5, 9}, {64, 32, 64}, {32, 64, 64}, {1, 24, 16}, {48, 64, 64},
                                 {24, 1, 33}, {70, 31, 64}, {16, 16, 40}, {64, 48, 65}, {3, 20, 7}, {48, 48, 60}};
static std::uint8_t kA[100 * 100], kB[100 * 100];
static std::int32_t kBias[100];

static std::string hashof(const void* p, size_t n) {
  const unsigned char* q = (const unsigned char*)p;
  std::uint32_t a = 2166136261u, b = 12345;
  for (size_t i = 0; i < n; i++) { a = (a ^ q[i]) * 16777619u; b = b * 31 + q[i] + 7; }
  return "[" + std::to_string(a & 0x7fffffff) + "," + std::to_string(b & 0x7fffffff) + "]";
}
template <MapOrder LO, MapOrder RO, MapOrder SO, typename BD, typename Out, typename Pipe>
static std::string own(GemmContext* ctx, const CaseD& c, const Pipe& pipe) {
  std::vector<Out> C(c.m * c.n);
  MatrixMap<const std::uint8_t, LO> a(kA, c.m, c.k);
  MatrixMap<const std::uint8_t, RO> b(kB, c.k, c.n);
  MatrixMap<Out, SO> s(C.data(), c.m, c.n);
  GemmWithOutputPipeline<std::uint8_t, Out, BD>(ctx, a, b, &s, -3, -15, pipe);
  return hashof(C.data(), C.size() * sizeof(Out));
}
static std::string run_own(GemmContext* ctx, int i) {
  const CaseD& c = kCases[i];
  const MapOrder R = MapOrder::RowMajor, L = MapOrder::ColMajor;
  auto none = std::make_tuple();
  OutputStageQuantizeDownInt32ToUint8Scale qd;
  qd.result_offset = 20000; qd.result_mult_int = 7; qd.result_shift = 10;
  OutputStageSaturatingCastToUint8 cast;
  OutputStageQuantizeDownInt32ByFixedPoint fx;
  fx.result_fixedpoint_multiplier = 1234567890; fx.result_shift = 9; fx.result_offset_after_shift = 100;
  typedef VectorMap<const std::int32_t, VectorShape::Col> CV;
  OutputStageBiasAddition<CV> bias;
  bias.bias_vector = CV(kBias, c.m);
  OutputStageClamp clamp;
  clamp.min = 10; clamp.max = 200;
  auto p1 = std::make_tuple(qd, cast);
  auto p2 = std::make_tuple(bias, fx, clamp, cast);
  typedef DefaultL8R8BitDepthParams D8;
  typedef DefaultL7R5BitDepthParams D7;
  switch (i % 6) {
    case 0: return own<R, L, R, D8, std::int32_t>(ctx, c, none);
    case 1: return own<R, R, L, D8, std::uint8_t>(ctx, c, p2);
    case 2: return own<L, L, L, D8, std::uint8_t>(ctx, c, p1);
    case 3: return own<R, L, L, D7, std::int32_t>(ctx, c, none);
    case 4: return own<L, R, R, D8, std::uint8_t>(ctx, c, p1);
    default: return own<R, L, L, L8R8WithLhsNonzeroBitDepthParams, std::uint8_t>(ctx, c, p2);
  }
}
static std::string run_legacy(int i, bool f) {
  const CaseD& c = kCases[i];
  bool ta = i & 1, tb = (i / 2) & 1, tc = (i / 3) & 1;
#ifdef META_LAYOUT
  if (i % 4) ta = true, tb = false;
#endif
  ebi::BitDepthSetting bd = i % 5 == 4 ? ebi::BitDepthSetting::A5B7 : ebi::BitDepthSetting::A8B8;
  int lda = ta ? c.k : c.m, ldb = tb ? c.n : c.k, ldc = tc ? c.n : c.m;
  if (f) {
    std::vector<float> C(c.m * c.n);
    ebi::EightBitIntGemm(ta, tb, tc, c.m, c.n, c.k, kA, -3, lda, kB, -15, ldb, C.data(), 0.25f, ldc, bd);
    return hashof(C.data(), C.size() * sizeof(float));
  }
  std::vector<std::uint8_t> C(c.m * c.n);
  ebi::EightBitIntGemm(ta, tb, tc, c.m, c.n, c.k, kA, -3, lda, kB, -15, ldb, C.data(), 20000, 7, 10, ldc, bd);
  return hashof(C.data(), C.size());
}

struct Op { char c; int a; };
static std::vector<std::vector<Op>> parse(const char* s) {
  std::vector<std::vector<Op>> v(1);
  while (*s) {
    if (*s == '|') { v.push_back({}); s++; continue; }
    if (*s == ',') { s++; continue; }
    Op o{*s++, 0};
    o.a = (int)strtol(s, (char**)&s, 10);
    v.back().push_back(o);
  }
  return v;
}
static std::string opkey(const Op& o) { return std::string(1, o.c) + std::to_string(o.a); }
static bool is_gemm(const Op& o) { return o.c == 'g' || o.c == 'i' || o.c == 'f'; }
static std::string run_op(GemmContext** ctx, const Op& o) {
  switch (o.c) {
    case 'g': return run_own(*ctx, o.a);
    case 't': (*ctx)->set_max_num_threads(o.a); break;
    case 'x': delete *ctx; *ctx = new GemmContext; break;
    case 'i': return run_legacy(o.a, false);
    case 'f': return run_legacy(o.a, true);
    case 's': ebi::SetMaxNumThreads(o.a); break;
    case 'r': ebi::FreePersistentResources(); break;
  }
  return "[0,0]";
}
static void do_op(GemmContext** ctx, const Op& o) {
  std::string f = std::string(",\"op\":\"") + o.c + "\"" + kv("a", o.a);
  vt_event("\"e\":\"Call\"" + f);
  std::string h = run_op(ctx, o);
  vt_event("\"e\":\"Ret\"" + f + ",\"k\":\"" + (is_gemm(o) ? opkey(o) : "") + "\",\"h\":" + h);
}
static void* caller(void* p) {
  const std::vector<Op>& ops = *(const std::vector<Op>*)p;
  GemmContext* ctx = new GemmContext;
  for (auto& o : ops) do_op(&ctx, o);
  delete ctx;
  return nullptr;
}
// What each operation returns alone: computed once per operation in a process of its own.
static std::string alone(const Op& o) {
  static std::vector<std::pair<std::string, std::string>> memo;
  for (auto& m : memo) if (m.first == opkey(o)) return m.second;
  int fd[2];
  if (pipe(fd)) exit(3);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    GemmContext* ctx = new GemmContext;
    std::string h = run_op(&ctx, o);
    if (write(fd[1], h.data(), h.size()) < 0) _exit(3);
    _exit(0);
  }
  close(fd[1]);
  char b[128];
  int n = read(fd[0], b, sizeof b - 1), st;
  close(fd[0]);
  waitpid(pid, &st, 0);
  memo.push_back({opkey(o), n > 0 ? std::string(b, n) : "[-1,-1]"});
  return memo.back().second;
}
static std::vector<std::vector<Op>> g_prog;
static std::vector<std::pair<std::string, std::string>> g_alone;
static std::string g_scn;
static void scenario(void*) {
  for (auto& a : g_alone) vt_event("\"e\":\"Alone\",\"k\":\"" + a.first + "\",\"h\":" + a.second);
  size_t n = g_prog.size();
  std::vector<pthread_t> th(n);
  for (size_t i = 0; i < n; i++) pthread_create(&th[i], nullptr, caller, &g_prog[i]);
  for (size_t i = 0; i < n; i++) pthread_join(th[i], nullptr);
  GemmContext* none = nullptr;
  do_op(&none, Op{'r', 0});
}
static void prepare(const char* s) {
  g_prog = parse(s);
  g_alone.clear();
  for (auto& p : g_prog)
    for (auto& o : p)
      if (is_gemm(o)) {
        bool dup = false;
        for (auto& a : g_alone) dup |= a.first == opkey(o);
        if (!dup) g_alone.push_back({opkey(o), alone(o)});
      }
}
int main(int argc, char** argv) {
  std::uint32_t x = 12345;
  for (auto& v : kA) { x = x * 1664525 + 1013904223; v = (x >> 24) % 127 + 1; }
  for (auto& v : kB) { x = x * 1664525 + 1013904223; v = (x >> 24) % 31; }
  for (auto& v : kBias) { x = x * 1664525 + 1013904223; v = (int)(x >> 20) - 2048; }
  vt_isolate = true;
  // one scenario at a time, so that its operations' solo results are known first
  if (argc < 8) return 3;
  prepare(argv[7]);
  return conc_main(8, argv, scenario);
}
