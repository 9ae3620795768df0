// The sampling profiler under controlled schedules (C16).
// Scenario: "ops|ops|..." first part: the thread that starts and finishes profiling, others: labelled
// threads; ops as in spec/ProfGen.tla. Thread i starts at the first thread's op c<i> and is joined by j<i>.
#include <sys/mman.h>
#include <unistd.h>
#include <memory>
#include "public/gemmlowp.h"
#include "profiling/profiler.h"
#include "conc_common.h"
using namespace gemmlowp;
static const char* const kLabels[] = {"alpha", "beta", "gamma", "delta", "eps"};
struct Op { char c; int a; };
static std::vector<std::vector<Op>> g_prog;
static pthread_t g_th[32];
static int g_out = -1;

static std::string captured() {   // what the library printed since last time, as [depth, label, share in 1/10000]
  fflush(stdout);
  off_t n = lseek(g_out, 0, SEEK_CUR);
  std::string s(n, 0);
  if (pread(g_out, &s[0], n, 0) != n) _exit(3);
  if (ftruncate(g_out, 0)) _exit(3);
  lseek(g_out, 0, SEEK_SET);
  int threads = -1, samples = -1, heads = 0;
  std::string lines, bad;
  size_t pos = 0;
  while (pos < s.size()) {
    size_t e = s.find('\n', pos);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(pos, e - pos);
    pos = e + 1;
    if (l.empty()) continue;
    int a, b, used = 0;
    if (sscanf(l.c_str(), "gemmlowp profile (%d threads, %d samples)%n", &a, &b, &used) == 2 && used == (int)l.size()) { threads = a; samples = b; heads++; continue; }
    size_t i = l.find_first_not_of(' ');
    double p = 0; char rest[200] = "";
    if (i == std::string::npos || i % 4 || sscanf(l.c_str() + i, "%lf%% %199[^\n]", &p, rest) != 2) { bad += "?"; continue; }
    lines += (lines.empty() ? "{\"d\":" : ",{\"d\":") + std::to_string(i / 4 + 1) + ",\"l\":\"" + rest + "\",\"p\":" + std::to_string((long)(p * 100 + 0.5)) + "}";
  }
  return ",\"heads\":" + std::to_string(heads) + ",\"threads\":" + std::to_string(threads) + ",\"samples\":" + std::to_string(samples) +
         ",\"bad\":\"" + bad + "\",\"lines\":[" + lines + "]";
}
static void ev(const char* e, const char* k = nullptr) { vt_event(std::string("\"e\":\"") + e + "\"" + (k ? std::string(",\"k\":\"") + k + "\"" : "")); }
static void gemm() {
  static std::uint8_t A[64 * 64], B[64 * 64];
  std::uint8_t C[64 * 32];
  GemmContext ctx;
  ctx.set_max_num_threads(2);
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> a(A, 64, 64);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> b(B, 64, 32);
  MatrixMap<std::uint8_t, MapOrder::ColMajor> c(C, 64, 32);
  Gemm<std::uint8_t, DefaultL8R8BitDepthParams>(&ctx, a, b, &c, -3, -15, 20000, 7, 10);
}
static void run_ops(const std::vector<Op>& ops);
static void* labelled(void* p) {
  run_ops(*(const std::vector<Op>*)p);
  ev("Bye");
  return nullptr;
}
static void run_ops(const std::vector<Op>& ops) {
  std::vector<std::unique_ptr<ScopedProfilingLabel>> st;
  auto pop = [&] { ev("PopB"); st.pop_back(); ev("PopE"); };
  for (auto& o : ops) switch (o.c) {
    case 'S': ev("StartB"); StartProfiling(); ev("StartE"); break;
    case 'F': ev("FinB"); FinishProfiling(); vt_event("\"e\":\"FinE\"" + captured()); break;
    case 'c': pthread_create(&g_th[o.a], nullptr, labelled, &g_prog[o.a]); break;
    case 'j': pthread_join(g_th[o.a], nullptr); break;
    case 'r': ev("RegB"); RegisterCurrentThreadForProfiling(); ev("RegE"); break;
    case 'p': ev("PushB", kLabels[o.a]); st.emplace_back(new ScopedProfilingLabel(kLabels[o.a])); ev("PushE"); break;
    case 'o': pop(); break;
    case 'u': ev("UpdB", kLabels[o.a]); st.back()->Update(kLabels[o.a]); ev("UpdE"); break;
    case 'g': gemm(); break;
    case 'y': vt_yield(); break;
  }
  while (!st.empty()) pop();
}
static void scenario(void*) {
  g_out = memfd_create("out", 0);
  fflush(stdout);
  if (g_out < 0 || dup2(g_out, 1) < 0) _exit(3);   // this run is in a process of its own
  run_ops(g_prog[0]);
}
int main(int argc, char** argv) {
  if (argc < 8) return 3;
  vt_isolate = vt_sleep_events = true;
  vt_key_limit = 8;
  g_prog.assign(1, {});
  for (const char* s = argv[7]; *s; s++) {
    if (*s == '|') { g_prog.push_back({}); continue; }
    if (*s == ',') continue;
    Op o{*s, 0};
    while (s[1] >= '0' && s[1] <= '9') o.a = o.a * 10 + (*++s - '0');
    g_prog.back().push_back(o);
  }
  return conc_main(8, argv, scenario);
}
