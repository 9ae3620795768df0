// C10: block sizes chosen by the library, and its rounding helpers.
#include "public/gemmlowp.h"
#include "internal/block_params.h"
#include "gemm_common.h"
using namespace gemmlowp;
typedef KernelFormat<KernelSideFormat<CellFormat<3, 4, CellOrder::WidthMajor>, 3>, KernelSideFormat<CellFormat<5, 4, CellOrder::DepthMajor>, 2>> Odd1;
typedef KernelFormat<KernelSideFormat<CellFormat<1, 1, CellOrder::DepthMajor>, 1>, KernelSideFormat<CellFormat<1, 1, CellOrder::DepthMajor>, 1>> One;
typedef KernelFormat<KernelSideFormat<CellFormat<4, 16, CellOrder::WidthMajor>, 7>, KernelSideFormat<CellFormat<2, 16, CellOrder::WidthMajor>, 1>> Odd2;
typedef DefaultKernel<DefaultL8R8BitDepthParams>::Format F0;
typedef DefaultKernel<L8R8WithLhsNonzeroBitDepthParams>::Format F1;

struct Q { int fmt, rows, cols, depth, t, l1, l2, f; };
struct A { int kr, kc, kd; BlockParams p; };
template <typename F> static A ask(const Q& q) {
  A a;
  a.kr = F::kRows; a.kc = F::kCols; a.kd = F::kDepth;
  memset(&a.p, 0, sizeof a.p);
  a.p.template Init<F>(q.rows, q.cols, q.depth, q.t, q.l1, q.l2, q.f / 100.f);
  return a;
}
static A ask(const Q& q) {
  switch (q.fmt) {
    case 0: return ask<F0>(q);
    case 1: return ask<F1>(q);
    case 2: return ask<Odd1>(q);
    case 3: return ask<One>(q);
    default: return ask<Odd2>(q);
  }
}
// used only to select what is submitted
static bool odd(const Q& q, const A& a) {
  const BlockParams& p = a.p;
  if (p.l2_rows <= 0 || p.l2_cols <= 0 || p.l2_depth <= 0 || p.l1_rows <= 0 || p.l1_cols <= 0 || p.l1_depth <= 0) return true;
  return p.l2_rows % a.kr || p.l2_cols % a.kc || p.l2_depth % a.kd || p.l2_depth % kRegisterSize || p.l1_rows % a.kr || p.l1_cols % a.kc ||
         p.l1_depth % a.kd || p.l1_depth % kRegisterSize || p.l1_rows > p.l2_rows || p.l1_cols > p.l2_cols || p.l1_depth > p.l2_depth || p.l2_depth < q.depth;
}
static std::string js(const Q& q, const A& a) {
  char b[500];
  snprintf(b, sizeof b, "{\"op\":\"B\",\"fault\":0,\"fmt\":%d,\"rows\":%d,\"cols\":%d,\"depth\":%d,\"t\":%d,\"l1\":%d,\"l2\":%d,\"f\":%d,\"kr\":%d,\"kc\":%d,\"kd\":%d,\"rs\":%d,\"p\":{\"l2r\":%d,\"l2c\":%d,\"l2d\":%d,\"l1r\":%d,\"l1c\":%d,\"l1d\":%d}}",
           q.fmt, q.rows, q.cols, q.depth, q.t, q.l1, q.l2, q.f, a.kr, a.kc, a.kd, kRegisterSize, a.p.l2_rows, a.p.l2_cols, a.p.l2_depth, a.p.l1_rows, a.p.l1_cols, a.p.l1_depth);
  return b;
}
template <unsigned M> static std::string helpers(long x) {
  char b[400];
  snprintf(b, sizeof b, "{\"op\":\"H\",\"m\":%u,\"x\":%ld,\"up\":%d,\"down\":%d,\"cq\":%d,\"upz\":%ld,\"cqz\":%ld,\"p2\":%d,\"p2z\":%ld}", M, x,
           (int)RoundUp<M>((int)x), (int)RoundDown<M>((int)x), CeilQuotient<int>((int)x, (int)M), (long)RoundUp<M>((std::size_t)x), (long)CeilQuotient<std::size_t>(x, M),
           x ? RoundUpToPowerOfTwo<int>((int)x) : 0, x ? (long)RoundUpToPowerOfTwo<std::size_t>(x) : 0L);
  return b;
}
static std::string help(int m, long x) {
  switch (m) {
    case 1: return helpers<1>(x); case 2: return helpers<2>(x); case 3: return helpers<3>(x); case 4: return helpers<4>(x); case 8: return helpers<8>(x);
    case 12: return helpers<12>(x); case 16: return helpers<16>(x); case 24: return helpers<24>(x); case 32: return helpers<32>(x); default: return helpers<64>(x);
  }
}

int main(int argc, char** argv) {
  FILE* in = fopen(argv[1], "r");
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"ev\":[";
    bool first = true;
    auto put = [&](const std::string& s) { g_partial += (first ? "" : ",") + s; first = false; };
    auto guarded = [&](const Q& q) {
      // a crash inside (the library asserts on inconsistent sizes) ends the history like this
      size_t mark = g_partial.size();
      char b[300];
      snprintf(b, sizeof b, "%s{\"op\":\"B\",\"rows\":%d,\"cols\":%d,\"depth\":%d,\"t\":%d,\"l1\":%d,\"l2\":%d,\"f\":%d", first ? "" : ",", q.rows, q.cols, q.depth, q.t, q.l1, q.l2, q.f);
      g_partial += b;
      A a = ask(q);
      g_partial.resize(mark);
      return a;
    };
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o;
      os >> o;
      if (o == "B") {
        Q q; os >> q.fmt >> q.rows >> q.cols >> q.depth >> q.t >> q.l1 >> q.l2 >> q.f;
        put(js(q, guarded(q)));
      } else if (o == "H") {
        int m; long x; os >> m >> x;
        put(help(m, x));
      } else if (o == "P") {  // powers of two of wide arguments, as <<quotient by 2^31, remainder>>
        long hi, lo; os >> hi >> lo;
        std::uint64_t x = ((std::uint64_t)hi << 31) + lo, r = RoundUpToPowerOfTwo<std::uint64_t>(x);
        put("{\"op\":\"P\",\"x\":[" + std::to_string(hi) + "," + std::to_string(lo) + "],\"r\":[" + std::to_string(r >> 31) + "," + std::to_string(r & 0x7fffffff) + "]}");
      } else if (o == "S") {  // sweep: many queries, those that look wrong and a few others are submitted
        int fmt, seed, n; os >> fmt >> seed >> n;
        Rng r(seed);
        int shown = 0;
        for (int i = 0; i < n; i++) {
          Q q; q.fmt = fmt;
          auto dim = [&](int big) { int w = r.range(0, 9); return w < 5 ? r.range(1, 80) : w < 8 ? r.range(1, 1500) : r.range(1, big); };
          q.rows = dim(3000000); q.cols = dim(20000); q.depth = dim(30000);
          q.t = r.range(0, 3) ? r.range(1, 8) : r.range(1, 200);
          q.l1 = 1 << r.range(0, 22); q.l1 += r.range(0, q.l1 - 1);
          q.l2 = 1 << r.range(0, 24); q.l2 += r.range(0, q.l2 - 1);
          q.f = r.range(0, 3) ? r.range(1, 100) : 100;
          A a = guarded(q);
          if ((odd(q, a) && shown++ < 4) || i % 1000 == 0) put(js(q, a));
        }
        for (int i = 0; i < n; i++) {
          static const int ms[] = {1, 2, 3, 4, 8, 12, 16, 24, 32, 64};
          int m = ms[r.range(0, 9)];
          long x = r.range(0, 2) ? r.range(0, 3000) : r.range(0, (1 << 30) - 200);
          if (i % 1000 == 0) put(help(m, x));
        }
      }
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
    fflush(g_out);
  }
  fclose(g_out);
  return 0;
}
