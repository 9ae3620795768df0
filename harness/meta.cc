// C15: replays calls of the generated ARM kernels (meta/) and records what they did. Compiled once per
//   KIND  0: uint8 results, 1: int32, 2: float      ORDER  0: rhs rows contiguous in depth, 1: contiguous in columns
//   prog IN OUT SAMPLES SEED [START];  IN: "G exec kern m n k lpad rpad spad threads rot pat seed at_end;..." (MetaGen.tla)
#include <algorithm>
#include <cmath>
#include "gemm_common.h"
#ifdef LEGACY   // the older entry points; "L m n k threads rot pat seed at_end"
// The pool these functions take, replaced by one that hands over to the real pool or to the recording one.
#include "meta_common.h"
namespace gemmlowp {
struct EitherPool {
  RecPool* rec;
  WorkersPool* real;
  void Execute(const std::vector<Task*>& t) { if (rec) rec->Execute(t); else real->Execute(t); }
};
}
#define WorkersPool EitherPool
#include "meta/legacy_multi_thread_gemm.h"
#undef WorkersPool
#else
#include "meta/multi_thread_gemm.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/single_thread_gemm.h"
#include "meta/streams.h"
#endif
#include "meta_common.h"
using namespace gemmlowp::meta;
static int g_samples = 3;

#if ORDER
typedef ColumnMajorWithSum RS;
#else
typedef RowMajorWithSum RS;
#endif
#if KIND == 0
typedef std::uint8_t Out;
typedef QuantizedStaticPreprocessed Kern;
#elif KIND == 1
typedef std::int32_t Out;
typedef QuantizedStaticPreprocessedAsInt32 Kern;
#else
typedef float Out;
typedef QuantizedStaticPreprocessedAsFloat Kern;
#endif
typedef GemmParams<std::uint8_t, Out, RowMajorWithSum, RS, Kern, RowMajor> P;

struct MCase { int exec, kern, m, n, k, lpad, rpad, spad, threads, rot, pat, seed, at_end; std::string text; };

#ifndef LEGACY
static const int kCache = 6144;
template <typename E, int km, int kn> static int scratch_of(const P& p) { return E::template EstimateScratchSize<P>(p, km, kn, 8); }
template <typename E, int km, int kn> static void run(const P& p, int threads, gemmlowp::WorkersPool* wp, RecPool* rp) {
  if (threads == 1) { Gemm<E, P, km, kn, 8>(p); return; }
  if (rp) { SimpleContext<RecPool> c(threads, rp); MultiThreadGemm<SimpleContext<RecPool>, E, P, km, kn, 8>(&c, p); return; }
  SimpleContext<gemmlowp::WorkersPool> c(threads, wp);
  MultiThreadGemm<SimpleContext<gemmlowp::WorkersPool>, E, P, km, kn, 8>(&c, p);
}
typedef GemmExecutorPackRHS E0;
typedef GemmExecutorPackLHS E1;
typedef GemmExecutorPackRHSCacheFriendly<kCache> E2;
typedef GemmExecutorPackLHSCacheFriendly<kCache> E3;
typedef int (*SF)(const P&);
typedef void (*RF)(const P&, int, gemmlowp::WorkersPool*, RecPool*);
#define ROW(F) {F<E0, 2, 4>, F<E1, 2, 4>, F<E2, 2, 4>, F<E3, 2, 4>}, {F<E0, 1, 8>, F<E1, 1, 8>, F<E2, 1, 8>, F<E3, 1, 8>}, {F<E0, 3, 3>, F<E1, 3, 3>, F<E2, 3, 3>, F<E3, 3, 3>}
static const SF kScratch[3][4] = {ROW(scratch_of)};
static const RF kRun[3][4] = {ROW(run)};
#endif
static gemmlowp::WorkersPool* g_pool;

static void call(const MCase& cs, std::string* ev, Rng& srng) {
  int m = cs.m, n = cs.n, k = cs.k;
  Rng r(cs.seed);
  const int ls = k + cs.lpad, rs = (ORDER ? n : k) + cs.rpad, ss = n + cs.spad;
  const int la = (m - 1) * ls + k, lb = ORDER ? (k - 1) * rs + n : (n - 1) * rs + k, lc = (m - 1) * ss + n;
  Guarded ga, gb, gc, gs;
  ga.alloc(la, cs.at_end, 1); gb.alloc(lb, cs.at_end, 1); gc.alloc(lc * sizeof(Out), cs.at_end, sizeof(Out));
  std::uint8_t *A = ga.p, *B = gb.p;
  Out* C = (Out*)gc.p;
  auto gen = [&](int which) -> int {
    switch (cs.pat) {
      case 1: return r.range(0, 1) ? 0 : 255;
      case 2: return 255;
      case 3: return which ? 255 : 0;
      case 4: return r.range(0, 15) == 0 ? r.range(0, 255) : (which ? 0 : 255);
      default: return r.range(0, 255);
    }
  };
  for (int i = 0; i < la; i++) A[i] = gen(0);
  for (int i = 0; i < lb; i++) B[i] = gen(1);
  int lim = 1000;
  while (lim > 0 && (i64)(lim + 256) * (lim + 256) * k > INT32_MAX / 4) lim = lim * 3 / 4;
  static const int offs[] = {0, -128, -255, 10, -1, 255, -127};
  auto off = [&]() { int o = r.range(0, 1) ? offs[r.range(0, 6)] : r.range(-300, 300); return o > lim ? lim : o < -lim ? -lim : o; };
  const int ao = off(), bo = off();
  i64 mag = (i64)(std::abs(ao) + 255) * (std::abs(bo) + 255) * k;
  int c_off = r.range(0, 2) ? r.range(-3000, 3000) : (int)(r.range(-100, 100) / 100.0 * mag);
  int maxmult = (int)((INT32_MAX - (1 << 29)) / (mag + std::abs(c_off) + 1));
  int c_mult = maxmult > 1 ? r.range(1, maxmult > 500 ? 500 : maxmult) : 1;
  if (r.range(0, 5) == 0) c_mult = -c_mult;
  int c_shift = r.range(0, 7) == 0 ? 0 : r.range(1, 24);
  if (r.range(0, 1)) { c_shift = 0; i64 t = (mag + std::abs(c_off)) * std::abs(c_mult) / 300; while ((1ll << c_shift) < t && c_shift < 24) c_shift++; }
  const float fo = (r.range(0, 3) ? 1 : -1) * std::ldexp(1.0f, r.range(-10, 6));
  P p;
  p.m = m; p.n = n; p.k = k; p.lhs = A; p.rhs = B; p.result = C;
  p.left_stream.count = k; p.left_stream.stride = ls; p.left_stream.multiplicative_sum_offset = bo;
  p.left_stream.additive_sum_offset = k * ao * bo + (KIND ? 0 : c_off);
  p.right_stream.count = k; p.right_stream.stride = rs; p.right_stream.multiplicative_sum_offset = ao; p.right_stream.additive_sum_offset = 0;
  p.fused_kernel.output_stream.stride = ss * sizeof(Out);
  p.fused_kernel.kernel.count = k;
#if KIND == 0
  p.fused_kernel.kernel.multiplicative_offset = c_mult;
  p.fused_kernel.kernel.rounding_offset = c_shift ? 1 << (c_shift - 1) : 0;
  p.fused_kernel.kernel.shift = -c_shift;
#elif KIND == 2
  p.fused_kernel.kernel.scale = fo;
#endif
#ifdef LEGACY
#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
#if KIND == 0
#define SUF q8
#define EXTRA c_off, c_mult, c_shift,
#elif KIND == 1
#define SUF i32
#define EXTRA
#else
#define SUF f
#define EXTRA fo,
#endif
  const int ssz = CAT(gemm_, SUF, _scratch)(m, n, k, cs.threads);
#else
  const int ssz = kScratch[cs.kern][cs.exec](p) * cs.threads;
#endif
  gs.alloc(ssz, 1, 64);   // ends at an inaccessible page
  p.scratch = gs.p;
  *ev += "{\"op\":\"G\",\"f\":" + std::to_string(KIND) + ",\"m\":" + std::to_string(m) + ",\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(n) +
         ",\"so\":0,\"ss\":" + std::to_string(ss) + ",\"ssz\":" + std::to_string(ssz) + ",\"key\":\"" + cs.text + "\"";
  size_t mark = g_partial.size();
  g_partial += *ev;
  std::vector<int> odd, kept, wrote(lc, 0);
  std::vector<bool> isres(lc, false);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) isres[i * ss + j] = true;
  std::vector<Out> first;
  TaskRecord tr(gs.p, ssz, gc.p, lc, sizeof(Out));
  for (int pass = 0; pass < 2; pass++) {
    unsigned char fill = pass ? 0xa5 : 0x3c;
    memset(gc.p, fill, lc * sizeof(Out));
    memset(gs.p, fill ^ 0x11, ssz);
    Out fv; memset(&fv, fill, sizeof fv);
    ga.protect(true); gb.protect(true);
    RecPool rp(&tr, cs.rot, fill);
    alarm(120);
#ifdef LEGACY
    gemmlowp::EitherPool ep{cs.rot >= 0 ? &rp : nullptr, g_pool};
    CAT(multi_thread_gemm_, SUF, )(&ep, cs.threads, gs.p, A, B, m, n, k, ao, bo, EXTRA C);
#else
    kRun[cs.kern][cs.exec](p, cs.threads, g_pool, cs.rot >= 0 ? &rp : nullptr);
#endif
    alarm(0);
    ga.protect(false); gb.protect(false);
    rp.finish();
    for (int i = 0; i < lc; i++) wrote[i] += memcmp(&C[i], &fv, sizeof(Out)) != 0;
    for (unsigned char* q = gc.base + 4096; q < gc.base + gc.map - 4096; q++)
      if ((q < gc.p || q >= gc.p + lc * sizeof(Out)) && *q != 0x5b) { odd.push_back((int)(q - gc.p) - (q < gc.p ? 1000000 : -1000000)); *q = 0x5b; }
    for (unsigned char* q = gs.base + 4096; q < gs.p; q++) if (*q != 0x5b) { odd.push_back(-2000000); *q = 0x5b; }
    if (!pass) first.assign(C, C + lc);
  }
  g_partial.resize(mark);
  for (int i = 0; i < lc; i++) {
    if (wrote[i] && !isres[i]) odd.push_back(i);
    if (!wrote[i] && isres[i]) kept.push_back(i);
  }
  auto stages = [&]() { Stages st; if (!KIND) { st.add(StageD("qd", c_off, c_mult, c_shift)); st.add(StageD("su8")); } return st; };
  auto value = [&](int i, int j) -> i64 {
    if (KIND != 2) return (i64)C[i * ss + j];
    double x = (double)C[i * ss + j] / fo;
    return x == std::floor(x) && std::fabs(x) < 2147483648.0 ? (i64)x : 2147483647;
  };
  auto La = [&](int i, int d) { return (int)A[i * ls + d]; };
  auto Lb = [&](int d, int j) { return (int)B[ORDER ? d * rs + j : j * rs + d]; };
  std::vector<std::pair<int, int>> pts;
  int bad = 0, unstable = 0;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    i64 acc = 0;
    for (int d = 0; d < k; d++) acc += (i64)(La(i, d) + ao) * (Lb(d, j) + bo);
    bool ok = fits(acc);
    i64 want = KIND == 2 ? (i64)(float)acc : eval_stages(stages(), acc, &ok);
    if (!ok) { isres[i * ss + j] = false; continue; }
    if (want != value(i, j) && bad++ < 5) pts.push_back({i, j});
  }
  for (int i = 0; i < lc; i++) if (isres[i]) unstable += memcmp(&C[i], &first[i], sizeof(Out)) != 0;
  if (odd.size() > 8) odd.resize(8);
  if (kept.size() > 8) kept.resize(8);
  int want = g_samples;
  for (int t = 0; t < 4 * g_samples && want; t++) {
    int i = t ? srng.range(0, m - 1) : m - 1, j = t ? srng.range(0, n - 1) : n - 1;
    if (isres[i * ss + j]) { pts.push_back({i, j}); want--; }
  }
  std::string& e = *ev;
  e += ",\"fault\":0,\"unstable\":" + std::to_string(unstable) + ",\"odd\":" + jlist(odd) + ",\"kept\":" + jlist(kept) + tr.json() + ",\"pts\":[";
  for (size_t t = 0; t < pts.size(); t++) {
    int i = pts[t].first, j = pts[t].second;
    std::vector<int> av, bv;
    for (int d = 0; d < k; d++) { av.push_back(La(i, d)); bv.push_back(Lb(d, j)); }
    e += std::string(t ? "," : "") + "{\"r\":" + std::to_string(i) + ",\"c\":" + std::to_string(j) + ",\"a\":" + jlist(av) + ",\"b\":" + jlist(bv) +
         ",\"ao\":" + std::to_string(ao) + ",\"bo\":" + std::to_string(bo) + ",\"st\":" + jstages(stages()) + ",\"v\":" + std::to_string(value(i, j)) + "}";
  }
  e += "]}";
}

int main(int argc, char** argv) {
  g_samples = atoi(argv[3]);
  Rng srng(strtoull(argv[4], 0, 10));
  return run_histories(argc, argv, [&](const std::string&, std::istream& o, const std::string& text, std::string* ev) {
    MCase c; c.text = text;
#ifdef LEGACY
    c.exec = c.kern = c.lpad = c.rpad = c.spad = 0;
    o >> c.m >> c.n >> c.k >> c.threads >> c.rot >> c.pat >> c.seed >> c.at_end;
    call(c, ev, srng);
    return;
#endif
    o >> c.exec >> c.kern >> c.m >> c.n >> c.k >> c.lpad >> c.rpad >> c.spad >> c.threads >> c.rot >> c.pat >> c.seed >> c.at_end;
    call(c, ev, srng);
  }, [] { delete g_pool; g_pool = new gemmlowp::WorkersPool; });
}
