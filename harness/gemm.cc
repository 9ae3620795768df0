// See gemm_common.h. VARIANT selects which instantiations are compiled (to build in parallel).
#ifdef GUARDED_ALLOC
#include "guarded_alloc.h"
#endif
#include "public/gemmlowp.h"
#include "gemm_common.h"
#include <cmath>
using namespace gemmlowp;
#ifndef VARIANT
#define VARIANT 0
#endif

typedef BitDepthParams<OperandRange<0, 255>, OperandRange<0, 15>> NarrowParams;

// ------------------------------------------------------------------ pipelines
typedef VectorMap<const std::int32_t, VectorShape::Row> RowVec;
typedef VectorMap<const std::int32_t, VectorShape::Col> ColVec;
static OutputStageQuantizeDownInt32ToUint8Scale qd(const Params& p) {
  OutputStageQuantizeDownInt32ToUint8Scale s; s.result_offset = p.q_off; s.result_mult_int = p.q_mult; s.result_shift = p.q_shift; return s; }
static OutputStageQuantizeDownInt32ByFixedPoint fp(const Params& p) {
  OutputStageQuantizeDownInt32ByFixedPoint s; s.result_fixedpoint_multiplier = p.fp_mult; s.result_shift = p.fp_shift; s.result_offset_after_shift = p.fp_off; return s; }
static OutputStageScaleInt32ByFixedPointAndExponent fpe(const Params& p) {
  OutputStageScaleInt32ByFixedPointAndExponent s; s.result_fixedpoint_multiplier = p.fp_mult; s.result_exponent = p.exponent; s.result_offset_after_shift = p.fp_off; return s; }
static OutputStageClamp clampst(const Params& p) { OutputStageClamp s; s.min = p.cmin; s.max = p.cmax; return s; }
static OutputStageBiasAddition<RowVec> biasr(const Case& c, const Params& p) {
  OutputStageBiasAddition<RowVec> s; s.bias_vector = RowVec(p.bias_row, c.n); return s; }
static OutputStageBiasAddition<ColVec> biasc(const Case& c, const Params& p) {
  OutputStageBiasAddition<ColVec> s; s.bias_vector = ColVec(p.bias_col, c.m); return s; }
static OutputStageTanh tanhst(const Params& p) {
  OutputStageTanh s; s.real_zero_as_int32 = p.tz; s.real_amplitude_as_int32 = p.ta; return s; }
static OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> qdr(const Case& c, const Params& p) {
  OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> s; s.result_offset = RowVec(p.off_row, c.n); s.result_mult_int = RowVec(p.mult_row, c.n); s.result_shift = p.q_shift; return s; }
static OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> qdc(const Case& c, const Params& p) {
  OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> s; s.result_offset = ColVec(p.off_col, c.m); s.result_mult_int = ColVec(p.mult_col, c.m); s.result_shift = p.q_shift; return s; }
#ifdef GEMMLOWP_SSE4
static OutputStageScaleInt32ByFixedPointAndExponent fper(const Case& c, const Params& p) { return fpe(p); }
static OutputStageScaleInt32ByFixedPointAndExponent fpec(const Case& c, const Params& p) { return fpe(p); }
#else
static OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row> fper(const Case& c, const Params& p) {
  OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row> s; s.result_fixedpoint_multiplier = RowVec(p.mult_row, c.n); s.result_exponent = RowVec(p.exp_row, c.n); s.result_offset_after_shift = p.fp_off; return s; }
static OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> fpec(const Case& c, const Params& p) {
  OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> s; s.result_fixedpoint_multiplier = ColVec(p.mult_col, c.m); s.result_exponent = ColVec(p.exp_col, c.m); s.result_offset_after_shift = p.fp_off; return s; }
#endif

#define D_QD st.add(StageD("qd", p.q_off, p.q_mult, p.q_shift))
#define D_FP st.add(StageD("fp", p.fp_mult, p.fp_shift, p.fp_off))
#define D_FPE st.add(StageD("fpe", p.fp_mult, p.exponent, p.fp_off))
#define D_CL st.add(StageD("clamp", p.cmin, p.cmax))
#define D_BR st.add(StageD("bias", p.bias_row[c]))
#define D_BC st.add(StageD("bias", p.bias_col[r]))
#define D_QDR st.add(StageD("qd", p.off_row[c], p.mult_row[c], p.q_shift))
#define D_QDC st.add(StageD("qd", p.off_col[r], p.mult_col[r], p.q_shift))
#define D_FPER st.add(StageD("fpe", p.mult_row[c], p.exp_row[c], p.fp_off))
#define D_FPEC st.add(StageD("fpe", p.mult_col[r], p.exp_col[r], p.fp_off))
#ifdef GEMMLOWP_SSE4
#undef D_FPER
#undef D_FPEC
#define D_FPER D_FPE
#define D_FPEC D_FPE
#endif
#define D_SU8 st.add(StageD("su8"))
#define D_SI8 st.add(StageD("si8"))
#define D_SI16 st.add(StageD("si16"))
#define D_TU8 st.add(StageD("tu8"))
#define D_TANH st.add(StageD("tanh", p.tz, p.ta))
typedef OutputStageSaturatingCastToUint8 SU8;
// Stages some back ends do not implement (they do not compile there) are replaced.
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_AVX2)
typedef OutputStageSaturatingCastToInt16 SI8;
typedef std::int16_t I8;
#undef D_SI8
#define D_SI8 D_SI16
#else
typedef OutputStageSaturatingCastToInt8 SI8;
typedef std::int8_t I8;
#endif
typedef OutputStageSaturatingCastToInt16 SI16;
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_AVX2) || defined(GEMMLOWP_NEON)
typedef OutputStageSaturatingCastToUint8 TU8;
#undef D_TU8
#define D_TU8 D_SU8
#else
typedef OutputStageTruncatingCastToUint8 TU8;
#endif

#define PIPE(N, OUT, FIXMULT, MAKE, DESC)                                                     \
  struct P##N {                                                                               \
    typedef OUT Out;                                                                          \
    static const bool kFixMult = FIXMULT;                                                     \
    static auto make(const Case& c, Params& p) -> decltype(MAKE) { return MAKE; }              \
    static Stages desc(const Params& p, int r, int c) { Stages st; DESC; (void)r; (void)c; return st; } \
    static void fix(Params& p) {}                                                             \
  };
PIPE(0, std::int32_t, false, std::make_tuple(), )
PIPE(1, std::uint8_t, false, std::make_tuple(qd(p), SU8()), D_QD; D_SU8)
PIPE(2, std::uint8_t, true, std::make_tuple(biasc(c, p), fp(p), clampst(p), SU8()), D_BC; D_FP; D_CL; D_SU8)
PIPE(3, std::int16_t, true, std::make_tuple(biasr(c, p), fp(p), SI16()), D_BR; D_FP; D_SI16)
PIPE(4, I8, true, std::make_tuple(fpe(p), SI8()), D_FPE; D_SI8)
PIPE(5, std::uint8_t, false, std::make_tuple(qdc(c, p), SU8()), D_QDC; D_SU8)
PIPE(6, std::int32_t, false, std::make_tuple(qdr(c, p)), D_QDR)
PIPE(7, std::int16_t, true, std::make_tuple(fpec(c, p), clampst(p), SI16()), D_FPEC; D_CL; D_SI16)
PIPE(8, std::int32_t, true, std::make_tuple(fper(c, p), biasc(c, p)), D_FPER; D_BC)
PIPE(9, std::int32_t, false, std::make_tuple(tanhst(p)), D_TANH)
PIPE(10, I8, true, std::make_tuple(fp(p), biasr(c, p), SI8()), D_FP; D_BR; D_SI8)
PIPE(11, std::int32_t, true, std::make_tuple(biasr(c, p), biasc(c, p), fpe(p), clampst(p)), D_BR; D_BC; D_FPE; D_CL)
PIPE(12, std::int32_t, false, std::make_tuple(qd(p)), D_QD)
// truncating cast: only specified for values in 0..255, so it follows a clamp to such a range
struct P13 {
  typedef std::uint8_t Out;
  static const bool kFixMult = true;
  static auto make(const Case& c, Params& p) -> decltype(std::make_tuple(fper(c, p), clampst(p), TU8())) {
    return std::make_tuple(fper(c, p), clampst(p), TU8()); }
  static Stages desc(const Params& p, int r, int c) { Stages st; D_FPER; D_CL; D_TU8; return st; }
  static void fix(Params& p) { p.cmin = p.cmin < 0 ? 0 : p.cmin; if (p.cmax > 255) p.cmax = 255; if (p.cmax < p.cmin) p.cmax = p.cmin; }
};
PIPE(14, std::int16_t, false, std::make_tuple(qdc(c, p), biasr(c, p), SI16()), D_QDC; D_BR; D_SI16)
PIPE(15, std::uint8_t, true, std::make_tuple(fpec(c, p), SU8()), D_FPEC; D_SU8)
PIPE(16, I8, true, std::make_tuple(fper(c, p), SI8()), D_FPER; D_SI8)

// ------------------------------------------------------------------ one call
static GemmContext* g_ctx = nullptr;
static int g_samples = 4;

#if VARIANT >= 6
// C18: kernels written here, to the documented packed format, driven by the library. An entry of the
// destination block is spoilt when a slot beyond the depth of the product is not zero.
#include "own_kernel.h"

#define CALL_GEMM(KF, In, Out, BD, ma, mb, mc, o1, o2, pipe)                                             \
  g_own_depth = k;                                                                                       \
  MultiThreadGemm<KF, In, Out, BD>(g_ctx, OwnKernel<KF>(), ma, mb, mc, o1, o2, pipe)
#endif

// The quantize-down-to-uint8 pipeline is also what the plain Gemm() entry point computes.
template <typename P, typename In, typename Out, typename BD, typename MA, typename MB, typename MC>
typename std::enable_if<std::is_same<P, P1>::value, bool>::type call_legacy(const Case& cs, const Params& p, const MA& a, const MB& b, MC* c, int o1, int o2) {
  if (cs.offk || cs.seed % 2) return false;
  Gemm<std::uint8_t, BD>(g_ctx, a, b, c, o1, o2, p.q_off, p.q_mult, p.q_shift);
  return true;
}
template <typename P, typename In, typename Out, typename BD, typename MA, typename MB, typename MC>
typename std::enable_if<!std::is_same<P, P1>::value, bool>::type call_legacy(const Case&, const Params&, const MA&, const MB&, MC*, int, int) { return false; }

template <typename In, typename BD, MapOrder LO, MapOrder RO, MapOrder SO, typename P>
static void run_call(const Case& cs, std::string* ev, Rng& srng) {
  typedef typename P::Out Out;
  const int m = cs.m, k = cs.k, n = cs.n;
  Rng r(cs.seed);
  const int ls = (LO == MapOrder::RowMajor ? k : m) + cs.lpad, rs = (RO == MapOrder::RowMajor ? n : k) + cs.rpad,
            ss = (SO == MapOrder::RowMajor ? n : m) + cs.spad;
  auto span = [](bool rowmajor, int rows, int cols, int stride) {
    if (!rows || !cols) return 0;
    return rowmajor ? (rows - 1) * stride + cols : (cols - 1) * stride + rows;
  };
  const int la = span(LO == MapOrder::RowMajor, m, k, ls), lb = span(RO == MapOrder::RowMajor, k, n, rs),
            lc = span(SO == MapOrder::RowMajor, m, n, ss);
  Guarded ga, gb, gc, go1, go2;
  ga.alloc(la * sizeof(In), cs.at_end, sizeof(In));
  gb.alloc(lb * sizeof(In), cs.at_end, sizeof(In));
  gc.alloc(lc * sizeof(Out), cs.at_end, sizeof(Out));
  go1.alloc(4 * m, cs.at_end, 4);
  go2.alloc(4 * n, cs.at_end, 4);
  In* A = (In*)ga.p;
  In* B = (In*)gb.p;
  Out* C = (Out*)gc.p;
  std::int32_t* ao = (std::int32_t*)go1.p;
  std::int32_t* bo = (std::int32_t*)go2.p;
  const int amin = BD::LhsRange::kMinValue, amax = BD::LhsRange::kMaxValue, bmin = BD::RhsRange::kMinValue, bmax = BD::RhsRange::kMaxValue;
  auto gen = [&](int lo, int hi, int which) -> int {
    switch (cs.pat) {
      case 0: return r.range(lo, hi);
      case 1: return r.range(0, 1) ? lo : hi;       // extremes
      case 2: return hi;
      case 3: return lo;
      case 4: return r.range(0, 15) == 0 ? r.range(lo, hi) : (which ? lo : hi);
      case 5: return r.range(0, 7) == 0 ? hi : (lo <= 0 ? 0 : lo);
      case 8: return which ? lo : hi;
      case 9: return which ? hi : lo;
      default: return r.range(lo, hi);
    }
  };
  for (int i = 0; i < la; i++) A[i] = (In)gen(amin, amax, 0);
  for (int i = 0; i < lb; i++) B[i] = (In)gen(bmin, bmax, 1);
  // Offsets small enough that no 32-bit quantity of the formula overflows.
  i64 lim = (i64)INT32_MAX / (k ? k : 1);
  int omax = 40000;
  while (omax > 0 && (i64)(omax + 256) * (omax + 256) > lim) omax = omax * 9 / 10;
  int style = r.range(0, 3);
  auto off = [&](int lo, int hi) -> int {
    if (style == 0) return -r.range(lo < 0 ? 0 : lo, hi) % (omax + 1);
    if (style == 1) { int x = r.range(0, 3); return x == 0 ? 0 : x == 1 ? -(omax < 128 ? omax : 128) : x == 2 ? -(omax < 255 ? omax : 255) : (omax < 10 ? omax : 10); }
    return r.range(-omax, omax);
  };
  int o1 = off(amin, amax), o2 = off(bmin, bmax);
  for (int i = 0; i < m; i++) ao[i] = cs.offk ? off(amin, amax) : o1;
  for (int i = 0; i < n; i++) bo[i] = cs.offk ? off(bmin, bmax) : o2;
  Params p;
  p.init(cs, r);
  p.set_mult(r, cs, P::kFixMult);
  P::fix(p);
  // Patterns 6 and 7 steer the accumulators themselves (depth 1): any 32-bit value per row / column.
  if ((cs.pat == 6 || cs.pat == 7) && k == 1 && amin <= 0 && bmin <= 1) {
    static const int edge[] = {INT32_MIN, INT32_MAX, 0, -1, 1, INT32_MIN + 1, INT32_MAX - 1, 1 << 30, -(1 << 30), (1 << 30) - 1, 255, 256, -128, -129, 127, 128, 32767, 32768, -32768, -32769};
    auto steer = [&](int idx) -> int {
      int w = r.range(0, 6);
      if (w == 0) return edge[r.range(0, 19)];
      if (w == 1) { int e = r.range(1, 30); return (int)((i64)(r.range(-64, 64)) * (1LL << (e - 1)) % INT32_MAX) + r.range(-1, 1); }
      if (w == 2) return (int)(r.next() & 0xffffffff);
      if (w == 3 && p.q_mult) { int e = p.q_shift; i64 t = (i64)r.range(-2, 260) * (1LL << e) + (1LL << e) / 2; return (int)(t / p.q_mult - p.q_off) + r.range(-1, 1); }
      if (w == 4) return p.tz + (int)((i64)r.range(-140, 140) * p.ta / 16);
      if (w == 5) return p.tz + r.range(-10, 10) * p.ta + r.range(-2, 2);
      return r.range(-70000, 70000);
    };
    for (int i = 0; i < la; i++) A[i] = (In)(cs.pat == 6 ? 0 : 1);
    for (int i = 0; i < lb; i++) B[i] = (In)(cs.pat == 6 ? 1 : 0);
    for (int i = 0; i < m; i++) ao[i] = cs.pat == 6 ? steer(i) : 0;
    for (int i = 0; i < n; i++) bo[i] = cs.pat == 6 ? 0 : steer(i);
    if (!cs.offk) {  // one value for all
      for (int i = 1; i < m; i++) ao[i] = ao[0];
      for (int i = 1; i < n; i++) bo[i] = bo[0];
    }
  }
  auto La = [&](int i, int j) { return (int)A[LO == MapOrder::RowMajor ? i * ls + j : j * ls + i]; };
  auto Lb = [&](int i, int j) { return (int)B[RO == MapOrder::RowMajor ? i * rs + j : j * rs + i]; };
  auto Ci = [&](int i, int j) { return SO == MapOrder::RowMajor ? i * ss + j : j * ss + i; };

  std::vector<Out> first;
  std::vector<int> odd;      // addresses outside the result that changed
  std::vector<int> kept;     // result entries left untouched
  int fault = 0;
  *ev += "{\"op\":\"G\",\"m\":" + std::to_string(m) + ",\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(n) +
         ",\"lo\":" + std::to_string(cs.lo) + ",\"ro\":" + std::to_string(cs.ro) + ",\"so\":" + std::to_string(cs.so) +
         ",\"ls\":" + std::to_string(ls) + ",\"rs\":" + std::to_string(rs) + ",\"ss\":" + std::to_string(ss) +
         ",\"key\":\"" + cs.text + "\"";
  size_t mark = g_partial.size();
  g_partial += *ev;
  std::vector<bool> isres(lc, false);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) isres[Ci(i, j)] = true;
  // Two calls on differently filled result memory: what differs from the fill in either was written.
  std::vector<int> wrote(lc, 0);
  for (int pass = 0; pass < 2 && !fault; pass++) {
    unsigned char fill = pass ? 0xa5 : 0x3c;
    memset(gc.p, fill, lc * sizeof(Out));
    Out fv;
    memset(&fv, fill, sizeof fv);
    ga.protect(true); gb.protect(true); go1.protect(true); go2.protect(true); p.protect(true);
    int sig = sigsetjmp(g_jb, 1);
    if (sig) fault = sig;
    else {
      g_in_call = true;
      alarm(120);
      MatrixMap<const In, LO> ma(A, m, k, ls);
      MatrixMap<const In, RO> mb(B, k, n, rs);
      MatrixMap<Out, SO> mc(C, m, n, ss);
      auto pipe = P::make(cs, p);
#if VARIANT >= 6
      if (cs.offk) {
        CALL_GEMM(typename BD::Format, In, Out, BD, ma, mb, &mc, ColVec(ao, m), RowVec(bo, n), pipe);
      } else {
        typedef VectorDup<const std::int32_t, VectorShape::Col> CD;
        typedef VectorDup<const std::int32_t, VectorShape::Row> RD;
        CALL_GEMM(typename BD::Format, In, Out, BD, ma, mb, &mc, CD(m ? ao[0] : 0, m), RD(n ? bo[0] : 0, n), pipe);
      }
#else
      if (call_legacy<P, In, Out, BD>(cs, p, ma, mb, &mc, m ? ao[0] : 0, n ? bo[0] : 0)) {
      } else if (cs.offk) {
        ColVec o1v(ao, m);
        RowVec o2v(bo, n);
        GemmWithOutputPipelinePC<In, Out, BD>(g_ctx, ma, mb, &mc, o1v, o2v, pipe);
      } else {
        GemmWithOutputPipeline<In, Out, BD>(g_ctx, ma, mb, &mc, m ? ao[0] : 0, n ? bo[0] : 0, pipe);
      }
#endif
    }
    g_in_call = false;
    alarm(0);
    ga.protect(false); gb.protect(false); go1.protect(false); go2.protect(false); p.protect(false);
    if (fault) break;
    for (int i = 0; i < lc; i++) wrote[i] += memcmp(&C[i], &fv, sizeof(Out)) != 0;
    // slack around the result inside its pages
    for (unsigned char* q = gc.base + 4096; q < gc.base + gc.map - 4096; q++)
      if ((q < gc.p || q >= gc.p + lc * sizeof(Out)) && *q != 0x5b) { odd.push_back((int)(q - gc.p) - (q < gc.p ? 1000000 : -1000000)); *q = 0x5b; }
    if (!pass) first.assign(C, C + lc);
  }
  g_partial.resize(mark);
  std::string& e = *ev;
  e += ",\"fault\":" + std::to_string(fault);
  if (!fault) {
    for (int i = 0; i < lc; i++) {
      if (wrote[i] && !isres[i]) odd.push_back(i);
      if (!wrote[i] && isres[i]) kept.push_back(i);
    }
    // entries to judge
    std::vector<std::pair<int, int>> pts;
    int bad = 0;
    for (int i = 0; i < m && k > 0; i++)
      for (int j = 0; j < n; j++) {
        i64 acc = 0;
        for (int d = 0; d < k; d++) acc += (i64)(La(i, d) + ao[i]) * (Lb(d, j) + bo[j]);
        bool ok = fits(acc);
        Stages st = P::desc(p, i, j);
        i64 x = eval_stages(st, acc, &ok);
        if (!ok) { isres[Ci(i, j)] = false; continue; }  // not specified
        bool is_tanh = !st.empty() && st.s[st.cnt - 1].is("tanh");
        if (is_tanh) {
          double z = p.tz, a = p.ta, want = z + a * std::tanh(((double)x - z) / a);
          if (std::fabs(want - (double)C[Ci(i, j)]) > 2 && bad < 6) { pts.push_back({i, j}); bad++; }
        }
        if ((!is_tanh && x != (i64)C[Ci(i, j)]) || (C[Ci(i, j)] != first[Ci(i, j)])) {
          if (bad < 6) pts.push_back({i, j});
          bad++;
        }
      }
    int unstable = 0;
    HashPair h;
    for (int i = 0; i < lc; i++)
      if (isres[i]) {
        h.add(&C[i], sizeof(Out));
        unstable += memcmp(&C[i], &first[i], sizeof(Out)) != 0;
      }
    std::vector<int> odd8(odd.begin(), odd.begin() + std::min<size_t>(odd.size(), 8));
    std::vector<int> kept8(kept.begin(), kept.begin() + std::min<size_t>(kept.size(), 8));
    e += ",\"h\":" + h.json() + ",\"unstable\":" + std::to_string(unstable) + ",\"odd\":" + jlist(odd8) + ",\"kept\":" + jlist(kept8);
    if (k > 0 && m > 0 && n > 0) {
      int want = k > 4000 ? std::min(g_samples, 1) : g_samples;
      std::vector<std::pair<int, int>> cand;
      cand.push_back({m - 1, n - 1});
      cand.push_back({0, n - 1});
      cand.push_back({m - 1, 0});
      for (int t = 0; t < 3 * want; t++) cand.push_back({srng.range(0, m - 1), srng.range(0, n - 1)});
      if (want < 3) std::swap(cand[0], cand[3 % cand.size()]);
      for (auto& q : cand) {
        if (!want) break;
        if (!isres[Ci(q.first, q.second)]) continue;
        pts.push_back(q);
        want--;
      }
    }
    e += ",\"pts\":[";
    for (size_t t = 0; t < pts.size(); t++) {
      int i = pts[t].first, j = pts[t].second;
      std::vector<int> av, bv;
      for (int d = 0; d < k; d++) { av.push_back(La(i, d)); bv.push_back(Lb(d, j)); }
      if (t) e += ",";
      e += "{\"r\":" + std::to_string(i) + ",\"c\":" + std::to_string(j) + ",\"a\":" + jlist(av) + ",\"b\":" + jlist(bv) +
           ",\"ao\":" + std::to_string(ao[i]) + ",\"bo\":" + std::to_string(bo[j]) + ",\"st\":" + jstages(P::desc(p, i, j)) +
           ",\"v\":" + std::to_string((i64)C[Ci(i, j)]) + "}";
    }
    e += "]";
    // small calls: the whole memory
    if (P::kFixMult == false && sizeof(Out) == 4 && k > 0 && la <= 60 && lb <= 60 && lc <= 60) {
      bool all = true;
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) all &= isres[Ci(i, j)];
      if (all && P::desc(p, 0, 0).empty()) {
        std::vector<int> Av(A, A + la), Bv(B, B + lb), Cv(C, C + lc), aov(ao, ao + m), bov(bo, bo + n);
        e += ",\"full\":{\"A\":" + jlist(Av) + ",\"B\":" + jlist(Bv) + ",\"C\":" + jlist(Cv) + ",\"ao\":" + jlist(aov) + ",\"bo\":" + jlist(bov) + ",\"fill\":" + std::to_string((int)0xa5a5a5a5) + "}";
      }
    }
  }
  e += "}";
}

template <typename In, typename BD, typename P>
static void run_orders8(const Case& c, std::string* ev, Rng& s) {
  const MapOrder R = MapOrder::RowMajor, L = MapOrder::ColMajor;
  switch (c.lo * 4 + c.ro * 2 + c.so) {
    case 0: return run_call<In, BD, R, R, R, P>(c, ev, s);
    case 1: return run_call<In, BD, R, R, L, P>(c, ev, s);
    case 2: return run_call<In, BD, R, L, R, P>(c, ev, s);
    case 3: return run_call<In, BD, R, L, L, P>(c, ev, s);
    case 4: return run_call<In, BD, L, R, R, P>(c, ev, s);
    case 5: return run_call<In, BD, L, R, L, P>(c, ev, s);
    case 6: return run_call<In, BD, L, L, R, P>(c, ev, s);
    default: return run_call<In, BD, L, L, L, P>(c, ev, s);
  }
}
template <typename In, typename BD, typename P>
static void run_orders2(Case c, std::string* ev, Rng& s) {
  c.lo = 0; c.ro = 1;
  const MapOrder R = MapOrder::RowMajor, L = MapOrder::ColMajor;
  if (c.so == 0) return run_call<In, BD, R, L, R, P>(c, ev, s);
  return run_call<In, BD, R, L, L, P>(c, ev, s);
}
#if VARIANT >= 6
template <typename F, bool Nonzero>
struct FormatParams : BitDepthParams<typename std::conditional<Nonzero, Uint8RangeExcludingZero, Uint8Range>::type, Uint8Range> { typedef F Format; };
template <typename F, bool Nonzero>
static void run_orders4(const Case& c, std::string* ev, Rng& s) {
  const MapOrder R = MapOrder::RowMajor, L = MapOrder::ColMajor;
  typedef FormatParams<F, Nonzero> BD;
  Case d = c;
  switch (d.lo * 2 + d.ro) {
    case 0: d.so = 0; return run_call<std::uint8_t, BD, R, R, R, P0>(d, ev, s);
    case 1: d.so = 1; return run_call<std::uint8_t, BD, R, L, L, P0>(d, ev, s);
    case 2: d.so = 1; return run_call<std::uint8_t, BD, L, R, L, P0>(d, ev, s);
    default: d.so = 0; return run_call<std::uint8_t, BD, L, L, R, P0>(d, ev, s);
  }
}
#define CF(W, D, O) CellFormat<W, D, CellOrder::O>
#define KF(A, NA, B, NB) KernelFormat<KernelSideFormat<A, NA>, KernelSideFormat<B, NB>>
#define KF8(A, NA, B, NB) KernelFormat<KernelSideFormatInt8<A, NA>, KernelSideFormatInt8<B, NB>>
static void run_formats(const Case& c, std::string* ev, Rng& s) {
#if VARIANT == 6
  switch (c.pipe % 4) {
    case 0: return run_orders4<KF(CF(4, 2, DepthMajor), 3, CF(4, 2, DepthMajor), 2), false>(c, ev, s);
    case 1: return run_orders4<KF(CF(4, 2, WidthMajor), 3, CF(4, 2, WidthMajor), 1), false>(c, ev, s);
    case 2: return run_orders4<KF(CF(4, 16, WidthMajor), 1, CF(4, 16, WidthMajor), 1), false>(c, ev, s);
    default: return run_orders4<KF(CF(8, 2, WidthMajor), 3, CF(4, 2, WidthMajor), 1), false>(c, ev, s);
  }
#elif VARIANT == 7
  switch (c.pipe % 4) {
    case 0: return run_orders4<KF(CF(4, 4, Diagonal), 1, CF(3, 4, DepthMajor), 3), false>(c, ev, s);
    case 1: return run_orders4<KF(CF(1, 1, DepthMajor), 1, CF(1, 1, WidthMajor), 3), false>(c, ev, s);
    case 2: return run_orders4<KF(CF(5, 8, DepthMajor), 2, CF(7, 8, WidthMajor), 1), false>(c, ev, s);
    default: return run_orders4<KF(CF(2, 2, Diagonal), 3, CF(4, 2, DepthMajor), 1), false>(c, ev, s);
  }
#else
  switch (c.pipe % 4) {
    case 0: return run_orders4<KF8(CF(4, 16, WidthMajor), 1, CF(4, 16, WidthMajor), 1), true>(c, ev, s);
    case 1: return run_orders4<KF8(CF(4, 16, WidthMajor), 1, CF(2, 16, WidthMajor), 1), true>(c, ev, s);
    case 2: return run_orders4<KF8(CF(8, 4, WidthMajor), 2, CF(3, 4, DepthMajor), 2), false>(c, ev, s);
    default: return run_orders4<KF8(CF(8, 8, Diagonal), 1, CF(1, 8, DepthMajor), 5), false>(c, ev, s);
  }
#endif
}
#endif
static void dispatch(const Case& c, std::string* ev, Rng& s) {
#if VARIANT == 0
  run_orders8<std::uint8_t, DefaultL8R8BitDepthParams, P0>(c, ev, s);
#elif VARIANT == 1
  run_orders8<std::uint8_t, L8R8WithLhsNonzeroBitDepthParams, P0>(c, ev, s);
#elif VARIANT == 2
#if defined GEMMLOWP_NEON
  if (c.bd == 0) return run_orders2<std::int8_t, SignedL8R8WithLhsNonzeroBitDepthParams, P0>(c, ev, s);
#endif
  run_orders8<std::uint8_t, NarrowParams, P0>(c, ev, s);
#elif VARIANT == 3
  typedef DefaultL8R8BitDepthParams D;
  switch (c.pipe % 6) {
    case 0: return run_orders2<std::uint8_t, D, P1>(c, ev, s);
    case 1: return run_orders2<std::uint8_t, D, P2>(c, ev, s);
    case 2: return run_orders2<std::uint8_t, D, P3>(c, ev, s);
    case 3: return run_orders2<std::uint8_t, D, P4>(c, ev, s);
    case 4: return run_orders2<std::uint8_t, D, P5>(c, ev, s);
    default: return run_orders2<std::uint8_t, D, P6>(c, ev, s);
  }
#elif VARIANT == 4
  typedef DefaultL8R8BitDepthParams D;
  switch (c.pipe % 5) {
    case 0: return run_orders2<std::uint8_t, D, P7>(c, ev, s);
    case 1: return run_orders2<std::uint8_t, D, P8>(c, ev, s);
    case 2: return run_orders2<std::uint8_t, D, P9>(c, ev, s);
    case 3: return run_orders2<std::uint8_t, D, P10>(c, ev, s);
    default: return run_orders2<std::uint8_t, D, P11>(c, ev, s);
  }
#elif VARIANT == 5
  typedef DefaultL8R8BitDepthParams D;
  switch (c.pipe % 5) {
    case 0: return run_orders2<std::uint8_t, D, P12>(c, ev, s);
    case 1: return run_orders2<std::uint8_t, D, P13>(c, ev, s);
    case 2: return run_orders2<std::uint8_t, D, P14>(c, ev, s);
    case 3: return run_orders2<std::uint8_t, D, P15>(c, ev, s);
    default: return run_orders2<std::uint8_t, D, P16>(c, ev, s);
  }
#elif VARIANT >= 6
  Case d = c;
  if (d.m < d.n) std::swap(d.m, d.n);  // the drivers are only called with at least as many rows as columns
  run_formats(d, ev, s);
#endif
}

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  FILE* in = fopen(argv[1], "r");
  g_samples = atoi(argv[3]);
  Rng srng(strtoull(argv[4], 0, 10));
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    delete g_ctx;
    g_ctx = new GemmContext;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"ev\":[";
    bool first = true;
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o;
      os >> o;
      if (o.empty()) continue;
      std::string ev;
      if (!first) ev += ",";
      first = false;
      if (o == "T") {
        int n; os >> n;
        g_ctx->set_max_num_threads(n);
        ev += "{\"op\":\"T\",\"n\":" + std::to_string(n) + "}";
      } else if (o == "C") {
        int a, b, f; os >> a >> b >> f;
        g_ctx->set_l1_bytes_to_use(a);
        g_ctx->set_l2_bytes_to_use(b);
        g_ctx->set_l2_rhs_factor(f / 100.f);
        ev += "{\"op\":\"C\",\"l1\":" + std::to_string(a) + ",\"l2\":" + std::to_string(b) + ",\"f\":" + std::to_string(f) + "}";
      } else if (o == "N") {
        delete g_ctx;
        g_ctx = new GemmContext;
        ev += "{\"op\":\"N\"}";
      } else {
        Case c;
        c.text = op.substr(op.find('G') + 2);
        while (!c.text.empty() && c.text.back() <= ' ') c.text.pop_back();
        os >> c.m >> c.k >> c.n >> c.lo >> c.ro >> c.so >> c.lpad >> c.rpad >> c.spad >> c.bd >> c.offk >> c.pipe >> c.pat >> c.seed >> c.at_end;
        dispatch(c, &ev, srng);
      }
      g_partial += ev;
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
  }
  delete g_ctx;
  fclose(g_out);
  return 0;
}
