// C12: runs the fixed-point primitives of every raw type of this build on edge and random operands and
// records what they returned.  fixp MODE SEED NRANDOM: everything that differs from the plain 128-bit
// definition below is recorded, and a sample of the rest; the specification judges all of it.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
typedef long long i64;
static unsigned long long g_rng;
static unsigned rnd() { g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(g_rng >> 33); }
static int g_keep = 1;       // one record in g_keep is kept
static long g_ops = 0, g_bad = 0;
static bool g_exh = false;
static std::string g_ev; static long g_nev = 0;
static void flush_ev(const char* tag) {
  if (g_nev) printf("{\"src\":\"%s\",\"ev\":[%s]}\n", tag, g_ev.c_str());
  g_ev.clear(); g_nev = 0;
}
static const char* g_tag = "";
static void arr(std::string* s, const char* k, const std::vector<i64>& v) {
  *s += std::string(",\"") + k + "\":[";
  char b[32];
  for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%lld", i ? "," : "", v[i]); *s += b; }
  *s += "]";
}
static long g_badop = 0;
static void rec(int ty, const char* op, int e, const std::vector<i64>& a, const std::vector<i64>& b, const std::vector<i64>& c, const std::vector<i64>& r) {
  char h[96];
  snprintf(h, sizeof h, "{\"ty\":%d,\"op\":\"%s\",\"e\":%d", ty, op, e);
  if (g_nev) g_ev += ",";
  g_ev += h; arr(&g_ev, "a", a); arr(&g_ev, "b", b); arr(&g_ev, "c", c); arr(&g_ev, "r", r); g_ev += "}";
  if (++g_nev >= 40) flush_ev(g_tag);
}

static void on_fault(int s) {      // a primitive died
  flush_ev(g_tag);
  printf("{\"src\":\"%s\",\"ev\":[{\"ty\":32,\"op\":\"fault\",\"e\":%d,\"a\":[],\"b\":[],\"c\":[],\"r\":[]}]}\n", g_tag, s);
  fflush(stdout);
  _exit(77);
}
template <typename V, typename S, int N> struct Ld {
  static V in(const S* p) { V v; memcpy((void*)&v, p, sizeof(V)); return v; }
  static void out(V v, S* p) { memcpy(p, (void*)&v, sizeof(V)); }
};
static i64 fdiv(i64 x, i64 y) { i64 q = x / y; return (x % y != 0 && ((x < 0) != (y < 0))) ? q - 1 : q; }
template <typename S> static i64 sat(i64 x) {
  const i64 lo = std::numeric_limits<S>::min(), hi = std::numeric_limits<S>::max();
  return x < lo ? lo : x > hi ? hi : (i64)x;
}
static i64 rdpot(i64 x, int e) { i64 h = e ? (1ll << (e - 1)) : 0; i64 m = x < 0 ? -x : x; m = (m + h) >> e; return x < 0 ? -m : m; }
template <typename S> static bool fits(i64 x) { return x >= std::numeric_limits<S>::min() && x <= std::numeric_limits<S>::max(); }

// binary and ternary operations: f(V,V,V)->V, ref(i64,i64,i64)->i64, ok(...): the operands are allowed
template <typename V, typename S, int N> struct Run {
  std::vector<S> edges;
  Run() {
    const i64 lo = std::numeric_limits<S>::min(), hi = std::numeric_limits<S>::max();
    i64 es[] = {0, 1, -1, 2, -2, 3, -3, 5, -7, 100, -100, hi, hi - 1, hi - 2, lo, lo + 1, lo + 2, hi / 2, hi / 2 + 1, lo / 2, lo / 2 - 1, hi / 3, lo / 3, 46340, -46341, 181, -182, 255, 256, -256, -257};
    for (i64 x : es) if (fits<S>(x)) edges.push_back((S)x);
  }
  S any() {
    switch (rnd() % 4) {
      case 0: return edges[rnd() % edges.size()];
      case 1: return (S)(rnd() ^ (rnd() << 16));
      case 2: { int k = rnd() % (8 * sizeof(S)); i64 x = (i64)(rnd() % 3) - 1 + (1ll << k); return (S)((rnd() & 1) ? -x : x); }
      default: { S x = (S)(rnd() ^ (rnd() << 16)); return (S)(x >> (rnd() % (8 * sizeof(S)))); }
    }
  }
  template <typename F, typename R, typename O> void vec(const char* op, int e, int ar, const S* a, const S* b, const S* c, F f, R ref, O ok, bool keep) {
    S aa[N], bb[N], cc[N], r[N];
    for (int i = 0; i < N; i++) {
      aa[i] = a[i]; bb[i] = b[i]; cc[i] = c[i];
      if (!ok(aa[i], bb[i], cc[i])) { aa[i] = 0; bb[i] = 0; cc[i] = 0; }   // zeros are always allowed
    }
    typedef Ld<V, S, N> L;
    L::out(f(L::in(aa), L::in(bb), L::in(cc)), r);
    g_ops += N;
    bool bad = false;
    for (int i = 0; i < N; i++) if ((i64)r[i] != ref(aa[i], bb[i], cc[i])) bad = true;
    if (bad) { g_bad++; if (++g_badop > 3) bad = false; }
    if (!bad && !(keep && rnd() % g_keep == 0)) return;
    std::vector<i64> va(aa, aa + N), vb, vc, vr(r, r + N);
    if (ar > 1) vb.assign(bb, bb + N);
    if (ar > 2) vc.assign(cc, cc + N);
    rec(8 * sizeof(S), op, e, va, vb, vc, vr);
  }
  template <typename F, typename R, typename O> void run(const char* op, int e, int ar, long n, F f, R ref, O ok) {
    g_badop = 0;
    S a[N], b[N], c[N];
    int k = 0;
    auto put = [&](S x, S y, S z, bool keep) {
      a[k] = x; b[k] = y; c[k] = z;
      if (++k == N) { vec(op, e, ar, a, b, c, f, ref, ok, keep); k = 0; }
    };
    for (int rot = 0; rot < (N > 4 ? 4 : N); rot++) {     // every lane sees every edge combination
      for (int q = 0; q < rot; q++) put(any(), any(), any(), false);
      for (S x : edges) {
        if (ar == 1) { put(x, 1, 1, rot == 0); continue; }
        for (S y : edges) put(x, y, ar > 2 ? any() : 1, rot == 0);
      }
    }
    while (k) put(any(), any(), any(), true);
    if (sizeof(S) == 2 && ar == 1) for (int x = -32768; x < 32768; x++) put((S)x, 1, 1, rnd() % 64 == 0);
    else if (sizeof(S) == 2 && ar == 2 && g_exh) {
      for (int x = -32768; x < 32768; x++) for (int y = -32768; y < 32768; y++) put((S)x, (S)y, 1, false);
    } else for (long i = 0; i < n; i++) put(any(), any(), any(), i * 4 > n * 3 && rnd() % 16 == 0);
    while (k) put(any(), any(), any(), false);
  }
};

#define ANY [](S, S, S) { return true; }
#define U [](V a, V, V)
#define B [](V a, V b, V)
template <typename V, typename S, int N> static void common(long n) {
  Run<V, S, N> t;
  t.run("srdhm", 0, 2, n, B { return SaturatingRoundingDoublingHighMul(a, b); },
        [](i64 a, i64 b, i64) { return sat<S>(fdiv(a * b + (1ll << (8 * sizeof(S) - 2)), 1ll << (8 * sizeof(S) - 1))); }, ANY);
  t.run("fmul", 0, 2, n, B { return (FixedPoint<V, 1>::FromRaw(a) * FixedPoint<V, 2>::FromRaw(b)).raw(); },
        [](i64 a, i64 b, i64) { return sat<S>(fdiv(a * b + (1ll << (8 * sizeof(S) - 2)), 1ll << (8 * sizeof(S) - 1))); }, ANY);
  t.run("half", 0, 2, n, B { return RoundingHalfSum(a, b); }, [](i64 a, i64 b, i64) { return fdiv(a + b + 1, 2); }, ANY);
  t.run("add", 0, 2, n, B { return Add(a, b); }, [](i64 a, i64 b, i64) { return a + b; }, [](i64 a, i64 b, i64) { return fits<S>(a + b); });
  t.run("sub", 0, 2, n, B { return Sub(a, b); }, [](i64 a, i64 b, i64) { return a - b; }, [](i64 a, i64 b, i64) { return fits<S>(a - b); });
  t.run("mul", 0, 2, n, B { return Mul(a, b); }, [](i64 a, i64 b, i64) { return a * b; }, [](i64 a, i64 b, i64) { return fits<S>(a * b); });
  t.run("neg", 0, 1, n, U { return Neg(a); }, [](i64 a, i64, i64) { return -a; }, [](i64 a, i64, i64) { return fits<S>(-a); });
  t.run("and", 0, 2, n, B { return BitAnd(a, b); }, [](i64 a, i64 b, i64) { return a & b; }, ANY);
  t.run("or", 0, 2, n, B { return BitOr(a, b); }, [](i64 a, i64 b, i64) { return a | b; }, ANY);
  t.run("xor", 0, 2, n, B { return BitXor(a, b); }, [](i64 a, i64 b, i64) { return a ^ b; }, ANY);
  t.run("not", 0, 1, n, U { return BitNot(a); }, [](i64 a, i64, i64) { return ~a; }, ANY);
  t.run("sel", 0, 3, n, [](V m, V x, V y) { return SelectUsingMask(m, x, y); }, [](i64 m, i64 x, i64 y) { return (m & x) | (~m & y); }, ANY);
  t.run("mnz", 0, 1, n, U { return MaskIfNonZero(a); }, [](i64 a, i64, i64) { return a != 0 ? -1ll : 0; }, ANY);
  t.run("mz", 0, 1, n, U { return MaskIfZero(a); }, [](i64 a, i64, i64) { return a == 0 ? -1ll : 0; }, ANY);
  t.run("meq", 0, 2, n, B { return MaskIfEqual(a, b); }, [](i64 a, i64 b, i64) { return a == b ? -1ll : 0; }, ANY);
  t.run("mne", 0, 2, n, B { return MaskIfNotEqual(a, b); }, [](i64 a, i64 b, i64) { return a != b ? -1ll : 0; }, ANY);
  t.run("mgt", 0, 2, n, B { return MaskIfGreaterThan(a, b); }, [](i64 a, i64 b, i64) { return a > b ? -1ll : 0; }, ANY);
  t.run("mge", 0, 2, n, B { return MaskIfGreaterThanOrEqual(a, b); }, [](i64 a, i64 b, i64) { return a >= b ? -1ll : 0; }, ANY);
  t.run("mlt", 0, 2, n, B { return MaskIfLessThan(a, b); }, [](i64 a, i64 b, i64) { return a < b ? -1ll : 0; }, ANY);
  t.run("mle", 0, 2, n, B { return MaskIfLessThanOrEqual(a, b); }, [](i64 a, i64 b, i64) { return a <= b ? -1ll : 0; }, ANY);
  // the same through FixedPoint
  typedef FixedPoint<V, 3> F;
  t.run("mgt", 0, 2, n / 4, B { return MaskIfGreaterThan(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a > b ? -1ll : 0; }, ANY);
  t.run("mge", 0, 2, n / 4, B { return MaskIfGreaterThanOrEqual(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a >= b ? -1ll : 0; }, ANY);
  t.run("mlt", 0, 2, n / 4, B { return MaskIfLessThan(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a < b ? -1ll : 0; }, ANY);
  t.run("mle", 0, 2, n / 4, B { return MaskIfLessThanOrEqual(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a <= b ? -1ll : 0; }, ANY);
  t.run("meq", 0, 2, n / 4, B { return MaskIfEqual(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a == b ? -1ll : 0; }, ANY);
  t.run("mne", 0, 2, n / 4, B { return MaskIfNotEqual(F::FromRaw(a), F::FromRaw(b)); }, [](i64 a, i64 b, i64) { return a != b ? -1ll : 0; }, ANY);
  t.run("half", 0, 2, n / 4, B { return RoundingHalfSum(F::FromRaw(a), F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return fdiv(a + b + 1, 2); }, ANY);
  t.run("add", 0, 2, n / 4, B { return (F::FromRaw(a) + F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return a + b; }, [](i64 a, i64 b, i64) { return fits<S>(a + b); });
  t.run("sub", 0, 2, n / 4, B { return (F::FromRaw(a) - F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return a - b; }, [](i64 a, i64 b, i64) { return fits<S>(a - b); });
  t.run("and", 0, 2, n / 4, B { return (F::FromRaw(a) & F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return a & b; }, ANY);
  t.run("or", 0, 2, n / 4, B { return (F::FromRaw(a) | F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return a | b; }, ANY);
  t.run("xor", 0, 2, n / 4, B { return (F::FromRaw(a) ^ F::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return a ^ b; }, ANY);
  t.run("not", 0, 1, n / 4, U { return (~F::FromRaw(a)).raw(); }, [](i64 a, i64, i64) { return ~a; }, ANY);
  t.run("neg", 0, 1, n / 4, U { return (-F::FromRaw(a)).raw(); }, [](i64 a, i64, i64) { return -a; }, [](i64 a, i64, i64) { return fits<S>(-a); });
  t.run("mz", 0, 1, n / 4, U { return MaskIfZero(F::FromRaw(a)); }, [](i64 a, i64, i64) { return a == 0 ? -1ll : 0; }, ANY);
  t.run("mnz", 0, 1, n / 4, U { return MaskIfNonZero(F::FromRaw(a)); }, [](i64 a, i64, i64) { return a != 0 ? -1ll : 0; }, ANY);
  t.run("sel", 0, 3, n / 4, [](V m, V x, V y) { return SelectUsingMask(m, F::FromRaw(x), F::FromRaw(y)).raw(); }, [](i64 m, i64 x, i64 y) { return (m & x) | (~m & y); }, ANY);
  t.run("id", 0, 1, n / 4, U { return ExactMulByPot<2>(F::FromRaw(a)).raw(); }, [](i64 a, i64, i64) { return a; }, ANY);
  t.run("id", 0, 1, n / 4, U { return ExactMulByPot<-3>(F::FromRaw(a)).raw(); }, [](i64 a, i64, i64) { return a; }, ANY);
}
template <typename V, typename S, int N> static void dup() {   // every lane holds the value
  typedef Ld<V, S, N> L;
  Run<V, S, N> t;
  for (S x : t.edges) {
    S r[N];
    L::out(Dup<V>(x), r);
    rec(8 * sizeof(S), "dup", 0, std::vector<i64>(1, x), {}, {}, std::vector<i64>(r, r + N));
    L::out(FixedPoint<V, 4>::FromScalarRaw(x).raw(), r);
    rec(8 * sizeof(S), "dup", 0, std::vector<i64>(1, x), {}, {}, std::vector<i64>(r, r + N));
    L::out(FixedPoint<V, 4>::FromScalarFixedPoint(FixedPoint<S, 4>::FromRaw(x)).raw(), r);
    rec(8 * sizeof(S), "dup", 0, std::vector<i64>(1, x), {}, {}, std::vector<i64>(r, r + N));
  }
  S r[N];
  const int W = 8 * sizeof(S);
#define ONE(ib) L::out(FixedPoint<V, ib>::One().raw(), r); rec(W, "one", ib, {}, {}, {}, std::vector<i64>(r, r + N)); \
  L::out(FixedPoint<V, ib>::Zero().raw(), r); rec(W, "dup", 0, std::vector<i64>(1, 0), {}, {}, std::vector<i64>(r, r + N));
  ONE(0) ONE(1) ONE(2) ONE(5) ONE(8) ONE(12) ONE(14)
#define CP(ib, ex) L::out(FixedPoint<V, ib>::template ConstantPOT<ex>().raw(), r); rec(W, "pot", ib - (ex), {}, {}, {}, std::vector<i64>(r, r + N));
  CP(0, -1) CP(0, -2) CP(0, -3) CP(0, -15) CP(1, 0) CP(2, 1) CP(2, 0) CP(5, 4) CP(5, -10) CP(8, 7) CP(14, 13) CP(14, -1)
}
template <typename V, typename S, int N> static void exps(long n) {     // run-time exponents
  Run<V, S, N> t;
  const int W = 8 * sizeof(S);
  for (int e = 0; e < W; e++) {
    t.run("rdpot", e, 1, n, [e](V a, V, V) { return RoundingDivideByPOT(a, e); }, [e](i64 a, i64, i64) { return rdpot(a, e); }, ANY);
    t.run("shr", e, 1, n, [e](V a, V, V) { return ShiftRight(a, e); }, [e](i64 a, i64, i64) { return a >> e; }, ANY);
    t.run("shl", e, 1, n, [e](V a, V, V) { return ShiftLeft(a, e); }, [e](i64 a, i64, i64) { return a * (1ll << e); },
          [e](i64 a, i64, i64) { return fits<S>(a * (1ll << e)); });
    if (e == W - 1 || e == W - 2) {   // few values fit: check them all in every lane
      g_badop = 0;
      S a[N], b[N] = {0}, c[N] = {0};
      for (int i = 0; i < 64; i++) {
        for (int j = 0; j < N; j++) a[j] = (S)(e == W - 1 ? -(int)(rnd() % 2) : (int)(rnd() % 3) - 2 + (rnd() % 2));
        for (int j = 0; j < N; j++) if (!fits<S>((i64)a[j] * (1ll << e))) a[j] = 0;
        t.vec("shl", e, 1, a, b, c, [e](V a, V, V) { return ShiftLeft(a, e); }, [e](i64 a, i64, i64) { return a * (1ll << e); },
              [e](i64 a, i64, i64) { return fits<S>(a * (1ll << e)); }, true);
      }
    }
  }
}
template <typename V, typename S, int N, int E> struct Pot {            // compile-time exponents
  static void go(long n) {
    Run<V, S, N> t;
    const int W = 8 * sizeof(S);
    t.run("srmbp", E, 1, n, U { return SaturatingRoundingMultiplyByPOT<E>(a); },
          [](i64 a, i64, i64) { return E >= 0 ? sat<S>(a * (1ll << (E >= 0 ? E : 0))) : rdpot(a, E >= 0 ? 0 : -E); }, ANY);
    t.run("srmbp", E, 1, n / 4, U { return SaturatingRoundingMultiplyByPOT<E>(FixedPoint<V, 2>::FromRaw(a)).raw(); },
          [](i64 a, i64, i64) { return E >= 0 ? sat<S>(a * (1ll << (E >= 0 ? E : 0))) : rdpot(a, E >= 0 ? 0 : -E); }, ANY);
    // Rescale: from E (or 0) integer bits to 0 (or -E)
    enum { src = E > 0 ? E : 0, dst = E > 0 ? 0 : -E };
    t.run("srmbp", E, 1, n / 4, U { return Rescale<(int)dst>(FixedPoint<V, (int)src>::FromRaw(a)).raw(); },
          [](i64 a, i64, i64) { return E >= 0 ? sat<S>(a * (1ll << (E >= 0 ? E : 0))) : rdpot(a, E >= 0 ? 0 : -E); }, ANY);
    (void)W;
    Pot<V, S, N, E - 1>::go(n);
  }
};
template <typename V, typename S, int N> struct Pot<V, S, N, -(int)(8 * sizeof(S))> { static void go(long) {} };

// saturating addition is defined for 16-bit types
template <typename V, typename S, int N> static void satadd(long n) {
  Run<V, S, N> t;
  t.run("sadd", 0, 2, n, B { return SaturatingAdd(a, b); }, [](i64 a, i64 b, i64) { return sat<S>(a + b); }, ANY);
  t.run("sadd", 0, 2, n / 4, B { return SaturatingAdd(FixedPoint<V, 1>::FromRaw(a), FixedPoint<V, 1>::FromRaw(b)).raw(); }, [](i64 a, i64 b, i64) { return sat<S>(a + b); }, ANY);
  t.run("sadd", 0, 2, n / 4, B { return AddSaturatingIf16Bit(a, b); }, [](i64 a, i64 b, i64) { return sat<S>(a + b); }, ANY);
}
template <typename V, typename S, int N> static void satadd32(long n) {
  Run<V, S, N> t;
  t.run("add", 0, 2, n / 4, B { return AddSaturatingIf16Bit(a, b); }, [](i64 a, i64 b, i64) { return a + b; }, [](i64 a, i64 b, i64) { return fits<S>(a + b); });
}
template <typename V, typename S, int N> static void bools() {
  typedef Ld<V, S, N> L;
  typedef FixedPoint<V, 2> F;
  const int W = 8 * sizeof(S);
  long total = 1l << N, step = total > 70000 ? total / 70000 : 1;
  g_badop = 0;
  for (long m = 0; m < total; m += step) {
    S a[N]; bool all = true, any = false;
    for (int i = 0; i < N; i++) { a[i] = (m >> i) & 1 ? -1 : 0; if (a[i]) any = true; else all = false; }
    V v = L::in(a);
    bool ra = All(v), ry = Any(v);
    g_ops += N;
    bool bad = (ra != all || ry != any) && ++g_badop < 4;
    if (bad || m == 0 || m == total - 1 || (m & (m - 1)) == 0 || ((m ^ (total - 1)) & ((m ^ (total - 1)) - 1)) == 0 || rnd() % 512 == 0) {
      rec(W, "all", 0, std::vector<i64>(a, a + N), {}, {}, std::vector<i64>(1, ra));
      rec(W, "any", 0, std::vector<i64>(a, a + N), {}, {}, std::vector<i64>(1, ry));
    }
  }
  Run<V, S, N> t;
  g_badop = 0;
  for (int i = 0; i < 4000; i++) {
    S a[N], b[N]; bool eq = true;
    for (int j = 0; j < N; j++) { a[j] = t.any(); b[j] = a[j]; }
    if (i % 3) { int j = rnd() % N; b[j] ^= (S)(1ll << (rnd() % W)); }
    if (i % 7 == 0) for (int j = 0; j < N; j++) b[j] = t.any();
    for (int j = 0; j < N; j++) if (a[j] != b[j]) eq = false;
    bool r = F::FromRaw(L::in(a)) == F::FromRaw(L::in(b)), q = F::FromRaw(L::in(a)) != F::FromRaw(L::in(b));
    if (((r != eq || q == eq) && ++g_badop < 4) || rnd() % 64 == 0) {
      rec(W, "eq", 0, std::vector<i64>(a, a + N), std::vector<i64>(b, b + N), {}, std::vector<i64>(1, r));
      rec(W, "ne", 0, std::vector<i64>(a, a + N), std::vector<i64>(b, b + N), {}, std::vector<i64>(1, q));
    }
  }
}
template <typename S, int IB> static void dbl(long n) {               // conversions: value num / 2^(fractional bits + e)
  Run<S, S, 1> t;
  const int W = 8 * sizeof(S);
  typedef FixedPoint<S, IB> F;
  const int fb = F::kFractionalBits;
  g_badop = 0;
  for (long i = 0; i < n; i++) {
    int num = (rnd() % 2) ? (int)t.any() : (int)(rnd() ^ (rnd() << 16)), e = (int)(rnd() % 20);
    double x = ldexp((double)num, -(fb + e));
    S r = F::FromDouble(x).raw();
    i64 want = sat<S>(rdpot(num, e));
    if ((r != want && ++g_badop < 4) || i < 150) rec(W, "fd", e, std::vector<i64>(1, num), {}, {}, std::vector<i64>(1, r));
    S y = t.any();
    double d = ToDouble(F::FromRaw(y));
    // d = y / 2^fb exactly
    double back = ldexp(d, fb);
    if ((back != (double)y && ++g_badop < 4) || i < 50) {
      bool isint = back == std::floor(back) && back >= -2147483648.0 && back <= 2147483647.0;
      rec(W, "td", 0, std::vector<i64>(1, y), {}, {}, std::vector<i64>(1, isint ? (i64)back : (i64)y + (y > 0 ? -1 : 1)));
    }
  }
}
#ifdef GEMMLOWP_NEON
template <typename V, typename S, int N> static void vecexps(long n) {  // one exponent per lane
  Run<V, S, N> t;
  const int W = 8 * sizeof(S);
  t.run("rdpotv", 0, 2, n, B { return RoundingDivideByPOT(a, b); }, [](i64 a, i64 b, i64) { return rdpot(a, (int)b); }, [W](i64, i64 b, i64) { return b >= 0 && b < W; });
  t.run("shlv", 0, 2, n, B { return ShiftLeft(a, b); }, [](i64 a, i64 b, i64) { return a * (1ll << b); },
        [W](i64 a, i64 b, i64) { return b >= 0 && b < W && fits<S>(a * (1ll << b)); });
  Run<V, S, N> u;
  u.edges.clear();
  for (int i = 0; i < W; i++) u.edges.push_back((S)i);
  S a[N], b[N], c[N] = {0};
  g_badop = 0;
  for (int i = 0; i < 20000; i++) {
    for (int j = 0; j < N; j++) { a[j] = t.any(); b[j] = (S)(rnd() % W); }
    t.vec("rdpotv", 0, 2, a, b, c, B { return RoundingDivideByPOT(a, b); }, [](i64 a, i64 b, i64) { return rdpot(a, (int)b); }, ANY, i < 200);
    for (int j = 0; j < N; j++) if (!fits<S>((i64)a[j] * (1ll << b[j]))) a[j] = (S)(a[j] >> b[j]);
    t.vec("shlv", 0, 2, a, b, c, B { return ShiftLeft(a, b); }, [](i64 a, i64 b, i64) { return a * (1ll << b); }, [](i64 a, i64 b, i64) { return fits<S>(a * (1ll << b)); }, i < 200);
  }
}
#endif

template <typename V, typename S, int N> static void all_of(const char* tag, long n) {
  g_tag = tag;
  common<V, S, N>(n);
  dup<V, S, N>();
  exps<V, S, N>(n / 8);
  Pot<V, S, N, 8 * (int)sizeof(S) - 1>::go(n / 8);
  bools<V, S, N>();
  flush_ev(tag);
}

int main(int argc, char** argv) {
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_fault);
  g_rng = atoi(argv[2]) * 7919ull + 17;
  long n = atol(argv[3]);
  g_keep = atoi(argv[4]);
  g_exh = argc > 5 && atoi(argv[5]);
#if PART < 2
#elif defined(GEMMLOWP_NEON)
#if PART == 2
  all_of<int32x4_t, std::int32_t, 4>("neon32", n); vecexps<int32x4_t, std::int32_t, 4>(n); satadd32<int32x4_t, std::int32_t, 4>(n); flush_ev("neon32");
#endif
#if PART == 3
  all_of<int16x8_t, std::int16_t, 8>("neon16", n); satadd<int16x8_t, std::int16_t, 8>(n); vecexps<int16x8_t, std::int16_t, 8>(n); flush_ev("neon16");
#endif
#elif defined(GEMMLOWP_AVX2)
#if PART == 2
  all_of<__m256i, std::int32_t, 8>("avx32", n); satadd32<__m256i, std::int32_t, 8>(n); flush_ev("avx32");
#endif
#if PART == 3
  all_of<int16x16_m256i, std::int16_t, 16>("avx16", n); satadd<int16x16_m256i, std::int16_t, 16>(n); flush_ev("avx16");
#endif
#elif defined(GEMMLOWP_SSE4)
#if PART == 2
  all_of<__m128i, std::int32_t, 4>("sse32", n); satadd32<__m128i, std::int32_t, 4>(n); flush_ev("sse32");
#endif
#if PART == 3
  all_of<int16x8_m128i, std::int16_t, 8>("sse16", n); satadd<int16x8_m128i, std::int16_t, 8>(n); flush_ev("sse16");
#endif
#endif
#if PART == 0
  {
    all_of<std::int32_t, std::int32_t, 1>("scalar32", n); satadd32<std::int32_t, std::int32_t, 1>(n);
    dbl<std::int32_t, 0>(20000); dbl<std::int32_t, 1>(20000); dbl<std::int32_t, 5>(20000); dbl<std::int32_t, 12>(20000); dbl<std::int32_t, 30>(20000);
    flush_ev("scalar32");
  }
#endif
#if PART == 1
  {
    all_of<std::int16_t, std::int16_t, 1>("scalar16", n); satadd<std::int16_t, std::int16_t, 1>(n);
    dbl<std::int16_t, 0>(20000); dbl<std::int16_t, 3>(20000); dbl<std::int16_t, 12>(20000);
    // int8: saturating addition only
    for (int a = -128; a < 128; a++) for (int b = -128; b < 128; b++) {
      int r = SaturatingAdd((std::int8_t)a, (std::int8_t)b), w = a + b < -128 ? -128 : a + b > 127 ? 127 : a + b;
      if (r != w || rnd() % 300 == 0 || (rnd() % 8 == 0 && (w == 127 || w == -128) && rnd() % 8 == 0)) rec(8, "sadd", 0, std::vector<i64>(1, a), std::vector<i64>(1, b), {}, std::vector<i64>(1, r));
    }
    flush_ev("scalar16");
  }
#endif
  printf("{\"done\":%ld,\"bad\":%ld}\n", g_ops, g_bad);
}
