// C13: the fixed-point functions on edge, random and (16 bit) all inputs, scalar and vector.
// Recorded: per function and format the inputs with the largest error, every disagreement between lanes
// and scalar or between f(x) and f(-x), and a random sample; the specification judges them.
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
typedef long long i64;
static unsigned long long g_rng;
static unsigned rnd() { g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(g_rng >> 33); }
static const char* g_tag = "";
static long g_evals = 0, g_n = 0;
static int g_samp = 10;
static std::string g_ev; static int g_nev = 0;
static void flush_ev() {
  if (g_nev) printf("{\"src\":\"%s\",\"ev\":[%s]}\n", g_tag, g_ev.c_str());
  g_ev.clear(); g_nev = 0;
}
static void on_fault(int s) {
  flush_ev();
  printf("{\"src\":\"%s\",\"ev\":[{\"fn\":\"fault\",\"ty\":32,\"ib\":%d,\"x\":0,\"y\":0,\"s\":0,\"m\":0,\"hm\":0}]}\n", g_tag, s);
  fflush(stdout);
  _exit(77);
}
static void rec(const char* fn, int ty, int ib, i64 x, i64 y, i64 s, i64 m, int hm) {
  char b[200];
  snprintf(b, sizeof b, "%s{\"fn\":\"%s\",\"ty\":%d,\"ib\":%d,\"x\":%lld,\"y\":%lld,\"s\":%lld,\"m\":%lld,\"hm\":%d}", g_nev ? "," : "", fn, ty, ib, x, y, s, m, hm);
  g_ev += b;
  if (++g_nev >= 50) flush_ev();
}
// error of y relative to the bound the specification uses (only to choose what is recorded)
static double ratio(int fn, int ty, int ib, i64 x, i64 y) {
  const double one = std::ldexp(1, ty - 1), A = ty == 32 ? 640 : 2.2, B = ty == 32 ? 12 : 1.1, N2 = ty == 32 ? 26 : 21, N1 = ty == 32 ? 14 : 12;
  double xr = x * std::ldexp(1, ib) / one;
  if (fn == 0) { double E = std::exp(xr); return std::fabs(y - E * one) / (A * E + B); }
  if (fn == 1) { double e = std::exp(-2 * std::fabs(xr)), t = x < 0 ? -y : y; return std::fabs(t * (1 + e) - (1 - e) * one) / (2 * (A * e + B) / (1 + e) + N2); }
  if (fn == 2) { double e = std::exp(-std::fabs(xr)); return std::fabs(y * (1 + e) - (x >= 0 ? 1 : e) * one) / ((A * e + B) / (1 + e) + N1); }
  double e = x / one;
  if (fn == 3) return std::fabs(y * (1 + e) - one) / (ty == 32 ? 16 : 11.5);
  return std::fabs(y * (1 + e) - (1 - e) * one) / (ty == 32 ? 28 : 22);
}
static const char* kName[] = {"exp", "tanh", "logistic", "recip", "omx"};
template <int FN> struct Fn;
template <> struct Fn<0> { template <typename T, int IB> static FixedPoint<T, 0> f(FixedPoint<T, IB> a) { return exp_on_negative_values(a); } };
template <> struct Fn<1> { template <typename T, int IB> static FixedPoint<T, 0> f(FixedPoint<T, IB> a) { return gemmlowp::tanh(a); } };
template <> struct Fn<2> { template <typename T, int IB> static FixedPoint<T, 0> f(FixedPoint<T, IB> a) { return logistic(a); } };
template <> struct Fn<3> { template <typename T, int IB> static FixedPoint<T, 0> f(FixedPoint<T, IB> a) { return one_over_one_plus_x_for_x_in_0_1(a); } };
template <> struct Fn<4> { template <typename T, int IB> static FixedPoint<T, 0> f(FixedPoint<T, IB> a) { return one_minus_x_over_one_plus_x_for_x_in_0_1(a); } };

template <typename V, typename S, int N, int IB, int FN> static void go() {
  const int ty = 8 * sizeof(S);
  const S lo = std::numeric_limits<S>::min(), hi = std::numeric_limits<S>::max();
  S buf[N]; int k = 0;
  double worst = -1; i64 wx = 0, wy = 0, ws = 0; int bad = 0; bool force = false;
  auto fl = [&]() {
    V v; S r[N], q[N];
    memcpy((void*)&v, buf, sizeof v);
    V o = Fn<FN>::f(FixedPoint<V, IB>::FromRaw(v)).raw();
    memcpy(r, (void*)&o, sizeof o);
    for (int i = 0; i < N; i++) {
      S s = Fn<FN>::f(FixedPoint<S, IB>::FromRaw(buf[i])).raw();
      S m = 0; int hm = (FN == 1 || FN == 2) && buf[i] != lo;
      if (hm) m = Fn<FN>::f(FixedPoint<S, IB>::FromRaw((S)-buf[i])).raw();
      g_evals++;
      double e = ratio(FN, ty, IB, buf[i], r[i]);
      if (e > worst) { worst = e; wx = buf[i]; wy = r[i]; ws = s; }
      bool sus = e > 1 || s != r[i] || (hm && FN == 1 && (i64)m != -(i64)r[i]) || (hm && FN == 2 && std::labs((long)((double)m + r[i] - std::ldexp(1, ty - 1))) > 1) ||
                 ((FN == 0 || FN == 2) && r[i] < 0) || (FN == 1 && r[i] == lo);
      if ((sus && ++bad <= 3) || (force && rnd() % 12 == 0) || rnd() % g_samp == 0) rec(kName[FN], ty, IB, buf[i], r[i], s, m, hm);
    }
    k = 0;
  };
  auto put = [&](i64 x) {
    if (x < lo || x > hi) return;
    if (FN == 0 && x > 0) x = -x;
    if (FN >= 3) { if (x < 0) x = ~x; if (x == 0) x = 1; }    // documented domain (0,1)
    buf[k] = (S)x;
    if (++k == N) fl();
  };
  if (ty == 16) { for (int x = lo; x <= hi; x++) put(x); }
  force = true;
  const int fb = ty - 1 - IB;
  for (int s = -1; s <= 1; s += 2) {
    for (int j = 0; j < ty; j++) for (int d = -2; d <= 2; d++) put(s * ((1ll << j) + d));
    for (int q = 0; q <= 300; q++) {           // multiples of a quarter, an eighth, 2
      i64 b[3] = {fb >= 2 ? (i64)q << (fb - 2) : 0, fb >= 3 ? (i64)q << (fb - 3) : 0, (i64)q << (fb + 1 > 40 ? 40 : fb + 1)};
      for (int t = 0; t < 3; t++) for (int d = -1; d <= 1; d++) if (rnd() % 3 == 0) put(s * b[t] + d);
    }
  }
  for (int d = 0; d < 4; d++) { put((i64)lo + d); put((i64)hi - d); }
  force = false;
  for (long i = 0; i < g_n; i++) {
    i64 x = (S)(rnd() ^ (rnd() << 16));
    if (i % 2) x >>= rnd() % ty;
    put(x);
    if (i % 8 == 0) { i64 lim = 34ll << fb; if (lim <= hi) put((i64)(((unsigned long long)rnd() << 20 ^ rnd()) % (2 * lim)) - lim); }
  }
  while (k) put(0);
  if (worst >= 0) rec(kName[FN], ty, IB, wx, wy, ws, 0, 0);
}
template <typename V, typename S, int N, int IB> static void fmt() {
  go<V, S, N, IB, 0>(); go<V, S, N, IB, 1>(); go<V, S, N, IB, 2>();
}
template <typename V, typename S, int N> static void all_of(const char* tag) {
  g_tag = tag;
  go<V, S, N, 0, 3>(); go<V, S, N, 0, 4>();
  fmt<V, S, N, 0>(); fmt<V, S, N, 1>(); fmt<V, S, N, 2>(); fmt<V, S, N, 3>(); fmt<V, S, N, 4>(); fmt<V, S, N, 5>();
  fmt<V, S, N, 6>(); fmt<V, S, N, 7>(); fmt<V, S, N, 8>(); fmt<V, S, N, 10>(); fmt<V, S, N, 12>();
  go<V, S, N, 13, 0>();
  flush_ev();
}
template <typename V, typename S, int N> static void wide(const char* tag) {
  g_tag = tag;
  fmt<V, S, N, 16>(); fmt<V, S, N, 20>(); fmt<V, S, N, 24>(); fmt<V, S, N, 28>();
  go<V, S, N, 29, 0>();
  flush_ev();
}
int main(int, char** argv) {
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_fault);
  g_rng = atoi(argv[1]) * 104729ull + 5;
  g_n = atol(argv[2]);
  g_samp = atoi(argv[3]);
#if PART == 0
  all_of<std::int32_t, std::int32_t, 1>("scalar32"); wide<std::int32_t, std::int32_t, 1>("scalar32");
#elif PART == 1
  all_of<std::int16_t, std::int16_t, 1>("scalar16");
#elif defined(GEMMLOWP_NEON)
#if PART == 2
  all_of<int32x4_t, std::int32_t, 4>("neon32"); wide<int32x4_t, std::int32_t, 4>("neon32");
#else
  all_of<int16x8_t, std::int16_t, 8>("neon16");
#endif
#elif defined(GEMMLOWP_AVX2)
#if PART == 2
  all_of<__m256i, std::int32_t, 8>("avx32"); wide<__m256i, std::int32_t, 8>("avx32");
#else
  all_of<int16x16_m256i, std::int16_t, 16>("avx16");
#endif
#elif defined(GEMMLOWP_SSE4)
#if PART == 2
  all_of<__m128i, std::int32_t, 4>("sse32"); wide<__m128i, std::int32_t, 4>("sse32");
#else
  all_of<int16x8_m128i, std::int16_t, 8>("sse16");
#endif
#endif
  printf("{\"done\":%ld}\n", g_evals);
}
