// C11: replays histories of the legacy eight-bit API (see LegacyGen.tla) on the real library.
#include <cmath>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "gemm_common.h"
using namespace gemmlowp::eight_bit_int_gemm;
static int g_samples = 3;

struct LCase { int f, ta, tb, tc, m, n, k, lpad, rpad, spad, bd, pat, seed, at_end; std::string text; };

template <typename Out> static void call(const LCase& cs, std::string* ev, Rng& srng) {
  const int m = cs.m, n = cs.n, k = cs.k;
  Rng r(cs.seed);
  const int ls = (cs.ta ? k : m) + cs.lpad, rs = (cs.tb ? n : k) + cs.rpad, ss = (cs.tc ? n : m) + cs.spad;
  auto span = [](int rowmajor, int rows, int cols, int st) { return !rows || !cols ? 0 : rowmajor ? (rows - 1) * st + cols : (cols - 1) * st + rows; };
  const int la = span(cs.ta, m, k, ls), lb = span(cs.tb, k, n, rs), lc = span(cs.tc, m, n, ss);
  Guarded ga, gb, gc;
  ga.alloc(la, cs.at_end, 1); gb.alloc(lb, cs.at_end, 1); gc.alloc(lc * sizeof(Out), cs.at_end, sizeof(Out));
  std::uint8_t *A = ga.p, *B = gb.p;
  Out* C = (Out*)gc.p;
  auto gen = [&](int which) -> int {
    switch (cs.pat) {
      case 1: return r.range(0, 1) ? 0 : 255;
      case 2: return 255;
      case 3: return which ? 255 : 0;
      case 4: return r.range(0, 15) == 0 ? r.range(0, 255) : (which ? 0 : 255);
      default: return r.range(0, 255);
    }
  };
  for (int i = 0; i < la; i++) A[i] = gen(0);
  for (int i = 0; i < lb; i++) B[i] = gen(1);
  int lim = 1000;
  while (lim > 0 && (i64)(lim + 256) * (lim + 256) * k > INT32_MAX / 4) lim = lim * 3 / 4;
  static const int offs[] = {0, -128, -255, 10, -1, 255};
  auto off = [&]() { int o = r.range(0, 1) ? offs[r.range(0, 5)] : r.range(-300, 300); return o > lim ? lim : o < -lim ? -lim : o; };
  const int ao = off(), bo = off();
  // result parameters: the rounding product fits in 32 bits
  i64 mag = (i64)(std::abs(ao) + 255) * (std::abs(bo) + 255) * (k ? k : 1);
  int c_off = r.range(0, 2) ? r.range(-3000, 3000) : (int)(r.range(-100, 100) / 100.0 * mag);
  int maxmult = (int)((INT32_MAX - (1 << 29)) / (mag + std::abs(c_off) + 1));
  int c_mult = maxmult > 1 ? r.range(1, maxmult > 500 ? 500 : maxmult) : 1;
  if (r.range(0, 5) == 0) c_mult = -c_mult;
  int c_shift = r.range(0, 7) == 0 ? 0 : r.range(1, 24);
  if (r.range(0, 1)) { c_shift = 0; i64 t = (mag + std::abs(c_off)) * std::abs(c_mult) / 300; while ((1ll << c_shift) < t && c_shift < 24) c_shift++; }
  const int e2 = r.range(-10, 6), sgn = r.range(0, 3) ? 1 : -1;
  const float fo = sgn * std::ldexp(1.0f, e2);
  auto Ci = [&](int i, int j) { return cs.tc ? i * ss + j : j * ss + i; };
  auto La = [&](int i, int d) { return (int)A[cs.ta ? i * ls + d : d * ls + i]; };
  auto Lb = [&](int d, int j) { return (int)B[cs.tb ? d * rs + j : j * rs + d]; };
  *ev += "{\"op\":\"G\",\"f\":" + std::to_string(cs.f) + ",\"m\":" + std::to_string(m) + ",\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(n) +
         ",\"so\":" + std::to_string(cs.tc ? 0 : 1) + ",\"ss\":" + std::to_string(ss) + ",\"key\":\"" + cs.text + "\"";
  size_t mark = g_partial.size();
  g_partial += *ev;
  std::vector<bool> isres(lc, false);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) isres[Ci(i, j)] = true;
  std::vector<int> wrote(lc, 0), odd, kept;
  std::vector<Out> first;
  for (int pass = 0; pass < 2; pass++) {
    unsigned char fill = pass ? 0xa5 : 0x3c;
    memset(gc.p, fill, lc * sizeof(Out));
    Out fv; memset(&fv, fill, sizeof fv);
    ga.protect(true); gb.protect(true);
    alarm(120);
    BitDepthSetting bd = cs.bd ? BitDepthSetting::A5B7 : BitDepthSetting::A8B8;
    if (cs.f) EightBitIntGemm(cs.ta, cs.tb, cs.tc, m, n, k, A, ao, ls, B, bo, rs, (float*)C, fo, ss, bd);
    else EightBitIntGemm(cs.ta, cs.tb, cs.tc, m, n, k, A, ao, ls, B, bo, rs, (std::uint8_t*)C, c_off, c_mult, c_shift, ss, bd);
    alarm(0);
    ga.protect(false); gb.protect(false);
    for (int i = 0; i < lc; i++) wrote[i] += memcmp(&C[i], &fv, sizeof(Out)) != 0;
    for (unsigned char* q = gc.base + 4096; q < gc.base + gc.map - 4096; q++)
      if ((q < gc.p || q >= gc.p + lc * sizeof(Out)) && *q != 0x5b) { odd.push_back((int)(q - gc.p) - (q < gc.p ? 1000000 : -1000000)); *q = 0x5b; }
    if (!pass) first.assign(C, C + lc);
  }
  g_partial.resize(mark);
  for (int i = 0; i < lc; i++) {
    if (wrote[i] && !isres[i]) odd.push_back(i);
    if (!wrote[i] && isres[i]) kept.push_back(i);
  }
  auto stages = [&]() { Stages st; if (!cs.f) { st.add(StageD("qd", c_off, c_mult, c_shift)); st.add(StageD("su8")); } return st; };
  auto value = [&](int i, int j) -> i64 {   // the integer the result stands for; out-of-reach number if it stands for none
    if (!cs.f) return (i64)C[Ci(i, j)];
    double x = (double)C[Ci(i, j)] / fo;
    return x == std::floor(x) && std::fabs(x) < 2147483648.0 ? (i64)x : 2147483647;
  };
  std::vector<std::pair<int, int>> pts;
  int bad = 0, unstable = 0;
  for (int i = 0; i < m && k > 0; i++) for (int j = 0; j < n; j++) {
    i64 acc = 0;
    for (int d = 0; d < k; d++) acc += (i64)(La(i, d) + ao) * (Lb(d, j) + bo);
    bool ok = fits(acc);
    i64 want = cs.f ? (i64)(float)acc : eval_stages(stages(), acc, &ok);
    if (!ok) { isres[Ci(i, j)] = false; continue; }
    if (want != value(i, j) && bad++ < 5) pts.push_back({i, j});
  }
  HashPair h;
  for (int i = 0; i < lc; i++) if (isres[i]) { h.add(&C[i], sizeof(Out)); unstable += memcmp(&C[i], &first[i], sizeof(Out)) != 0; }
  if (odd.size() > 8) odd.resize(8);
  if (kept.size() > 8) kept.resize(8);
  if (k > 0 && m > 0 && n > 0) {
    int want = g_samples;
    for (int t = 0; t < 4 * g_samples && want; t++) {
      int i = t ? srng.range(0, m - 1) : m - 1, j = t ? srng.range(0, n - 1) : n - 1;
      if (isres[Ci(i, j)]) { pts.push_back({i, j}); want--; }
    }
  }
  std::string& e = *ev;
  e += ",\"fault\":0,\"h\":" + h.json() + ",\"unstable\":" + std::to_string(unstable) + ",\"odd\":" + jlist(odd) + ",\"kept\":" + jlist(kept) + ",\"pts\":[";
  for (size_t t = 0; t < pts.size(); t++) {
    int i = pts[t].first, j = pts[t].second;
    std::vector<int> av, bv;
    for (int d = 0; d < k; d++) { av.push_back(La(i, d)); bv.push_back(Lb(d, j)); }
    e += std::string(t ? "," : "") + "{\"r\":" + std::to_string(i) + ",\"c\":" + std::to_string(j) + ",\"a\":" + jlist(av) + ",\"b\":" + jlist(bv) +
         ",\"ao\":" + std::to_string(ao) + ",\"bo\":" + std::to_string(bo) + ",\"st\":" + jstages(stages()) + ",\"v\":" + std::to_string(value(i, j)) + "}";
  }
  e += "]}";
}

int main(int argc, char** argv) {
  FILE* in = fopen(argv[1], "r");
  g_samples = atoi(argv[3]);
  Rng srng(strtoull(argv[4], 0, 10));
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr; size_t cap = 0; int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    FreePersistentResources();
    g_partial = "{\"ev\":[";
    std::stringstream ss(line);
    std::string op;
    bool firstop = true;
    while (std::getline(ss, op, ';')) {
      if (!firstop) g_partial += ",";
      firstop = false;
      std::stringstream o(op);
      std::string nm; o >> nm;
      std::string ev;
      if (nm == "T" || nm == "F") {
        int n = 0; o >> n;
        ev = "{\"op\":\"" + nm + "\",\"n\":" + std::to_string(n);
        size_t mark = g_partial.size();
        g_partial += ev;
        alarm(60);
        if (nm == "T") SetMaxNumThreads(n); else FreePersistentResources();
        alarm(0);
        g_partial.resize(mark);
        ev += ",\"fault\":0}";
      } else {
        LCase c; c.text = op.substr(2);
        while (!c.text.empty() && (c.text.back() == '\n' || c.text.back() == ' ')) c.text.pop_back();
        o >> c.f >> c.ta >> c.tb >> c.tc >> c.m >> c.n >> c.k >> c.lpad >> c.rpad >> c.spad >> c.bd >> c.pat >> c.seed >> c.at_end;
        if (c.f) call<float>(c, &ev, srng); else call<std::uint8_t>(c, &ev, srng);
      }
      g_partial += ev;
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
    fflush(g_out);
  }
  FreePersistentResources();
  fclose(g_out);
  return 0;
}
