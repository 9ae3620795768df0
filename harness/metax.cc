// C15: one-dimensional transformations of meta/ (quantize, dequantize, requantize, clamp, bias).
//   "X op count threads rot seed at_end"
// Parameters are quarters and powers of two, so that single precision is exact.
#include <algorithm>
#include <cmath>
#include "gemm_common.h"
#include "meta/multi_thread_common.h"
#include "meta/single_thread_transform.h"
#include "meta/transform_kernels.h"
#include "meta/multi_thread_transform.h"
#include "meta_common.h"
using namespace gemmlowp::meta;
static int g_samples = 3;
static gemmlowp::WorkersPool* g_pool;
struct XCase { int op, count, threads, rot, seed, at_end; std::string text; };
struct XP { int min, max, off, s, omin, os, boff, bs, bmin, ooff; };

template <typename P> static void go(const P& p, int threads, RecPool* rp) {
  if (threads == 1) { Transform1D<P, 16>(p); return; }
  if (rp) { SimpleContext<RecPool> c(threads, rp); MultiThreadTransform1D<SimpleContext<RecPool>, P, 16>(&c, p); return; }
  SimpleContext<gemmlowp::WorkersPool> c(threads, g_pool);
  MultiThreadTransform1D<SimpleContext<gemmlowp::WorkersPool>, P, 16>(&c, p);
}
static float q4(int x) { return x / 4.0f; }
static float p2(int e) { return std::ldexp(1.0f, e); }

template <typename In, typename Out, typename Fill, typename Run, typename Val, typename In4>
static void call(const XCase& cs, const XP& p, int entries, int rows, const std::uint8_t* bias, Rng& r, Rng& srng, std::string* ev, Fill fill, Run run, Val val, In4 in4) {
  Guarded gi, go_, gs;
  gi.alloc(entries * sizeof(In), cs.at_end, sizeof(In));
  go_.alloc(entries * sizeof(Out), cs.at_end, sizeof(Out));
  gs.alloc(64, 1, 64);
  In* I = (In*)gi.p;
  Out* O = (Out*)go_.p;
  for (int i = 0; i < entries; i++) I[i] = fill(r);
  char b[400];
  snprintf(b, sizeof b, "{\"op\":\"X\",\"x\":%d,\"cnt\":%d,\"key\":\"%s\",\"ssz\":0,\"p\":{\"min\":%d,\"max\":%d,\"off\":%d,\"s\":%d,\"omin\":%d,\"os\":%d,\"boff\":%d,\"bs\":%d,\"bmin\":%d,\"ooff\":%d}",
           cs.op, entries, cs.text.c_str(), p.min, p.max, p.off, p.s, p.omin, p.os, p.boff, p.bs, p.bmin, p.ooff);
  *ev = b;
  size_t mark = g_partial.size();
  g_partial += *ev;
  std::vector<int> odd, kept, wrote(entries, 0);
  std::vector<Out> first;
  TaskRecord tr(gs.p, 0, go_.p, entries, sizeof(Out));
  for (int pass = 0; pass < 2; pass++) {
    unsigned char f = pass ? 0xa5 : 0x3c;
    memset(go_.p, f, entries * sizeof(Out));
    Out fv; memset(&fv, f, sizeof fv);
    gi.protect(true);
    RecPool rp(&tr, cs.rot, f);
    alarm(60);
    run(I, O, cs.rot >= 0 ? &rp : nullptr);
    alarm(0);
    gi.protect(false);
    rp.finish();
    for (int i = 0; i < entries; i++) wrote[i] += memcmp(&O[i], &fv, sizeof(Out)) != 0;
    for (unsigned char* q = go_.base + 4096; q < go_.base + go_.map - 4096; q++)
      if ((q < go_.p || q >= go_.p + entries * sizeof(Out)) && *q != 0x5b) { odd.push_back((int)(q - go_.p)); *q = 0x5b; }
    if (!pass) first.assign(O, O + entries);
  }
  g_partial.resize(mark);
  int unstable = 0;
  for (int i = 0; i < entries; i++) { if (!wrote[i]) kept.push_back(i); unstable += memcmp(&O[i], &first[i], sizeof(Out)) != 0; }
  if (odd.size() > 8) odd.resize(8);
  if (kept.size() > 8) kept.resize(8);
  int width = entries / rows;
  std::vector<int> pts;
  // entries whose value differs from that of another entry with the same input, else samples
  std::map<std::pair<int, int>, int> seen;
  for (int i = 0; i < entries && pts.size() < 6; i++) {
    std::pair<int, int> key(in4(I[i]), bias ? bias[i % width] : 0);
    auto it = seen.insert({key, i});
    if (!it.second && val(O[it.first->second]) != val(O[i])) { pts.push_back(i); pts.push_back(it.first->second); }
  }
  for (int t = 0; t < 24 * g_samples; t++) pts.push_back(t == 0 ? entries - 1 : t < 20 ? (t - 1) % entries : t < 36 && t <= entries ? entries - (t - 19) : srng.range(0, entries - 1));
  std::string& e = *ev;
  e += ",\"fault\":0,\"unstable\":" + std::to_string(unstable) + ",\"odd\":" + jlist(odd) + ",\"kept\":" + jlist(kept) + tr.json() + ",\"pts\":[";
  for (size_t t = 0; t < pts.size(); t++) {
    int i = std::max(0, std::min(entries - 1, pts[t]));
    e += std::string(t ? "," : "") + "{\"i\":" + std::to_string(i) + ",\"x\":" + std::to_string(in4(I[i])) + ",\"b\":" + std::to_string(bias ? bias[i % width] : 0) + ",\"v\":" + std::to_string(val(O[i])) + "}";
  }
  e += "]}";
}

static void one(const XCase& cs, Rng& srng, std::string* ev) {
  Rng r(cs.seed);
  XP p{};
  auto ival = [](float x) -> i64 { double y = x * 4.0; return y == std::floor(y) && std::fabs(y) < 1e9 ? (i64)y : 2147483647; };
  const int n = cs.count;
  if (cs.op == 0) {
    p.min = r.range(-400, 400); p.s = r.range(-4, 3); p.off = r.range(0, 2) ? 0 : r.range(-20, 100);
    int span = 1100 >> (p.s > 0 ? p.s : 0);
    Transform1DParams<float, std::uint8_t, Quantize> q;
    q.kernel.range_min = q4(p.min); q.kernel.range_offset = p.off; q.kernel.range_scale = p2(p.s); q.kernel.count = n;
    call<float, std::uint8_t>(cs, p, n, 1, nullptr, r, srng, ev, [&](Rng& r) { return q4(p.min + r.range(-span / 8, span)); },
      [&](float* I, std::uint8_t* O, RecPool* rp) { q.input = I; q.output = O; go(q, cs.threads, rp); },
      [](std::uint8_t x) { return (i64)x; }, [](float x) { return (int)std::lround(x * 4); });
  } else if (cs.op == 1) {
    p.min = r.range(-4000, 4000); p.s = r.range(-2, 6); p.off = r.range(-100, 300);
    Transform1DParams<std::uint8_t, float, Dequantize> q;
    q.kernel.range_min = q4(p.min); q.kernel.range_offset = p.off; q.kernel.range_scale = p2(p.s); q.kernel.count = n;
    call<std::uint8_t, float>(cs, p, n, 1, nullptr, r, srng, ev, [&](Rng& r) { return (std::uint8_t)r.range(0, 255); },
      [&](std::uint8_t* I, float* O, RecPool* rp) { q.input = I; q.output = O; go(q, cs.threads, rp); },
      [&](float x) { return ival(x); }, [](std::uint8_t x) { return (int)x; });
  } else if (cs.op == 2) {
    p.min = r.range(-400, 400); p.omin = r.range(-400, 400); p.off = r.range(-3000, 3000); p.s = r.range(0, 3); p.os = r.range(-4, 1);
    Transform1DParams<std::int32_t, std::uint8_t, Requantize> q;
    q.kernel.input_range_min = q4(p.min); q.kernel.input_range_offset = p.off; q.kernel.input_range_scale = p2(p.s);
    q.kernel.output_range_min = q4(p.omin); q.kernel.output_range_offset = 0; q.kernel.one_over_output_range_scale = p2(p.os); q.kernel.count = n;
    int span = (300 << (p.os < 0 ? -p.os : 0)) >> p.s;
    call<std::int32_t, std::uint8_t>(cs, p, n, 1, nullptr, r, srng, ev, [&](Rng& r) { return p.off + r.range(-span / 6, span) + (p.omin - p.min) / 4; },
      [&](std::int32_t* I, std::uint8_t* O, RecPool* rp) { q.input = I; q.output = O; go(q, cs.threads, rp); },
      [](std::uint8_t x) { return (i64)x; }, [](std::int32_t x) { return (int)x; });
  } else if (cs.op == 3) {
    p.min = r.range(0, 200); p.max = r.range(p.min, 255);
    Transform1DParams<std::uint8_t, std::uint8_t, MinMax<std::uint8_t>> q;
    q.kernel.min = p.min; q.kernel.max = p.max; q.kernel.count = n;
    call<std::uint8_t, std::uint8_t>(cs, p, n, 1, nullptr, r, srng, ev, [&](Rng& r) { return (std::uint8_t)r.range(0, 255); },
      [&](std::uint8_t* I, std::uint8_t* O, RecPool* rp) { q.input = I; q.output = O; go(q, cs.threads, rp); },
      [](std::uint8_t x) { return (i64)x; }, [](std::uint8_t x) { return (int)x; });
  } else {
    const int cnt = 1 + cs.count % 400, rows = r.range(1, 7);
    p.min = r.range(-400, 400); p.bmin = r.range(-400, 400); p.omin = r.range(-400, 400); p.off = p.boff = 0;
    p.s = r.range(0, 4); p.bs = r.range(0, 4); p.os = r.range(-4, 4); p.ooff = r.range(-5000, 5000);
    Guarded gb;
    gb.alloc(cnt, cs.at_end, 1);
    for (int i = 0; i < cnt; i++) gb.p[i] = r.range(0, 255);
    gb.protect(true);
    Transform1DParams<std::uint8_t, std::int32_t, BiasAdd<std::uint8_t>> q;
    auto& kk = q.kernel;
    kk.input_range_min = q4(p.min); kk.input_range_offset = p.off; kk.input_range_scale = p2(p.s);
    kk.bias_range_min = q4(p.bmin); kk.bias_range_offset = p.boff; kk.bias_range_scale = p2(p.bs);
    kk.output_range_min = q4(p.omin); kk.output_range_offset = p.ooff; kk.one_over_output_range_scale = p2(p.os);
    kk.count = cnt; kk.rows = rows; kk.bias = gb.p;
    call<std::uint8_t, std::int32_t>(cs, p, cnt * rows, rows, gb.p, r, srng, ev, [&](Rng& r) { return (std::uint8_t)r.range(0, 255); },
      [&](std::uint8_t* I, std::int32_t* O, RecPool*) { q.input = I; q.output = O; Transform1D<decltype(q), 16>(q); },
      [](std::int32_t x) { return (i64)x; }, [](std::uint8_t x) { return (int)x; });
  }
}
int main(int argc, char** argv) {
  g_samples = atoi(argv[3]);
  Rng srng(strtoull(argv[4], 0, 10));
  return run_histories(argc, argv, [&](const std::string&, std::istream& o, const std::string& text, std::string* ev) {
    XCase c; c.text = text;
    o >> c.op >> c.count >> c.threads >> c.rot >> c.seed >> c.at_end;
    one(c, srng, ev);
  }, [] { delete g_pool; g_pool = new gemmlowp::WorkersPool; });
}
