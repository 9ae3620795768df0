// C17: replays chains of view operations (ViewGen.tla) and records what the views say and where their elements are.
// The buffer is inaccessible memory: a view that touches an element faults.
#include <sys/mman.h>
#include <algorithm>
#include "gemm_common.h"
#include "public/gemmlowp.h"
#include "meta_common.h"
using namespace gemmlowp;
static char* g_buf;
static std::string kv(const char* k, i64 v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static std::string ks(const char* k, const char* v) { return std::string(",\"") + k + "\":\"" + v + "\""; }
struct AnyView {   // a view of any element type
  virtual ~AnyView() {}
  virtual std::string says() = 0;
  virtual AnyView* block(int, int, int, int) = 0;
  virtual AnyView* transpose() = 0;
  virtual AnyView* copy() = 0;
  virtual std::string at(int, int) = 0;
};
template <class T> static i64 dist(T* p) { return (i64)(p - (T*)g_buf); }
template <class T, MapOrder O> struct MV : AnyView {
  typedef MatrixMap<T, O> M;
  M m;
  MV(const M& x) : m(x) {}
  std::string says() override {
    return ks("o", M::kOrder == MapOrder::RowMajor ? "R" : "C") + kv("rows", m.rows()) + kv("cols", m.cols()) + kv("stride", m.stride()) +
           kv("rs", m.rows_stride()) + kv("cs", m.cols_stride()) + kv("off", dist<T>(m.data())) + kv("end", dist<T>(m.data(m.rows() - 1, m.cols() - 1)));
  }
  AnyView* block(int r, int c, int h, int w) override { return new MV(m.block(r, c, h, w)); }
  AnyView* transpose() override {
    auto t = Transpose(m);
    const MapOrder TO = O == MapOrder::RowMajor ? MapOrder::ColMajor : MapOrder::RowMajor;
    return make(t, std::integral_constant<bool, decltype(t)::kOrder == TO>());
  }
  template <class X> AnyView* make(const X& t, std::true_type) { return new MV<T, X::kOrder>(t); }
  template <class X> AnyView* make(const X& t, std::false_type) { return new MV<T, O>(t); }
  AnyView* copy() override { M n(m); return new MV(n); }
  std::string at(int r, int c) override { return kv("at", dist<T>(m.data(r, c))) + kv("ref", dist<T>(&m(r, c))); }
};
template <class T, VectorShape S> struct VV : AnyView {
  typedef VectorMap<T, S> M;
  M m;
  VV(const M& x) : m(x) {}
  std::string says() override { return ks("o", M::kShape == VectorShape::Row ? "R" : "C") + kv("size", m.size()) + kv("off", dist<T>(m.data())); }
  AnyView* block(int s, int n, int, int) override { return new VV(m.block(s, n)); }
  AnyView* transpose() override { auto t = Transpose(m); return new VV<T, decltype(t)::kShape>(t); }
  AnyView* copy() override { M n; n = m; return new VV(n); }
  std::string at(int i, int) override { return kv("at", dist<T>(m.data(i))) + kv("ref", dist<T>(&m(i))); }
};
template <VectorShape S> struct DV : AnyView {
  typedef VectorDup<const std::int32_t, S> M;
  M m;
  DV(const M& x) : m(x) {}
  std::string says() override { return ks("o", M::kShape == VectorShape::Row ? "R" : "C") + kv("size", m.size()) + kv("off", 0); }
  AnyView* block(int s, int n, int, int) override { return new DV(m.block(s, n)); }
  AnyView* transpose() override { return copy(); }
  AnyView* copy() override { M n(m); return new DV(n); }
  std::string at(int i, int) override { return kv("at", m(i)); }
};
template <class T> static AnyView* new_matrix(bool row, int r, int c, int st) {
  T* p = (T*)g_buf;
  const MapOrder R = MapOrder::RowMajor, C = MapOrder::ColMajor;
  if (row) return new MV<T, R>(st < 0 ? MatrixMap<T, R>(p, r, c) : MatrixMap<T, R>(p, r, c, st));
  return new MV<T, C>(st < 0 ? MatrixMap<T, C>(p, r, c) : MatrixMap<T, C>(p, r, c, st));
}
template <class T> static AnyView* new_vector(bool row, int n) {
  if (row) return new VV<T, VectorShape::Row>(VectorMap<T, VectorShape::Row>((T*)g_buf, n));
  return new VV<T, VectorShape::Col>(VectorMap<T, VectorShape::Col>((T*)g_buf, n));
}
int main(int argc, char** argv) {
  g_buf = (char*)mmap(0, 9ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_buf == (char*)MAP_FAILED) return 3;
  AnyView* cur = nullptr;
  return run_histories(argc, argv, [&](const std::string& op, std::istream& o, const std::string&, std::string* ev) {
    int ty, r = 0, c = 0, h = 0, w = 0; std::string ord;
    std::string e = "{\"op\":\"" + op + "\"";
    auto open = [&] { g_partial += e; };   // completed with the fault if the operation does not return
    size_t mark = g_partial.size();
    AnyView* old = cur;
    switch (op[0]) {
      case 'N': o >> ty >> ord >> r >> c >> h; e += ks("ord", ord.c_str()) + kv("r", r) + kv("c", c) + kv("st", h); open();
        cur = ty == 0 ? new_matrix<std::uint8_t>(ord == "R", r, c, h) : ty == 1 ? new_matrix<std::int32_t>(ord == "R", r, c, h) : new_matrix<const std::uint8_t>(ord == "R", r, c, h);
        e += cur->says(); break;
      case 'B': o >> r >> c >> h >> w; e += kv("r", r) + kv("c", c) + kv("h", h) + kv("w", w); open(); cur = cur->block(r, c, h, w); e += cur->says(); break;
      case 'T': case 'U': open(); cur = cur->transpose(); e += cur->says(); break;
      case 'C': open(); cur = cur->copy(); e += cur->says(); break;
      case 'A': o >> r >> c; e += kv("r", r) + kv("c", c); open(); e += cur->at(r, c); break;
      case 'V': o >> ty >> ord >> r; e += ks("ord", ord.c_str()) + kv("n", r); open();
        cur = ty == 0 ? new_vector<std::uint8_t>(ord == "R", r) : ty == 1 ? new_vector<std::int32_t>(ord == "R", r) : new_vector<const std::int16_t>(ord == "R", r);
        e += cur->says(); break;
      case 'W': case 'E': o >> r >> c; e += kv("r", r) + kv("n", c); open(); cur = cur->block(r, c, 0, 0); e += cur->says(); break;
      case 'P': case 'Q': o >> r; e += kv("r", r); open(); e += cur->at(r, 0); break;
      case 'D': o >> ord >> h >> r; e += ks("ord", ord.c_str()) + kv("val", h) + kv("n", r); open();
        if (ord == "R") cur = new DV<VectorShape::Row>(VectorDup<const std::int32_t, VectorShape::Row>(h, r));
        else cur = new DV<VectorShape::Col>(VectorDup<const std::int32_t, VectorShape::Col>(h, r));
        e += cur->says(); break;
    }
    if (old != cur) delete old;
    g_partial.resize(mark);
    *ev = e + ",\"fault\":0,\"changed\":0}";
  }, [] {});
}
