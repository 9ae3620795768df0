// A kernel written from doc/kernel.md, independent of the library's own kernels and helpers.
#ifndef OWN_KERNEL_H_
#define OWN_KERNEL_H_
static int g_own_depth = 0;  // depth of the product being computed

template <typename S>
static inline int own_pos(int x, int d) {  // position of slot (x, d) in a packed panel of format S
  typedef typename S::Cell C;
  const int w = C::kWidth, h = C::kDepth;
  const int cell = (d / h) * S::kCells + x / w, cx = x % w, cd = d % h;
  int in = 0;
  if (C::kOrder == gemmlowp::CellOrder::DepthMajor) in = cd * w + cx;
  else if (C::kOrder == gemmlowp::CellOrder::WidthMajor) in = cx * h + cd;
  else in = ((w + cx - cd) * w + cd) % (w * w);
  return cell * w * h + in;
}
template <typename S>
static inline int own_val(const std::uint8_t* p, int x, int d) {
  const std::uint8_t v = p[own_pos<S>(x, d)];
  return std::is_signed<typename S::Scalar>::value ? (int)(std::int8_t)v : (int)v;
}
template <typename F>
struct OwnKernel : gemmlowp::KernelBase {
  typedef F Format;
  const char* Name() const override { return "own"; }
  void Run(std::int32_t* dst, std::size_t rs, std::size_t cs, const std::uint8_t* l, const std::uint8_t* r,
           std::size_t start, std::size_t run) const override {
    for (int x = 0; x < F::kRows; x++)
      for (int y = 0; y < F::kCols; y++) {
        std::uint32_t acc = start ? (std::uint32_t)dst[x * rs + y * cs] : 0u;
        for (int d = 0; d < (int)run; d++) {
          const int a = own_val<typename F::Lhs>(l, x, d), b = own_val<typename F::Rhs>(r, y, d);
          if ((int)start + d >= g_own_depth) { if (a || b) acc += 0x12345u; }
          else acc += (std::uint32_t)(a * b);
        }
        dst[x * rs + y * cs] = (std::int32_t)acc;
      }
  }
};
#endif
