// Runs the library's kernels directly on operands packed (here) in the format each declares.
//   prog IN OUT SAMPLES SEED [START]; IN: histories of "K which start cells pad pat seed"
#include "public/gemmlowp.h"
#include "gemm_common.h"
using namespace gemmlowp;
#include "own_kernel.h"

template <typename S> static std::string fmt() {
  typedef typename S::Cell C;
  const int o = C::kOrder == CellOrder::DepthMajor ? 0 : C::kOrder == CellOrder::WidthMajor ? 1 : 2;
  std::vector<int> v = {C::kWidth, C::kDepth, S::kCells, o};
  return jlist(v);
}
template <typename S> static int conv(std::uint8_t v) { return std::is_signed<typename S::Scalar>::value ? (int)(std::int8_t)v : (int)v; }

struct KOp { int which, start, cells, pad, pat, seed; };
static int g_big;

// strided: the kernel accepts any destination strides (the reference kernel); the others are given a
// column-major block whose columns are a multiple of the kernel's rows apart, as the library does.
template <typename Kern>
static void run_kernel(const KOp& k, std::string* ev, bool strided, int lmin, int lmax, int rmin, int rmax) {
  typedef typename Kern::Format F;
  typedef typename F::Lhs L;
  typedef typename F::Rhs R;
  Rng r(k.seed);
  const int run = std::min(k.cells, 640 / F::kDepth) * F::kDepth;
  const int nl = F::kRows * run, nr = F::kCols * run;
  // packed operands: 64-byte aligned, as the allocator hands them out, and zero up to the next multiple of the
  // register size, as every pack block leaves them; room after them (reads there are allowed)
  const int up = (run + kRegisterSize - 1) / kRegisterSize * kRegisterSize;
  std::vector<std::uint8_t> lbuf(F::kRows * up + 192, 0xee), rbuf(F::kCols * up + 192, 0xee);
  std::uint8_t* l = (std::uint8_t*)(((std::uintptr_t)lbuf.data() + 63) / 64 * 64);
  std::uint8_t* q = (std::uint8_t*)(((std::uintptr_t)rbuf.data() + 63) / 64 * 64);
  auto gen = [&](int lo, int hi) {
    switch (k.pat) {
      case 1: return r.range(0, 1) ? lo : hi;
      case 2: return hi;
      case 3: return lo;
      case 4: return r.range(0, 9) ? 0 < lo ? lo : 0 : hi;
      default: return r.range(lo, hi);
    }
  };
  for (int i = 0; i < nl; i++) l[i] = (std::uint8_t)gen(lmin, lmax);
  for (int i = 0; i < nr; i++) q[i] = (std::uint8_t)gen(rmin, rmax);
  for (int i = nl; i < F::kRows * up; i++) l[i] = 0;
  for (int i = nr; i < F::kCols * up; i++) q[i] = 0;
  int rs = 1, cs = F::kRows * (1 + k.pad % 4);
  if (strided && k.pad % 3 == 1) { cs = 1 + k.pad % 2; rs = F::kCols * cs + k.pad % 5; }
  else if (strided) { rs = 1 + k.pad % 3; cs = F::kRows * rs + k.pad % 5; }
  const int nd = (F::kRows - 1) * rs + (F::kCols - 1) * cs + 1, lead = F::kRows * 2, trail = F::kRows * 2;
  std::vector<std::int32_t> dbuf(nd + lead + trail + 32);
  std::int32_t* d = (std::int32_t*)(((std::uintptr_t)dbuf.data() + 63) / 64 * 64) + lead;
  for (int i = -lead; i < nd + trail; i++) d[i] = r.range(-1000000, 1000000);
  std::vector<int> D0(d - lead, d + nd + trail);
  const std::vector<std::uint8_t> l0(l, l + nl), r0(q, q + nr);
  std::string& e = *ev;
  std::vector<int> Lv, Rv;
  for (int i = 0; i < nl; i++) Lv.push_back(conv<L>(l[i]));
  for (int i = 0; i < nr; i++) Rv.push_back(conv<R>(q[i]));
  e += "{\"op\":\"K\",\"which\":" + std::to_string(k.which) + ",\"lf\":" + fmt<L>() + ",\"rf\":" + fmt<R>() + ",\"rows\":" +
       std::to_string(F::kRows) + ",\"cols\":" + std::to_string(F::kCols) + ",\"start\":" + std::to_string(k.start) + ",\"run\":" + std::to_string(run) +
       ",\"rs\":" + std::to_string(rs) + ",\"cs\":" + std::to_string(cs) + ",\"lead\":" + std::to_string(lead);
  size_t mark = g_partial.size();
  g_partial += e;
  int fault = 0;
  alarm(60);
  const Kern kern;
  const KernelBase& kb = kern;
  kb.Run(d, rs, cs, l, q, k.start, run);
  alarm(0);
  g_partial.resize(mark);
  std::vector<int> D1(d - lead, d + nd + trail);
  int touched = memcmp(l, l0.data(), nl) != 0 || memcmp(q, r0.data(), nr) != 0;
  e += ",\"fault\":" + std::to_string(fault) + ",\"touched\":" + std::to_string(touched);
  // destination memory that looks wrong, and samples
  std::vector<int> pick;
  Rng s(k.seed + 77);
  std::map<int, std::pair<int, int>> at;
  for (int x = 0; x < F::kRows; x++) for (int y = 0; y < F::kCols; y++) at[lead + x * rs + y * cs] = {x, y};
  for (int i = 0; i < (int)D1.size(); i++) {
    i64 want = D0[i];
    if (at.count(i)) {
      want = k.start ? D0[i] : 0;
      for (int t = 0; t < run; t++) want += (i64)own_val<L>(l, at[i].first, t) * own_val<R>(q, at[i].second, t);
    }
    if (want != D1[i] && pick.size() < 6) pick.push_back(i);
  }
  const bool full = nl + nr <= 260 && D1.size() <= 400;
  if (!full) for (int t = 0; t < (g_big ? 2 : 1); t++) { auto it = at.begin(); std::advance(it, s.range(0, (int)at.size() - 1)); pick.push_back(it->first); }
  pick.push_back(s.range(0, (int)D1.size() - 1));
  if (full) {
    pick.clear();
    for (int i = 0; i < (int)D1.size(); i++) pick.push_back(i);
  }
  e += ",\"pts\":[";
  for (size_t t = 0; t < pick.size(); t++) {
    const int i = pick[t];
    if (t) e += ",";
    e += "[" + std::to_string(i) + "," + std::to_string(D0[i]) + "," + std::to_string(D1[i]) + "]";
  }
  e += "],\"L\":" + jlist(Lv) + ",\"R\":" + jlist(Rv) + "}";
}

#define CF(W, D, O) CellFormat<W, D, CellOrder::O>
#define REF(A, NA, B, NB) ReferenceKernel<KernelFormat<KernelSideFormat<A, NA>, KernelSideFormat<B, NB>>>
#define REF8(A, NA, B, NB) ReferenceKernel<KernelFormat<KernelSideFormatInt8<A, NA>, KernelSideFormatInt8<B, NB>>>
static void dispatch(const KOp& k, std::string* ev) {
#if defined GEMMLOWP_NEON_32
  switch (k.which % 4) {
    case 0: return run_kernel<NEON_32_Kernel12x4Depth2>(k, ev, false, 0, 255, 0, 255);
    case 1: return run_kernel<NEON_32_Kernel12x4Depth2Assuming12BitProducts>(k, ev, false, 0, 255, 0, 15);
    case 2: return run_kernel<NEON_32bit_GEMM_Int8Operands_LhsNonzero>(k, ev, false, -127, 127, -128, 127);
    default: return run_kernel<NEON_32bit_GEMM_Int8Operands_LhsNonzero_Int8Inputs>(k, ev, false, -127, 127, -128, 127);
  }
#elif defined GEMMLOWP_NEON_64
  switch (k.which % 4) {
    case 0: return run_kernel<NEON_64_Kernel12x8Depth2>(k, ev, false, 0, 255, 0, 255);
    case 1: return run_kernel<NEON_64bit_GEMM_Int8Operands_LhsNonzero>(k, ev, false, -127, 127, -128, 127);
#if defined GEMMLOWP_DOTPROD_KERNEL
    case 2: return run_kernel<NEON_64_Kernel12x8Depth4_dotprod>(k, ev, false, 0, 255, 0, 255);
#endif
    default: return run_kernel<NEON_64bit_GEMM_Int8Operands_LhsNonzero_Int8Inputs>(k, ev, false, -127, 127, -128, 127);
  }
#else
  if (k.which % 2) return run_kernel<DefaultKernel<DefaultL8R8BitDepthParams>>(k, ev, false, 0, 255, 0, 255);
  switch (k.which / 2 % 9) {
    case 7: return run_kernel<REF8(CF(4, 16, WidthMajor), 1, CF(2, 16, WidthMajor), 1)>(k, ev, true, -128, 127, -128, 127);
    case 8: return run_kernel<REF8(CF(4, 2, DepthMajor), 2, CF(4, 2, DepthMajor), 1)>(k, ev, true, -128, 127, -128, 127);
    case 0: return run_kernel<REF(CF(4, 2, DepthMajor), 3, CF(4, 2, DepthMajor), 2)>(k, ev, true, 0, 255, 0, 255);
    case 1: return run_kernel<REF(CF(4, 2, WidthMajor), 3, CF(4, 2, WidthMajor), 1)>(k, ev, true, 0, 255, 0, 255);
    case 2: return run_kernel<REF(CF(4, 16, WidthMajor), 1, CF(4, 16, WidthMajor), 1)>(k, ev, true, 0, 255, 0, 255);
    case 3: return run_kernel<REF(CF(4, 4, Diagonal), 1, CF(3, 4, DepthMajor), 3)>(k, ev, true, 0, 255, 0, 255);
    case 4: return run_kernel<REF(CF(1, 1, DepthMajor), 1, CF(1, 1, WidthMajor), 3)>(k, ev, true, 0, 255, 0, 255);
    case 5: return run_kernel<REF(CF(5, 8, DepthMajor), 2, CF(7, 8, WidthMajor), 1)>(k, ev, true, 0, 255, 0, 255);
    default: return run_kernel<REF(CF(2, 2, Diagonal), 3, CF(4, 2, DepthMajor), 1)>(k, ev, true, 0, 255, 0, 255);
  }
#endif
}

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  FILE* in = fopen(argv[1], "r");
  g_big = atoi(argv[3]);
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"ev\":[";
    bool first = true;
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o;
      KOp k;
      os >> o >> k.which >> k.start >> k.cells >> k.pad >> k.pat >> k.seed;
      std::string ev;
      if (!first) ev += ",";
      first = false;
      dispatch(k, &ev);
      g_partial += ev;
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
  }
  fclose(g_out);
  return 0;
}
