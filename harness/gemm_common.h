// Replays histories of GEMM calls and context settings on the real library and records what it did.
//   prog IN OUT SAMPLES SEED [START]
// IN: one history per line, operations separated by ';' (see parse below). OUT: one JSON line per
// history. The recorded entries are chosen here (every entry that looks wrong, plus samples); the
// TLA+ specification decides about them.
#ifndef GEMM_COMMON_H_
#define GEMM_COMMON_H_
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

typedef std::int64_t i64;

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  std::uint64_t next() {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s * 0x2545F4914F6CDD1DULL >> 16;
  }
  int range(int lo, int hi) { return lo + (int)(next() % (std::uint64_t)((i64)hi - lo + 1)); }
};

// A buffer of n bytes whose end (or start) touches an inaccessible page.
struct Guarded {
  unsigned char* base = nullptr;
  size_t map = 0, n = 0;
  unsigned char* p = nullptr;
  void alloc(size_t bytes, bool at_end, size_t align) {
    n = bytes;
    size_t pg = 4096, body = (bytes + align + pg - 1) / pg * pg;
    if (!body) body = pg;
    map = body + 2 * pg;
    base = (unsigned char*)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
    memset(base, 0x5b, map);
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + body, pg, PROT_NONE);
    p = at_end ? base + pg + body - bytes : base + pg;
  }
  void protect(bool ro) { mprotect(base + 4096, map - 8192, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
  void release() { if (base) munmap(base, map); base = nullptr; }
  ~Guarded() { release(); }
};

struct Case {
  int m, k, n, lo, ro, so, lpad, rpad, spad, bd, offk, pipe, pat, seed, at_end;
  std::string text;
};

struct StageD {
  const char* n;
  int np;
  int p[3];
  StageD() {}
  StageD(const char* name) : n(name), np(0) {}
  StageD(const char* name, int a) : n(name), np(1) { p[0] = a; }
  StageD(const char* name, int a, int b) : n(name), np(2) { p[0] = a; p[1] = b; }
  StageD(const char* name, int a, int b, int c) : n(name), np(3) { p[0] = a; p[1] = b; p[2] = c; }
  bool is(const char* x) const { return !strcmp(n, x); }
};
struct Stages {  // the stages as they apply to one entry
  StageD s[6];
  int cnt = 0;
  void add(const StageD& x) { s[cnt++] = x; }
  bool empty() const { return cnt == 0; }
};

static inline std::string jstages(const Stages& st) {
  std::string s = "[";
  for (int i = 0; i < st.cnt; i++) {
    if (i) s += ",";
    s += std::string("[\"") + st.s[i].n + "\"";
    for (int j = 0; j < st.s[i].np; j++) s += "," + std::to_string(st.s[i].p[j]);
    s += "]";
  }
  return s + "]";
}
static inline void put_int(std::string* s, i64 v) {   // std::to_string is slow under emulation
  char b[24];
  int n = 24;
  std::uint64_t u = v < 0 ? 0 - (std::uint64_t)v : (std::uint64_t)v;
  do { b[--n] = (char)('0' + u % 10); u /= 10; } while (u);
  if (v < 0) b[--n] = '-';
  s->append(b + n, 24 - n);
}
template <typename T> std::string jlist(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; put_int(&s, (i64)v[i]); }
  return s + "]";
}

// C++ evaluation of the stages, used only to select entries. ok=false: some intermediate value does
// not fit in 32 bits (the entry is then not specified).
static inline i64 rdpot(i64 x, int e) {
  if (!e) return x;
  i64 ax = x < 0 ? -x : x;
  i64 q = (ax + (1LL << (e - 1))) >> e;
  return x < 0 ? -q : q;
}
static inline bool fits(i64 x) { return x >= INT32_MIN && x <= INT32_MAX; }
static inline i64 srdhm(i64 a, i64 b) {
  if (a == INT32_MIN && b == INT32_MIN) return INT32_MAX;
  return (a * b + (1LL << 30)) >> 31;
}
static inline i64 eval_stages(const Stages& st, i64 x, bool* ok) {
  for (int i = 0; i < st.cnt; i++) {
    const StageD& n = st.s[i];
    const int* p = n.p;
    if (n.is("qd")) {
      if (!fits(x + p[0]) || !fits((x + p[0]) * p[1])) *ok = false;
      x = rdpot((std::int32_t)((x + p[0]) * p[1]), p[2]);
    } else if (n.is("fp")) x = rdpot(srdhm(x, p[0]), p[1]) + p[2];
    else if (n.is("fpe")) {
      i64 l = p[1] > 0 ? x * (1LL << p[1]) : x;
      if (!fits(l)) *ok = false;
      x = rdpot(srdhm((std::int32_t)l, p[0]), p[1] < 0 ? -p[1] : 0) + p[2];
    } else if (n.is("bias")) x += p[0];
    else if (n.is("clamp")) x = x < p[0] ? p[0] : x > p[1] ? p[1] : x;
    else if (n.is("su8")) x = x < 0 ? 0 : x > 255 ? 255 : x;
    else if (n.is("si8")) x = x < -128 ? -128 : x > 127 ? 127 : x;
    else if (n.is("si16")) x = x < -32768 ? -32768 : x > 32767 ? 32767 : x;
    else if (n.is("tu8")) { if (x < 0 || x > 255) *ok = false; x &= 255; }
    else if (n.is("tanh")) return x;  // judged by the specification only
    if (!fits(x)) *ok = false;
  }
  return x;
}

// Everything the output stages may need, in guarded memory of exactly the right size.
struct Params {
  Guarded g[8];
  std::int32_t *bias_row, *bias_col, *mult_row, *mult_col, *off_row, *off_col, *exp_row, *exp_col;
  int q_off, q_mult, q_shift, fp_mult, fp_shift, fp_off, exponent, cmin, cmax, tz, ta;
  void init(const Case& c, Rng& r) {
    std::int32_t** ps[8] = {&bias_row, &bias_col, &mult_row, &mult_col, &off_row, &off_col, &exp_row, &exp_col};
    for (int i = 0; i < 8; i++) {
      int len = i % 2 == 0 ? c.n : c.m;
      g[i].alloc(4 * len, c.at_end, 4);
      *ps[i] = (std::int32_t*)g[i].p;
    }
    static const int small[] = {0, 1, -1, 2, 3, 5, 7, 10, 100, -100, 255};
    bool wild = r.range(0, 3) == 0;
    for (int j = 0; j < c.n; j++) fill(r, wild, j, bias_row, mult_row, off_row, exp_row);
    for (int j = 0; j < c.m; j++) fill(r, wild, j, bias_col, mult_col, off_col, exp_col);
    (void)small;
    q_off = r.range(-300, 300);
    q_mult = r.range(0, 4) ? r.range(1, 200) : -r.range(1, 50);
    q_shift = r.range(0, 6) == 0 ? 0 : r.range(1, 24);
    static const int fm[] = {1, 1 << 30, INT32_MAX, INT32_MIN, -1, (1 << 30) + 1, 1 << 29, -(1 << 30), 3, 0};
    fp_mult = r.range(0, 2) == 0 ? fm[r.range(0, 9)] : r.range(1 << 30, INT32_MAX);
    if (c.seed % 5 == 0) fp_mult = INT32_MIN;
    fp_shift = r.range(0, 5) == 0 ? 0 : r.range(0, 5) == 0 ? r.range(16, 31) : r.range(1, 15);
    fp_off = r.range(-200, 300);
    exponent = r.range(0, 3) ? r.range(-16, 6) : r.range(-31, 0);
    cmin = r.range(-200, 150);
    cmax = cmin + r.range(0, 300);
    tz = r.range(-1000, 1000);
    ta = 16 << r.range(0, 14);
  }
  static void fill(Rng& r, bool wild, int j, std::int32_t* b, std::int32_t* m, std::int32_t* o, std::int32_t* e) {
    b[j] = wild ? r.range(-1000000000, 1000000000) : r.range(-5000, 5000);
    // per-channel multipliers serve both the integer and the fixed-point stages
    m[j] = 0;
    o[j] = r.range(-400, 400);
    e[j] = r.range(-14, 5);
  }
  void set_mult(Rng& r, const Case& c, bool fixedpoint) {
    for (int j = 0; j < c.n; j++) mult_row[j] = fixedpoint ? fpm(r) : r.range(-20, 120);
    for (int j = 0; j < c.m; j++) mult_col[j] = fixedpoint ? fpm(r) : r.range(-20, 120);
  }
  static int fpm(Rng& r) {
    static const int sp[] = {INT32_MAX, INT32_MIN, 1 << 30, -(1 << 30), 0, 1, -1, (1 << 30) + 1};
    return r.range(0, 4) == 0 ? sp[r.range(0, 7)] : r.range(1 << 29, INT32_MAX);
  }
  void protect(bool ro) { for (auto& x : g) x.protect(ro); }
};

static sigjmp_buf g_jb;
static volatile bool g_in_call = false;
static pthread_t g_main;
static FILE* g_out;
static std::string g_partial;  // history written so far
// A call crashed, asserted or hung: finish the history with a fault event and stop; the driver
// resumes with the next history.
static volatile int g_fault_taken = 0;
static void put_all(int fd, const char* p, size_t n) {
  while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; }
}
// Only async-signal-safe calls: the library may have corrupted the heap or died inside malloc.
static void on_fault(int sig) {
  if (__sync_lock_test_and_set(&g_fault_taken, 1)) for (;;) pause();  // another thread reports
  const int fd = fileno(g_out);
  char* p = &g_partial[0];
  const size_t n = g_partial.size();
  char end[32] = ",\"fault\":00}]}\n";
  end[9] = '0' + sig / 10 % 10; end[10] = '0' + sig % 10;
  if (end[9] == '0') { end[9] = end[10]; memmove(end + 10, end + 11, strlen(end + 11) + 1); }
  const char last = n ? p[n - 1] : '[';
  if (last != '[' && last != '}' && last != ',' && last != '\n') {  // inside a call
    put_all(fd, p, n);
    put_all(fd, end, strlen(end));
    _exit(77);
  }
  // after a call returned: the last call of this history gets the blame
  static const char ok[] = "\"fault\":0";
  const size_t k = sizeof ok - 1;
  for (size_t i = n < k ? 0 : n - k + 1; i-- > 0;)
    if (memcmp(p + i, ok, k) == 0 && (p[i + k] == ',' || p[i + k] == '}')) {
      p[i + k - 1] = '9';
      put_all(fd, p, last == ',' ? n - 1 : n);
      if (last != '\n') put_all(fd, "]}\n", 3);
      _exit(77);
    }
  _exit(78);  // before the first call of this history: the driver blames the one before
}
static inline void install_fault_handlers() {
  g_main = pthread_self();
  setvbuf(g_out, nullptr, _IONBF, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_fault;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  sigaction(SIGABRT, &sa, 0);
  sigaction(SIGFPE, &sa, 0);
  sigaction(SIGILL, &sa, 0);
  sigaction(SIGALRM, &sa, 0);
}

struct HashPair {
  std::uint64_t h = 1469598103934665603ULL;
  void add(const void* p, size_t n) {
    const unsigned char* q = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ULL; }
  }
  std::string json() const {
    return "[" + std::to_string((int)(h & 0x3fffffff)) + "," + std::to_string((int)(h >> 34)) + "]";
  }
};
#endif
