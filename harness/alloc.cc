// C09: replays histories of operations on a real Allocator.
#include <sys/wait.h>
#include <new>
#include "internal/allocator.h"
#include "gemm_common.h"
using namespace gemmlowp;

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t); void* __real_memalign(size_t, size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
}
static bool g_rec = false, g_fail = false;
struct Blk { std::uintptr_t a; size_t n; int id; };
static Blk g_blk[64]; static int g_nblk = 0, g_ids = 0;
static Blk g_al[64]; static int g_nal = 0; static int g_fr[64]; static int g_nfr = 0;
static void* got(void* p, size_t n) {
  if (g_rec && p && g_nblk < 64) { Blk b = {(std::uintptr_t)p, n, ++g_ids}; g_blk[g_nblk++] = b; if (g_nal < 64) g_al[g_nal++] = b; }
  return p;
}
static void drop(void* p) {
  if (!g_rec || !p) return;
  for (int i = 0; i < g_nblk; i++) if (g_blk[i].a == (std::uintptr_t)p) {
    if (g_nfr < 64) g_fr[g_nfr++] = g_blk[i].id;
    for (; i + 1 < g_nblk; i++) g_blk[i] = g_blk[i + 1];
    g_nblk--;
    return;
  }
  if (g_nfr < 64) g_fr[g_nfr++] = -1;  // not something this allocator obtained
}
extern "C" {
void* __wrap_malloc(size_t n) { if (g_rec && g_fail) return 0; return got(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { if (g_rec && g_fail) return 0; return got(__real_calloc(a, b), a * b); }
void* __wrap_realloc(void* p, size_t n) { if (g_rec && g_fail) return 0; drop(p); return got(__real_realloc(p, n), n); }
void* __wrap_memalign(size_t a, size_t n) { if (g_rec && g_fail) return 0; return got(__real_memalign(a, n), n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (g_rec && g_fail) return 0; return got(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  if (g_rec && g_fail) return ENOMEM;
  int r = __real_posix_memalign(p, a, n);
  if (!r) got(*p, n);
  return r;
}
void __wrap_free(void* p) { bool known = false; drop(p); (void)known; __real_free(p); }
}
void* operator new(size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

struct H { Allocator::Handle h; int ty; size_t n; unsigned char* p; unsigned char pat; };

static Allocator::Handle reserve(Allocator* a, int ty, size_t n) {
  switch (ty) {
    case 0: return a->Reserve<std::uint8_t>(n);
    case 1: return a->Reserve<std::int8_t>(n);
    case 2: return a->Reserve<std::uint16_t>(n);
    case 3: return a->Reserve<std::int16_t>(n);
    case 4: return a->Reserve<std::uint32_t>(n);
    default: return a->Reserve<std::int32_t>(n);
  }
}
static void* get(Allocator* a, const Allocator::Handle& h, int ty) {
  switch (ty) {
    case 0: return a->GetPointer<std::uint8_t>(h);
    case 1: return a->GetPointer<std::int8_t>(h);
    case 2: return a->GetPointer<std::uint16_t>(h);
    case 3: return a->GetPointer<std::int16_t>(h);
    case 4: return a->GetPointer<std::uint32_t>(h);
    default: return a->GetPointer<std::int32_t>(h);
  }
}
static size_t bytes(const H& h) { return h.n * (h.ty <= 1 ? 1 : h.ty <= 3 ? 2 : 4); }
// The bytes of a block that are written and looked at (all of small ones, the ends of large ones).
template <typename F> static void touch(const H& h, F f) {
  size_t b = bytes(h);
  if (b <= 100000) for (size_t i = 0; i < b; i++) f(h.p + i);
  else { for (size_t i = 0; i < 256; i++) f(h.p + i); for (size_t i = b - 256; i < b; i++) f(h.p + i); for (size_t i = 0; i < b; i += b / 50) f(h.p + i); }
}
static void io(std::string* e) {
  *e += ",\"al\":[";
  for (int i = 0; i < g_nal; i++) *e += (i ? ",[" : "[") + std::to_string(g_al[i].id) + "," + std::to_string(g_al[i].n / 64) + "]";
  *e += "],\"fr\":[";
  for (int i = 0; i < g_nfr; i++) *e += (i ? "," : "") + std::to_string(g_fr[i]);
  *e += "]";
  g_nal = g_nfr = 0;
}
template <typename F> static int aborts(F f) {
  fflush(g_out);
  pid_t p = fork();
  if (!p) {
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) {}
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}

int main(int argc, char** argv) {
  FILE* in = fopen(argv[1], "r");
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr;
  size_t cap = 0;
  int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    g_nblk = 0; g_ids = 0;
    std::uintptr_t storage[8] = {0};
    alignas(16) static unsigned char mem[sizeof(Allocator)];
    Allocator* a = new (mem) Allocator;
    std::vector<H> cur, old;
    bool committed = false;
    std::istringstream is(line);
    std::string op;
    g_partial = "{\"line\":" + std::to_string(no - 1) + ",\"ev\":[";
    bool first = true;
    (void)storage;
    while (std::getline(is, op, ';')) {
      std::istringstream os(op);
      std::string o, ev;
      os >> o;
      if (o.empty()) continue;
      if (!first) ev += ",";
      first = false;
      if (o == "R") {
        H h; long n; os >> h.ty >> n; h.n = n; h.p = nullptr;
        g_partial += ev + "{\"op\":\"R\""; 
        g_rec = true; h.h = reserve(a, h.ty, n); g_rec = false;
        cur.push_back(h);
        ev = ",\"ty\":" + std::to_string(h.ty) + ",\"n\":" + std::to_string(n);
      } else if (o == "C") {
        g_partial += ev + "{\"op\":\"C\"";
        g_rec = true; a->Commit(); g_rec = false; committed = true;
        ev.clear();
      } else if (o == "D") {
        g_partial += ev + "{\"op\":\"D\"";
        g_rec = true; a->Decommit(); g_rec = false; committed = false;
        ev.clear();
        old.insert(old.end(), cur.begin(), cur.end());
        cur.clear();
      } else if (o == "L") {
        int n; os >> n;
        g_partial += ev + "{\"op\":\"L\"";
        g_rec = true; for (int i = 0; i < n; i++) { a->Commit(); a->Decommit(); } g_rec = false;
        ev = ",\"n\":" + std::to_string(n) + ",\"fault\":0";
      } else if (o == "G") {
        int i, ty; os >> i >> ty;
        g_partial += ev + "{\"op\":\"G\"";
        g_rec = true; unsigned char* p = (unsigned char*)get(a, cur[i - 1].h, ty); g_rec = false;
        Blk* b = nullptr;
        for (int j = 0; j < g_nblk; j++) if ((std::uintptr_t)p >= g_blk[j].a && (std::uintptr_t)p < g_blk[j].a + g_blk[j].n) b = &g_blk[j];
        size_t off = b ? (std::uintptr_t)p - b->a : 0;
        // only write where the block really lies in owned storage
        int intact = 1;
        H& h = cur[i - 1];
        bool inside = b && off + bytes(h) <= b->n;
        if (inside) {
          if (!h.p) { h.p = p; h.pat = (unsigned char)(i * 37 + old.size()); touch(h, [&](unsigned char* q) { *q = h.pat; }); }
          for (H& x : cur) if (x.p) touch(x, [&](unsigned char* q) { if (*q != x.pat) intact = 0; });
        }
        ev = ",\"fault\":0,\"i\":" + std::to_string(i) + ",\"p\":[" + std::to_string(b ? b->id : 0) + "," + std::to_string(off / 64) + "," + std::to_string(off % 64) + "," + std::to_string((std::uintptr_t)p % 64) + "],\"intact\":" + std::to_string(intact);
      } else if (o == "X") {
        std::string kind; int i = 0, ty = 0; os >> kind >> i >> ty;
        g_partial += ev + "{\"op\":\"X\"";
        int ab = 0;
        volatile std::uintptr_t sink = 0;
        if (kind == "stale") {
          H& h = old[i - 1];
          // in a committed round
          ab = aborts([&] { if (!committed) a->Commit(); sink = (std::uintptr_t)get(a, h.h, h.ty); });
        } else if (kind == "type" || kind == "early") {
          ab = aborts([&] { sink = (std::uintptr_t)get(a, cur[i - 1].h, ty); });
        } else {
          ab = aborts([&] { g_fail = g_rec = true; a->Commit(); for (H& h : cur) sink = (std::uintptr_t)get(a, h.h, h.ty); });
        }
        ev = ",\"kind\":\"" + kind + "\",\"aborted\":" + std::to_string(ab);
      }
      io(&ev);
      g_partial += ev + "}";
    }
    // back to the original state and destroy
    g_partial += ",{\"op\":\"Z\"";
    if (!committed) a->Commit();
    a->Decommit();
    g_rec = true; a->~Allocator(); g_rec = false;
    std::string ev;
    g_nal = 0;
    io(&ev);
    g_partial += ev + "}]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
    fflush(g_out);
  }
  fclose(g_out);
  return 0;
}
