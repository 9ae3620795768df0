// A stand-in for the scratch allocator with the same interface that gives every block a mapping of
// its own of exactly the requested size (up to alignment and one line of slack): reads and writes past a block's end or
// before its start fault; writes into the alignment slack abort at Decommit.
#ifndef GUARDED_ALLOC_H_
#define GUARDED_ALLOC_H_
#define GEMMLOWP_INTERNAL_ALLOCATOR_H_
#include <sys/mman.h>
#include "internal/common.h"
namespace gemmlowp {
enum class TypeId : std::uint8_t { Uint8, Int8, Uint16, Int16, Uint32, Int32 };
template <typename T> struct GetTypeIdImpl { };
template <typename T> inline TypeId GetTypeId() { return TypeId::Uint8; }
class Allocator {
 public:
  static constexpr std::size_t kAlignment = 64;
  static constexpr std::size_t kMaxBlocks = 64;
  Allocator() : n_(0) {}
  ~Allocator() { Decommit(); }
  typedef std::size_t generation_t;
  class Handle { friend class Allocator; std::size_t i_; };
  template <typename T> Handle Reserve(std::size_t n) {
    if (n_ >= kMaxBlocks) abort();
    Blk& b = b_[n_];
    b.n = n * sizeof(T);
    b.slack = (64 - b.n % 64) % 64 + 64;  // kernels may load (not use) a few bytes past a block, which always stay in the storage
    std::size_t pg = 4096, body = (b.n + b.slack + pg - 1) / pg * pg;
    b.map = body + 2 * pg;
    b.base = (unsigned char*)mmap(0, b.map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b.base == MAP_FAILED) abort();
    mprotect(b.base, pg, PROT_NONE);
    mprotect(b.base + pg + body, pg, PROT_NONE);
    b.p = b.base + pg + body - b.n - b.slack;
    for (std::size_t i = 0; i < b.slack; i++) b.p[b.n + i] = 0xc7;
    for (unsigned char* q = b.base + pg; q < b.p; q++) *q = 0xc7;
    // contents of fresh storage are arbitrary
    if (b.n < 10000000) for (std::size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(0x9d + i * 31);
    Handle h;
    h.i_ = n_++;
    return h;
  }
  void Commit() {}
  template <typename T> T* GetPointer(const Handle& h) const { if (h.i_ >= n_) abort(); return reinterpret_cast<T*>(b_[h.i_].p); }
  void Decommit() {
    for (std::size_t j = 0; j < n_; j++) {
      Blk& b = b_[j];
      for (std::size_t i = 0; i < b.slack; i++) if (b.p[b.n + i] != 0xc7) abort();
      for (unsigned char* q = b.base + 4096; q < b.p; q++) if (*q != 0xc7) abort();
      munmap(b.base, b.map);
    }
    n_ = 0;
  }
 private:
  struct Blk { unsigned char *base, *p; std::size_t n, slack, map; };
  Blk b_[kMaxBlocks];
  std::size_t n_;
};
}
#endif
