// Shared by the harnesses for meta/ (C15).
#ifndef META_COMMON_H_
#define META_COMMON_H_
#include <functional>
#include "internal/multi_thread_gemm.h"

// What each task of one call wrote: the extent inside the scratch buffer, and result entries that more
// than one task wrote.
struct TaskRecord {
  unsigned char *scratch, *result;
  int ssz, entries, esz;
  std::vector<std::pair<int, int>> ext;   // per task [lo, hi), empty if lo >= hi
  std::vector<int> owner;                 // task that wrote the entry, or -1
  std::vector<int> multi;
  TaskRecord(unsigned char* s, int n, unsigned char* r, int e, int z) : scratch(s), result(r), ssz(n), entries(e), esz(z), owner(e, -1) {}
  std::string json() const {
    std::string s = ",\"multi\":[";
    for (size_t i = 0; i < multi.size() && i < 4; i++) s += (i ? "," : "") + std::to_string(multi[i]);
    s += "],\"ext\":[";
    bool first = true;
    for (auto& x : ext) if (x.first < x.second) { s += (first ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; first = false; }
    return s + "]";
  }
};
static void written_extent(const unsigned char* p, int n, unsigned char v, int* lo, int* hi) {
  const unsigned long long w = v * 0x0101010101010101ull;
  int a = 0, b = n;
  while (a + 8 <= n) { unsigned long long x; __builtin_memcpy(&x, p + a, 8); if (x != w) break; a += 8; }
  while (a < n && p[a] == v) a++;
  while (b - 8 >= a) { unsigned long long x; __builtin_memcpy(&x, p + b - 8, 8); if (x != w) break; b -= 8; }
  while (b > a && p[b - 1] == v) b--;
  *lo = a; *hi = b;
}
// Overwrites the stack memory of functions that have returned: tasks may only use what is still alive.
__attribute__((noinline)) static void clobber_stack(unsigned char v) {
  volatile unsigned char dead[65536];
  for (unsigned i = 0; i < sizeof dead; i += 8) { *(volatile unsigned long long*)(dead + i) = v * 0x0101010101010101ull; }
}
// A workers pool that runs the tasks one after another, starting at task `rot`, and records what each
// one writes.
struct RecPool {
  TaskRecord* r;
  int rot;
  unsigned char fill;
  bool used = false;
  std::vector<unsigned char> final_;
  RecPool(TaskRecord* rec, int rt, unsigned char f) : r(rec), rot(rt), fill(f) {}
  template <class T> void Execute(const std::vector<T*>& tasks) {
    used = true;
    size_t n = tasks.size();
    final_.assign(r->result, r->result + (size_t)r->entries * r->esz);
    if (r->ext.size() < n) r->ext.resize(n, {1 << 30, 0});
    for (size_t i = 0; i < n; i++) {
      size_t t = (i + rot) % n;
      memset(r->scratch, fill ^ 0x11, r->ssz);
      memset(r->result, fill, (size_t)r->entries * r->esz);
      gemmlowp::Allocator a;
      tasks[t]->local_allocator = &a;
      clobber_stack(fill ^ 0x33);
      tasks[t]->Run();
      int lo, hi;
      written_extent(r->scratch, r->ssz, fill ^ 0x11, &lo, &hi);
      if (lo < hi) r->ext[t] = {std::min(r->ext[t].first, lo), std::max(r->ext[t].second, hi)};
      for (int e = 0; e < r->entries; e++) {
        unsigned char* q = r->result + (size_t)e * r->esz;
        bool ch = false;
        for (int b = 0; b < r->esz; b++) ch |= q[b] != fill;
        if (!ch) continue;
        if (r->owner[e] >= 0 && r->owner[e] != (int)t) r->multi.push_back(e);
        r->owner[e] = (int)t;
        memcpy(&final_[(size_t)e * r->esz], q, r->esz);
      }
    }
    for (auto* t : tasks) delete t;
  }
  void finish() { if (used) memcpy(r->result, final_.data(), final_.size()); }
};

template <class F, class G> static int run_histories(int argc, char** argv, F op_fn, G fresh) {
  FILE* in = fopen(argv[1], "r");
  int start = argc > 5 ? atoi(argv[5]) : 0;
  g_out = fopen(argv[2], start ? "a" : "w");
  if (!in || !g_out) return 3;
  install_fault_handlers();
  char* line = nullptr; size_t cap = 0; int no = 0;
  while (getline(&line, &cap, in) > 0) {
    if (no++ < start) continue;
    fresh();
    g_partial = "{\"ev\":[";
    std::stringstream ss(line);
    std::string op;
    bool firstop = true;
    while (std::getline(ss, op, ';')) {
      if (!firstop) g_partial += ",";
      firstop = false;
      std::stringstream o(op);
      std::string nm; o >> nm;
      std::string text = op.size() > 2 ? op.substr(2) : "", ev;
      while (!text.empty() && (text.back() == '\n' || text.back() == ' ')) text.pop_back();
      op_fn(nm, o, text, &ev);
      g_partial += ev;
    }
    g_partial += "]}\n";
    fwrite(g_partial.data(), 1, g_partial.size(), g_out);
    fflush(g_out);
  }
  fclose(g_out);
  return 0;
}
#endif
