// Shared harness plumbing: deterministic RNG, case loop, reporting protocol.
// Nothing in here depends on polytope.
#ifndef VT_COMMON_HH
#define VT_COMMON_HH
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }      // [0,1)
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }      // inclusive
  bool p(double prob) { return u() < prob; }
  double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x165667B19E3779F9ULL)); return r.next() ^ b; }
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}

// ---- reporting -------------------------------------------------------------
// Lines in the out file:
//   C <case>                     a case starts
//   V <case> <key> | <detail>    an oracle rejected an observation
//   D <case> <hash> <nontrivial> what the case produced (for distinct counts)
//   I <case> <reason>            inconclusive
//   N <name> <count>             counters (at the end)
//   X <text>                     sample
//   E                            worker finished
struct Report {
  int fd = 2;
  long cur = -1;
  std::map<std::string, long long> counters;
  int nsamples = 0;
  std::string desc;                    // description of the current input
  static Report& get() { static Report r; return r; }
  void open(const char* path) { fd = ::open(path, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) { perror(path); _exit(97); } }
  void line(const std::string& s) {
    std::string t = s;
    for (char& c : t) if (c == '\n') c = ' ';
    t += "\n";
    const char* p = t.data(); size_t n = t.size();
    while (n) { ssize_t k = ::write(fd, p, n); if (k <= 0) _exit(98); p += k; n -= k; }
  }
  void begin(long c) { cur = c; desc.clear(); line("C " + std::to_string(c)); }
  void viol(const std::string& key, const std::string& detail) {
    line("V " + std::to_string(cur) + " " + key + " | " + desc + " :: " + detail);
  }
  void distinct(uint64_t h, bool nontrivial) {
    char b[64]; snprintf(b, sizeof b, "%016llx %d", (unsigned long long)h, nontrivial ? 1 : 0);
    line("D " + std::to_string(cur) + " " + b);
  }
  void inconclusive(const std::string& why) { line("I " + std::to_string(cur) + " " + why); }
  void sample(const std::string& s) { if (nsamples++ < 3) line("X " + s); }
  void count(const std::string& n, long long k = 1) { counters[n] += k; }
  void maxi(const std::string& n, long long k) { auto& c = counters["max:" + n]; if (k > c) c = k; }
  void finish() {
    for (auto& kv : counters) line("N " + kv.first + " " + std::to_string(kv.second));
    line("E");
  }
};
inline Report& R() { return Report::get(); }

// for (Reps rep; rep.next();) runs its body once, or, with VT_LEAK set, four times on the same input and
// reports memory that each of the last two passes left behind.
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline size_t heapBytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
inline size_t heapBytes() { return 0; }
#endif
struct Reps {
  int n = 0; size_t h[5] = {0, 0, 0, 0, 0}; bool leak = getenv("VT_LEAK") != nullptr;
  bool next() {
    std::string d; d.swap(R().desc); std::string().swap(R().desc);
    if (n && !leak) { d.swap(R().desc); return false; }
    if (n) { size_t own = d.capacity() > 15 ? d.capacity() + 1 : 0; h[n] = heapBytes() - own; }
    if (n == 4) {
      d.swap(R().desc); R().count("leak_probes");
      if (h[3] > h[2] && h[4] > h[3]) R().viol("leak", std::string("every repetition leaves ") + std::to_string(h[4] - h[3]) + " more bytes allocated");
      return false;
    }
    ++n; return true;
  }
};

struct Str {
  std::ostringstream o;
  Str() { o.precision(17); }
  template <class T> Str& operator<<(const T& t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
  std::string str() const { return o.str(); }
};

}
#endif
