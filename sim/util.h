// Small utilities: PRNG, hashing, plan lines, event log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h * 31 + v + 0x1234567); }
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xabcdef0123ULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); } // inclusive
  double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[static_cast<size_t>(below(static_cast<int>(v.size())))]; }
};
// the i-th coordinate of the point named by seed
inline double ptval(uint64_t seed, int i) {
  uint64_t h = mix64(seed * 1000003ULL + static_cast<uint64_t>(i) * 7919ULL + 17);
  double u = static_cast<double>(h >> 11) / 9007199254740992.0; // [0,1)
  double v = 0.2 + 1.3 * u;
  return (h & 1) ? v : -v;
}

typedef std::map<std::string, std::string> KV;
struct Line {
  std::string text;               // as written
  std::vector<std::string> w;     // words without '='
  KV kv;                          // key=value words
  int i(const char *k, int d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atoi(it->second.c_str()); }
  uint64_t u(const char *k, uint64_t d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
  double f(const char *k, double d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtod(it->second.c_str(), nullptr); }
  std::string s(const char *k, const char *d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
  const std::string &word(size_t k) const { static const std::string e; return k < w.size() ? w[k] : e; }
};
Line parse_line(const std::string &t);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
typedef std::vector<std::string> Plan;
Plan read_plan(const std::string &path);
std::string join_plan(const Plan &p);
