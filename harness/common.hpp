// Shared worker runtime: deterministic random numbers, event/violation reporting, case loop.
#pragma once
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const auto *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ULL;
  }
  return h;
}
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ULL;
    return mix(s);
  }
  // inclusive
  __attribute__((no_sanitize("signed-integer-overflow"))) long long range(long long lo, long long hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<long long>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> T pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// ---------------------------------------------------------------------------------------------
struct Reporter {
  FILE *f = nullptr;
  int progressFd = -1;
  long caseNo = -1;
  bool replay = false;
  std::string tmp; // private scratch directory of this worker
  std::map<std::string, double> stats;
  bool caseNontrivial = false;
  uint64_t caseHash = 0;
  int samplesLeft = 2;

  static std::string clean(std::string s, size_t max = 600) {
    for (auto &c : s)
      if (c == '\t' || c == '\n' || c == '\r' || (unsigned char)c < 32) c = ' ';
    if (s.size() > max) s = s.substr(0, max) + "...";
    return s;
  }
  void violation(const std::string &key, const std::string &detail) {
    fprintf(f, "V\t%ld\t%s\t%s\n", caseNo, clean(key, 200).c_str(), clean(detail).c_str());
    fflush(f);
  }
  void stat(const std::string &name, double add = 1) { stats[name] += add; }
  void statMax(const std::string &name, double v) {
    auto &s = stats["max:" + name];
    if (v > s) s = v;
  }
  // identifies the case for distinctness; non-trivial when the rule of the property says so
  void identity(uint64_t h, bool nontrivial) {
    caseHash = mix(caseHash ^ h);
    caseNontrivial = caseNontrivial || nontrivial;
  }
  void sample(const std::string &s) {
    if (samplesLeft > 0 && !replay) {
      samplesLeft--;
      fprintf(f, "X\t%ld\t%s\n", caseNo, clean(s, 1500).c_str());
    }
  }
  void flushStats() {
    for (auto &s : stats) fprintf(f, "S\t%s\t%.17g\n", s.first.c_str(), s.second);
    stats.clear();
    fflush(f);
  }
};

extern Reporter R;

struct Fail : std::exception {};

#define VCHECK(cond, key, detail)                                                                  \
  do {                                                                                             \
    if (!(cond)) {                                                                                 \
      std::ostringstream oss_;                                                                     \
      oss_ << detail;                                                                              \
      vf::R.violation(key, oss_.str());                                                            \
    }                                                                                              \
  } while (0)

inline std::string readAll(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
inline void writeAll(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
inline std::string hex(const std::string &s, size_t max = 80) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    o += d[(unsigned char)s[i] >> 4];
    o += d[s[i] & 15];
  }
  return o;
}

using CaseFn = std::function<void(Rng &rng, long idx)>;
struct Mode {
  CaseFn fn;
  bool exceptionIsViolation = true;
};
using Modes = std::map<std::string, Mode>;

// worker MODE FROM TO SEED OUTFILE PROGRESSFILE TMPDIR [replay]
int workerMain(int argc, char **argv, const Modes &modes);
} // namespace vf
