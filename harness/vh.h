// Shared runtime-monitoring harness: deterministic per-case RNG, violation
// reporting, progress file, measured counters.
#ifndef VH_H_
#define VH_H_
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return mix(h);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  // inclusive
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[below(i)]);
  }
};

struct CaseFail {};
struct CaseSkip {};

struct Ctx {
  Rng rng;
  uint64_t id = 0;
  uint64_t seed = 0;
  std::string dir; // private scratch directory of this case (created, removed)
  bool verbose = false;
  int effort = 0; // 0 quick, 1 thorough
  std::string opt; // --opt string from the driver
  bool mute = false; // no counting (counting takes a lock, which would order threads)
  std::string *probe = nullptr; // when set, failures are only stored here (trying out alternatives)
  // report a violation and abandon the case
  [[noreturn]] void fail(const std::string &sig, const std::string &msg);
  // report a violation, keep going
  void report(const std::string &sig, const std::string &msg);
  void expect(bool ok, const std::string &sig, const std::string &msg) {
    if (!ok)
      fail(sig, msg);
  }
  void nontrivial(uint64_t h);     // this case was non-trivial; h identifies it
  void count(const std::string &k, uint64_t n = 1); // measured event counters
  void maxof(const std::string &k, uint64_t n);
  void sample(const std::string &s);
  void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*CaseFn)(Ctx &);
struct Reg {
  Reg(const char *mode, CaseFn fn, bool want_dir);
};
#define VH_MODE(name, want_dir)                                                \
  static void vh_case_##name(vh::Ctx &c);                                      \
  static vh::Reg vh_reg_##name(#name, vh_case_##name, want_dir);               \
  static void vh_case_##name(vh::Ctx &c)

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string &s, size_t limit = 200); // printable
void rmrf(const std::string &dir);                          // scratch only
std::string slurp(const std::string &file);
void spit(const std::string &file, const std::string &content);
std::vector<std::string> list_dir(const std::string &dir);
size_t thread_count(); // threads of this process now
size_t base_threads(); // and when nothing of the code under test is running
bool exists(const std::string &path);
void copy_dir(const std::string &from, const std::string &to);
} // namespace vh
#endif
