#pragma once
// Property-based testing engine: every random choice of a case comes from a
// "tape" of integers; a case runs in a forked child (fresh statics, crashes and
// endless loops become failures); a failing tape is shrunk (span deletion,
// zeroing, halving, decrementing) with the same child-per-run isolation and
// written out as the replay file.
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

class Ctx {
 public:
  // Draws ------------------------------------------------------------------
  uint64_t u64(uint64_t n) {  // [0,n); 0 is the simplest value
    if (n <= 1) return 0;
    uint64_t v;
    if (bytes_) {  // fuzzer bytes
      int need = 1; while (need < 8 && (n - 1) >> (8 * need)) ++need;
      v = 0;
      for (int i = 0; i < need; ++i) v |= uint64_t(bpos_ < bsize_ ? bytes_[bpos_++] : 0) << (8 * i);
      v %= n;
    } else if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      ++pos_;
      if (v >= n) v %= n;
    } else {
      v = (n & (n - 1)) == 0 ? splitmix(rng_) & (n - 1) : splitmix(rng_) % n;
    }
    out_.push_back(v);
    return v;
  }
  int i(int lo, int hi) { return lo + static_cast<int>(u64(static_cast<uint64_t>(int64_t(hi) - lo) + 1)); }
  bool chance(int percent) { return u64(100) >= static_cast<uint64_t>(100 - percent); }  // 0 -> false
  bool boolean() { return u64(2) == 1; }
  double unit() { return static_cast<double>(u64(1ull << 32)) / 4294967296.0; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }           // 0 -> lo
  double sym(double a) {                                                          // 0 -> 0, in (-a,a)
    uint64_t v = u64(1ull << 32);
    double m = static_cast<double>(v >> 1) / 2147483648.0;
    return (v & 1) ? -a * m : a * m;
  }
  double logu(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * unit()); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[u64(v.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + u64(l.size())); }
  // "continue?" draw: expected length about n, at most max; shrinks by span deletion
  bool more(int& count, int avg, int max) {
    if (count >= max) return false;
    bool go = u64(1000) >= static_cast<uint64_t>(1000 / (avg + 1));
    if (go) ++count;
    return go;
  }
  // Classification -----------------------------------------------------------
  void label(const std::string& l) { labels_ += l; labels_ += '\n'; }
  void nontrivial(bool b = true) { nontrivial_ = b; }
  bool is_nontrivial() const { return nontrivial_; }
  std::ostringstream& note() { return note_; }  // readable form of the case
  // Oracle -------------------------------------------------------------------
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void require(bool c, const std::string& m) { if (!c) throw Failure{m}; }
  void evals(uint64_t n) { evals_ += n; }

  // engine-side
  bool replay_ = false, nontrivial_ = false;
  uint64_t rng_ = 0, evals_ = 0;
  std::vector<uint64_t> in_, out_;
  size_t pos_ = 0;
  const unsigned char* bytes_ = nullptr; size_t bsize_ = 0, bpos_ = 0;
  std::string labels_;
  std::ostringstream note_;
};

typedef void (*CaseFn)(Ctx&);
struct Target { const char* name; CaseFn fn; const char* rule; };
std::vector<Target>& targets();
struct Register {
  Register(const char* n, CaseFn f, const char* rule = "") { targets().push_back(Target{n, f, rule}); }
};
#define PBT_TARGET(NAME, RULE) \
  static void pbt_case_##NAME(pbt::Ctx& c); \
  static pbt::Register pbt_reg_##NAME(#NAME, pbt_case_##NAME, RULE); \
  static void pbt_case_##NAME(pbt::Ctx& c)

#define PBT_REQUIRE(cond, stream) \
  do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << stream; c.fail(o_.str()); } } while (0)

}  // namespace pbt
