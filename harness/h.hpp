// Concrete search for failing inputs: runs the real code of /repo against independent oracles.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { s = next() ^ 0x1234567; s = next() * 3 + 1; }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)(next() % den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Fail : std::runtime_error { explicit Fail(const std::string& m) : std::runtime_error(m) {} };

struct Ctx {
  Rng r;
  std::ostringstream in;      // the input, in words
  bool nontrivial = false;
  std::string tmp;            // scratch directory
  explicit Ctx(uint64_t seed) : r(seed) { in.precision(17); }
  [[noreturn]] void fail(const std::string& m) { throw Fail(m); }
  void check(bool b, const std::string& m) { if (!b) fail(m); }
};

typedef std::vector<double> V;
inline std::string str(const V& v) { std::ostringstream o; o.precision(17); o << "{"; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "}"; return o.str(); }
inline std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

// equal up to a reordering of the rounding errors
inline bool close(double a, double b, double rel = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return std::fabs(a) > 1e150 && std::fabs(b) > 1e150;   // at the edge of overflow
  double m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= rel * m + 1e-300;
}

// ---- values
inline double value(Rng& r, int style) {
  switch (style) {
    case 0: return r.in(-3, 3);
    case 1: return r.in(0, 1);
    case 2: return r.unit();
    case 3: return (r.unit() - 0.5) * std::pow(10.0, r.in(-8, 8));
    case 4: return r.in(-50, 50) / 10.0;
    case 5: return (r.unit() - 0.5) * std::pow(10.0, r.in(100, 160));
    default: return r.chance(1, 8) ? r.in(-100, 100) : r.in(-2, 2) * 0.5;
  }
}
inline V values(Rng& r, int n, int style) { V v(n); for (auto& x : v) x = value(r, style); return v; }

// ---- oracles
inline int band_of(int longer, double ratio) { int b = (int)std::floor(longer * ratio); return std::min(b, longer - 1); }
// cheapest accumulated squared difference over the paths inside the band
double dtw_cost(const V& a, const V& b, int band);
double dtw(const V& a, const V& b, double ratio);
double euclid(const V& a, const V& b);      // normalised; equal lengths

typedef std::function<void(Ctx&)> Case;
std::map<std::string, Case>& registry();
struct Reg { Reg(const char* n, Case c) { registry()[n] = c; } };
