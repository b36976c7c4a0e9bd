#include "h.hpp"
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <iostream>

std::map<std::string, Case>& registry() { static std::map<std::string, Case> m; return m; }

double dtw_cost(const V& a, const V& b, int band) {
  int m = a.size(), n = b.size();
  const double inf = INFINITY;
  std::vector<V> c(m + 1, V(n + 1, inf));
  c[0][0] = 0;
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) {
      if (i - j > band || j - i > band) continue;
      double p = std::min(c[i - 1][j - 1], std::min(c[i - 1][j], c[i][j - 1]));
      double d = a[i - 1] - b[j - 1];
      c[i][j] = p + d * d;
    }
  return c[m][n];
}
double dtw(const V& a, const V& b, double ratio) {
  int l = std::max(a.size(), b.size());
  return std::sqrt(dtw_cost(a, b, band_of(l, ratio))) / (2 * l);
}
double euclid(const V& a, const V& b) {
  double t = 0;
  for (size_t i = 0; i < a.size(); i++) t += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(t / a.size());
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=1"; }

// harness PROPERTY SEED FIRST COUNT SECONDS PROGRESSFILE SCRATCH [SAMPLEFILE]
int main(int argc, char** argv) {
  if (argc < 8) { std::cerr << "usage\n"; return 2; }
  std::string prop = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  long first = atol(argv[3]), count = atol(argv[4]);
  double secs = atof(argv[5]);
  int pf = open(argv[6], O_CREAT | O_WRONLY | O_TRUNC, 0644);
  std::string scratch = argv[7];
  // the library prints to standard output; keep that apart from the verdict
  int out = dup(1);
  if (!getenv("ONEX_SHOW")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
  auto it = registry().find(prop);
  if (it == registry().end()) { dprintf(out, "NOSUCH %s\n", prop.c_str()); return 3; }
  auto t0 = std::chrono::steady_clock::now();
  long done = 0, nontriv = 0;
  std::vector<std::string> samples;
  for (long k = first; k < first + count; k++) {
    if (secs > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    char buf[32]; int n = snprintf(buf, sizeof buf, "%-20ld\n", k);
    if (pwrite(pf, buf, n, 0) < 0) return 2;
    alarm(60);
    Ctx c(seed * 1000003ull + k);
    c.tmp = scratch;
    try {
      it->second(c);
    } catch (const Fail& e) {
      dprintf(out, "FAIL case=%ld\nwhat: %s\ninput: %s\n", k, e.what(), c.in.str().c_str());
      return 1;
    } catch (const std::exception& e) {
      dprintf(out, "FAIL case=%ld\nwhat: unexpected exception: %s\ninput: %s\n", k, e.what(), c.in.str().c_str());
      return 1;
    }
    done++;
    if (c.nontrivial) nontriv++;
    if (samples.size() < 3 && c.nontrivial) samples.push_back(c.in.str());
  }
  dprintf(out, "OK cases=%ld nontrivial=%ld\n", done, nontriv);
  for (auto& s : samples) dprintf(out, "SAMPLE %s\n", s.substr(0, 400).c_str());
  return 0;
}
