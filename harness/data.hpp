// Files and datasets for the concrete search.
#pragma once
#include "h.hpp"
#include <fstream>
#include <cstring>
#include <algorithm>
#include "TimeSeriesSet.hpp"
#include "Exception.hpp"

inline std::string quoted(const std::string& s) { std::string o = "\""; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch == '"') o += "\\\""; else o += ch; } return o + "\""; }
inline std::string write_file(Ctx& c, const std::string& name, const std::string& text) { std::string p = c.tmp + "/" + name; std::ofstream f(p, std::ios::binary | std::ios::trunc); f << text; f.close(); return p; }
inline std::string read_file(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::string write_table(Ctx& c, const std::string& name, const V& v, int R, int L) {
  std::ostringstream o; o.precision(17);
  for (int i = 0; i < R; i++) { for (int j = 0; j < L; j++) o << (j ? " " : "") << v[i * L + j]; o << "\n"; }
  return write_file(c, name, o.str());
}
inline V all_values(const onex::TimeSeriesSet& s) {
  V v;
  for (int i = 0; i < s.getItemCount(); i++) { onex::TimeSeries t = s.getTimeSeries(i); for (int j = 0; j < s.getItemLength(); j++) v.push_back(t[j]); }
  return v;
}
template <class API> V saved_values(Ctx& c, API& api, int id, int R, int L) {
  std::string p = c.tmp + "/saved.txt"; api.saveDataset(id, p, ' ');
  std::ifstream f(p); V v; std::string tok; while (f >> tok) v.push_back(strtod(tok.c_str(), 0));
  if ((int)v.size() != R * L) c.fail("the dataset holds " + num(v.size()) + " values instead of " + num(R * L));
  return v;
}
// a number the way strtod reads it, in the normal range
inline bool parse(const std::string& t, double& x) { char* e; errno = 0; x = strtod(t.c_str(), &e); return e != t.c_str() && errno != ERANGE; }
inline std::string token(Rng& r, const std::string& seps) {
  std::ostringstream o;
  switch (r.in(0, 5)) {
    case 0: o << r.in(-1000, 1000); break;
    case 1: o.precision(17); o << value(r, r.in(2, 4)); break;
    case 2: o << r.in(-50, 50) / 4.0; break;
    case 3: o << std::scientific << value(r, 3); break;
    case 4: o << (r.chance(1, 2) ? "+" : "") << r.in(0, 99) << "." << r.in(0, 999); break;
    default: o << r.in(0, 9);
  }
  return o.str();
}
