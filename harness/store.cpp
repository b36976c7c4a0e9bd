// C09, C10, C11, C12, C15 (subsequence requests)
#include "h.hpp"
#include "data.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "OnexAPI.hpp"
using namespace onex;

namespace {

// ---- C11
struct Table { std::vector<std::vector<std::string>> rows; std::string sep; std::string text; };

std::string bad_token(Rng& r) { return r.pick(std::vector<std::string>{"abc", "x1", "--1", "-", ".", "e5", "+-2", "#", "?", "NULL", "1e999", "-1e400", "1e-400", "a1.5"}); }

Reg c11("C11", [](Ctx& c) {
  Rng& r = c.r;
  if (r.chance(1, 150)) {      // a table whose first line and number of lines are both large: no such table is consistent
    int k = r.pick(std::vector<int>{65536, 65536, 92682, 131072});
    int m = k == 92682 ? 46341 : k == 131072 ? 32768 : 65536;
    std::string t; t.reserve(2 * (k + m) + 2);
    for (int i = 0; i < k; i++) t += "1 ";
    for (int i = 1; i < m; i++) t += "\n2";
    c.in << m << " lines, the first with " << k << " numbers, the others with one"; c.nontrivial = true;
    std::string path = write_file(c, "big.txt", t);
    GroupableTimeSeriesSet s; bool thrown = false;
    try { s.loadData(path, 0, 0, " "); } catch (const OnexException&) { thrown = true; }
    c.check(thrown, "a table with rows of different lengths is accepted");
    c.check(!s.isLoaded() && s.getItemCount() == 0, "the dataset is not empty after the failed load");
    return;
  }
  std::string seps = r.pick(std::vector<std::string>{" ", ",", ";", "\t", ", ", ",;", " \t", "|", ":;,"});
  int R = r.chance(1, 10) ? 0 : r.chance(1, 8) ? r.in(10, 40) : r.in(1, 6);
  int C = r.chance(1, 8) ? r.in(10, 40) : r.in(1, 6);
  std::vector<std::vector<std::string>> rows(R, std::vector<std::string>(C));
  for (auto& row : rows) for (auto& t : row) t = token(r, seps);
  // deviations
  int dev = r.in(0, 9);
  if (dev == 0 && R > 0) { auto& row = rows[r.in(0, R - 1)]; if (r.chance(1, 2) || C == 1) row.push_back("1"); else row.pop_back(); }
  if (dev == 1 && R > 0) { auto& row = rows[r.in(0, R - 1)]; row[r.in(0, (int)row.size() - 1)] = bad_token(r); }
  if (dev == 2 && R > 0) rows[r.in(0, R - 1)].clear();
  if (dev == 3 && R > 1) { for (int k = 0; k < 2; k++) { auto& row = rows[r.in(0, R - 1)]; if (row.empty()) continue; row[r.in(0, (int)row.size() - 1)] = bad_token(r); } }
  std::string text;
  bool junk = r.chance(1, 4);
  for (size_t i = 0; i < rows.size(); i++) {
    auto one = [&] { return std::string(1, seps[r.in(0, (int)seps.size() - 1)]); };
    if (junk && r.chance(1, 2)) text += one();
    for (size_t j = 0; j < rows[i].size(); j++) { if (j) { text += one(); if (junk && r.chance(1, 3)) text += one(); } text += rows[i][j]; }
    if (r.chance(1, 3)) text += one();
    if (i + 1 < rows.size() || r.chance(4, 5)) text += "\n";
  }
  // the lines as a reader sees them
  std::vector<std::string> lines; { std::istringstream is(text); std::string l; while (std::getline(is, l)) lines.push_back(l); }
  int maxrow = r.chance(1, 2) ? r.in(-3, 0) : r.chance(1, 6) ? r.pick(std::vector<int>{100, 1000000, 2147483647, -2147483647 - 1}) : r.in(1, std::max(1, (int)lines.size() + 2));
  int start = r.chance(1, 2) ? 0 : r.chance(1, 10) ? r.pick(std::vector<int>{2147483647, -2147483647 - 1, -2}) : r.in(-1, C + 1);
  bool missing = r.chance(1, 25), dir = r.chance(1, 25);
  std::string path = dir ? c.tmp : missing ? c.tmp + "/there/is/none" : write_file(c, "t.txt", text);
  c.in << "file " << (dir ? "<a directory>" : missing ? "<missing>" : quoted(text)) << " maxNumRow " << maxrow << " startCol " << start << " separators " << quoted(seps);
  // expected
  bool refuse = dir || missing || lines.empty();
  int n = lines.size(); if (maxrow > 0) n = std::min(n, maxrow);
  V want; int cols = 0;
  for (int i = 0; i < n && !refuse; i++) {
    std::vector<std::string> tk; std::string cur;
    for (char ch : lines[i]) { if (seps.find(ch) != std::string::npos) { if (!cur.empty()) tk.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) tk.push_back(cur);
    if (i == 0) { cols = tk.size(); if (start < 0 || start >= cols) refuse = true; }
    else if ((int)tk.size() != cols) refuse = true;
    for (int j = start; j < (int)tk.size() && !refuse; j++) { double x; if (!parse(tk[j], x)) refuse = true; else want.push_back(x); }
  }
  c.nontrivial = !refuse && n > 1;
  TimeSeriesSet plain; GroupableTimeSeriesSet grp;
  bool g = r.chance(1, 2);
  if (r.chance(1, 3)) { std::string p0 = write_file(c, "old.txt", "1 2 3\n4 5 6\n"); if (g) grp.loadData(p0, 0, 0, " "); else plain.loadData(p0, 0, 0, " "); c.in << " (over another dataset)"; if (g && r.chance(1, 2)) grp.groupAllLengths("euclidean", 1); }
  TimeSeriesSet& s = g ? (TimeSeriesSet&)grp : plain;
  bool thrown = false;
  try { if (g) grp.loadData(path, maxrow, start, seps); else plain.loadData(path, maxrow, start, seps); } catch (const OnexException&) { thrown = true; }
  if (thrown != refuse) c.fail(refuse ? "the load is not refused" : "the load is refused");
  if (thrown) {
    if (s.getItemCount() != 0 || s.getItemLength() != 0 || s.isLoaded()) c.fail("the dataset is not empty after the failed load: " + num(s.getItemCount()) + " x " + num(s.getItemLength()) + (s.isLoaded() ? ", loaded" : ""));
    bool t2 = false; try { s.getTimeSeries(0); } catch (const OnexException&) { t2 = true; }
    c.check(t2, "a series is handed out after a failed load");
    return;
  }
  c.check(s.isLoaded(), "a loaded dataset does not count as loaded");
  if (s.getItemCount() != n || s.getItemLength() != cols - start) c.fail("dimensions " + num(s.getItemCount()) + " x " + num(s.getItemLength()) + " instead of " + num(n) + " x " + num(cols - start));
  c.check(s.getFilePath() == path, "the file path is not recorded");
  V got = all_values(s);
  for (size_t k = 0; k < want.size(); k++) if (got[k] != want[k]) c.fail("value (" + num(k / (cols - start)) + "," + num(k % (cols - start)) + ") is " + num(got[k]) + " instead of " + num(want[k]));
});

// ---- C09
V dataset_values(Ctx& c, int n) {
  Rng& r = c.r;
  V v = values(r, n, r.pick(std::vector<int>{0, 1, 2, 3, 4, 4, 6}));
  if (r.chance(1, 8)) { double x = r.chance(1, 3) ? 0 : value(r, r.in(0, 4)); for (auto& y : v) y = x; }
  if (n > 0 && r.chance(1, 3)) v[r.chance(1, 2) ? n - 1 : r.in(0, n - 1)] = 1000;       // an extreme somewhere, often at the very end
  if (n > 0 && r.chance(1, 3)) v[r.chance(1, 2) ? 0 : r.in(0, n - 1)] = -1000;
  if (n > 0 && r.chance(1, 8)) for (auto& y : v) y = std::fabs(y) + 1;
  if (n > 0 && r.chance(1, 8)) for (auto& y : v) y = -std::fabs(y) - 1;
  return v;
}

Reg c09("C09", [](Ctx& c) {
  Rng& r = c.r;
  if (r.chance(1, 20)) {
    GroupableTimeSeriesSet g; TimeSeriesSet t; OnexAPI api; bool a = false, b = false;
    try { g.normalize(); } catch (const OnexException&) { a = true; }
    try { t.normalize(); } catch (const OnexException&) { b = true; }
    c.check(a && b, "an empty dataset is normalised");
    return;
  }
  int R = r.in(1, 6), L = r.chance(1, 8) ? r.in(10, 60) : r.in(1, 8);
  V v = dataset_values(c, R * L);
  std::string p = write_table(c, "n.txt", v, R, L);
  c.in << R << " series of length " << L << ": " << str(v); c.nontrivial = R > 1 && L > 1;
  double mn = v[0], mx = v[0]; for (double x : v) { mn = std::min(mn, x); mx = std::max(mx, x); }
  std::pair<data_t, data_t> mm; V got; int n2, l2; bool flag;
  int how = r.in(0, 2);
  TimeSeriesSet t; GroupableTimeSeriesSet g; OnexAPI api;
  if (how == 0) { t.loadData(p, 0, 0, " "); c.check(!t.isNormalized(), "a new dataset counts as normalised"); mm = t.normalize(); got = all_values(t); n2 = t.getItemCount(); l2 = t.getItemLength(); flag = t.isNormalized(); }
  else if (how == 1) { g.loadData(p, 0, 0, " "); if (r.chance(1, 3)) g.groupAllLengths("euclidean", 0.5); mm = g.normalize(); got = all_values(g); n2 = g.getItemCount(); l2 = g.getItemLength(); flag = g.isNormalized(); }
  else { api.loadDataset(p, 0, 0, " "); mm = api.normalizeDataset(0); auto i = api.getDatasetInfo(0); n2 = i.itemCount; l2 = i.itemLength; flag = i.isNormalized; got = saved_values(c, api, 0, R, L); }
  if (mm.first != mn || mm.second != mx) c.fail("minimum and maximum reported as " + num(mm.first) + ", " + num(mm.second) + " instead of " + num(mn) + ", " + num(mx));
  c.check(n2 == R && l2 == L, "dimensions changed");
  c.check(flag, "the dataset does not count as normalised");
  for (size_t k = 0; k < v.size(); k++) {
    double want = mx == mn ? 0 : (v[k] - mn) / (mx - mn);
    if (!(std::fabs(got[k] - want) <= 1e-12)) c.fail("value " + num(k) + " becomes " + num(got[k]) + " instead of " + num(want));
    if (!(got[k] >= 0 && got[k] <= 1 + 1e-12)) c.fail("value " + num(k) + " becomes " + num(got[k]) + ", outside [0,1]");
  }
});

// ---- C10
Reg c10("C10", [](Ctx& c) {
  Rng& r = c.r;
  int R = r.in(1, 6), L = r.chance(1, 8) ? r.in(10, 60) : r.in(1, 12);
  V v = dataset_values(c, R * L);
  std::string p = write_table(c, "p.txt", v, R, L);
  int n = r.chance(1, 8) ? r.in(-2, 0) : r.chance(1, 10) ? r.pick(std::vector<int>{L, L + 1, 1000, 2147483647, -2147483647 - 1}) : r.in(1, L + 2);
  c.in << R << " series of length " << L << ": " << str(v) << " block size " << n; c.nontrivial = n > 1 && n < L && R > 1;
  TimeSeriesSet t; GroupableTimeSeriesSet g; OnexAPI api;
  int how = r.in(0, 2); bool thrown = false;
  if (how == 0) t.loadData(p, 0, 0, " "); else if (how == 1) g.loadData(p, 0, 0, " "); else api.loadDataset(p, 0, 0, " ");
  for (int round = 0; round < 2; round++) {
    try { if (how == 0) t.PAA(n); else if (how == 1) g.PAA(n); else { auto i = api.PAA(0, n); if (i.itemLength != (L - 1) / n + 1 || i.itemCount != R) c.fail("reported dimensions " + num(i.itemCount) + " x " + num(i.itemLength)); } }
    catch (const OnexException&) { thrown = true; }
    if (thrown != (n <= 0)) c.fail(thrown ? "block size refused" : "block size not refused");
    V want; int nl = L;
    if (n <= 0) want = v;
    else {
      nl = L / n + (L % n != 0);
      for (int i = 0; i < R; i++) for (int k = 0; k < nl; k++) { double s = 0; int lo = k * n, hi = (long)(k + 1) * n < L ? (k + 1) * n : L; for (int j = lo; j < hi; j++) s += v[i * L + j]; want.push_back(s / (hi - lo)); }
    }
    int n2, l2;
    if (how == 2) { auto i = api.getDatasetInfo(0); n2 = i.itemCount; l2 = i.itemLength; } else { TimeSeriesSet& s = how == 0 ? t : g; n2 = s.getItemCount(); l2 = s.getItemLength(); }
    if (n2 != R || l2 != nl) c.fail("dimensions " + num(n2) + " x " + num(l2) + " instead of " + num(R) + " x " + num(nl));
    V got = how == 2 ? saved_values(c, api, 0, R, nl) : all_values(how == 0 ? t : g);
    double scale = 0; for (double x : v) scale = std::max(scale, std::fabs(x));
    for (size_t k = 0; k < want.size(); k++) if (!(std::fabs(got[k] - want[k]) <= 1e-12 * scale + 1e-300)) c.fail("value " + num(k % nl) + " of series " + num(k / nl) + " is " + num(got[k]) + " instead of " + num(want[k]));
    if (n <= 0 || round == 1) return;
    v = got; L = nl; n = r.in(1, L + 1); thrown = false; c.in << " then " << n;
  }
});

// ---- C12
Reg c12("C12", [](Ctx& c) {
  Rng& r = c.r;
  int R = r.in(1, 6), L = r.chance(1, 8) ? r.in(10, 40) : r.in(1, 8);
  V v(R * L);
  for (auto& x : v) {
    switch (r.in(0, 6)) {
      case 0: x = value(r, r.in(0, 5)); break;
      case 1: x = r.unit(); break;
      case 2: x = 1.0 / r.in(1, 1000); break;
      case 3: x = (r.unit() - 0.5) * std::pow(10.0, r.in(-300, 300)); break;
      case 4: { uint64_t b = r.next(); double y; memcpy(&y, &b, 8); x = std::isnormal(y) ? y : 0; break; }
      case 5: x = r.pick(std::vector<double>{1e308, -1e308, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 123456789.123456789, 1e15 + 0.3, 4.9e-300, 0.0, 1234567, 100000, 1e6, 99999.95}); break;
      default: x = r.in(-100000000, 100000000) / 1000.0;
    }
  }
  char sep = r.pick(std::vector<char>{' ', ',', ';', '\t', '|', ':', '/'});
  std::string p0 = write_table(c, "a.txt", V(R * L, 0.0), R, L), p1 = c.tmp + "/b.txt";
  remove(p1.c_str());
  if (r.chance(1, 6)) write_file(c, "b.txt", std::string(5000, 'x'));      // overwrites an older, longer file
  OnexAPI api; TimeSeriesSet t; bool viaapi = r.chance(1, 2);
  c.in << R << " series of length " << L << ": " << str(v) << " separator '" << sep << "'"; c.nontrivial = R > 1 && L > 1;
  if (viaapi) { p0 = write_table(c, "a.txt", v, R, L); api.loadDataset(p0, 0, 0, " "); api.saveDataset(0, p1, sep); }
  else { t.loadData(p0, 0, 0, " "); for (int i = 0; i < R; i++) { TimeSeries s = t.getTimeSeries(i); for (int j = 0; j < L; j++) s[j] = v[i * L + j]; } t.saveData(p1, sep);
         if (all_values(t) != v) c.fail("saving changes the dataset"); }
  // the file itself
  std::ifstream f(p1); std::string line; int row = 0;
  while (std::getline(f, line)) {
    size_t pos = 0; int col = 0;
    if (row >= R) c.fail("more lines than series");
    while (pos < line.size()) {
      size_t e = line.find(sep, pos);
      if (e == std::string::npos) c.fail("value " + num(col) + " of line " + num(row) + " is not followed by the separator: " + quoted(line));
      std::string tok = line.substr(pos, e - pos); char* ep; double x = strtod(tok.c_str(), &ep);
      if (tok.empty() || *ep) c.fail("line " + num(row) + " contains the token " + quoted(tok));
      if (col >= L) c.fail("line " + num(row) + " has more than " + num(L) + " values");
      if (x != v[row * L + col]) c.fail("value (" + num(row) + "," + num(col) + ") is written as " + tok + " instead of " + num(v[row * L + col]));
      col++; pos = e + 1;
    }
    if (col != L) c.fail("line " + num(row) + " has " + num(col) + " values instead of " + num(L));
    row++;
  }
  if (row != R) c.fail("the file has " + num(row) + " lines instead of " + num(R));
  TimeSeriesSet u; u.loadData(p1, 0, 0, std::string(1, sep));
  if (u.getItemCount() != R || u.getItemLength() != L || all_values(u) != v) c.fail("loading the saved file does not give the same dataset");
  bool thrown = false;
  try { if (viaapi) api.saveDataset(0, c.tmp + "/no/such/dir/f", sep); else t.saveData(c.tmp + "/no/such/dir/f", sep); } catch (const OnexException&) { thrown = true; }
  c.check(thrown, "saving to a file that cannot be opened is not an error");
});

// ---- C15, subsequence requests
Reg c15b("C15.set", [](Ctx& c) {
  Rng& r = c.r;
  int R = r.in(1, 5), L = r.in(1, 9);
  V v = values(r, R * L, 2);
  TimeSeriesSet t; t.loadData(write_table(c, "s.txt", v, R, L), 0, 0, " ");
  int idx = r.chance(1, 4) ? r.in(-2, R + 1) : r.in(0, R - 1), st, en;
  switch (r.in(0, 5)) {
    case 0: st = -1; en = -1; break;
    case 1: st = r.in(-3, -1); en = r.in(-3, -1); break;
    case 2: st = r.in(-1, L + 1); en = r.in(-1, L + 2); break;
    case 3: st = r.in(0, L - 1); en = st + r.in(0, 2); break;
    case 4: st = r.pick(std::vector<int>{0, L - 1, L, 2147483647, -2147483647 - 1}); en = r.pick(std::vector<int>{0, 1, L, L + 1, 2147483647, -2147483647 - 1}); break;
    default: st = r.in(0, L - 1); en = r.in(st + 1, L);
  }
  c.in << R << " series of length " << L << " request (" << idx << "," << st << "," << en << ")";
  bool whole = st < 0 && en < 0;
  bool ok = idx >= 0 && idx < R && (whole || (0 <= st && st < en && en <= L));
  if (whole) { st = 0; en = L; }
  c.nontrivial = ok;
  bool thrown = false;
  try {
    int ps = whole ? r.pick(std::vector<int>{-1, -5}) : st, pe = whole ? -1 : en;
    TimeSeries s = t.getTimeSeries(idx, ps, pe);
    if (ok) {
      if (s.getLength() != en - st || s.getIndex() != idx || s.getStart() != st || s.getEnd() != en) c.fail("coordinates " + num(s.getIndex()) + " [" + num(s.getStart()) + "," + num(s.getEnd()) + ") length " + num(s.getLength()));
      for (int k = 0; k < en - st; k++) if (s[k] != v[idx * L + st + k]) c.fail("value " + num(k) + " is " + num(s[k]) + " instead of " + num(v[idx * L + st + k]));
      for (int k : {-1, en - st, en - st + 3, -2147483647 - 1, 2147483647}) { bool th = false; try { volatile double x = s[k]; (void)x; } catch (const OnexException&) { th = true; } if (!th) c.fail("access at " + num(k) + " is not refused"); }
      TimeSeries cp(s), as(1); as = s;       // copies keep referring to the dataset
      int k = r.in(0, en - st - 1); double x = 12345.5; s[k] = x;
      if (cp[k] != x || as[k] != x || t.getTimeSeries(idx)[st + k] != x) c.fail("a copy of a series that refers to the dataset does not refer to the same values");
      s[k] = v[idx * L + st + k];
    }
  } catch (const OnexException&) { thrown = true; }
  if (thrown == ok) c.fail(ok ? "the request is refused" : "the request is not refused");
  if (all_values(t) != v) c.fail("the dataset changed");
  // distance of a stored subsequence and another series
  if (L >= 2) {
    int len = r.in(1, L), s0 = r.in(0, L - len), s1 = r.in(0, L - len), i0 = r.in(0, R - 1), i1 = r.in(0, R - 1);
    setWarpingBandRatio(1);
    data_t d = t.distanceBetween(i0, s0, len, t.getTimeSeries(i1, s1, s1 + len), "euclidean");
    V a(v.begin() + i0 * L + s0, v.begin() + i0 * L + s0 + len), b(v.begin() + i1 * L + s1, v.begin() + i1 * L + s1 + len);
    if (!close(d, euclid(a, b))) c.fail("distanceBetween is " + num(d) + " instead of " + num(euclid(a, b)));
  }
});
Reg c15("C15", [](Ctx& c) { if (c.r.chance(1, 2)) registry()["C15.set"](c); else registry()["C15.series"](c); });
}
