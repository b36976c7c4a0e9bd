// C05, C06, C07, C08, C13, C16
#include "h.hpp"
#include "data.hpp"
#include "grouping.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "GlobalGroupSpace.hpp"
#include "OnexAPI.hpp"
#include <memory>
#include <set>
using namespace onex;

namespace fb { template <class... A> int generateTraverseOrder(A...) { return 0; } }

namespace {
double ratio_of(Rng& r) { switch (r.in(0, 5)) { case 0: return 0; case 1: return 1; case 2: return 0.1; case 3: return r.in(0, 20) / 20.0; case 4: return r.in(1, 9) / 10.0; default: return r.unit(); } }
struct DS { V v; int R, L; V at(int i, int s, int n) const { return V(v.begin() + i * L + s, v.begin() + i * L + s + n); } };
DS dataset(Ctx& c, int maxR = 5, int maxL = 9) {
  Rng& r = c.r;
  DS d; d.R = r.in(1, maxR); d.L = r.chance(1, 15) ? r.in(maxL, 2 * maxL) : r.chance(1, 12) ? r.in(1, 2) : r.in(2, maxL);
  d.v = values(r, d.R * d.L, r.pick(std::vector<int>{0, 0, 1, 2, 2, 4, 4, 6}));
  if (r.chance(1, 6)) for (auto& x : d.v) x = d.v[0];
  if (d.R > 1 && r.chance(1, 4)) { int a = r.in(0, d.R - 1), b = r.in(0, d.R - 1); for (int k = 0; k < d.L; k++) d.v[b * d.L + k] = d.v[a * d.L + k]; }
  c.in << d.R << " series of length " << d.L << ": " << str(d.v) << " ";
  return d;
}
double threshold_of(Ctx& c) {
  Rng& r = c.r;
  double t;
  switch (r.in(0, 6)) { case 0: t = 0; break; case 1: t = 1e6; break; case 2: t = r.in(1, 8) / 2.0; break; case 3: t = r.unit() * 0.2; break; default: t = r.unit() * 3; }
  c.in << "threshold " << t << " ";
  return t;
}
Grouping groups_of(Ctx& c, const GroupableTimeSeriesSet& g, const char* file = "g.txt") {
  std::string p = c.tmp + "/" + file; g.saveGroups(p, false);
  Grouping x; std::string why;
  if (!parse_groups(read_file(p), x, why)) c.fail("the saved groups cannot be read: " + why);
  return x;
}
// partition of all subsequences, for every length
void partition(Ctx& c, const DS& d, const Grouping& g) {
  c.check(g.count == d.R && g.length == d.L, "dimensions of the grouping");
  c.check((int)g.at.size() == std::max(0, d.L - 1), "groups of " + num(g.at.size()) + " lengths instead of " + num(std::max(0, d.L - 1)));
  for (auto& e : g.at) {
    int len = e.first; std::set<std::pair<int, int>> seen;
    for (size_t i = 0; i < e.second.size(); i++) {
      auto& gr = e.second[i];
      std::string me = "group " + num(i) + " of length " + num(len);
      if (gr.members.empty()) c.fail(me + " is empty");
      if ((int)gr.rep.size() != len) c.fail(me + " has a representative of length " + num(gr.rep.size()));
      for (auto& m : gr.members) {
        if (m.first < 0 || m.first >= d.R || m.second < 0 || m.second + len > d.L) c.fail(me + " has the member (" + num(m.first) + "," + num(m.second) + ")");
        if (!seen.insert(m).second) c.fail("(" + num(m.first) + "," + num(m.second) + ") is a member of two groups of length " + num(len));
      }
    }
    if ((int)seen.size() != d.R * (d.L - len + 1)) c.fail(num(seen.size()) + " of " + num(d.R * (d.L - len + 1)) + " subsequences of length " + num(len) + " are in a group");
  }
}
double edist(const V& a, const V& b) { double t = 0; for (size_t i = 0; i < a.size(); i++) t += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(t / a.size()); }
const double E = 1e-9;
// every member near its representative; nearest representative; opener had none near
void near(Ctx& c, const DS& d, const std::vector<GroupOf>& gs, int len, double th, bool warped) {
  auto dist = [&](const V& a, const V& b) { return warped ? dtw(a, b, c_ratio()) : edist(a, b); };
  // the order of placement, when the lists show one (members are listed from the last to the first)
  auto key1 = [&](std::pair<int, int> m) { return (long)m.second * d.R + m.first; };
  auto key2 = [&](std::pair<int, int> m) { return (long)m.first * d.L + m.second; };
  bool o1 = true, o2 = true;
  for (auto& g : gs) for (size_t k = 1; k < g.members.size(); k++) { if (key1(g.members[k - 1]) <= key1(g.members[k])) o1 = false; if (key2(g.members[k - 1]) <= key2(g.members[k])) o2 = false; }
  if (o1 && o2) o2 = false;
  for (size_t i = 0; i < gs.size(); i++) {
    auto& g = gs[i];
    std::string me = "group " + num(i) + " of length " + num(len);
    bool found = false;
    for (auto& m : g.members) if (d.at(m.first, m.second, len) == g.rep) found = true;
    if (!found) c.fail("the representative of " + me + " is not a member");
    auto opener = g.members.back();
    for (auto& m : g.members) {
      V s = d.at(m.first, m.second, len);
      double x = dist(g.rep, s);
      if (x > th / 2 * (1 + E)) c.fail("member (" + num(m.first) + "," + num(m.second) + ") of " + me + " is " + num(x) + " from the representative, more than " + num(th / 2));
      for (size_t j = 0; j < gs.size(); j++) {
        bool existed = j < i;
        if (j > i && (o1 || o2) && m != opener) { auto oj = gs[j].members.back(); existed = o1 ? key1(oj) < key1(m) : key2(oj) < key2(m); }
        if (j == i || !existed) continue;
        double y = dist(gs[j].rep, s);
        if (m == opener) { if (y <= th / 2 * (1 - E)) c.fail("(" + num(m.first) + "," + num(m.second) + ") opened " + me + " although the representative of group " + num(j) + " is at " + num(y) + ", within " + num(th / 2)); }
        else if (y < x * (1 - E) - 1e-300) c.fail("(" + num(m.first) + "," + num(m.second) + ") joined " + me + " at " + num(x) + " although the representative of group " + num(j) + " is at " + num(y));
      }
    }
    if (d.at(opener.first, opener.second, len) != g.rep) c.fail("the first member of " + me + " is not its representative");
  }
}
std::vector<GroupOf> local_groups(Ctx& c, const LocalLengthGroupSpace& l, int len) {
  std::vector<GroupOf> r;
  for (int i = 0; i < l.getNumberOfGroups(); i++) {
    const Group* g = l.getGroup(i); GroupOf o;
    if (g->getMemberLength() != len) c.fail("group " + num(i) + " has member length " + num(g->getMemberLength()));
    auto ms = g->getMembers();
    if ((int)ms.size() != g->getCount()) c.fail("group " + num(i) + " reports " + num(g->getCount()) + " members and has " + num(ms.size()));
    for (auto& m : ms) { if (m.getLength() != len || m.getEnd() - m.getStart() != len) c.fail("a member of group " + num(i) + " has length " + num(m.getLength())); o.members.push_back({m.getIndex(), m.getStart()}); }
    const TimeSeries& t = g->getCentroid(); for (int k = 0; k < t.getLength(); k++) o.rep.push_back(t[k]);
    r.push_back(o);
  }
  return r;
}
double g_ratio = 0.1;
}
double c_ratio() { return g_ratio; }
namespace {
void set_ratio(Ctx& c, double x) { g_ratio = x; setWarpingBandRatio(x); c.in << "ratio " << x << " "; }

Reg c05("C05", [](Ctx& c) {
  Rng& r = c.r; DS d = dataset(c); double th = threshold_of(c); set_ratio(c, ratio_of(r));
  std::string name = r.chance(1, 3) ? "euclidean_dtw" : "euclidean"; c.in << name;
  GroupableTimeSeriesSet s; s.loadData(write_table(c, "d.txt", d.v, d.R, d.L), 0, 0, " ");
  c.nontrivial = d.L > 2 && d.R > 1;
  int n = s.groupAllLengths(name, th);
  Grouping g = groups_of(c, s);
  partition(c, d, g);
  int total = 0; for (auto& e : g.at) total += e.second.size();
  if (n != total) c.fail(num(n) + " groups are reported, there are " + num(total));
  if (!close(g.threshold, th)) c.fail("threshold recorded as " + num(g.threshold));
  if (r.chance(1, 2)) { int m = s.groupAllLengths(name, th); Grouping h = groups_of(c, s); c.check(m == n && h.at.size() == g.at.size(), "grouping again gives other groups"); partition(c, d, h); }
  if (d.L >= 2) {
    int len = r.in(2, d.L);
    LocalLengthGroupSpace l(s, len);
    int k = l.generateGroups(getDistance(name), th);
    c.check(k == l.getNumberOfGroups(), "number of groups of one length");
    Grouping one; one.count = d.R; one.length = d.L; one.at[len] = local_groups(c, l, len);
    for (int q : {-1, k, k + 5}) { bool th2 = false; try { l.getGroup(q); } catch (const OnexException&) { th2 = true; } c.check(th2, "a group outside the list is handed out"); }
    std::set<std::pair<int, int>> seen; for (auto& x : one.at[len]) { c.check(!x.members.empty(), "an empty group"); for (auto& m : x.members) c.check(seen.insert(m).second, "a member of two groups"); }
    c.check((int)seen.size() == d.R * (d.L - len + 1), num(seen.size()) + " subsequences of length " + num(len) + " are grouped instead of " + num(d.R * (d.L - len + 1)));
  }
});

Reg c06("C06", [](Ctx& c) {
  Rng& r = c.r; DS d = dataset(c); double th = threshold_of(c); set_ratio(c, ratio_of(r));
  c.nontrivial = d.L > 2 && d.R > 1;
  GroupableTimeSeriesSet s; std::string p = write_table(c, "d.txt", d.v, d.R, d.L); s.loadData(p, 0, 0, " ");
  if (r.chance(1, 2)) {
    s.groupAllLengths("euclidean", th); Grouping g = groups_of(c, s);
    for (auto& e : g.at) near(c, d, e.second, e.first, th, false);
  } else if (d.L >= 2) {
    int len = r.in(2, d.L); LocalLengthGroupSpace l(s, len); l.generateGroups(getDistance("euclidean"), th);
    near(c, d, local_groups(c, l, len), len, th, false);
  } else {
    OnexAPI api; api.loadDataset(p, 0, 0, " "); api.groupDataset(0, th);
  }
});

// the lengths a query of length q may be compared with
bool compatible(int q, int l, double ratio) { return std::abs(q - l) <= band_of(std::max(q, l), ratio); }

// is (index, start, length, dist) an admissible answer to the query
void answer(Ctx& c, const DS& d, const Grouping& g, const V& q, double ratio, const candidate_time_series_t& b) {
  int len = b.data.getLength(), ix = b.data.getIndex(), st = b.data.getStart();
  std::string at = "(" + num(ix) + "," + num(st) + "," + num(len) + ")";
  if (ix < 0 || ix >= d.R || st < 0 || len < 1 || st + len > d.L || b.data.getEnd() != st + len) c.fail("the match " + at + " is not a subsequence of the dataset");
  V m = d.at(ix, st, len);
  for (int k = 0; k < len; k++) if (b.data[k] != m[k]) c.fail("the values of the match " + at + " are not those of the dataset");
  double x = dtw(q, m, ratio);
  if (!close(x, b.dist)) c.fail("the distance of the match " + at + " is reported as " + num(b.dist) + ", the warped distance is " + num(x));
  double best = INFINITY; int bl = -1, bi = -1;
  const GroupOf* mine = nullptr;
  for (auto& e : g.at) if (compatible(q.size(), e.first, ratio))
    for (size_t i = 0; i < e.second.size(); i++) {
      auto& gr = e.second[i]; double y = dtw(gr.rep, q, ratio);
      if (y < best) { best = y; bl = e.first; bi = i; }
      if (e.first == len) for (auto& mm : gr.members) if (mm.first == ix && mm.second == st) mine = &gr;
    }
  if (!mine) c.fail("the match " + at + " is in no group of a compatible length");
  double rep = dtw(mine->rep, q, ratio);
  if (rep > best * (1 + E) + 1e-300) c.fail("the match " + at + " is from a group whose representative is at " + num(rep) + "; the representative of group " + num(bi) + " of length " + num(bl) + " is at " + num(best));
  for (auto& mm : mine->members) { double y = dtw(q, d.at(mm.first, mm.second, len), ratio); if (y < x * (1 - E) - 1e-300) c.fail("the match " + at + " is at " + num(x) + ", the member (" + num(mm.first) + "," + num(mm.second) + ") of the same group at " + num(y)); }
}
bool any_compatible(const Grouping& g, int q, double ratio) { if (q <= 1) return false; for (auto& e : g.at) if (!e.second.empty() && compatible(q, e.first, ratio)) return true; return false; }

V query_of(Ctx& c, const DS& d, int& len) {
  Rng& r = c.r;
  len = r.chance(1, 6) ? r.in(1, d.L + 6) : r.chance(1, 4) ? d.L : r.in(std::min(2, d.L), d.L + 1);
  V q = values(r, len, r.pick(std::vector<int>{0, 2, 4}));
  if (len <= d.L && r.chance(1, 2)) { q = d.at(r.in(0, d.R - 1), r.in(0, d.L - len), len); if (r.chance(1, 2)) for (auto& x : q) x += (r.unit() - 0.5) * 0.3; }
  c.in << "query " << str(q) << " ";
  return q;
}

Reg c07("C07", [](Ctx& c) {
  Rng& r = c.r; DS d = dataset(c, 4, 8); double th = threshold_of(c); double ratio = ratio_of(r); set_ratio(c, ratio);
  GroupableTimeSeriesSet s; std::string p = write_table(c, "d.txt", d.v, d.R, d.L); s.loadData(p, 0, 0, " ");
  s.groupAllLengths("euclidean", th);
  Grouping g = groups_of(c, s);
  GroupableTimeSeriesSet s2; bool re = r.chance(1, 4);
  if (re) { c.in << "(groups reloaded) "; s2.loadData(p, 0, 0, " "); s2.loadGroups(c.tmp + "/g.txt"); }
  for (int k = 0; k < 3; k++) {
    int len; V q = query_of(c, d, len);
    if (r.chance(1, 4)) { ratio = ratio_of(r); set_ratio(c, ratio); }
    c.nontrivial = len > 1 && d.L > 2;
    try {
      candidate_time_series_t b = [&]() {
        if (r.chance(1, 3)) {
          OnexAPI api; api.loadDataset(p, 0, 0, " "); api.groupDataset(0, th);
          V pad = q; pad.insert(pad.begin(), 9.5); pad.push_back(-9.5);
          api.loadDataset(write_table(c, "q.txt", pad, 1, pad.size()), 0, 0, " ");
          candidate_time_series_t x = api.getBestMatch(0, 1, 0, 1, 1 + len);
          answer(c, d, g, q, ratio, x);
          return candidate_time_series_t(TimeSeries(s.getTimeSeries(x.data.getIndex(), x.data.getStart(), x.data.getEnd())), x.dist);
        }
        TimeSeries t(q.data(), 0, 0, len);
        return (re ? s2 : s).getBestMatch(t);
      }();
      if (!any_compatible(g, len, ratio)) c.fail("a query without a compatible length is answered");
      answer(c, d, g, q, ratio, b);
    } catch (const OnexException& e) {
      if (any_compatible(g, len, ratio)) c.fail(std::string("the query is refused: ") + e.what());
    }
  }
});

template <class T> void orders(Ctx&, T, int, int, double) {}
void orders(Ctx& c, std::vector<int> o, int q, int total, double ratio) {
  std::multiset<int> got(o.begin(), o.end()), want;
  for (int l = 2; l <= total; l++) if (compatible(q, l, ratio)) want.insert(l);
  if (got != want) { std::string a, b; for (int x : got) a += " " + num(x); for (int x : want) b += " " + num(x); c.fail("a query of length " + num(q) + " is compared with the lengths" + a + " instead of" + b + " (dataset length " + num(total) + ")"); }
}
Reg c08("C08", [](Ctx& c) {
  Rng& r = c.r;
  if (r.chance(3, 4)) {
    double ratio = ratio_of(r); set_ratio(c, ratio);
    int q = r.chance(1, 3) ? r.in(2, 6) : r.in(2, 60), total = r.chance(1, 10) ? r.in(0, 1) : r.chance(1, 3) ? r.in(std::max(2, q - 4), q + 4) : r.in(2, 80);
    c.in << "query length " << q << " item length " << total; c.nontrivial = total > 2;
    using namespace fb;
    orders(c, generateTraverseOrder(q, total), q, total, ratio);
    return;
  }
  // one series of constant value per length would hide the lengths: make one subsequence the query itself
  DS d; d.R = r.in(1, 3); d.L = r.in(2, 12); d.v = V(d.R * d.L, 0.0);
  for (auto& x : d.v) x = r.chance(1, 3) ? 5 : r.unit() * 0.1;
  double ratio = ratio_of(r); c.in << d.R << " series of length " << d.L << ": " << str(d.v) << " "; set_ratio(c, ratio);
  GroupableTimeSeriesSet s; s.loadData(write_table(c, "d.txt", d.v, d.R, d.L), 0, 0, " ");
  s.groupAllLengths("euclidean", r.chance(1, 2) ? 0 : 0.2);
  Grouping g = groups_of(c, s);
  int len = r.in(1, d.L + 8); V q = values(r, len, 2); if (r.chance(1, 2)) for (auto& x : q) x *= 0.1;
  c.in << "query " << str(q); c.nontrivial = true;
  TimeSeries t(q.data(), 0, 0, len);
  bool thrown = false;
  try { candidate_time_series_t b = s.getBestMatch(t); if (any_compatible(g, len, ratio)) answer(c, d, g, q, ratio, b); } catch (const OnexException&) { thrown = true; }
  if (thrown == any_compatible(g, len, ratio)) c.fail(thrown ? "a query with a compatible length is refused" : "a query without a compatible length is answered");
});

// ---- C13
Reg c13("C13", [](Ctx& c) {
  Rng& r = c.r; DS d = dataset(c, 4, 6); double th = threshold_of(c); set_ratio(c, 0.3);
  std::string p = write_table(c, "d.txt", d.v, d.R, d.L);
  GroupableTimeSeriesSet a; a.loadData(p, 0, 0, " ");
  std::string name = r.chance(1, 4) ? "euclidean_dtw" : "euclidean";
  int n = a.groupAllLengths(name, th);
  Grouping g = groups_of(c, a, "g.txt");
  partition(c, d, g);
  std::string text = read_file(c.tmp + "/g.txt");
  std::string path = c.tmp + "/g.txt";
  // the dataset the groups are loaded into: the same values, or other values of the same dimensions
  V v2 = d.v; if (r.chance(1, 3)) v2 = values(r, d.R * d.L, 2);
  GroupableTimeSeriesSet b; b.loadData(write_table(c, "e.txt", v2, d.R, d.L), 0, 0, " ");
  bool had = r.chance(1, 2); std::string before;
  if (had) { b.groupAllLengths("euclidean", r.unit() * 2); b.saveGroups(c.tmp + "/before.txt", false); before = read_file(c.tmp + "/before.txt"); }
  int kind = r.in(0, 9); bool valid = true; bool clear = true; Grouping want = g; int wantn = n;
  if (kind <= 2) c.in << "(reload)";
  else if (kind == 3) { c.in << "(sizes only)"; a.saveGroups(path, true); text = read_file(path); if (d.L >= 2) valid = false; }
  else if (kind == 4) { // truncated
    size_t e = text.find_last_not_of(" \n\t"); size_t cut = r.in(0, (int)e); c.in << "(cut after " << cut << " bytes)"; path = write_file(c, "m.txt", text.substr(0, cut)); valid = false;
    if (d.L < 2) clear = false;
    // a cut inside the last number of the file leaves another number there
  }
  else if (kind == 5) { // other dimensions
    c.in << "(other dimensions)"; int R2 = d.R + r.in(-1, 2), L2 = d.L + r.in(-1, 2); if (R2 < 1) R2 = 1; if (L2 < 1) L2 = 1;
    V w = values(r, R2 * L2, 2); b.loadData(write_table(c, "e.txt", w, R2, L2), 0, 0, " "); had = false; valid = R2 == d.R && L2 == d.L;
    if (r.chance(1, 2)) { had = true; b.groupAllLengths("euclidean", 1); b.saveGroups(c.tmp + "/before.txt", false); before = read_file(c.tmp + "/before.txt"); }
  }
  else { // one or two tokens changed
    std::vector<Tok> toks = tokens_of(text);
    int m = r.in(1, 2); std::string what;
    for (int k = 0; k < m && !toks.empty(); k++) {
      int i = r.chance(1, 3) ? r.in(0, std::min(6, (int)toks.size() - 1)) : r.in(0, (int)toks.size() - 1);
      Tok& t = toks[i];
      switch (r.in(0, 4)) {
        case 0: what += " delete token " + num(i) + " (" + t.s + ")"; toks.erase(toks.begin() + i); clear = false; break;
        case 1: { Tok t2 = t; what += " repeat token " + num(i) + " (" + t.s + ")"; toks.insert(toks.begin() + i, t2); clear = false; break; }
        case 2: { std::string x = r.pick(std::vector<std::string>{"-1", "0", "1", "2", "3", "7", "100", "2147483647", "-2147483648", "99999999999", num(d.R), num(d.L), num(d.L - 1)}); what += " token " + num(i) + " " + t.s + " -> " + x; if (t.kind == 'n') clear = false; t.s = x; break; }
        case 3: { std::string x = r.pick(std::vector<std::string>{"x", "abc", "nan_", "-", "euclid"}); what += " token " + num(i) + " " + t.s + " -> " + x; t.s = x; break; }
        default: { int j = r.in(0, (int)toks.size() - 1); what += " exchange tokens " + num(i) + " (" + t.s + ") and " + num(j) + " (" + toks[j].s + ")"; std::swap(toks[i].s, toks[j].s); if (toks[i].kind != toks[j].kind) clear = false; }
      }
    }
    std::string mt; for (auto& t : toks) mt += t.s + (r.chance(1, 6) ? "\n" : " ");
    path = write_file(c, "m.txt", mt); c.in << "(changed:" << what << ")";
    std::string why; Grouping x;
    valid = parse_groups(mt, x, why, false);
    if (valid) { std::string w2; valid = well_formed(x, d.R, d.L, w2); want = x; wantn = 0; for (auto& e : x.at) wantn += e.second.size(); if (x.name != "euclidean" && x.name != "euclidean_dtw") valid = false; }
    if (d.L < 2 && m) clear = clear && true;
  }
  c.nontrivial = d.L > 2;
  bool thrown = false; int got = -1;
  try { got = b.loadGroups(path); } catch (const OnexException&) { thrown = true; }
  if (thrown) {
    if (valid && clear) c.fail("a valid group file is refused");
    if (b.isGrouped()) {
      if (!had) c.fail("the dataset is grouped after a failed load of groups");
      b.saveGroups(c.tmp + "/after.txt", false);
      if (read_file(c.tmp + "/after.txt") != before) c.fail("the groups changed although the load failed");
    }
    return;
  }
  if (!valid && clear) c.fail("the file is accepted");
  c.check(b.isGrouped(), "the dataset is not grouped after its groups were loaded");
  Grouping h = groups_of(c, b, "h.txt");
  if (clear) {
    if (got != wantn) c.fail(num(got) + " groups are reported instead of " + num(wantn));
    std::string why; if (!same_groups(want, h, why)) c.fail("the loaded groups differ: " + why);
  } else { std::string why; if (!well_formed(h, d.R, d.L, why)) c.fail("malformed groups were accepted: " + why); }
  if (d.L >= 2 && r.chance(1, 2)) { TimeSeries q = b.getTimeSeries(0); try { b.getBestMatch(q); } catch (const OnexException&) {} }
});

// ---- C16: a history of one dataset
Reg c16("C16", [](Ctx& c) {
  Rng& r = c.r; set_ratio(c, ratio_of(r));
  DS d; d.R = 0; d.L = 0;
  std::unique_ptr<GroupableTimeSeriesSet> s(new GroupableTimeSeriesSet());
  bool loaded = false, grouped = false, may = false;      // may: a failed operation may have dropped the groups
  std::string saved; int sR = -1, sL = -1;
  std::string rname; double rth = 0;
  int steps = r.in(2, 9);
  for (int k = 0; k < steps; k++) {
    int op = r.in(0, 11);
    bool thrown = false, regrouped = false;
    try {
      switch (op) {
        case 0: case 1: { DS n; n.R = r.chance(1, 2) && d.R ? d.R : r.in(1, 3); n.L = r.chance(1, 2) && d.L ? d.L : r.in(1, 6); n.v = values(r, n.R * n.L, r.pick(std::vector<int>{0, 2, 4})); c.in << "load " << n.R << "x" << n.L << " " << str(n.v) << "; ";
          s->loadData(write_table(c, "d.txt", n.v, n.R, n.L), 0, 0, " "); d = n; loaded = true; grouped = false; break; }
        case 2: { c.in << "failing load; "; grouped = false; loaded = false; d.R = d.L = 0; d.v.clear(); s->loadData(r.chance(1, 2) ? c.tmp + "/none" : write_file(c, "bad.txt", "1 2\n3 x\n"), 0, 0, " "); c.fail("a failing load is not reported"); }
        case 3: { c.in << "normalize; "; if (!loaded) { s->normalize(); c.fail("normalising no data is not refused"); }
          s->normalize(); grouped = false; d.v = all_values(*s); break; }
        case 4: { int n = r.in(1, 3); c.in << "paa " << n << "; "; if (!loaded) break; s->PAA(n); grouped = false; d.L = s->getItemLength(); d.v = all_values(*s); break; }
        case 5: c.in << "paa 0; "; may = true; s->PAA(0); c.fail("block size 0 is not refused");
        case 6: case 7: { double t = r.unit() * 2; c.in << "group " << t << "; "; std::string nm = r.chance(1, 3) ? "euclidean_dtw" : "euclidean"; if (r.chance(1, 2) && !rname.empty()) { t = rth; if (r.chance(1, 2)) nm = rname; } c.in << "(" << nm << " " << t << ") "; s->groupAllLengths(nm, t); if (!loaded) c.fail("grouping no data is not refused"); grouped = true; may = false; regrouped = true; rname = nm; rth = t; break; }
        case 8: c.in << "group by an unknown distance; "; may = true; s->groupAllLengths("none", 1); c.fail("an unknown distance is not refused");
        case 9: { c.in << "save groups; "; bool is = s->isGrouped(); s->saveGroups(c.tmp + "/k.txt", false); if (!is) c.fail("groups are saved although there are none"); saved = read_file(c.tmp + "/k.txt"); sR = d.R; sL = d.L; break; }
        case 10: { bool ok = !saved.empty() && sR == d.R && sL == d.L; std::string t = saved.empty() ? "1 2 3" : saved;
          if (ok && d.L > 1 && r.chance(1, 2)) { t = t.substr(0, r.in(0, (int)t.find_last_not_of(" \n") )); ok = false; }
          c.in << (ok ? "load groups; " : "load unsuitable groups; "); may = !ok; s->loadGroups(write_file(c, "l.txt", t)); if (!loaded || !ok) c.fail("unsuitable groups are accepted"); grouped = true; may = false; break; }
        case 11: c.in << "clear; "; s->clearData(); grouped = false; loaded = false; d.R = d.L = 0; d.v.clear(); break;
      }
    } catch (const OnexException&) {
      thrown = true;
      if (loaded && (op == 3 || op == 4 || op == 6 || op == 7)) c.fail("the operation is refused");
      if (op == 10 && !may && loaded) c.fail("the operation is refused");
    }
    // state
    if (may && !s->isGrouped()) grouped = false;
    may = false;
    if (s->isGrouped() != grouped) c.fail(grouped ? "the dataset is not grouped" : "the dataset is still grouped");
    c.check(s->isLoaded() == loaded && s->getItemCount() == d.R && s->getItemLength() == d.L, "dimensions");
    if (regrouped && grouped) {      // groups formed from the current values are those of a dataset with the same values and no history
      GroupableTimeSeriesSet f; f.loadData(write_table(c, "f.txt", d.v, d.R, d.L), 0, 0, " "); f.groupAllLengths(rname, rth);
      if (all_values(f) == d.v) { Grouping x = groups_of(c, *s), y = groups_of(c, f, "y.txt"); std::string why; if (!same_groups(y, x, why)) c.fail("the groups are not those of the current values, distance and threshold: " + why); }
    }
    int len = r.in(2, std::max(2, d.L)); V q = values(r, len, 2); TimeSeries t(q.data(), 0, 0, len);
    bool refused = false;
    try {
      candidate_time_series_t b = s->getBestMatch(t);
      if (!grouped) c.fail("a query is answered although the dataset is not grouped");
      Grouping now = groups_of(c, *s); c.nontrivial = true;
      bool own = true;      // representatives taken from other values are possible after loading groups
      partition(c, d, now);
      for (auto& e : now.at) for (auto& x : e.second) { bool f = false; for (auto& m : x.members) if (d.at(m.first, m.second, e.first) == x.rep) f = true; own = own && f; }
      if (own) answer(c, d, now, q, c_ratio(), b);
      else { V m = d.at(b.data.getIndex(), b.data.getStart(), b.data.getLength()); if (!close(dtw(q, m, c_ratio()), b.dist)) c.fail("the distance is that of other values"); }
    } catch (const OnexException&) { refused = true; }
    if (refused && grouped) { Grouping now = groups_of(c, *s); partition(c, d, now); if (any_compatible(now, len, c_ratio())) c.fail("a query of the grouped dataset is refused"); }
  }
});
}
