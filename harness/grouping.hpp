// The groups of a dataset as a saved file tells them.
#pragma once
#include "h.hpp"
#include <map>
#include <cstring>
struct GroupOf { V rep; std::vector<std::pair<int, int>> members; };
struct Grouping { int version = 0, count = 0, length = 0, from = 0, to = 0; double threshold = 0; std::string name; std::map<int, std::vector<GroupOf>> at; bool sane = true; };
double c_ratio();

struct Tok { std::string s; char kind; };      // 'i' integer, 'd' number, 'n' name
inline bool is_int(const std::string& s, long& x) { if (s.empty()) return false; char* e; errno = 0; x = strtol(s.c_str(), &e, 10); return !*e && errno == 0 && x >= -2147483648L && x <= 2147483647L; }
inline bool is_num(const std::string& s, double& x) { if (s.empty()) return false; for (char ch : s) if (!strchr("0123456789+-.eE", ch)) return false; char* e; errno = 0; x = strtod(s.c_str(), &e); return !*e && errno == 0; }
inline std::vector<std::string> split(const std::string& t) { std::istringstream i(t); std::vector<std::string> r; std::string s; while (i >> s) r.push_back(s); return r; }

// reads the saved format; false if it does not follow it. kinds, when given, receives the kind of every token
inline bool parse_groups(const std::string& text, Grouping& g, std::string& why, bool whole = true, std::string* kinds = nullptr) {
  std::vector<std::string> t = split(text); size_t p = 0;
  auto I = [&](int& x) { if (kinds) *kinds += 'i'; if (p >= t.size()) { why = "it ends early"; return false; } long y; if (!is_int(t[p], y)) { why = "\"" + t[p] + "\" is not an integer"; return false; } x = y; p++; return true; };
  auto D = [&](double& x) { if (kinds) *kinds += 'd'; if (p >= t.size()) { why = "it ends early"; return false; } if (!is_num(t[p], x)) { why = "\"" + t[p] + "\" is not a number"; return false; } p++; return true; };
  if (!I(g.version) || !D(g.threshold) || !I(g.count) || !I(g.length) || !I(g.from) || !I(g.to)) return false;
  if (kinds) *kinds += 'n';
  if (p >= t.size()) { why = "it ends early"; return false; }
  g.name = t[p++];
  if (g.to > 100000 || g.from < 0) { why = "range of lengths"; return false; }
  for (int len = g.from; len < g.to; len++) {
    int n; if (!I(n)) return false;
    if (n < 0 || n > 1000000) { why = "number of groups"; return false; }
    auto& v = g.at[len];
    for (int i = 0; i < n; i++) {
      GroupOf o; for (int k = 0; k < len; k++) { double x; if (!D(x)) return false; o.rep.push_back(x); }
      int m; if (!I(m)) return false;
      if (m < 0 || m > 1000000) { why = "number of members"; return false; }
      for (int k = 0; k < m; k++) { int a, b; if (!I(a) || !I(b)) return false; o.members.push_back({a, b}); }
      v.push_back(o);
    }
  }
  if (whole && p != t.size()) { why = "text after the last group"; return false; }
  return true;
}
inline std::vector<Tok> tokens_of(const std::string& text) {
  Grouping g; std::string why, kinds; parse_groups(text, g, why, true, &kinds);
  std::vector<std::string> t = split(text); std::vector<Tok> r;
  for (size_t i = 0; i < t.size(); i++) r.push_back({t[i], i < kinds.size() ? kinds[i] : '?'});
  return r;
}
// a partition of all subsequences of a count x length dataset
inline bool well_formed(const Grouping& g, int R, int L, std::string& why) {
  if (g.version != 1 || g.count != R || g.length != L || g.from != 2 || g.to != L + 1) { why = "version or dimensions"; return false; }
  for (auto& e : g.at) {
    std::vector<char> seen(R * (L - e.first + 1), 0); size_t n = 0;
    for (auto& o : e.second) {
      if (o.members.empty()) { why = "empty group"; return false; }
      for (auto& m : o.members) { if (m.first < 0 || m.first >= R || m.second < 0 || m.second > L - e.first) { why = "position outside the dataset"; return false; } char& c = seen[m.first * (L - e.first + 1) + m.second]; if (c) { why = "a position occurs twice"; return false; } c = 1; n++; }
    }
    if (n != seen.size()) { why = "positions are missing"; return false; }
  }
  return true;
}
inline bool same_groups(const Grouping& a, const Grouping& b, std::string& why) {
  if (a.at.size() != b.at.size()) { why = "number of lengths"; return false; }
  for (auto& e : a.at) {
    auto it = b.at.find(e.first); if (it == b.at.end() || it->second.size() != e.second.size()) { why = "number of groups of length " + num(e.first); return false; }
    for (size_t i = 0; i < e.second.size(); i++) {
      auto& x = e.second[i]; auto& y = it->second[i];
      for (size_t k = 0; k < x.rep.size(); k++) if (memcmp(&x.rep[k], &y.rep[k], 8) && !(x.rep[k] == 0 && y.rep[k] == 0)) { why = "representative of group " + num(i) + " of length " + num(e.first); return false; }
      std::vector<std::pair<int, int>> p = x.members, q = y.members; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
      if (p != q) { why = "members of group " + num(i) + " of length " + num(e.first); return false; }
    }
  }
  return true;
}
