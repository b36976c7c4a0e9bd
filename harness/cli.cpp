// C17: sessions of the command interpreter, with the lines fed through its own readline calls
#include "h.hpp"
#include "data.hpp"
#include <iostream>
#include <unistd.h>
#include <sys/stat.h>

namespace feed {
std::vector<std::pair<bool, std::string>> lines;   // true: end of file
size_t next = 0, asked = 0;
std::vector<size_t> mark;                          // output length when line k was asked for
std::stringstream* out = nullptr;
struct Done {};
}
extern "C" char* readline(const char*) {
  feed::mark.push_back(feed::out->str().size());
  feed::asked++;
  if (feed::asked > feed::lines.size() + 5) throw feed::Done();
  if (feed::next >= feed::lines.size()) return strdup("quit");
  auto& l = feed::lines[feed::next++];
  return l.first ? nullptr : strdup(l.second.c_str());
}
extern "C" void add_history(const char*) {}
int onex_cli_main(int, char**);

namespace {
using std::string;
struct Out { string text; bool alive; };
// one session over the given lines; the pieces of output between two prompts
std::vector<string> session(Ctx& c, const std::vector<std::pair<bool, string>>& lines, bool& ended) {
  feed::lines = lines; feed::next = feed::asked = 0; feed::mark.clear();
  std::stringstream o; feed::out = &o;
  std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  ended = true; // unless a further line is asked for
  try { static char a0[] = "onex"; char* av[] = {a0, nullptr}; onex_cli_main(1, av); }
  catch (const feed::Done&) { std::cout.rdbuf(old); std::cout.clear(); c.fail("the session does not end when asked to"); }
  catch (...) { std::cout.rdbuf(old); std::cout.clear(); c.fail("an exception leaves the interpreter"); }
  std::cout.rdbuf(old); std::cout.clear();
  if (feed::asked > lines.size()) { ended = false; feed::asked = lines.size() + 1; }      // a further line was asked for
  string t = o.str(); std::vector<string> r;
  for (size_t k = 0; k < feed::mark.size(); k++) { size_t a = feed::mark[k], b = k + 1 < feed::mark.size() ? feed::mark[k + 1] : t.size(); r.push_back(t.substr(a, b - a)); }
  return r;
}
string listing(Ctx& c) { bool e; auto r = session(c, {{false, "list dataset"}}, e); return r.empty() ? "" : r[0]; }
string contents(Ctx& c) {       // of the first datasets
  string s = listing(c);
  for (int i = 0; i < 4; i++) { remove((c.tmp + "/contents").c_str()); bool e; session(c, {{false, "save " + num(i) + " " + c.tmp + "/contents"}}, e); s += "|" + read_file(c.tmp + "/contents"); }
  return s;
}

Reg c17("C17", [](Ctx& c) {
  Rng& r = c.r;
  bool e;
  for (int i = 9; i >= 0; i--) session(c, {{false, "unload " + num(i)}}, e);
  string a = write_table(c, "a.txt", values(r, 8, 2), 2, 4), b = write_table(c, "b.txt", values(r, 9, 2), 3, 3);
  write_file(c, "bad.txt", "1 2\n3\n"); write_file(c, "csv.txt", "1,2\n3,4\n");
  static const std::vector<string> cmds = {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help"};
  auto word = [&]() -> string {
    switch (r.in(0, 6)) {
      case 0: case 1: return r.pick(std::vector<string>{"0", "1", "2", "0", "1"});
      case 2: return r.pick(std::vector<string>{"-1", "3", "7", "100", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "-99999999999999999999"});
      case 3: return r.pick(std::vector<string>{"abc", "x", "-", "--", "1.5", "0.2", "1e400", "1e-400", "nan", "inf", "1x", "+", "0x", ".", "//", "%s%n"});
      case 4: return r.pick(std::vector<string>{c.tmp + "/a.txt", c.tmp + "/b.txt", c.tmp + "/bad.txt", c.tmp + "/none", c.tmp, c.tmp + "/out.txt", c.tmp + "/g.txt", c.tmp + "/csv.txt"});
      case 5: return r.pick(std::vector<string>{"dataset", "distance", "on", "off", "help", "load", "match", "quit", "exit"});
      default: return num(r.in(0, 4));
    }
  };
  auto good = [&]() -> string {
    string id = num(r.in(0, 2));
    switch (r.in(0, 11)) {
      case 0: return "load " + c.tmp + "/a.txt";
      case 1: return "load " + c.tmp + "/b.txt 2 1";
      case 2: return "load " + c.tmp + "/csv.txt 0 0 ,";
      case 3: return "group " + id + " 0.3";
      case 4: return "saveGroup " + id + " " + c.tmp + "/g.txt" + (r.chance(1, 3) ? " 1" : "");
      case 5: return "loadGroup " + id + " " + c.tmp + "/g.txt";
      case 6: return "normalize " + id;
      case 7: return "paa " + id + " " + num(r.in(1, 3));
      case 8: return "match " + id + " " + num(r.in(0, 2)) + " " + num(r.in(0, 1));
      case 9: return "match " + id + " " + num(r.in(0, 2)) + " 0 0 2";
      case 10: return "save " + id + " " + c.tmp + "/out.txt" + (r.chance(1, 2) ? " ," : "");
      default: return r.pick(std::vector<string>{"list dataset", "list distance", "timer", "timer on", "timer off", "help", "help load", "unload " + id});
    }
  };
  // arguments a command takes: {least, most} beside its name
  static const std::map<string, std::pair<int, int>> arity = {{"load", {1, 4}}, {"save", {2, 3}}, {"unload", {1, 4}}, {"list", {1, 1}}, {"timer", {0, 1}}, {"group", {2, 2}}, {"saveGroup", {2, 3}}, {"loadGroup", {2, 2}}, {"normalize", {1, 1}}, {"paa", {2, 2}}, {"match", {3, 5}}, {"help", {0, 1}}};
  int steps = r.in(1, 10);
  std::vector<std::pair<bool, string>> lines;
  lines.push_back({false, "load " + c.tmp + "/a.txt"});
  if (r.chance(1, 2)) lines.push_back({false, "load " + c.tmp + "/b.txt"});
  for (int s = 0; s < steps; s++) {
    if (r.chance(2, 5)) { lines.push_back({false, good()}); continue; }
    if (r.chance(1, 12)) { lines.push_back({true, ""}); for (int k = r.in(0, 2); k > 0; k--) lines.push_back({false, r.pick(std::vector<string>{"x", "no", "Y", "yes", " n"})}); lines.push_back({false, "n"}); continue; }
    string l;
    if (r.chance(1, 12)) l = r.pick(std::vector<string>{"", "   ", "// load x", "//", "bogus", "Load a", "loadx", "list  dataset", " unload 7", "help help", "help exit", "help bogus", "help quit x"});
    else { l = r.pick(cmds); int n = r.in(0, 7); auto it = arity.find(l); if (r.chance(1, 2)) n = r.in(it->second.first, it->second.second); for (int k = 0; k < n; k++) l += string(r.chance(1, 10) ? 2 : 1, ' ') + word(); }
    lines.push_back({false, l});
  }
  c.in << "files a.txt (2x4), b.txt (3x3), bad.txt; session:"; for (auto& l : lines) c.in << " " << (l.first ? string("<end of file>") : quoted(l.second));
  c.nontrivial = steps > 2;
  // run line by line so that the state between the lines can be compared
  size_t k = 0;
  while (k < lines.size()) {
    size_t n = 1;
    if (lines[k].first) { while (k + n < lines.size() && !(lines[k + n - 1].second == "n" && !lines[k + n - 1].first)) n++; }
    std::vector<std::pair<bool, string>> part(lines.begin() + k, lines.begin() + k + n);
    string l = part[0].second; std::istringstream is(l); std::vector<string> w; string t; { size_t p = 0; while (p < l.size()) { size_t q = l.find(' ', p); if (q == string::npos) q = l.size(); if (q > p) w.push_back(l.substr(p, q - p)); p = q + 1; } }
    bool command = !part[0].first && !w.empty() && w[0].compare(0, 2, "//") != 0;
    bool count = command && r.chance(1, 2);
    auto ar = command ? arity.find(w[0]) : arity.end();
    bool wrong = command && (ar == arity.end() || (int)w.size() - 1 < ar->second.first || (int)w.size() - 1 > ar->second.second || (w[0] == "match" && w.size() == 5));
    string before; if (wrong || (count && !wrong)) before = contents(c);
    auto out = session(c, part, e);
    if (e) c.fail(part[0].first ? "an end of file answered with n ends the session" : "the line " + quoted(l) + " ends the session, which prints " + quoted(out.empty() ? "" : out.back()));
    if (feed::asked != n + 1) c.fail("the interpreter asks for " + num(feed::asked) + " lines instead of " + num(n + 1));
    if (command) {
      string o = out[0]; bool error = o.find("Error!") != string::npos;
      if (o.find_first_not_of(" \n") == string::npos) c.fail("the line " + quoted(l) + " is not answered");
      if (wrong && !error && !(w[0] == "unload" && (int)w.size() > 2)) c.fail("the line " + quoted(l) + " with a wrong number of arguments is not refused: " + quoted(o));
      if (o.find("Too few arguments") != string::npos || o.find("Too many arguments") != string::npos) { if (before.empty()) { } else if (contents(c) != before) c.fail("the refused line " + quoted(l) + " changes the datasets"); }
      bool clean = !w.empty();
      if (error && !before.empty() && w[0] != "load" && w[0] != "loadGroup") { string after = contents(c); auto strip = [](string x) { return x; }; if (strip(after) != strip(before) && w[0] != "group") c.fail("the line " + quoted(l) + " is answered with an error and changes the datasets"); }
      if (!error && w[0] == "load" && !before.empty() && contents(c) == before) c.fail("the line " + quoted(l) + " is answered as carried out, nothing is loaded");
      // numeric arguments that are not numbers must be refused
      auto numeric = [&](const string& x) { char* ep; strtod(x.c_str(), &ep); return ep != x.c_str(); };
      static const std::map<string, std::vector<int>> nums = {{"load", {2, 3}}, {"save", {1}}, {"unload", {1}}, {"group", {1, 2}}, {"saveGroup", {1, 3}}, {"loadGroup", {1}}, {"normalize", {1}}, {"paa", {1, 2}}, {"match", {1, 2, 3, 4, 5}}};
      auto nm = nums.find(w[0]); if (nm != nums.end() && !wrong) for (int ix : nm->second) if (ix < (int)w.size() && !numeric(w[ix]) && !error) c.fail("the line " + quoted(l) + " with a non-numeric argument is not refused: " + quoted(o));
    }
    k += n;
  }
  // leaving
  std::vector<std::vector<std::pair<bool, string>>> ends = {{{false, "quit"}}, {{false, "exit"}}, {{true, ""}, {false, "y"}}, {{true, ""}, {false, ""}}, {{true, ""}, {true, ""}}, {{true, ""}, {false, "q"}, {false, "y"}}, {{false, "quit now"}}};
  auto en = r.pick(ends); c.in << " then leaving with"; for (auto& l : en) c.in << " " << (l.first ? string("<end of file>") : quoted(l.second));
  session(c, en, e);
  if (!e || feed::asked != en.size()) c.fail("the session does not end when asked to");
});
}
