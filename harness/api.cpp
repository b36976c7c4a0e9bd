// C14, C19
#include "h.hpp"
#include "data.hpp"
#include "OnexAPI.hpp"
#include <memory>
using namespace onex;

namespace {
struct D { int R, L; V v; std::string path; bool norm = false, grouped = false; };

int some_id(Rng& r, const std::map<int, D>& m, bool good) {
  if (good && !m.empty()) { auto it = m.begin(); std::advance(it, r.in(0, (int)m.size() - 1)); return it->first; }
  return r.pick(std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 6, 100, 2147483647, -2147483647 - 1});
}

Reg c14("C14", [](Ctx& c) {
  Rng& r = c.r;
  std::unique_ptr<OnexAPI> api(new OnexAPI());
  std::map<int, D> m;
  int steps = r.chance(1, 5) ? r.in(12, 30) : r.in(1, 12), serial = 0, maxseen = 0;
  auto dataset = [&](D& d) {
    d.R = r.in(1, 3); d.L = r.in(1, 5); d.v = values(r, d.R * d.L, r.in(0, 2));
    d.path = write_table(c, "f" + num(serial++ % 40) + ".txt", d.v, d.R, d.L);
  };
  auto verify = [&](const std::string& after) {
    if (api->getDatasetCount() != (int)m.size()) c.fail(after + ": " + num(api->getDatasetCount()) + " datasets are counted instead of " + num(m.size()));
    auto l = api->getAllDatasetInfo();
    if (l.size() != m.size()) c.fail(after + ": " + num(l.size()) + " datasets are listed instead of " + num(m.size()));
    auto it = m.begin();
    auto same = [&](const dataset_info_t& i, int id, const D& d) {
      if (i.id != id || i.name != d.path || i.itemCount != d.R || i.itemLength != d.L || i.isNormalized != d.norm || i.isGrouped != d.grouped)
        c.fail(after + ": dataset " + num(id) + " is reported as id " + num(i.id) + " " + i.name + " " + num(i.itemCount) + "x" + num(i.itemLength) + (i.isNormalized ? " normalised" : "") + (i.isGrouped ? " grouped" : "") + ", it is " + d.path + " " + num(d.R) + "x" + num(d.L) + (d.norm ? " normalised" : "") + (d.grouped ? " grouped" : ""));
    };
    for (auto& i : l) { same(i, it->first, it->second); ++it; }
    for (auto& e : m) same(api->getDatasetInfo(e.first), e.first, e.second);
    if (!m.empty() && r.chance(1, 3)) {
      auto k = m.begin(); std::advance(k, r.in(0, (int)m.size() - 1));
      if (saved_values(c, *api, k->first, k->second.R, k->second.L) != k->second.v) c.fail(after + ": dataset " + num(k->first) + " holds other values");
    }
  };
  for (int s = 0; s < steps; s++) {
    int op = r.in(0, 13);
    std::ostringstream what;
    switch (op) {
      case 0: case 1: case 2: case 3: {
        D d; dataset(d); what << "load"; c.in << what.str() << "; ";
        int want = 0; while (m.count(want)) want++;
        dataset_info_t i = api->loadDataset(d.path, 0, 0, " ");
        if (i.id != want) c.fail("the new dataset gets id " + num(i.id) + " instead of " + num(want));
        if (i.name != d.path || i.itemCount != d.R || i.itemLength != d.L || i.isGrouped || i.isNormalized) c.fail("the loaded dataset is described wrongly");
        m[want] = d; break; }
      case 4: {
        what << "failing load"; c.in << what.str() << "; ";
        std::string p; int col = 0;
        switch (r.in(0, 4)) { case 0: p = c.tmp + "/none"; break; case 1: p = write_file(c, "bad.txt", "1 2\n3\n"); break; case 2: p = write_file(c, "bad.txt", "1 x\n"); break; case 3: p = write_file(c, "bad.txt", ""); break; default: p = write_file(c, "bad.txt", "1 2\n"); col = r.pick(std::vector<int>{2, -1, 5}); }
        bool th = false; try { api->loadDataset(p, 0, col, " "); } catch (const OnexException&) { th = true; }
        if (!th) c.fail("the load is not refused"); break; }
      case 5: case 6: case 7: {
        int id = some_id(r, m, r.chance(3, 4)); what << "unload " << id; c.in << what.str() << "; ";
        bool th = false; try { api->unloadDataset(id); } catch (const OnexException&) { th = true; }
        if (th != !m.count(id)) c.fail(what.str() + (th ? " is refused" : " is not refused"));
        m.erase(id); break; }
      case 8: if (r.chance(1, 4)) { what << "unload all"; c.in << what.str() << "; "; api->unloadAllDataset(); m.clear(); } break;
      default: {
        int id = some_id(r, m, r.chance(2, 3)); bool ok = m.count(id); D* d = ok ? &m[id] : nullptr; bool th = false;
        try {
          switch (r.in(0, 7)) {
            case 0: what << "normalize " << id; c.in << what.str() << "; "; api->normalizeDataset(id);
              if (d) { double mn = d->v[0], mx = mn; for (double x : d->v) { mn = std::min(mn, x); mx = std::max(mx, x); } for (auto& x : d->v) x = mx == mn ? 0 : (x - mn) / (mx - mn); d->norm = true; d->grouped = false; d->v = saved_values(c, *api, id, d->R, d->L); } break;
            case 1: what << "group " << id; c.in << what.str() << "; "; api->groupDataset(id, 0.5); if (d) d->grouped = true; break;
            case 2: { int n = r.in(1, 3); what << "paa " << id << " " << n; c.in << what.str() << "; "; auto i = api->PAA(id, n); if (d) { d->L = (d->L - 1) / n + 1; d->grouped = false; if (i.id != id || i.itemLength != d->L) c.fail("aggregation reports another dataset"); d->v = saved_values(c, *api, id, d->R, d->L); } break; }
            case 3: what << "save " << id; c.in << what.str() << "; "; api->saveDataset(id, c.tmp + "/o.txt", ','); break;
            case 4: what << "info " << id; c.in << what.str() << "; "; api->getDatasetInfo(id); break;
            case 5: { bool g = d && d->grouped; what << "save groups " << id; c.in << what.str() << "; "; try { api->saveGroup(id, c.tmp + "/g.txt", r.chance(1, 2)); if (d && !g) c.fail("groups are saved although there are none"); } catch (const OnexException&) { if (!d || g) throw; } break; }
            case 6: { what << "load groups " << id; c.in << what.str() << "; "; std::string p = c.tmp + "/g2.txt"; remove(p.c_str()); bool g = d && d->grouped; if (g) api->saveGroup(id, p, false); try { api->loadGroup(id, p); if (d && !g) c.fail("groups are loaded from no file"); } catch (const OnexException&) { if (!d || g) throw; } break; }
            default: { int id2 = some_id(r, m, r.chance(2, 3)); bool first = r.chance(1, 2); int a = first ? id : id2, b = first ? id2 : id; what << "match " << a << " " << b; c.in << what.str() << "; ";
              bool ok2 = m.count(a) && m.count(b); bool answerable = ok2 && m[a].grouped; bool t2 = false;
              try { api->getBestMatch(a, b, 0); } catch (const OnexException&) { t2 = true; }
              if (!t2 && !answerable) c.fail(what.str() + " is answered");
              if (t2 && answerable && m[b].L >= 2 && m[a].L >= m[b].L) c.fail(what.str() + " is refused");
              ok = d != nullptr; th = !ok; }
          }
        } catch (const OnexException&) { th = true; }
        if (th == ok) c.fail(what.str() + (th ? " is refused" : " is not refused"));
      }
    }
    maxseen = std::max(maxseen, (int)m.size());
    if (!what.str().empty()) verify("after " + what.str());
  }
  c.nontrivial = maxseen > 1 && steps > 3;
});

// ---- C19: any of the operations, looked at only by the sanitizers
Reg c19("C19", [](Ctx& c) {
  static const std::vector<std::string> parts = {"C16", "C13", "C14", "C04", "C15", "C07", "C11", "C10", "C09", "C05", "C01", "C12", "C02"};
  std::string p = c.r.pick(parts); c.in << "[" << p << "] "; c.nontrivial = true;
  try { registry()[p](c); } catch (const Fail&) { } catch (const std::exception&) { }
  c.nontrivial = true;
});
}
