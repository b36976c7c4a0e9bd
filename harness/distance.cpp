// C01, C02, C03, C04, C18
#include "h.hpp"
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"
#include "Exception.hpp"
#include <memory>
#include <algorithm>
using namespace onex;

namespace {
struct S {            // a series as a view into a larger buffer
  V buf; V v; int off;
  S(Ctx& c, const V& vals) : v(vals) {
    off = c.r.chance(1, 2) ? 0 : c.r.in(1, 4);
    buf.resize(off + vals.size());
    for (int i = 0; i < off; i++) buf[i] = value(c.r, 0) * 7;
    for (size_t i = 0; i < vals.size(); i++) buf[off + i] = vals[i];
  }
  TimeSeries ts() { return TimeSeries(buf.data(), 0, off, off + (int)v.size()); }
};
double ratio_of(Rng& r) {
  switch (r.in(0, 5)) { case 0: return 0; case 1: return 1; case 2: return 0.1; case 3: return r.in(0, 20) / 20.0; case 4: return r.in(1, 9) / 10.0; default: return r.unit(); }
}
int len_of(Rng& r) { return r.chance(1, 12) ? r.in(20, 70) : r.chance(1, 3) ? r.in(1, 4) : r.in(1, 14); }
void two(Ctx& c, V& a, V& b, double& ratio) {
  Rng& r = c.r;
  int style = r.in(0, 11); if (style > 6) style = style - 7 > 2 ? 4 : style - 7;
  int m = len_of(r), n = r.chance(1, 2) ? m : r.chance(1, 2) ? std::max(1, m + r.in(-3, 3)) : len_of(r);
  a = values(r, m, style); b = values(r, n, style);
  if (r.chance(1, 6)) { for (size_t i = 0; i < b.size(); i++) b[i] = a[std::min(i, a.size() - 1)]; if (r.chance(1, 2)) b[r.in(0, n - 1)] += value(r, style); }
  ratio = ratio_of(r);
  setWarpingBandRatio(ratio);
  c.in << "a=" << str(a) << " b=" << str(b) << " ratio=" << ratio;
  c.nontrivial = m > 1 && n > 1 && a != b;
}
double cutoff_of(Ctx& c, double d) {
  Rng& r = c.r;
  double x;
  switch (r.in(0, 6)) {
    case 0: x = 0; break;
    case 1: x = INFINITY; break;
    case 2: x = std::isinf(d) ? 1 : d * (1 + r.unit()); break;
    case 3: x = std::isinf(d) ? 1 : d * r.unit(); break;
    case 4: x = std::isinf(d) ? 1 : d * (1 + 1e-6); break;
    case 5: x = std::isinf(d) ? 1 : d * (1 - 1e-6); break;
    default: x = r.unit() * 3;
  }
  c.in << " cutoff=" << x;
  return x;
}
// got must be exact, or infinity with exact not below the cutoff
void cut(Ctx& c, const char* what, double got, double exact, double cutoff) {
  if (close(got, exact)) return;
  if (std::isinf(got) && got > 0 && exact >= cutoff * (1 - 1e-9)) return;
  c.fail(std::string(what) + " returned " + num(got) + ", the exact distance is " + num(exact) + ", the cutoff " + num(cutoff));
}

Reg c01("C01", [](Ctx& c) {
  V a, b; double ratio; two(c, a, b, ratio);
  S sa(c, a), sb(c, b);
  TimeSeries ta = sa.ts(), tb = sb.ts();
  double got = warpedDistance(ta, tb, INF), want = dtw(a, b, ratio);
  if (!close(got, want)) c.fail("warpedDistance returned " + num(got) + ", the banded warping distance is " + num(want));
  auto d = getDistance("euclidean_dtw");
  if (!close(d(ta, tb, INF), want)) c.fail("distance euclidean_dtw is not the banded warping distance " + num(want));
});

Reg c02("C02", [](Ctx& c) {
  V a, b; double ratio; two(c, a, b, ratio);
  S sa(c, a), sb(c, b);
  TimeSeries ta = sa.ts(), tb = sb.ts();
  double w = warpedDistance(ta, tb, INF);
  double x = cutoff_of(c, w);
  cut(c, "warpedDistance", warpedDistance(ta, tb, x), w, x);
  double w2 = cascadeDistance(ta, tb, INF);
  cut(c, "cascadeDistance", cascadeDistance(ta, tb, x), w2, x);
  cut(c, "cascadeDistance (against the warped distance)", cascadeDistance(ta, tb, x), w, x);
  if (a.size() == b.size()) {
    double e = pairwiseDistance(ta, tb, INF);
    double y = cutoff_of(c, e);
    cut(c, "pairwiseDistance", pairwiseDistance(ta, tb, y), e, y);
    if (!close(e, euclid(a, b))) c.fail("pairwiseDistance returned " + num(e) + " instead of " + num(euclid(a, b)));
  }
});

Reg c03("C03", [](Ctx& c) {
  V a, b; double ratio; two(c, a, b, ratio);
  S sa(c, a), sb(c, b);
  TimeSeries ta = sa.ts(), tb = sb.ts();
  double w = dtw(a, b, ratio);
  double x = cutoff_of(c, w);
  auto bound = [&](const char* what, double lb, bool mayinf) {
    if (lb <= w * (1 + 1e-9)) return;
    if (mayinf && std::isinf(lb) && w > x * (1 - 1e-9)) return;
    c.fail(std::string(what) + " is " + num(lb) + ", above the warped distance " + num(w) + " (cutoff " + num(x) + ")");
  };
  bound("keoghLowerBound(a,b)", keoghLowerBound(ta, tb, x), false);
  bound("keoghLowerBound(b,a)", keoghLowerBound(tb, ta, x), false);
  bound("crossKeoghLowerBound(a,b)", crossKeoghLowerBound(ta, tb, x), true);
  bound("keoghLowerBound(a,b) without cutoff", keoghLowerBound(ta, tb, INF), false);
  double cd = cascadeDistance(ta, tb, x);
  if (std::isinf(cd) && !std::isinf(w) && w < x * (1 - 1e-9)) c.fail("cascadeDistance discards a pair at distance " + num(w) + " below the cutoff " + num(x));
});

void envelope(Ctx& c, const TimeSeries& t, const V& v, int band) {
  // either bound may be asked for first
  bool upfirst = c.r.chance(1, 2); V l, u;
  if (upfirst) { const data_t* up = t.getKeoghUpper(band); u = V(up, up + v.size()); }
  const data_t* lo = t.getKeoghLower(band);
  l = V(lo, lo + v.size());
  if (!upfirst) { const data_t* up = t.getKeoghUpper(band); u = V(up, up + v.size()); }
  lo = t.getKeoghLower(band);
  for (size_t i = 0; i < v.size(); i++) {
    double mn = INFINITY, mx = -INFINITY;
    for (int k = std::max(0, (int)i - band); k <= std::min((int)v.size() - 1, (int)i + band); k++) { mn = std::min(mn, v[k]); mx = std::max(mx, v[k]); }
    if (l[i] != mn || lo[i] != mn) c.fail("lower envelope at " + num(i) + " for band " + num(band) + " is " + num(l[i]) + "/" + num(lo[i]) + ", the minimum is " + num(mn) + " of " + str(v));
    if (u[i] != mx) c.fail("upper envelope at " + num(i) + " for band " + num(band) + " is " + num(u[i]) + ", the maximum is " + num(mx) + " of " + str(v));
  }
}

// a history of operations on a few series, with a value model beside each
struct M { std::unique_ptr<TimeSeries> t; std::shared_ptr<V> buf; V own; int off = 0, len = 0; bool owner = false; bool moved = false; int ix = 0, st = 0, en = 0;
  V vals() const { if (owner) return own; return V(buf->begin() + off, buf->begin() + off + len); } };
void series_history(Ctx& c, bool env) {
  Rng& r = c.r;
  int style = r.in(0, 4);
  std::vector<std::shared_ptr<V>> bufs;
  std::vector<M> ms;
  int L = r.chance(1, 6) ? r.in(10, 40) : r.in(1, 9);
  auto fresh = [&](bool owner, int len) {
    M m; m.len = len; m.owner = owner;
    if (owner) { m.t.reset(new TimeSeries(len)); m.own = V(len, 0.0); }
    else { m.off = r.in(0, 3); m.buf = std::make_shared<V>(values(r, m.off + len + r.in(0, 2), style)); m.ix = r.in(0, 5); m.st = m.off; m.en = m.off + len; m.t.reset(new TimeSeries(m.buf->data(), m.ix, m.off, m.off + len)); }
    if (owner) { m.ix = m.t->getIndex(); m.st = m.t->getStart(); m.en = m.t->getEnd(); }
    return m;
  };
  // a fresh series keeps its own coordinates in mind through getters only
  int N = r.in(2, 4);
  for (int i = 0; i < N; i++) { ms.push_back(fresh(r.chance(1, 2), r.chance(2, 3) ? L : r.in(1, 9)));
    c.in << "s" << i << (ms[i].owner ? " owns " : " views ") << str(ms[i].vals()) << "; "; }
  auto set = [&](M& m, int k, double x) { (*m.t)[k] = x; if (m.owner) m.own[k] = x; else (*m.buf)[m.off + k] = x; };
  auto verify = [&](int i) {
    M& m = ms[i];
    if (m.moved) return;
    V v = m.vals();
    c.check(m.t->getLength() == (int)v.size(), "length of s" + num(i));
    if (m.t->getIndex() != m.ix || m.t->getStart() != m.st || m.t->getEnd() != m.en) c.fail("s" + num(i) + " is at (" + num(m.t->getIndex()) + "," + num(m.t->getStart()) + "," + num(m.t->getEnd()) + ") instead of (" + num(m.ix) + "," + num(m.st) + "," + num(m.en) + ")");
    for (size_t k = 0; k < v.size(); k++) if ((*m.t)[k] != v[k]) c.fail("s" + num(i) + "[" + num(k) + "] is " + num((*m.t)[k]) + " instead of " + num(v[k]));
    for (int k : {-1, m.len, m.len + 1 + r.in(0, 9)}) {
      bool thrown = false;
      try { volatile double x = (*m.t)[k]; (void)x; } catch (const OnexException&) { thrown = true; }
      if (!thrown) c.fail("access of s" + num(i) + " at " + num(k) + " is not refused");
    }
  };
  std::vector<char> cached(N, 0);
  int steps = r.in(1, 10);
  c.nontrivial = steps > 1;
  for (int s = 0; s < steps; s++) {
    int i = r.in(0, N - 1), j = r.in(0, N - 1);
    M& a = ms[i]; M& b = ms[j];
    switch (r.in(0, 6)) {
      case 0: if (!a.moved) { int w = r.chance(1, 3) ? r.in(0, a.len + 2) : r.in(0, std::min(3, a.len)); c.in << "env s" << i << " band " << w << "; "; if (env) envelope(c, *a.t, a.vals(), w); cached[i] = 1; } break;
      case 1: if (!b.moved) { c.in << "s" << i << "=s" << j << "; "; *a.t = *b.t; if (i != j) { a.owner = b.owner; a.buf = b.buf; a.own = b.own; a.off = b.off; a.len = b.len; a.ix = b.ix; a.st = b.st; a.en = b.en; a.moved = false; cached[i] = 0; } } break;
      case 2: if (!b.moved && i != j) { c.in << "s" << i << "=copy of s" << j << "; "; int ix = b.t->getIndex(), st = b.t->getStart(), en = b.t->getEnd(); a.t.reset(new TimeSeries(*b.t));
          c.check(a.t->getIndex() == ix && a.t->getStart() == st && a.t->getEnd() == en, "coordinates of a copy");
          a.owner = b.owner; a.buf = b.buf; a.own = b.own; a.off = b.off; a.len = b.len; a.ix = b.ix; a.st = b.st; a.en = b.en; a.moved = false; cached[i] = 0; } break;
      case 3: if (!b.moved && i != j && r.chance(1, 2)) { c.in << "s" << i << "=move s" << j << "; "; *a.t = std::move(*b.t); a.owner = b.owner; a.buf = b.buf; a.own = b.own; a.off = b.off; a.len = b.len; a.ix = b.ix; a.st = b.st; a.en = b.en; a.moved = false; b.moved = true; cached[i] = 0; } break;
      case 4: if (!a.moved && !b.moved) {
          c.in << "s" << i << "+=s" << j << "; ";
          V x = a.vals(), y = b.vals();
          bool thrown = false;
          // other series may share the buffer: their envelopes are not claimed afterwards
          try { *a.t += *b.t; } catch (const OnexException&) { thrown = true; }
          c.check(thrown == (x.size() != y.size()), "addition is refused exactly for different lengths");
          if (!thrown) {
            if (a.owner) { for (int k = 0; k < a.len; k++) a.own[k] += y[k]; }
            else {
              // aliasing views: emulate the left-to-right order
              if (!b.owner && a.buf == b.buf) { for (int k = 0; k < a.len; k++) if ((*a.t)[k] != (*a.buf)[a.off + k]) c.fail("a view reads its buffer"); }
              else for (int k = 0; k < a.len; k++) if ((*a.buf)[a.off + k] != x[k] + y[k]) c.fail("sum at " + num(k));
            }
            for (int k = 0; k < N; k++) if (k != i && !a.owner && !ms[k].owner && ms[k].buf == a.buf && !ms[k].moved) { V z = ms[k].vals(); M m2; TimeSeries fr(ms[k].buf->data(), ms[k].t->getIndex(), ms[k].off, ms[k].off + ms[k].len); *ms[k].t = fr; cached[k] = 0; }
            if (env) { envelope(c, *a.t, a.vals(), r.in(0, a.len)); cached[i] = 1; }
          }
        } break;
      case 5: if (!a.moved && a.owner && !cached[i]) { int k = r.in(0, a.len - 1); double x = value(r, style); c.in << "s" << i << "[" << k << "]=" << x << "; "; set(a, k, x); } break;
      case 6: { int l2 = r.in(1, 9); bool ow = r.chance(1, 2); c.in << "s" << i << "=new series; "; a = fresh(ow, l2); cached[i] = 0; c.in << str(a.vals()) << "; "; } break;
    }
    verify(i); verify(j);
    if (env) for (int k : {i, j}) if (!ms[k].moved && r.chance(1, 2)) { int w = r.in(0, ms[k].len); c.in << "env s" << k << " band " << w << "; "; envelope(c, *ms[k].t, ms[k].vals(), w); cached[k] = 1; }
  }
  for (int i = 0; i < N; i++) verify(i);
}

Reg c04("C04", [](Ctx& c) {
  if (c.r.chance(1, 2)) {
    int n = c.r.chance(1, 10) ? c.r.in(50, 300) : c.r.in(1, 24);
    V v = values(c.r, n, c.r.in(0, 4));
    if (c.r.chance(1, 5)) std::sort(v.begin(), v.end());
    if (c.r.chance(1, 10)) std::reverse(v.begin(), v.end());
    int w = c.r.chance(1, 2) ? c.r.in(0, n + 1) : c.r.in(0, std::min(n, 4));
    c.in << "values " << str(v) << " band " << w; c.nontrivial = n > 1 && w > 0;
    S s(c, v); TimeSeries t = s.ts();
    envelope(c, t, v, w);
    int w2 = c.r.in(0, n); c.in << " then band " << w2;
    envelope(c, t, v, w2);
    return;
  }
  series_history(c, true);
});
Reg c15a("C15.series", [](Ctx& c) { series_history(c, false); });

Reg c18("C18", [](Ctx& c) {
  V a, b; double ratio; two(c, a, b, ratio);
  S sa(c, a), sb(c, b), sa2(c, a);
  TimeSeries ta = sa.ts(), tb = sb.ts(), tc = sa2.ts();
  double d1 = warpedDistance(ta, tb, INF), d2 = warpedDistance(tb, ta, INF);
  c.check(d1 >= 0, "warped distance is " + num(d1));
  if (!close(d1, d2)) c.fail("warped distance depends on the order: " + num(d1) + " and " + num(d2));
  double z = warpedDistance(ta, tc, INF);
  if (z != 0) c.fail("warped distance of equal series is " + num(z));
  double pz = pairwiseDistance(ta, tc, INF);
  if (pz != 0) c.fail("Euclidean distance of equal series is " + num(pz));
  auto pd = getDistance("euclidean"); auto wd = getDistance("euclidean_dtw");
  if (a.size() == b.size()) {
    double e1 = pairwiseDistance(ta, tb, INF), e2 = pairwiseDistance(tb, ta, INF);
    c.check(e1 >= 0, "Euclidean distance is " + num(e1));
    if (!close(e1, e2)) c.fail("Euclidean distance depends on the order");
    if (!close(pd(ta, tb, INF), euclid(a, b))) c.fail("distance euclidean is not the Euclidean distance");
  } else {
    for (auto f : {pd}) { bool thrown = false; try { f(ta, tb, INF); } catch (const OnexException&) { thrown = true; } if (!thrown) c.fail("Euclidean distance of different lengths is not refused"); }
    bool thrown = false; try { pairwiseDistance(tb, ta, 0.5); } catch (const OnexException&) { thrown = true; } if (!thrown) c.fail("Euclidean distance of different lengths is not refused");
  }
  if (!close(wd(ta, tb, INF), d1)) c.fail("distance euclidean_dtw is not the warped distance");
  std::string nm = c.r.pick(std::vector<std::string>{"", "euclid", "dtw", "euclidean_", "Euclidean", "euclidean_dtwx", "manhattan", "euclidean_dt", " euclidean"});
  bool thrown = false; try { getDistance(nm); } catch (const OnexException&) { thrown = true; }
  if (!thrown) c.fail("distance name \"" + nm + "\" is not refused");
});
}
