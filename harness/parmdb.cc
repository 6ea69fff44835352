// Monitors for parameter axes, grids, values and their storage.
#include "vh.h"

#include <casacore/casa/Arrays/Array.h>
#include <casacore/tables/Tables/Table.h>

#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include <set>

#include "parmdb/Axis.h"
#include "parmdb/AxisMapping.h"
#include "parmdb/Box.h"
#include "parmdb/Grid.h"
#include "parmdb/Parm.h"
#include "parmdb/ParmCache.h"
#include "parmdb/ParmDB.h"
#include "parmdb/ParmFacade.h"
#include "parmdb/ParmMap.h"
#include "parmdb/ParmSet.h"
#include "parmdb/ParmValue.h"

using vh::R;
using vh::Rng;
using vh::S;
using namespace dp3::parmdb;
namespace cc = casacore;

namespace {

struct Cells {
  std::vector<double> lo, up;
  size_t size() const { return lo.size(); }
  double mid(size_t i) const { return 0.5 * (lo[i] + up[i]); }
  double width(size_t i) const { return up[i] - lo[i]; }
  Cells Part(size_t a, size_t b) const { return {{lo.begin() + a, lo.begin() + b}, {up.begin() + a, up.begin() + b}}; }
  Axis::ShPtr Make(Rng& r) const {
    bool same = true;
    for (size_t i = 0; i < size(); ++i) same = same && std::abs(width(i) - width(0)) < 1e-9 * width(0) && (i == 0 || lo[i] == up[i - 1]);
    if (same && r.chance(0.7)) {
      if (r.chance(0.5)) return std::make_shared<RegularAxis>(lo[0], width(0), unsigned(size()));
      return std::make_shared<RegularAxis>(lo[0], up.back(), unsigned(size()), true);
    }
    if (r.chance(0.5)) return std::make_shared<OrderedAxis>(lo, up, true);
    std::vector<double> c, w;
    for (size_t i = 0; i < size(); ++i) c.push_back(mid(i)), w.push_back(width(i));
    return std::make_shared<OrderedAxis>(c, w, false);
  }
  std::string Str() const {
    std::string s = S("[", lo.empty() ? 0.0 : lo[0]);
    for (size_t i = 0; i < size(); ++i) s += S(i && lo[i] != up[i - 1] ? " gap " : " ", up[i]);
    return s + "]";
  }
};

/// Cells with edges that are exact, of frequencies, times or plain numbers.
Cells MakeCells(Rng& r, size_t n, bool gaps) {
  const int kind = int(r.below(3));
  double x = kind == 0 ? 30e6 + 195312.5 * r.range(0, 200) : kind == 1 ? 4.9e9 + 0.5 * r.range(0, 100000) : 0.25 * r.range(0, 400) - 50;
  const double unit = kind == 0 ? 195312.5 : kind == 1 ? 0.5 : 0.25;
  const bool regular = r.chance(0.5);
  const int w0 = int(r.range(1, 8));
  Cells c;
  for (size_t i = 0; i < n; ++i) {
    if (gaps && i && r.chance(0.3)) x += unit * r.range(1, 5);
    const double w = unit * (regular ? w0 : r.range(1, 8));
    c.lo.push_back(x);
    c.up.push_back(x + w);
    x += w;
  }
  return c;
}

bool Near(double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)) + 1e-300; }
bool Same(const Axis& a, const Cells& c) {
  if (a.size() != c.size()) return false;
  for (size_t i = 0; i < c.size(); ++i)
    if (!Near(a.lower(i), c.lo[i]) || !Near(a.upper(i), c.up[i]) || !Near(a.center(i), c.mid(i)) || std::abs(a.width(i) - c.width(i)) > 1e-5 * c.width(i)) return false;
  return true;
}
std::string Str(const Axis& a) { return Cells{a.lowers(), a.uppers()}.Str(); }
bool IsDefault(const Axis& a) { return a.size() == 1 && a.lower(0) < -1e29 && a.upper(0) > 1e29; }

/// The cell that holds x, or where the search stops.
std::pair<size_t, bool> Find(const Cells& c, double x, bool right) {
  const auto close = [](double a, double b) { return std::abs(a - b) <= 1e-13 * std::max(std::abs(a), std::abs(b)); };
  for (size_t i = 0; i < c.size(); ++i) {
    if (close(x, c.lo[i])) { if (right) return {i, true}; else if (!(i && close(x, c.up[i - 1]))) return {i, false}; }
    else if (close(x, c.up[i])) { if (!right) return {i, true}; }
    else if (x < c.lo[i]) return {i, false};
    else if (x < c.up[i]) return {i, true};
  }
  return {c.size(), false};
}

void AxisCase(Rng& r, size_t) {
  const bool gaps = r.chance(0.4);
  const Cells c = MakeCells(r, r.range(1, 8), gaps);
  const Axis::ShPtr a = c.Make(r);
  R().Describe(c.Str());
  if (c.size() > 1) R().Nontrivial(c.Str());
  VH_EXPECT(Same(*a, c), "axis", "the axis is ", Str(*a));
  VH_EXPECT(Near(a->start(), c.lo[0]) && Near(a->end(), c.up.back()), "axis-range", a->start(), " ", a->end());
  VH_EXPECT(*a->clone() == *a && Same(*a->clone(), c), "axis-clone", "the clone is ", Str(*a->clone()));
  for (int t = 0; t < 12; ++t) {
    const size_t i = r.below(c.size());
    double x;
    switch (r.below(6)) {
      case 0: x = c.lo[i]; break;
      case 1: x = c.up[i]; break;
      case 2: x = c.lo[i] - c.width(i) * r.real(0.05, 3); break;
      case 3: x = c.up[i] + c.width(i) * r.real(0.05, 3); break;
      default: x = c.lo[i] + c.width(i) * r.real(0.02, 0.98);
    }
    const bool right = r.chance(0.5);
    const size_t hint = r.chance(0.3) ? 0 : r.below(c.size() + 3);
    const auto want = Find(c, x, right), got = a->find(x, right, hint);
    VH_EXPECT(got == want, "axis-find", "find(", x, right ? " right" : " left", " from ", hint, ") gives ", got.first, got.second ? " found" : " not found", ", not ", want.first, want.second ? " found" : " not found");
    bool threw = false;
    size_t at = 0;
    try { at = a->locate(x, right, hint); } catch (const std::exception&) { threw = true; }
    VH_EXPECT(threw == !want.second && (threw || at == want.first), "axis-locate", "locate(", x, ") gives ", at, threw ? " (refused)" : "");
  }
  // Parts.
  const size_t s = r.below(c.size()), e = s + r.below(c.size() - s + 2);
  VH_EXPECT(Same(*a->subset(s, e), c.Part(s, std::min(e + 1, c.size()))), "axis-subset", "cells ", s, " to ", e, " are ", Str(*a->subset(s, e)));
  if (!gaps) {
    double x1 = c.lo[0] + (c.up.back() - c.lo[0]) * r.real(-0.5, 1.2), x2 = x1 + (c.up.back() - c.lo[0]) * r.real(0.01, 1.2);
    if (r.chance(0.3)) x1 = c.lo[r.below(c.size())];
    if (r.chance(0.3)) x2 = c.up[r.below(c.size())];
    // (what nearly touches is left out: near() decides there)
    const auto touches = [&](double v) { for (size_t i = 0; i < c.size(); ++i) for (double e : {c.lo[i], c.up[i]}) if (v != e && std::abs(v - e) < 1e-11 * std::abs(e)) return true; return false; };
    if (x2 > x1 && !Near(x1, x2) && !touches(x1) && !touches(x2)) {
      size_t first = 0;
      const Axis::ShPtr p = a->subset(x1, x2, first);
      Cells want;
      size_t at = 0;
      for (size_t i = 0; i < c.size(); ++i)
        if (c.lo[i] < x2 && !Near(c.lo[i], x2) && c.up[i] > x1 && !Near(c.up[i], x1)) { if (!want.size()) at = i; want.lo.push_back(c.lo[i]), want.up.push_back(c.up[i]); }
      if (want.size()) VH_EXPECT(Same(*p, want) && first == at, "axis-subset", "subset(", x1, ",", x2, ") is ", Str(*p), " at ", first, ", not ", want.Str(), " at ", at);
      else VH_EXPECT(IsDefault(*p), "axis-subset", "subset(", x1, ",", x2, ") outside the axis is ", Str(*p));
    }
    // Fewer, larger cells.
    const size_t f = r.range(1, 5);
    Cells want;
    for (size_t i = 0; i < c.size(); i += f) want.lo.push_back(c.lo[i]), want.up.push_back(c.up[std::min(i + f, c.size()) - 1]);
    VH_EXPECT(Same(*a->compress(f), want), "axis-compress", "by ", f, ": ", Str(*a->compress(f)));
  }
  VH_EXPECT(Same(*Axis::makeAxis(c.lo, c.up), c), "axis-make", "made ", Str(*Axis::makeAxis(c.lo, c.up)));
  R().Count("searches", 12);
}

void Combine(Rng& r, size_t) {
  const Cells c = MakeCells(r, r.range(1, 9), false);
  const size_t n = c.size();
  size_t a0 = r.below(n), a1 = a0 + 1 + r.below(n - a0), b0 = r.below(n), b1 = b0 + 1 + r.below(n - b0);
  Cells b = c.Part(b0, b1);
  const Cells a = c.Part(a0, a1);
  const bool overlap = a0 < b1 && b0 < a1;
  size_t bad = n;
  if (overlap && r.chance(0.25)) {
    // Let the cells mismatch inside the overlap.
    const size_t i0 = std::max(a0, b0), i1 = std::min(a1, b1);
    bad = i0 + r.below(i1 - i0);
    if (bad + 1 < b1 && bad + 1 < i1) { const double shift = 0.25 * std::min(c.width(bad), c.width(bad + 1)) * (r.chance(0.5) ? 1 : -1); b.up[bad - b0] += shift; b.lo[bad + 1 - b0] += shift; }
    else bad = n;
  }
  R().Describe(S("cells ", c.Str(), ": ", a0, "-", a1, " with ", b0, "-", b1, bad < n ? S(" mismatch at ", bad) : ""));
  if (a0 != b0 || a1 != b1) R().Nontrivial();
  const Axis::ShPtr x = a.Make(r), y = b.Make(r);
  int s1 = -1, e1 = -1, s2 = -1, e2 = -1;
  Axis::ShPtr u;
  bool threw = false;
  try { u = x->combine(*y, s1, e1, s2, e2); } catch (const std::runtime_error&) { threw = true; }
  VH_EXPECT(threw == (bad < n), "combine-mismatch", threw ? "refused" : "accepted");
  if (overlap) VH_EXPECT(x->checkIntervals(*y) == (bad >= n), "axis-check", "checkIntervals gives ", x->checkIntervals(*y));
  if (threw) return;
  Cells want;
  const auto add = [&](const Cells& q) { for (size_t i = 0; i < q.size(); ++i) want.lo.push_back(q.lo[i]), want.up.push_back(q.up[i]); };
  int w1, w2;
  if (a1 <= b0 || b1 <= a0) {
    const Cells& first = a1 <= b0 ? a : b;
    const Cells& last = a1 <= b0 ? b : a;
    add(first);
    const bool hole = first.up.back() < last.lo[0];
    if (hole) want.lo.push_back(first.up.back()), want.up.push_back(last.lo[0]);
    (a1 <= b0 ? w1 : w2) = 0;
    (a1 <= b0 ? w2 : w1) = int(first.size()) + hole;
    add(last);
  } else {
    const size_t lo = std::min(a0, b0);
    add(c.Part(lo, std::max(a1, b1)));
    w1 = int(a0 - lo), w2 = int(b0 - lo);
  }
  VH_EXPECT(Same(*u, want), "combine", "combined to ", Str(*u), ", not ", want.Str());
  VH_EXPECT(s1 == w1 && e1 == w1 + int(a.size()) && s2 == w2 && e2 == w2 + int(b.size()), "combine-index", "parts at ", s1, "-", e1, " and ", s2, "-", e2, ", not from ", w1, " and ", w2);
}

std::string Str(const Box& b) { return S("(", b.lowerX(), ",", b.lowerY(), ")-(", b.upperX(), ",", b.upperY(), ")"); }
bool Same(const Box& a, double x1, double x2, double y1, double y2) { return Near(a.lowerX(), x1) && Near(a.upperX(), x2) && Near(a.lowerY(), y1) && Near(a.upperY(), y2); }

void Boxes(Rng& r, size_t) {
  const auto v = [&] { return double(r.range(0, 8)) + (r.chance(0.2) ? 4.9e9 : 0); };
  const auto make = [&] { double x1 = v(), x2 = v(), y1 = v(), y2 = v(); return Box(Point(std::min(x1, x2), std::min(y1, y2)), Point(std::max(x1, x2), std::max(y1, y2))); };
  const Box a = make(), b = make();
  R().Describe(Str(a) + " " + Str(b));
  const double x1 = std::max(a.lowerX(), b.lowerX()), x2 = std::min(a.upperX(), b.upperX()), y1 = std::max(a.lowerY(), b.lowerY()), y2 = std::min(a.upperY(), b.upperY());
  const bool cut = x1 < x2 && y1 < y2;
  if (cut) R().Nontrivial(Str(a) + " " + Str(b));
  if (!a.empty() && !b.empty()) VH_EXPECT(a.intersects(b) == cut && b.intersects(a) == cut, "box-intersects", a.intersects(b), " ", b.intersects(a));
  const Box i = a & b, u = a | b;
  VH_EXPECT(cut ? Same(i, x1, x2, y1, y2) : i.empty(), "box-intersect", "intersection ", Str(i));
  VH_EXPECT(Same(u, std::min(a.lowerX(), b.lowerX()), std::max(a.upperX(), b.upperX()), std::min(a.lowerY(), b.lowerY()), std::max(a.upperY(), b.upperY())), "box-unite", "union ", Str(u));
  VH_EXPECT(u.contains(a) && u.contains(b) && (!cut || (a.contains(i) && b.contains(i))), "box-contains", "contains");
  VH_EXPECT(a.contains(b) == (b.lowerX() >= a.lowerX() && b.upperX() <= a.upperX() && b.lowerY() >= a.lowerY() && b.upperY() <= a.upperY()), "box-contains", a.contains(b));
  VH_EXPECT((a < b) == (std::make_pair(a.lowerY(), a.lowerX()) < std::make_pair(b.lowerY(), b.lowerX())) && (a < b) == (b > a), "box-order", "order");
  const double cx = v(), cy = v(), wx = 2 * r.range(1, 4), wy = 2 * r.range(1, 4);
  VH_EXPECT(Same(Box(cx, wx, cy, wy), cx - wx / 2, cx + wx / 2, cy - wy / 2, cy + wy / 2), "box-make", Str(Box(cx, wx, cy, wy)));
  VH_EXPECT(Same(Box(a.lowerX(), a.upperX(), a.lowerY(), a.upperY(), true), a.lowerX(), a.upperX(), a.lowerY(), a.upperY()), "box-make", "from edges");
  const std::vector<double> full = {a.lowerX(), a.lowerY(), a.upperX(), a.upperY()}, lims = {-1e30, -1e30, 1e30, 1e30};
  const size_t k = r.below(5);
  std::vector<double> w = lims;
  std::copy(full.begin(), full.begin() + k, w.begin());
  VH_EXPECT(Same(Box(std::vector<double>(full.begin(), full.begin() + k)), w[0], w[2], w[1], w[3]), "box-make", "from ", k, " values");
}

Grid MakeGrid(Rng& r, const Cells& x, const Cells& y) { return Grid(x.Make(r), y.Make(r)); }

void Grids(Rng& r, size_t) {
  const bool gaps = r.chance(0.2);
  const Cells x = MakeCells(r, r.range(1, 6), gaps), y = MakeCells(r, r.range(1, 6), gaps);
  const size_t nx = x.size(), ny = y.size();
  const int how = int(r.below(4));
  R().Describe(S("x ", x.Str(), " y ", y.Str(), " made in way ", how));
  if (nx * ny > 1) R().Nontrivial(x.Str() + y.Str());
  std::vector<Box> boxes;
  for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) boxes.emplace_back(Point(x.lo[i], y.lo[j]), Point(x.up[i], y.up[j]));
  Grid g;
  VH_EXPECT(g.isDefault() && g.size() == 1, "grid-default", "a default grid has ", g.size(), " cells");
  if (how == 0) g = MakeGrid(r, x, y);
  else if (how == 1) g = Grid(boxes);
  else if (how == 2) { std::vector<Box> b = boxes; r.shuffle(b); g = Grid(b, true); }
  else {
    // From parts: the product of divisions of the axes.
    const auto cut = [&](size_t n) { std::vector<size_t> v = {0, n}; for (size_t i = 1; i < n; ++i) if (r.chance(0.4)) v.push_back(i); std::sort(v.begin(), v.end()); return v; };
    const std::vector<size_t> cx = cut(nx), cy = cut(ny);
    std::vector<Grid> parts;
    std::vector<Axis::ShPtr> ax, ay;
    for (size_t i = 0; i + 1 < cx.size(); ++i) ax.push_back(x.Part(cx[i], cx[i + 1]).Make(r));
    for (size_t j = 0; j + 1 < cy.size(); ++j) ay.push_back(y.Part(cy[j], cy[j + 1]).Make(r));
    for (auto& py : ay) for (auto& px : ax) parts.emplace_back(px, py);
    const bool sort = r.chance(0.5);
    if (sort) r.shuffle(parts);
    g = Grid(parts, sort);
  }
  VH_EXPECT(!g.isDefault() && Same(*g[0], x) && Same(*g[1], y), "grid", "axes ", Str(*g[0]), " and ", Str(*g[1]));
  VH_EXPECT(g.nx() == nx && g.ny() == ny && g.size() == nx * ny && g.shape() == std::make_pair(nx, ny), "grid-size", g.nx(), "x", g.ny());
  VH_EXPECT(Same(g.getBoundingBox(), x.lo[0], x.up.back(), y.lo[0], y.up.back()), "grid-box", Str(g.getBoundingBox()));
  std::vector<Box> d(r.below(3));
  const size_t before = d.size();
  g.toDomains(d);
  VH_EXPECT(d.size() == before + nx * ny, "grid-domains", d.size() - before, " domains");
  size_t id = 0;
  for (CellIterator it({0, 0}, {nx - 1, ny - 1}); !it.atEnd(); ++it, ++id) {
    const size_t i = id % nx, j = id / nx;
    VH_EXPECT(id < nx * ny && *it == Grid::Location(i, j), "grid-iterate", "cell ", id, " is at ", it->first, ",", it->second);
    VH_EXPECT(g.getCellId(*it) == id && g.getCellLocation(id) == *it, "grid-id", "cell ", id);
    VH_EXPECT(Same(g.getCell(id), x.lo[i], x.up[i], y.lo[j], y.up[j]) && Same(d[before + id], x.lo[i], x.up[i], y.lo[j], y.up[j]), "grid-cell", "cell ", id, " is ", Str(g.getCell(id)), " and domain ", Str(d[before + id]));
    const Point p = g.getCellCenter(*it);
    VH_EXPECT(Near(p.first, x.mid(i)) && Near(p.second, y.mid(j)), "grid-center", "cell ", id);
    VH_EXPECT(g.locate(Point(x.lo[i] + x.width(i) * r.real(0.05, 0.95), y.lo[j] + y.width(j) * r.real(0.05, 0.95))) == *it, "grid-locate", "cell ", id);
    VH_EXPECT(g.locate(Point(x.lo[i], y.lo[j])) == *it && g.locate(Point(x.up[i], y.up[j]), false) == *it, "grid-locate", "the edges of cell ", id);
  }
  VH_EXPECT(id == nx * ny, "grid-iterate", id, " cells");
  const size_t i0 = r.below(nx), i1 = i0 + r.below(nx - i0), j0 = r.below(ny), j1 = j0 + r.below(ny - j0);
  VH_EXPECT(Same(g.getBoundingBox({i0, j0}, {i1, j1}), x.lo[i0], x.up[i1], y.lo[j0], y.up[j1]), "grid-box", "of a part");
  const Grid sub = g.subset(Grid::Location(i0, j0), Grid::Location(i1, j1));
  VH_EXPECT(Same(*sub[0], x.Part(i0, i1 + 1)) && Same(*sub[1], y.Part(j0, j1 + 1)), "grid-subset", "part ", Str(*sub[0]), " and ", Str(*sub[1]));
  Grid::Location at(99, 99);
  const Grid cut = g.subset(Box(Point(x.lo[i0] + (r.chance(0.5) ? 0.4 * x.width(i0) : 0), y.lo[j0]), Point(x.up[i1], y.up[j1] - (r.chance(0.5) ? 0.4 * y.width(j1) : 0))), at);
  if (x.width(i0) > 0) VH_EXPECT(Same(*cut[0], x.Part(i0, i1 + 1)) && Same(*cut[1], y.Part(j0, j1 + 1)) && at == Grid::Location(i0, j0), "grid-subset", "part ", Str(*cut[0]), " and ", Str(*cut[1]), " at ", at.first, ",", at.second);
  VH_EXPECT(g.checkIntervals(sub) && sub.checkIntervals(g), "grid-check", "a part does not match");
}

/// The cell used for a position: that holding it, else the nearest end.
size_t Hold(const Cells& c, double x) {
  for (size_t i = 0; i < c.size(); ++i) if (x < c.up[i]) return i;
  return c.size() - 1;
}

/// Cells to predict on, whose centres are well inside the cells of c.
Cells Predict(Rng& r, const Cells& c, bool outside) {
  Cells p;
  std::vector<double> at;
  for (size_t i = 0; i < c.size(); ++i) { const size_t n = r.below(4); for (size_t k = 0; k < n; ++k) at.push_back(c.lo[i] + c.width(i) * (0.1 + 0.8 * (double(k) + r.real(0.1, 0.9)) / n)); }
  if (outside && r.chance(0.5)) at.push_back(c.lo[0] - c.width(0)), at.push_back(c.up.back() + c.width(c.size() - 1) * r.real(0.2, 2));
  if (at.empty()) at.push_back(c.mid(0));
  std::sort(at.begin(), at.end());
  const double span = c.up.back() - c.lo[0];
  for (size_t i = 0; i < at.size(); ++i) {
    double h = span;
    if (i) h = std::min(h, at[i] - at[i - 1]);
    if (i + 1 < at.size()) h = std::min(h, at[i + 1] - at[i]);
    h *= 0.45;
    p.lo.push_back(at[i] - h);
    p.up.push_back(at[i] + h);
  }
  return p;
}

void Mapping(Rng& r, size_t) {
  const Cells to = MakeCells(r, r.range(1, 6), false), from = Predict(r, to, true);
  R().Describe(S("from ", from.Str(), " to ", to.Str()));
  if (from.size() > 1 && to.size() > 1) R().Nontrivial();
  const Axis::ShPtr a = std::make_shared<OrderedAxis>(from.lo, from.up, true), b = to.Make(r);
  AxisMappingCache cache;
  const AxisMapping& m = cache.get(*a, *b);
  VH_EXPECT(m.size() == from.size() && size_t(m.end() - m.begin()) == from.size(), "mapping-size", m.size());
  std::vector<int> borders;
  for (size_t i = 0; i < from.size(); ++i) {
    const size_t w = Hold(to, from.mid(i));
    VH_EXPECT(m[i] == int(w) && m.begin()[i] == int(w), "mapping", "cell ", i, " is mapped to ", m[i], ", not ", w);
    const double x = (from.mid(i) - to.lo[w]) / to.width(w);
    VH_EXPECT(std::abs(m.getScaledCenters()[i] - x) < 1e-6 * (1 + std::abs(x)), "mapping-scaled", "cell ", i, " has ", m.getScaledCenters()[i], ", not ", x);
    if (i && m[i] != m[i - 1]) borders.push_back(int(i));
  }
  borders.push_back(int(from.size()));
  VH_EXPECT(m.getBorders() == borders, "mapping-borders", vh::Join(m.getBorders()), ", not ", vh::Join(borders));
  const AxisMapping& back = cache.get(*b, *a);
  VH_EXPECT(back.size() == to.size() && &cache.get(*a, *b) == &m && cache.size() == 2, "mapping-cache", "the cache holds ", cache.size());
}

double Poly(const std::vector<double>& c, size_t nx, double x, double y) {
  double v = 0;
  for (size_t k = 0; k < c.size(); ++k) v += c[k] * std::pow(x, double(k % nx)) * std::pow(y, double(k / nx));
  return v;
}

cc::Array<double> Arr(const std::vector<double>& v, size_t nx) {
  cc::Array<double> a(cc::IPosition(2, ssize_t(nx), ssize_t(v.size() / nx)));
  std::copy(v.begin(), v.end(), a.data());
  return a;
}

void Rescale(Rng& r, size_t) {
  const size_t nx = r.range(1, 4), ny = r.range(1, 4);
  std::vector<double> c(nx * ny);
  for (double& x : c) x = r.gauss();
  const Cells ox = MakeCells(r, 1, false), oy = MakeCells(r, 1, false);
  const auto part = [&](const Cells& o) { const double w = o.width(0); const double lo = r.chance(0.3) ? o.lo[0] : o.lo[0] + w * r.range(-4, 4) * 0.25; return Cells{{lo}, {r.chance(0.3) && lo < o.up[0] ? o.up[0] : lo + w * r.range(1, 8) * 0.25}}; };
  const Cells px = part(ox), py = part(oy);
  const bool none = r.chance(0.1);
  const Box old = none ? Box() : Box(Point(ox.lo[0], oy.lo[0]), Point(ox.up[0], oy.up[0]));
  R().Describe(S(nx, "x", ny, " coefficients ", vh::Join(c), " from ", Str(old), " to x ", px.Str(), " y ", py.Str()));
  if (nx * ny > 1 && !none) R().Nontrivial();
  ParmValue v;
  v.setCoeff(Arr(c, nx));
  const bool done = v.rescale(px.lo[0], px.up[0], py.lo[0], py.up[0], old);
  VH_EXPECT(v.nx() == nx && v.ny() == ny, "rescale-shape", v.nx(), "x", v.ny());
  if (none) VH_EXPECT(!done, "rescale-none", "rescaled without a domain");
  std::vector<double> d(v.getValues().data(), v.getValues().data() + nx * ny);
  for (int t = 0; t < 5; ++t) {
    const double u = r.real(0, 1), w = r.real(0, 1);
    // (offset and width apart: a time in seconds has only 1e-6 left behind the point)
    const auto frac = [](const Cells& p, const Cells& o, double f) { return ((p.lo[0] - o.lo[0]) + f * p.width(0)) / o.width(0); };
    const double want = none ? Poly(c, nx, u, w) : Poly(c, nx, frac(px, ox, u), frac(py, oy, w));
    double scale = 0;
    for (double q : d) scale += std::abs(q);
    VH_EXPECT(std::abs(Poly(d, nx, u, w) - want) < 1e-6 * (scale + std::abs(want)), "rescale", "at ", u, ",", w, " the value is ", Poly(d, nx, u, w), ", not ", want);
  }
}

// ---- values of parameters, in memory and stored ---------------------------------

struct Model {
  std::string name;
  bool scalar = true, mask_set = false;
  size_t cx = 1, cy = 1;  // coefficients
  std::vector<double> def;
  std::vector<bool> mask;
  double pert = 1e-6;
  bool rel = true;
  /// One per session: the cells and, per cell, the coefficients and errors.
  struct Part {
    Cells x, y;
    std::vector<std::vector<double>> v, e;  // e is empty without errors
    bool errors = false;
  };
  std::vector<Part> parts;
  double Value(double px, double py) const {
    for (const Part& p : parts) {
      if (py < p.y.lo[0] || py >= p.y.up.back()) continue;
      return At(p, px, py);
    }
    return def[0];
  }
  double At(const Part& p, double px, double py, int changed = -1, double by = 0) const {
    const size_t i = Hold(p.x, px), j = Hold(p.y, py);
    std::vector<double> c = p.v[j * p.x.size() + i];
    if (changed >= 0) c[changed] += by;
    return Poly(c, cx, (px - p.x.lo[i]) / p.x.width(i), (py - p.y.lo[j]) / p.y.width(j));
  }
};

double Size(const std::vector<double>& v) { double s = 0; for (double x : v) s += std::abs(x); return s; }

std::string NewName() {
  static size_t n = 0;
  return R().scratch + "/parm" + std::to_string(n++) + ".db";
}

struct Session { Cells x, y; };

void CheckPredict(Rng& r, Parm& parm, const Model& m, const Cells& x, const Cells& y, bool inside, const char* key) {
  const Cells px = Predict(r, x, !inside), py = Predict(r, y, !inside);
  const Grid g(std::make_shared<OrderedAxis>(px.lo, px.up, true), std::make_shared<OrderedAxis>(py.lo, py.up, true));
  cc::Array<double> out;
  parm.getResult(out, g);
  const bool single = out.size() == 1;
  VH_EXPECT(single || (size_t(out.shape()[0]) == px.size() && size_t(out.shape()[1]) == py.size()), "predict-shape", m.name, ": ", out.size(), " values");
  for (size_t j = 0; j < py.size(); ++j)
    for (size_t i = 0; i < px.size(); ++i) {
      double want = 0;
      if (m.parts.size() == 1) want = m.At(m.parts[0], px.mid(i), py.mid(j));
      else want = m.Value(px.mid(i), py.mid(j));
      const double got = out.data()[single ? 0 : j * px.size() + i];
      VH_EXPECT(std::abs(got - want) < 1e-6 * (1 + std::abs(want)), key, m.name, ": at ", px.mid(i), ",", py.mid(j), " is ", got, ", not ", want);
    }
  R().Count("predicted values", px.size() * py.size());
}

void Store(Rng& r, size_t) {
  cc::Registry::I().Clear();
  const std::string db_name = NewName();
  const Cells x = MakeCells(r, r.range(1, 4), false), y = MakeCells(r, r.range(1, 7), false);
  // Sessions follow each other in time.
  std::vector<size_t> cut = {0, y.size()};
  for (size_t i = 1; i < y.size(); ++i) if (r.chance(0.25)) cut.push_back(i);
  std::sort(cut.begin(), cut.end());
  std::vector<Model> models(r.range(1, 4));
  std::string what = S("x ", x.Str(), " y ", y.Str(), " sessions ", vh::Join(cut));
  for (size_t i = 0; i < models.size(); ++i) {
    Model& m = models[i];
    m.name = S(r.chance(0.5) ? "Gain:" : "Phase:", i % 2, ":", r.below(2), r.chance(0.5) ? ":Real" : ":Imag", ":CS00", i);
    m.scalar = r.chance(0.55);
    if (!m.scalar) m.cx = r.range(1, 3), m.cy = r.range(1, 3);
    for (size_t k = 0; k < m.cx * m.cy; ++k) m.def.push_back(r.gauss());
    m.pert = std::pow(10, r.real(-6, -1));
    m.rel = r.chance(0.5);
    m.mask_set = !m.scalar && r.chance(0.4);
    for (size_t k = 0; k < m.def.size(); ++k) m.mask.push_back(!m.mask_set || r.chance(0.6));
    if (std::count(m.mask.begin(), m.mask.end(), true) == 0) m.mask[0] = true;
    what += "; " + m.name + (m.scalar ? " scalar" : S(" polynomial ", m.cx, "x", m.cy)) + (m.mask_set ? " mask" : "");
  }
  R().Describe(what);
  R().Nontrivial(what);
  auto db = std::make_unique<ParmDB>(ParmDBMeta("casa", db_name), true);
  // Defaults, sometimes for a category of names; a name on its own wins.
  std::set<std::string> taken;
  for (Model& m : models) {
    ParmValue v;
    if (m.scalar) v.setScalar(m.def[0]); else v.setCoeff(Arr(m.def, m.cx));
    ParmValueSet set(v, m.scalar ? ParmValue::Scalar : ParmValue::Polc, m.pert, m.rel);
    if (m.mask_set) { cc::Array<bool> a(cc::IPosition(2, ssize_t(m.cx), ssize_t(m.cy))); std::copy(m.mask.begin(), m.mask.end(), a.data()); set.setSolvableMask(a); }
    std::string name = m.name;
    const std::string category = name.substr(0, name.rfind(':'));
    if (taken.count(category)) {
      // (the default of a parameter before)
    } else if (r.chance(0.3)) {
      ParmValue other(77.0);
      db->putDefValue(category, ParmValueSet(other), false);
    } else if (r.chance(0.2) && m.name.back() == '0') {
      name = category;
      taken.insert(name);
    }
    if (r.chance(0.3)) db->putDefValue(name, ParmValueSet(ParmValue(-3.0)));  // is replaced
    db->putDefValue(name, set);
  }
  // A name may have been given the default of another category: look up what holds.
  for (Model& m : models) {
    const ParmValueSet d = db->getDefValue(m.name);
    const cc::Array<double>& v = d.getDefParmValue().getValues();
    if (v.size() != m.def.size() || !std::equal(m.def.begin(), m.def.end(), v.data())) {
      VH_EXPECT(false, "default", m.name, ": the default is ", v.data()[0], " of ", v.size());
    }
    VH_EXPECT(d.getType() == (m.scalar ? ParmValue::Scalar : ParmValue::Polc) && d.getPerturbation() == m.pert && d.getPertRel() == m.rel, "default-properties", m.name);
  }
  for (size_t s = 0; s + 1 < cut.size(); ++s) {
    const Cells ys = y.Part(cut[s], cut[s + 1]);
    const Box domain(Point(x.lo[0], ys.lo[0]), Point(x.up.back(), ys.up.back()));
    ParmSet set;
    std::vector<ParmId> ids;
    for (Model& m : models) ids.push_back(set.addParm(*db, m.name));
    for (size_t k = 0; k < models.size(); ++k) VH_EXPECT(set.addParm(*db, models[k].name) == ids[k] && set.find(models[k].name) == ids[k], "parmset", models[k].name);
    VH_EXPECT(set.size() == models.size() && vh::Throws([&] { set.find("nothing"); }), "parmset", set.size(), " parameters");
    ParmCache cache(set, domain);
    for (size_t k = 0; k < models.size(); ++k) {
      Model& m = models[k];
      Parm parm(cache, ids[k]);
      VH_EXPECT(cache.getValueSet(ids[k]).empty(), "store-empty", m.name, " has values before they are set");
      // The grid, maybe first a part of it.
      Model::Part p;
      p.x = x, p.y = ys;
      p.v.assign(x.size() * ys.size(), m.def);
      p.e.assign(p.v.size(), std::vector<double>(m.def.size(), 0));
      const bool grow = r.chance(0.5);
      size_t i0 = 0, i1 = x.size(), j0 = 0, j1 = ys.size();
      if (grow) i0 = r.below(x.size()), i1 = i0 + 1 + r.below(x.size() - i0), j0 = r.below(ys.size()), j1 = j0 + 1 + r.below(ys.size() - j0);
      const auto set_some = [&](size_t a0, size_t a1, size_t b0, size_t b1) {
        // Locations are in the solve grid, which spans these cells.
        for (size_t j = b0; j < b1; ++j)
          for (size_t i = a0; i < a1; ++i) {
            std::vector<double>& v = p.v[j * x.size() + i];
            std::vector<double>& e = p.e[j * x.size() + i];
            const Grid::Location at(i - a0, j - b0);
            if (r.chance(0.7) || (i == a0 && j == b0)) {  // (what was never set is not stored)
              const bool use_mask = r.chance(0.6), errors = r.chance(0.3);
              std::vector<double> nv, ne;
              for (size_t q = 0; q < v.size(); ++q)
                if (!use_mask || m.mask[q]) { v[q] = r.gauss(); nv.push_back(v[q]); if (errors) e[q] = r.unit(), ne.push_back(e[q]); }
              if (errors) p.errors = true;
              parm.setCoeff(at, nv.data(), unsigned(nv.size()), errors ? ne.data() : nullptr, use_mask);
              VH_EXPECT(parm.getCoeff(at, use_mask) == nv, "coeff", m.name, " cell ", i, ",", j, " is not what was set");
              if (errors) VH_EXPECT(parm.getErrors(at, use_mask) == ne, "coeff-errors", m.name, " cell ", i, ",", j);
            }
          }
        for (size_t j = b0; j < b1; ++j)
          for (size_t i = a0; i < a1; ++i) {
            const std::vector<double> got = parm.getCoeff(Grid::Location(i - a0, j - b0), false);
            const std::vector<double>& want = p.v[j * x.size() + i];
            bool same = got.size() == want.size();
            for (size_t q = 0; same && q < got.size(); ++q) same = std::abs(got[q] - want[q]) < 1e-9 * (1 + Size(want));
            VH_EXPECT(same, "coeff", m.name, " cell ", i, ",", j, " has ", vh::Join(got), ", not ", vh::Join(want));
            const std::vector<double> err = parm.getErrors(Grid::Location(i - a0, j - b0), false);
            if (!err.empty()) VH_EXPECT(err == p.e[j * x.size() + i], "coeff-errors", m.name, " cell ", i, ",", j, " has errors ", vh::Join(err), ", not ", vh::Join(p.e[j * x.size() + i]));
          }
      };
      parm.setSolveGrid(MakeGrid(r, x.Part(i0, i1), ys.Part(j0, j1)));
      VH_EXPECT(parm.getCoeffSize() == size_t(std::count(m.mask.begin(), m.mask.end(), true)) && parm.getCoeffSize(false) == m.def.size(), "coeff-size", m.name, " has ", parm.getCoeffSize());
      set_some(i0, i1, j0, j1);
      if (grow) {
        // New cells get the values of the nearest old ones.
        const size_t n = x.size();
        for (size_t j = 0; j < ys.size(); ++j)
          for (size_t i = 0; i < n; ++i) {
            const size_t a = std::clamp(i, i0, i1 - 1), b = std::clamp(j, j0, j1 - 1);
            p.v[j * n + i] = p.v[b * n + a];
            // Errors of scalars are unknown for new cells; those of coefficients are copied along.
            if (a != i || b != j) p.e[j * n + i] = m.scalar ? std::vector<double>(1, 0.0) : p.e[b * n + a];
          }
        parm.setSolveGrid(MakeGrid(r, x, ys));
        set_some(0, x.size(), 0, ys.size());
      }
      m.parts.push_back(p);
      Model now = m;
      now.parts = {p};
      CheckPredict(r, parm, now, x, ys, false, "predict-set");
      // Changes by the perturbations.
      if (!m.mask_set && r.chance(0.5)) {
        const Cells px = Predict(r, x, false), py = Predict(r, ys, false);
        const Grid g(std::make_shared<OrderedAxis>(px.lo, px.up, true), std::make_shared<OrderedAxis>(py.lo, py.up, true));
        std::vector<cc::Array<double>> out;
        parm.getResult(out, g, true);
        VH_EXPECT(out.size() == m.def.size() + 1 && parm.getPerturbations().size() == m.def.size(), "perturb-count", m.name, ": ", out.size(), " results");
        for (size_t q = 0; q < m.def.size(); ++q) {
          const double c = p.v[0][q], by = m.rel && std::abs(c) > 1e-10 ? c * m.pert : m.pert;
          VH_EXPECT(std::abs(parm.getPerturbations()[q] - by) < 1e-9 * std::abs(by), "perturb", m.name, " coefficient ", q, " is changed by ", parm.getPerturbations()[q], ", not ", by);
          for (size_t j = 0; j < py.size(); ++j)
            for (size_t i = 0; i < px.size(); ++i) {
              const double want = m.At(p, px.mid(i), py.mid(j), int(q), by), got = out[q + 1].data()[out[q + 1].size() == 1 ? 0 : j * px.size() + i];
              VH_EXPECT(std::abs(got - want) < 1e-6 * (1 + std::abs(want)), "perturb", m.name, " coefficient ", q, ": ", got, ", not ", want);
            }
        }
      }
    }
    if (r.chance(0.3)) cache.flush();
    // Change cells after they were stored, in this cache or in a new one.
    if (r.chance(0.5)) {
      cache.flush();
      ParmCache again(set, domain);
      for (size_t k = 0; k < models.size(); ++k) {
        Model& m = models[k];
        Parm parm(again, m.name);
        Model::Part& p = m.parts.back();
        Model now = m;
        now.parts = {p};
        CheckPredict(r, parm, now, x, ys, false, "predict-reread");
        if (!r.chance(0.5)) continue;
        parm.setSolveGrid(MakeGrid(r, x, ys));
        const size_t i = r.below(x.size()), j = r.below(ys.size());
        for (double& v : p.v[j * x.size() + i]) v = r.gauss();
        parm.setCoeff(Grid::Location(i, j), p.v[j * x.size() + i].data(), unsigned(m.def.size()), nullptr, false);
      }
      again.flush();
    } else {
      cache.flush();
    }
  }
  // Read all of it from a newly opened database.
  db->flush();
  db.reset();
  db = std::make_unique<ParmDB>(ParmDBMeta("casa", db_name));
  std::vector<std::string> names;
  for (const Model& m : models) names.push_back(m.name);
  VH_EXPECT(db->getNames("*") == names, "names", vh::Join(db->getNames("*")));
  VH_EXPECT(Same(db->getRange("*"), x.lo[0], x.up.back(), y.lo[0], y.up.back()), "range", Str(db->getRange("*")));
  std::vector<std::string> some;
  for (const std::string& n : names) if (n.compare(0, 5, "Gain:") == 0) some.push_back(n);
  VH_EXPECT(db->getNames("Gain:*") == some, "names", "of gains: ", vh::Join(db->getNames("Gain:*")));
  VH_EXPECT(some.empty() ? db->getRange("Gain:*").empty() : Same(db->getRange("Gain:*"), x.lo[0], x.up.back(), y.lo[0], y.up.back()), "range", "of gains: ", Str(db->getRange("Gain:*")));
  const Box all(Point(x.lo[0], y.lo[0]), Point(x.up.back(), y.up.back()));
  {
    ParmSet set;
    for (const Model& m : models) set.addParm(*db, m.name);
    ParmCache cache(set, all);
    for (size_t k = 0; k < models.size(); ++k) {
      const Model& m = models[k];
      VH_EXPECT(set.isInParmDB(ParmId(k)), "parmset-known", m.name);
      const ParmValueSet& vs = cache.getValueSet(ParmId(k));
      VH_EXPECT(vs.getType() == (m.scalar ? ParmValue::Scalar : ParmValue::Polc) && vs.getPerturbation() == m.pert && vs.getPertRel() == m.rel, "stored-properties", m.name);
      VH_EXPECT((vs.getSolvableMask().size() > 0) == m.mask_set && (!m.mask_set || std::equal(m.mask.begin(), m.mask.end(), vs.getSolvableMask().data())), "stored-mask", m.name);
      Parm parm(cache, ParmId(k));
      CheckPredict(r, parm, m, x, y, true, "predict-stored");
      // Errors.
      size_t row = 0;
      for (const Model::Part& p : m.parts) {
        const size_t n = m.scalar ? 1 : p.v.size();
        for (size_t q = 0; q < n; ++q, ++row) {
          if (row >= vs.size()) { VH_EXPECT(false, "stored-count", m.name, " has ", vs.size(), " entries"); break; }
          const ParmValue& v = vs.getParmValue(int(row));
          if (m.scalar) {
            VH_EXPECT(v.hasErrors() == p.errors, "stored-errors", m.name, p.errors ? " has no errors" : " has errors");
            for (size_t c = 0; p.errors && c < p.v.size(); ++c) VH_EXPECT(v.getErrors().data()[c] == p.e[c][0], "stored-errors", m.name, " cell ", c);
          } else if (v.hasErrors()) {
            VH_EXPECT(std::equal(p.e[q].begin(), p.e[q].end(), v.getErrors().data()), "stored-errors", m.name, " cell ", q);
          } else {
            VH_EXPECT(Size(p.e[q]) == 0, "stored-errors", m.name, " cell ", q, " lost its errors");
          }
        }
      }
    }
  }
  // The interface that applying calibration uses.
  {
    ParmFacade facade(db_name);
    const size_t nf = r.range(1, 6), nt = r.range(1, 8);
    double f1 = x.lo[0], f2 = x.up.back(), t1 = y.lo[0], t2 = y.up.back();
    if (r.chance(0.6)) { const double w = f2 - f1; f1 += w * r.real(0.0, 0.4), f2 -= w * r.real(0.0, 0.4); const double h = t2 - t1; t1 += h * r.real(0.0, 0.4), t2 -= h * r.real(0.0, 0.4); }
    const bool edges = r.chance(0.6);
    const auto got = edges ? facade.getValuesMap("*", f1, f2, (f2 - f1) / nf, t1, t2, (t2 - t1) / nt, true) : facade.getValuesMap("*", 0.5 * (f1 + f2), f2 - f1, (f2 - f1) / nf, 0.5 * (t1 + t2), t2 - t1, (t2 - t1) / nt, false);
    VH_EXPECT(got.size() == models.size(), "facade-names", got.size(), " parameters");
    for (const Model& m : models) {
      if (!got.count(m.name)) { VH_EXPECT(false, "facade-names", "no ", m.name); continue; }
      const std::vector<double>& v = got.at(m.name);
      VH_EXPECT(v.size() == nf * nt, "facade-size", m.name, ": ", v.size(), " values, not ", nf, "x", nt);
      for (size_t j = 0; j < nt && v.size() == nf * nt; ++j)
        for (size_t i = 0; i < nf; ++i) {
          const double px = f1 + (f2 - f1) * (double(i) + 0.5) / nf, py = t1 + (t2 - t1) * (double(j) + 0.5) / nt;
          // Either cell will do on an edge.
          bool edge = false;
          for (double q : x.lo) edge = edge || std::abs(q - px) < 1e-12 * std::abs(q) || std::abs(q - px) < 1e-6 * (f2 - f1);
          for (double q : y.lo) edge = edge || std::abs(q - py) < 1e-12 * std::abs(q) || std::abs(q - py) < 1e-6 * (t2 - t1);
          if (edge) continue;
          const double want = m.Value(px, py);
          VH_EXPECT(std::abs(v[j * nf + i] - want) < 1e-4 * (1 + std::abs(want)), "facade", m.name, ": at ", px, ",", py, " is ", v[j * nf + i], ", not ", want);
        }
    }
    const std::vector<double> range = facade.getRange("*");
    VH_EXPECT(range.size() == 4 && Near(range[0], x.lo[0]) && Near(range[1], x.up.back()) && Near(range[2], y.lo[0]) && Near(range[3], y.up.back()), "facade-range", vh::Join(range));
  }
  // Removing values takes the entries that touch the domain, of the names that match.
  {
    const std::string pattern = r.chance(0.5) ? "*" : r.chance(0.5) ? "Gain:*" : models[0].name;
    const size_t j0 = r.below(y.size()), j1 = j0 + r.below(y.size() - j0);
    db->deleteValues(pattern, Box(Point(x.lo[0], y.lo[j0]), Point(x.up.back(), y.up[j1])));
    ParmMap left;
    db->getValues(left, "*", all);
    size_t expected = 0;
    for (const Model& m : models) {
      const bool hit = pattern == "*" || (pattern == "Gain:*" ? m.name.compare(0, 5, "Gain:") == 0 : m.name == pattern);
      std::vector<Box> want;
      for (const Model::Part& p : m.parts)
        for (size_t j = 0; j < (m.scalar ? 1 : p.y.size()); ++j)
          for (size_t i = 0; i < (m.scalar ? 1 : p.x.size()); ++i) {
            const double y1 = m.scalar ? p.y.lo[0] : p.y.lo[j], y2 = m.scalar ? p.y.up.back() : p.y.up[j];
            const double x1 = m.scalar ? p.x.lo[0] : p.x.lo[i], x2 = m.scalar ? p.x.up.back() : p.x.up[i];
            if (!hit || y1 >= y.up[j1] || y2 <= y.lo[j0]) want.emplace_back(Point(x1, y1), Point(x2, y2));
          }
      expected += !want.empty();
      const auto it = left.find(m.name);
      VH_EXPECT((it != left.end()) == !want.empty(), "delete", m.name, want.empty() ? " still has values" : " has no values");
      if (it == left.end() || want.empty()) continue;
      VH_EXPECT(it->second.size() == want.size(), "delete", m.name, " has ", it->second.size(), " entries, not ", want.size());
      std::vector<Box> d;
      it->second.getGrid().toDomains(d);
      for (size_t q = 0; q < want.size() && q < d.size(); ++q) VH_EXPECT(Same(d[q], want[q].lowerX(), want[q].upperX(), want[q].lowerY(), want[q].upperY()), "delete", m.name, " entry ", q, " is ", Str(d[q]), ", not ", Str(want[q]));
    }
    VH_EXPECT(left.size() == expected, "delete", left.size(), " parameters are left");
  }
  // An emptied database can be used again.
  if (r.chance(0.3)) {
    db->clearTables();
    VH_EXPECT(db->getNames("*").empty() && db->getRange("*").empty(), "clear", "names are left");
    VH_EXPECT(db->getDefValue(models[0].name, ParmValue(5.5)).getDefParmValue().getValues().data()[0] == 5.5, "clear", "defaults are left");
    ParmSet set;
    const ParmId id = set.addParm(*db, "New");
    ParmCache cache(set, all);
    Parm parm(cache, id);
    parm.setSolveGrid(MakeGrid(r, x, y));
    const double v = 3.25;
    parm.setCoeff(Grid::Location(0, 0), &v, 1);
    cache.flush();
    VH_EXPECT(db->getNames("*") == std::vector<std::string>{"New"}, "clear", "cannot be used again");
  }
  R().Count("parameters", models.size());
  R().Count("sessions", cut.size() - 1);
}

}  // namespace

namespace {
void C34() {
  R().Cases("axis", R().n(3000, 40000), AxisCase);
  R().Cases("combine", R().n(2500, 40000), Combine);
  R().Cases("box", R().n(2500, 40000), Boxes);
  R().Cases("grid", R().n(2500, 40000), Grids);
  R().Cases("mapping", R().n(2500, 40000), Mapping);
  R().Cases("rescale", R().n(2500, 40000), Rescale);
  R().Cases("store", R().n(1200, 20000), Store);
}
}  // namespace

VH_MAIN({"C34", C34})
