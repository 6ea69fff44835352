// Monitors of flagging by selection: pre-flagging (C45), baseline selection
// (C46), uvw flagging (C47) and flag counting (C48).
#include "pipe.h"
#include "glob.h"

#include <fstream>
#include <functional>
#include <iomanip>

#include "base/BaselineSelection.h"
#include "base/UVWCalculator.h"
#include "steps/Counter.h"
#include "steps/PreFlagger.h"
#include "steps/UVWFlagger.h"

namespace {
using namespace ppl;
using KV = std::vector<std::pair<std::string, std::string>>;

// Three-valued: a value at (within rounding of) a limit decides nothing.
enum Tri { kNo = 0, kYes = 1, kUnknown = 2 };
Tri And(Tri a, Tri b) { return a == kNo || b == kNo ? kNo : a == kYes && b == kYes ? kYes : kUnknown; }
Tri Or(Tri a, Tri b) { return a == kYes || b == kYes ? kYes : a == kNo && b == kNo ? kNo : kUnknown; }
Tri Not(Tri a) { return a == kUnknown ? a : a == kYes ? kNo : kYes; }
Tri Bool(bool b) { return b ? kYes : kNo; }
Tri Less(double a, double b, double tol) { return std::fabs(a - b) <= tol ? kUnknown : Bool(a < b); }

template <typename... T> std::string Cat(const T&... t) { std::ostringstream o; (o << ... << t); return o.str(); }
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Upper(Rng& r, std::string s) { for (char& c : s) if (r.chance(0.5)) c = std::toupper(c); return s; }
std::string Blanks(Rng& r) { return r.chance(0.7) ? "" : std::string(r.range(1, 2), ' '); }

// ---- baseline selection ----------------------------------------------------
struct BlSel {
  std::vector<std::vector<std::string>> items;  // patterns or pairs of them
  std::string corr;
  double blmin = -1, blmax = -1;
  std::vector<double> ranges;
  bool Any() const { return !items.empty() || !corr.empty() || blmin > 0 || blmax > 0 || !ranges.empty(); }
};
std::string Pattern(Rng& r, const Obs& o) {
  std::string n = r.pick(o.names);
  switch (r.range(0, 6)) {
    case 0: return n;
    case 1: return n.substr(0, r.range(1, n.size())) + "*";
    case 2: return "*" + n.substr(r.range(0, n.size() - 1));
    case 3: n[r.range(0, n.size() - 1)] = '?'; return n;
    case 4: return "{" + n + "," + r.pick(o.names) + "}";
    case 5: { const size_t k = r.range(2, 4); return n.substr(0, k) + "[" + (r.chance(0.5) ? std::string("0-3") : std::string(1, n[k]) + "5") + "]*"; }
    default: return r.chance(0.5) ? "XX*" : "*";
  }
}
BlSel RandomBlSel(Rng& r, const Obs& o, bool minmax) {
  BlSel s;
  do {
    if (r.chance(0.6)) {
      const size_t n = r.range(1, 3);
      for (size_t i = 0; i < n; ++i) {
        s.items.push_back({Pattern(r, o)});
        if (r.chance(0.5)) s.items.back().push_back(Pattern(r, o));
      }
    }
    if (r.chance(0.3)) s.corr = r.chance(0.5) ? "auto" : "cross";
    auto len = [&] { const double l = o.Length(r.range(0, o.nbl - 1)); return r.chance(0.2) ? l + 1 : l * r.real(0.5, 1.5) + 0.001; };
    if (minmax && r.chance(0.25)) s.blmin = len();
    if (minmax && r.chance(0.25)) s.blmax = len();
    if (r.chance(0.25)) {
      const size_t n = r.range(1, 2);
      for (size_t i = 0; i < n; ++i) { double a = r.chance(0.2) ? 0 : len(), b = len(); if (a > b) std::swap(a, b); s.ranges.push_back(a); s.ranges.push_back(b); }
    }
  } while (!s.Any());
  return s;
}
void Write(Rng& r, const BlSel& s, const std::string& prefix, KV& kv) {
  if (!s.items.empty()) {
    std::string v = "[";
    for (size_t i = 0; i < s.items.size(); ++i) {
      if (i) v += "," + Blanks(r);
      const auto& it = s.items[i];
      auto q = [&](const std::string& p) { return r.chance(0.3) ? "'" + p + "'" : p; };
      if (it.size() == 2) v += "[" + q(it[0]) + "," + Blanks(r) + q(it[1]) + "]";
      else v += r.chance(0.2) ? "[" + q(it[0]) + "]" : q(it[0]);
    }
    kv.push_back({prefix + "baseline", v + "]"});
  }
  if (!s.corr.empty()) kv.push_back({prefix + "corrtype", Upper(r, s.corr)});
  if (s.blmin > 0) kv.push_back({prefix + "blmin", Fmt(s.blmin)});
  if (s.blmax > 0) kv.push_back({prefix + "blmax", Fmt(s.blmax)});
  if (!s.ranges.empty()) {
    std::string v;
    for (double d : s.ranges) v += (v.empty() ? "[" : ",") + Fmt(d);
    kv.push_back({prefix + "blrange", v + "]"});
  }
}
Tri Matches(const BlSel& s, const Obs& o, int a1, int a2, double len) {
  Tri t = kYes;
  if (!s.items.empty()) {
    bool m = false;
    for (const auto& it : s.items) {
      const std::string &n1 = o.names[a1], &n2 = o.names[a2];
      if (it.size() == 1) m = m || GlobMatch(it[0], n1) || GlobMatch(it[0], n2);
      else m = m || (GlobMatch(it[0], n1) && GlobMatch(it[1], n2)) || (GlobMatch(it[0], n2) && GlobMatch(it[1], n1));
    }
    t = And(t, Bool(m));
  }
  if (!s.corr.empty()) t = And(t, Bool((a1 == a2) == (s.corr == "auto")));
  if (s.blmin > 0 || s.blmax > 0 || !s.ranges.empty()) {
    Tri m = kNo;
    const double tol = 1e-6;
    if (s.blmin > 0) m = Or(m, Less(len, s.blmin, tol));
    if (s.blmax > 0) m = Or(m, Less(s.blmax, len, tol));
    for (size_t i = 0; i < s.ranges.size(); i += 2) m = Or(m, And(Or(Bool(len == s.ranges[i]), Less(s.ranges[i], len, tol)), Less(len, s.ranges[i + 1], tol)));
    t = And(t, m);
  }
  return t;
}

// ---- value ranges ------------------------------------------------------------
struct Range { double lo, hi; };

// ---- one set of pre-flag criteria ---------------------------------------------
struct Crit {
  BlSel bl;
  double uvmin = -1, uvmax = -1;
  bool has_chan = false;
  std::set<size_t> chans;
  std::vector<Range> freqs;
  std::vector<size_t> slots;
  std::vector<Range> rel, abs, tod, lst, az, el;  // seconds (angles: seconds of time)
  struct Val { bool has = false; double lim[4]; };
  Val vals[8];  // ampl, phase, real, imag: min, max
  // expression over the children
  struct Node { int op = 0; size_t leaf = 0; std::vector<Node> kids; };
  bool has_expr = false;
  Node expr;
  std::vector<Crit> kids;
};
const char* const kValNames[8] = {"amplmin", "amplmax", "phasemin", "phasemax", "realmin", "realmax", "imagmin", "imagmax"};

std::string TimeText(Rng& r, double sec) {
  // Whole milliseconds.
  const long long ms = std::llround(sec * 1000);
  switch (r.range(0, 3)) {
    case 0: return Fmt(ms / 1000.0) + "s";
    case 1: { std::ostringstream o; o << ms / 3600000 << ':' << (ms / 60000) % 60 << ':' << (ms % 60000) / 1000.0; return o.str(); }
    case 2: { std::ostringstream o; o << ms / 3600000 << 'h' << (ms / 60000) % 60 << 'm' << (ms % 60000) / 1000.0; return o.str(); }
    default: return Fmt(ms / 60000.0) + "min";
  }
}
std::string DateText(Rng& r, double sec) {
  const long long ms = std::llround(sec * 1000);
  const long long day = ms / 86400000, t = ms % 86400000;
  long n = long(day) + 2400001 + 68569, c = 4 * n / 146097;
  n -= (146097 * c + 3) / 4;
  long y = 4000 * (n + 1) / 1461001;
  n = n - 1461 * y / 4 + 31;
  long mo = 80 * n / 2447;
  const long d = n - 2447 * mo / 80;
  n = mo / 11;
  mo = mo + 2 - 12 * n;
  y = 100 * (c - 49) + y + n;
  static const char* m[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  std::ostringstream o;
  if (r.chance(0.5)) o << d << '-' << m[mo - 1] << '-' << y; else o << y << '/' << std::setw(2) << std::setfill('0') << mo << '/' << std::setw(2) << d;
  o << '/' << std::setw(2) << std::setfill('0') << t / 3600000 << ':' << std::setw(2) << (t / 60000) % 60 << ':' << std::setw(2) << (t / 1000) % 60 << '.' << std::setw(3) << t % 1000;
  return o.str();
}
double Ms(double sec) { return std::llround(sec * 1000) / 1000.0; }

// Ranges of times; `wrap`: values are times of a day.
std::string TimeRanges(Rng& r, std::vector<Range>& out, const std::function<double()>& value, const std::function<std::string(double)>& text, bool wrap) {
  std::string v;
  const size_t n = r.range(1, 2);
  for (size_t i = 0; i < n; ++i) {
    double a = Ms(value()), b = Ms(value());
    v += v.empty() ? "[" : ",";
    if (r.chance(0.5)) {
      if (!wrap && a > b) std::swap(a, b);
      if (std::fabs(a - b) < 0.01) b = a + 0.5;
      out.push_back({a, b});
      v += text(a) + Blanks(r) + ".." + Blanks(r) + text(b);
    } else {
      const double d = Ms(r.pick(std::vector<double>{0.25, 1, 3, 20, 600, 7200}) * r.real(0.5, 1));
      out.push_back({a - d, a + d});
      v += text(a) + Blanks(r) + "+-" + Blanks(r) + TimeText(r, d);
    }
  }
  return v + "]";
}
Tri InTimes(double v, const std::vector<Range>& ranges, bool wrap, double tol) {
  Tri t = kNo;
  for (const Range& g : ranges) {
    double lo = g.lo, hi = g.hi;
    if (!wrap) { t = Or(t, And(Less(lo, v, tol), Less(v, hi, tol))); continue; }
    if (lo > hi) hi += 86400;  // over midnight
    Tri m = kNo;
    for (int k = -1; k <= 1; ++k) m = Or(m, And(Less(lo, v + k * 86400, tol), Less(v + k * 86400, hi, tol)));
    // Midnight itself belongs to a range that contains it.
    if (m == kUnknown || lo < 0 || hi > 86400) {
      const double d0 = std::min(std::fabs(v), std::fabs(v - 86400));
      if (d0 <= tol) m = kUnknown;
    }
    t = Or(t, m);
  }
  return t;
}

struct Gen {
  Rng& r;
  const Obs& o;
  KV kv;
  int depth = 0;
  size_t n_crit = 0;

  double SomeTime() { return o.t0 + (double(r.range(0, o.ntime)) - 0.5 + (r.chance(0.5) ? 0 : r.real(-0.5, 0.5))) * o.dt; }

  Crit Make(const std::string& prefix, int level) {
    Crit c;
    for (int tries = 0; tries < 50; ++tries) {
      const double p = 0.14;
      bool any = false;
      if (r.chance(p * 1.5)) { c.bl = RandomBlSel(r, o, true); Write(r, c.bl, prefix, kv); any = true; ++n_crit; }
      if (r.chance(p)) {
        if (r.chance(0.6)) kv.push_back({prefix + "uvmmin", Fmt(c.uvmin = r.real(1, 1e4))});
        if (c.uvmin < 0 || r.chance(0.5)) kv.push_back({prefix + "uvmmax", Fmt(c.uvmax = std::max(c.uvmin, 0.0) + r.real(1, 1e4))});
        any = true; ++n_crit;
      }
      if (r.chance(p * 1.3)) { Chans(c, prefix); any = true; ++n_crit; }
      if (r.chance(p)) { Freqs(c, prefix); any = true; ++n_crit; }
      if (r.chance(p)) { Slots(c, prefix); any = true; ++n_crit; }
      const double day = std::floor(o.t0 / 86400) * 86400, start = o.t0 - 0.5 * o.dt;
      if (r.chance(p * 0.7)) { kv.push_back({prefix + "reltime", TimeRanges(r, c.rel, [&] { return std::max(0.0, SomeTime() - start); }, [&](double v) { return TimeText(r, v); }, false)}); any = true; ++n_crit; }
      if (r.chance(p * 0.7)) { kv.push_back({prefix + "abstime", TimeRanges(r, c.abs, [&] { return SomeTime(); }, [&](double v) { return DateText(r, v); }, false)}); any = true; ++n_crit; }
      if (r.chance(p * 0.7)) {
        kv.push_back({prefix + "timeofday", TimeRanges(r, c.tod, [&] { double v = r.chance(0.8) ? SomeTime() - day : r.real(0, 86399); return v - 86400 * std::floor(v / 86400); }, [&](double v) { return TimeText(r, v); }, true)});
        any = true; ++n_crit;
      }
      if (r.chance(p * 0.4)) { kv.push_back({prefix + "lst", TimeRanges(r, c.lst, [&] { return r.real(0, 86399); }, [&](double v) { return TimeText(r, v); }, true)}); any = true; ++n_crit; }
      auto angle = [&](double v) { return r.chance(0.5) ? Fmt(v / 240) + "deg" : TimeText(r, v); };
      if (r.chance(p * 0.3)) { kv.push_back({prefix + "azimuth", TimeRanges(r, c.az, [&] { return r.real(0, 86399); }, angle, true)}); any = true; ++n_crit; }
      if (r.chance(p * 0.3)) { kv.push_back({prefix + "elevation", TimeRanges(r, c.el, [&] { return r.real(0, 21600); }, angle, true)}); any = true; ++n_crit; }
      for (int k = 0; k < 8; ++k) if (r.chance(p * 0.6)) { Value(c, k, prefix); any = true; ++n_crit; }
      if (level < 2 && r.chance(level ? 0.2 : 0.5)) { Expr(c, prefix, level); any = true; }
      if (any) break;
    }
    return c;
  }
  void Chans(Crit& c, const std::string& prefix) {
    c.has_chan = true;
    std::string v;
    const size_t n = r.range(1, 3), nc = o.nchan;
    for (size_t i = 0; i < n; ++i) {
      v += v.empty() ? "[" : "," + Blanks(r);
      auto one = [&](std::string& text) -> size_t {
        switch (r.range(0, 5)) {
          case 0: { const size_t d = r.range(2, 8); text = "nchan/" + std::to_string(d); return nc / d; }
          case 1: { const size_t d = r.range(1, nc); text = "nchan-" + std::to_string(d); return nc - d; }
          case 2: { const size_t a = r.range(1, 3), d = r.range(a, 4); text = std::to_string(a) + "*nchan/" + std::to_string(d); return a * nc / d; }
          default: { const size_t k = r.chance(0.15) ? nc + r.range(0, 5) : r.range(0, nc - 1); text = std::to_string(k); return k; }
        }
      };
      std::string ta, tb;
      size_t a = one(ta);
      if (r.chance(0.5)) { v += ta; c.chans.insert(a); continue; }
      size_t b = one(tb);
      if (a > b) { std::swap(a, b); std::swap(ta, tb); }
      v += ta + ".." + tb;
      for (size_t k = a; k <= b; ++k) c.chans.insert(k);
    }
    kv.push_back({prefix + "chan", v + "]"});
  }
  void Freqs(Crit& c, const std::string& prefix) {
    std::string v;
    const size_t n = r.range(1, 2);
    for (size_t i = 0; i < n; ++i) {
      v += v.empty() ? "[" : ",";
      double a = o.freqs[r.range(0, o.nchan - 1)] + o.widths[0] * r.real(-3, 3), b = o.freqs[r.range(0, o.nchan - 1)] + o.widths[0] * r.real(-3, 3);
      if (r.chance(0.05)) { a += 1e9; b += 1e9; }
      const char* units[4] = {"Hz", "kHz", "MHz", "GHz"};
      const double scale[4] = {1, 1e3, 1e6, 1e9};
      const int u1 = r.range(0, 3), style = r.range(0, 3);
      const bool pm = r.chance(0.5);
      if (!pm && a > b) std::swap(a, b);
      const double second = pm ? std::fabs(a - b) + 1 : b;
      const int u2 = style == 3 ? r.range(0, 3) : u1;
      const int s1 = style == 0 ? 2 : u1, s2 = style == 0 ? 2 : u2;
      v += Fmt(a / scale[s1]) + (style == 1 || style == 3 ? Blanks(r) + units[s1] : "") + Blanks(r) + (pm ? "+-" : "..") + Blanks(r) + Fmt(second / scale[s2]) +
           (style >= 2 ? Blanks(r) + units[s2] : "");
      c.freqs.push_back(pm ? Range{a - second, a + second} : Range{a, b});
    }
    kv.push_back({prefix + "freqrange", v + "]"});
  }
  void Slots(Crit& c, const std::string& prefix) {
    std::string v;
    const size_t n = r.range(1, 2);
    for (size_t i = 0; i < n; ++i) {
      v += v.empty() ? "[" : ",";
      size_t a = r.range(0, o.ntime), b = a + r.range(0, 2);
      if (a == b) v += std::to_string(a); else v += std::to_string(a) + ".." + std::to_string(b);
      for (size_t k = a; k <= b; ++k) c.slots.push_back(k);
    }
    kv.push_back({prefix + "timeslot", v + "]"});
  }
  void Value(Crit& c, int k, const std::string& prefix) {
    Crit::Val& v = c.vals[k];
    v.has = true;
    const double def = k % 2 ? 1e30 : -1e30;
    auto lim = [&] { return k / 2 == 1 ? std::round(r.real(-3, 3) * 64) / 64 : (k / 2 == 0 ? r.range(0, 24) : r.range(-12, 12)) * 0.5; };
    std::string text;
    if (r.chance(0.5)) {
      const double x = lim();
      for (double& d : v.lim) d = x;
      text = Fmt(x);
    } else {
      const size_t n = r.range(1, 4);
      for (double& d : v.lim) d = def;
      text = "[";
      for (size_t i = 0; i < n; ++i) {
        if (i) text += ",";
        if (i + 1 == n || !r.chance(0.4)) { v.lim[i] = lim(); text += Fmt(v.lim[i]); }
      }
      text += "]";
    }
    kv.push_back({prefix + kValNames[k], text});
  }
  // Expressions: op 0 = leaf, 1 = not, 2 = and, 3 = or, 4 = parentheses.
  std::string Name(size_t i) {
    static const char* base[] = {"a", "s1", "Or1", "notX", "ANDY", "order", "nota", "andand", "x_1", "Big"};
    return base[r.range(0, 9)] + std::string("_") + std::to_string(i);
  }
  std::vector<std::string> names;
  std::string ExprText(Crit::Node& n, int prec, std::vector<std::string>& nm, int level) {
    const int kind = level >= 3 ? 0 : r.pick(std::vector<int>{0, 0, 1, 2, 2, 3, 3, 4});
    if (kind == 0) {
      n.op = 0;
      if (nm.empty() || (nm.size() < 4 && r.chance(0.8))) { n.leaf = nm.size(); nm.push_back(Name(nm.size())); }
      else n.leaf = r.range(0, nm.size() - 1);
      return nm[n.leaf];
    }
    n.op = kind;
    n.kids.resize(kind == 1 || kind == 4 ? 1 : 2);
    if (kind == 4) return "(" + Blanks(r) + ExprText(n.kids[0], 0, nm, level + 1) + Blanks(r) + ")";
    if (kind == 1) {
      const std::string s = ExprText(n.kids[0], 3, nm, level + 1);
      const std::string t = r.chance(0.5) ? "!" + Blanks(r) + s : Upper(r, "not") + (s[0] == '(' && r.chance(0.5) ? "" : " ") + s;
      return t;
    }
    const int my = kind == 2 ? 2 : 1;
    std::string a = ExprText(n.kids[0], my, nm, level + 1), b = ExprText(n.kids[1], my, nm, level + 1);
    std::string op;
    if (kind == 2) op = r.pick(std::vector<std::string>{"&", "&&", "and"}); else op = r.pick(std::vector<std::string>{"|", "||", ",", "or"});
    if (std::isalpha(op[0])) op = (a.back() == ')' && r.chance(0.5) ? "" : " ") + Upper(r, op) + ((b[0] == '(' || b[0] == '!') && r.chance(0.5) ? "" : r.chance(0.2) ? "\t" : " ");
    else op = Blanks(r) + op + Blanks(r);
    const std::string t = a + op + b;
    return prec > my ? "(" + t + ")" : t;
  }
  void Expr(Crit& c, const std::string& prefix, int level) {
    c.has_expr = true;
    std::vector<std::string> nm;
    const std::string text = ExprText(c.expr, 0, nm, 0);
    kv.push_back({prefix + "expr", "\"" + text + "\""});
    for (const std::string& n : nm) c.kids.push_back(Make(prefix + n + ".", level + 1));
  }
};

struct Eval {
  const Obs& o;
  const Slot& s;
  size_t slot;
  Tri Expr(const Crit& c, const Crit::Node& n, size_t b, size_t ch) const {
    switch (n.op) {
      case 0: return Match(c.kids[n.leaf], b, ch);
      case 1: return Not(Expr(c, n.kids[0], b, ch));
      case 2: return And(Expr(c, n.kids[0], b, ch), Expr(c, n.kids[1], b, ch));
      case 3: return Or(Expr(c, n.kids[0], b, ch), Expr(c, n.kids[1], b, ch));
      default: return Expr(c, n.kids[0], b, ch);
    }
  }
  Tri Match(const Crit& c, size_t b, size_t ch) const {
    Tri t = kYes;
    if (!c.slots.empty()) t = And(t, Bool(std::count(c.slots.begin(), c.slots.end(), slot)));
    if (!c.abs.empty()) t = And(t, InTimes(s.time, c.abs, false, 1e-5));
    if (!c.rel.empty()) t = And(t, InTimes(s.time - (o.t0 - 0.5 * o.dt), c.rel, false, 1e-5));
    if (!c.tod.empty()) t = And(t, InTimes(s.time - 86400 * std::floor(s.time / 86400), c.tod, true, 1e-5));
    if (!c.lst.empty()) {
      casacore::MeasFrame f;
      f.set(o.Pos(0));
      const double d = casacore::MEpoch::Convert(casacore::MEpoch(casacore::MVEpoch(casacore::Quantity(s.time, "s")), casacore::MEpoch::UTC), casacore::MEpoch::Ref(casacore::MEpoch::LAST, f))().getValue().get();
      t = And(t, InTimes((d - std::floor(d)) * 86400, c.lst, true, 1e-3));
    }
    if (t == kNo) return t;
    if (c.bl.Any()) t = And(t, Matches(c.bl, o, o.ant1[b], o.ant2[b], o.Length(b)));
    if (c.uvmin > 0 || c.uvmax > 0) {
      const double d = std::hypot(s.U(b, 0), s.U(b, 1));
      Tri m = kNo;
      if (c.uvmin > 0) m = Or(m, Less(d, c.uvmin, 1e-9 * d));
      if (c.uvmax > 0) m = Or(m, Less(c.uvmax, d, 1e-9 * d));
      t = And(t, m);
    }
    if (!c.az.empty() || !c.el.empty())
      for (int a : {o.ant1[b], o.ant2[b]}) {
        casacore::MeasFrame f;
        f.set(casacore::MEpoch(casacore::MVEpoch(casacore::Quantity(s.time, "s")), casacore::MEpoch::UTC));
        f.set(o.Pos(a));
        const auto v = casacore::MDirection::Convert(o.Dir(), casacore::MDirection::Ref(casacore::MDirection::AZEL, f))().getValue();
        auto secs = [](double x) { x *= 43200 / M_PI; return x < 0 ? x + 86400 : x; };
        if (!c.az.empty()) t = And(t, InTimes(secs(v.get()[0]), c.az, true, 1e-3));
        if (!c.el.empty()) t = And(t, InTimes(secs(v.get()[1]), c.el, true, 1e-3));
      }
    if (c.has_chan) t = And(t, Bool(c.chans.count(ch)));
    if (!c.freqs.empty()) {
      Tri m = kNo;
      for (const Range& g : c.freqs) m = Or(m, And(Less(g.lo, o.freqs[ch], 1e-2), Less(o.freqs[ch], g.hi, 1e-2)));
      t = And(t, m);
    }
    for (int k = 0; k < 8; k += 2) {
      const auto &lo = c.vals[k], &hi = c.vals[k + 1];
      if (!lo.has && !hi.has) continue;
      Tri m = kNo;
      for (size_t p = 0; p < o.ncorr; ++p) {
        const cf z = s.D(b, ch, p);
        const double v = k == 0 ? std::abs(cd(z)) : k == 2 ? std::arg(cd(z)) : k == 4 ? z.real() : z.imag();
        if (std::isnan(v)) continue;
        const double tol = k >= 4 || std::isinf(v) ? 0 : 1e-6 * (1 + std::fabs(v));
        auto less = [&](double x, double y) { return tol == 0 ? Bool(x < y) : Less(x, y, tol); };
        // The documented defaults are -1e30 and 1e30.
        m = Or(m, less(v, lo.has ? float(lo.lim[p]) : -1e30f));
        m = Or(m, less(hi.has ? float(hi.lim[p]) : 1e30f, v));
      }
      t = And(t, m);
    }
    if (c.has_expr) t = And(t, Expr(c, c.expr, b, ch));
    return t;
  }
};

std::unique_ptr<DPBuffer> FlagBuffer(Rng& r, const Obs& o, size_t t) {
  BufOpt bo;
  auto b = RandomBuffer(r, o, t, bo);
  const bool grid = r.chance(0.7);
  for (size_t bl = 0; bl < o.nbl; ++bl)
    for (size_t c = 0; c < o.nchan; ++c) {
      const bool f = r.chance(0.3);
      for (size_t p = 0; p < o.ncorr; ++p) {
        b->GetFlags()(bl, c, p) = f;
        if (grid) b->GetData()(bl, c, p) = cf(r.range(-12, 12) * 0.5f, r.range(-12, 12) * 0.5f);
      }
      if (r.chance(0.03)) b->GetData()(bl, c, r.range(0, o.ncorr - 1)) = r.chance(0.5) ? cf(NAN, 0) : cf(0, INFINITY);
    }
  return b;
}
long TotalFlagged(const std::string& text, long* total = nullptr) {
  const size_t p = text.find("Total flagged:");
  const size_t q = p == std::string::npos ? p : text.find('(', p);
  if (q == std::string::npos) return -1;
  long n = -1, m = -1;
  if (std::sscanf(text.c_str() + q, "(%ld out of %ld", &n, &m) != 2) return -1;
  if (total) *total = m;
  return n;
}

void C45() {
  R().Cases("preflag", R().n(2500, 40000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 10;
    oo.max_time = 5;
    Obs o = RandomObs(r, oo);
    if (r.chance(0.25)) {  // around midnight
      o.t0 = std::floor(o.t0 / 86400) * 86400 + 86400 - o.dt * (r.range(0, o.ntime) + 0.25);
    }
    Gen g{r, o, {}};
    const std::string prefix = "pre.";
    Crit c = g.Make(prefix, 0);
    static const char* modes[] = {"set", "clear", "setcomplement", "setother", "clearcomplement", "clearother"};
    const int mode = r.range(-1, 5);
    if (mode >= 0) g.kv.push_back({prefix + "mode", Upper(r, modes[mode])});
    std::string text;
    for (auto& [k, v] : g.kv) text += k.substr(4) + "=" + v + "; ";
    R().Describe(o.Str() + " " + text);
    auto step = std::make_shared<dp3::steps::PreFlagger>(Parset(g.kv), prefix);
    const DPInfo info = o.Info();
    auto sink = Connect({step}, info);
    std::vector<Slot> in;
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = FlagBuffer(r, o, t);
      in.push_back(Snap(*b));
      step->process(std::move(b));
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty() && sink->bufs.size() == o.ntime, "protocol", sink->Protocol());
    size_t changed = 0, yes = 0, no = 0, unknown = 0;
    const bool clear = mode == 1 || mode >= 4, complement = mode >= 2;
    for (size_t t = 0; t < o.ntime; ++t) {
      Slot out = Snap(*sink->bufs[t]);
      const Eval ev{o, in[t], t};
      for (size_t b = 0; b < o.nbl; ++b)
        for (size_t ch = 0; ch < o.nchan; ++ch) {
          const bool f0 = in[t].F(b, ch, 0), f1 = out.F(b, ch, 0);
          bool invalid = false;
          for (size_t p = 0; p < o.ncorr; ++p) {
            VH_EXPECT(out.F(b, ch, p) == f1, "correlations-differ", "slot ", t, " baseline ", b, " channel ", ch);
            invalid = invalid || !std::isfinite(in[t].D(b, ch, p).real()) || !std::isfinite(in[t].D(b, ch, p).imag()) || in[t].W(b, ch, p) == 0;
          }
          changed += f0 != f1;
          Tri m = ev.Match(c, b, ch);
          (m == kUnknown ? unknown : m == kYes ? yes : no) += 1;
          if (complement) m = Not(m);
          if (m == kUnknown) continue;
          bool want = f0;
          if (m == kYes && !clear) want = true;
          if (m == kYes && clear) { if (!f0 && invalid) continue; want = invalid; }
          VH_EXPECT(f1 == want, clear ? "clear" : "set", "slot ", t, " baseline ", b, " (", o.names[o.ant1[b]], "-", o.names[o.ant2[b]], ") channel ", ch, ": flag ", f0, " became ", f1, ", selected: ", m == kYes, " invalid: ", invalid, " value ", in[t].D(b, ch, 0));
        }
      Slot expect = in[t];
      expect.flags = out.flags;
      VH_EXPECT(Diff(out, expect).empty(), "other-fields", "changed ", Diff(out, expect));
    }
    std::ostringstream counts;
    step->showCounts(counts);
    VH_EXPECT(TotalFlagged(counts.str()) == long(changed), "count", "counted ", TotalFlagged(counts.str()), " but changed ", changed);
    R().Count("selected", yes);
    R().Count("not-selected", no);
    R().Count("at-a-limit", unknown);
    if (yes && no) R().Nontrivial();
  });

  // Damaged set expressions are refused.
  R().Cases("bad-expression", R().n(1500, 20000), [](Rng& r, size_t) {
    Obs o = RandomObs(r);
    Gen g{r, o, {}};
    std::vector<std::string> nm;
    Crit c;
    std::string e = g.ExprText(c.expr, 0, nm, 0);
    switch (r.range(0, 6)) {
      case 0: e += r.pick(std::vector<std::string>{"&", " and", " or", "|", ",", " not", "!"}); break;
      case 1: e = r.pick(std::vector<std::string>{"&", "and ", "or ", "||", ","}) + e; break;
      case 2: e = "(" + e; break;
      case 3: e += ")"; break;
      case 4: e += " " + nm[0]; break;
      case 5: e = nm[0] + " (" + e + ")"; break;
      default: e += " and #x"; break;
    }
    KV kv{{"p.expr", "\"" + e + "\""}};
    for (const std::string& n : nm) kv.push_back({"p." + n + ".chan", "0"});
    R().Describe(e);
    VH_EXPECT((vh::Throws([&] { dp3::steps::PreFlagger s(Parset(kv), "p."); })), "bad-expression-accepted", e);
    R().Nontrivial();
  });
}

// ---- C46 ---------------------------------------------------------------------
void C46() {
  R().Cases("selection", R().n(6000, 100000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_ant = 9;
    oo.max_chan = 1;
    const Obs o = RandomObs(r, oo);
    const bool minmax = r.chance(0.5);
    BlSel s = RandomBlSel(r, o, minmax);
    KV kv;
    Write(r, s, "x.", kv);
    std::string def_corr, def_bl;
    std::string text;
    for (auto& [k, v] : kv) text += k.substr(2) + "=" + v + "; ";
    R().Describe(o.Str() + " " + text);
    const DPInfo info = o.Info();
    const dp3::base::BaselineSelection sel(Parset(kv), "x.", minmax);
    VH_EXPECT(sel.hasSelection(), "has-selection", "no selection");
    const auto m = sel.apply(info);
    const auto v = sel.applyVec(info);
    VH_EXPECT(v.size() == o.nbl && m.nrow() == o.nant && m.ncolumn() == o.nant, "size", v.size());
    size_t yes = 0, no = 0;
    for (size_t b = 0; b < o.nbl; ++b) {
      const Tri t = Matches(s, o, o.ant1[b], o.ant2[b], o.Length(b));
      VH_EXPECT(bool(v[b]) == bool(m(o.ant1[b], o.ant2[b])), "vector-matrix", "baseline ", b);
      VH_EXPECT(m(o.ant1[b], o.ant2[b]) == m(o.ant2[b], o.ant1[b]), "symmetry", "baseline ", b);
      if (t == kUnknown) continue;
      (t == kYes ? yes : no) += 1;
      VH_EXPECT(bool(v[b]) == (t == kYes), "selected", o.names[o.ant1[b]], " - ", o.names[o.ant2[b]], " of length ", o.Length(b), ": selected ", bool(v[b]));
    }
    R().Count("selected", yes);
    R().Count("not-selected", no);
    if (yes && no) R().Nontrivial();
  });
  R().Cases("defaults", R().n(300, 3000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 1;
    const Obs o = RandomObs(r, oo);
    const DPInfo info = o.Info();
    const std::string corr = r.pick(std::vector<std::string>{"", "auto", "cross"}), bl = r.chance(0.5) ? "" : "[" + o.names[0] + "]";
    KV kv;
    std::string corr_used = corr;
    if (r.chance(0.3)) kv.push_back({"baseline", "[]"});
    if (r.chance(0.3)) { corr_used = "cross"; kv.push_back({"corrtype", corr_used}); }
    const std::string bl_used = kv.size() && kv[0].first == "baseline" ? "" : bl;
    R().Describe(o.Str() + " corr=" + corr + " bl=" + bl + " keys=" + vh::S(kv.size()));
    const dp3::base::BaselineSelection sel(Parset(kv), "", false, corr, bl);
    VH_EXPECT(sel.hasSelection() == !(corr_used.empty() && bl_used.empty()), "has-selection", sel.hasSelection());
    const auto v = sel.applyVec(info);
    for (size_t b = 0; b < o.nbl; ++b) {
      BlSel s;
      s.corr = corr_used;
      if (!bl_used.empty()) s.items = {{o.names[0]}};
      VH_EXPECT(bool(v[b]) == (Matches(s, o, o.ant1[b], o.ant2[b], o.Length(b)) == kYes), "default-selected", "baseline ", b);
    }
    VH_EXPECT((vh::Throws([&] { dp3::base::BaselineSelection(Parset({{"corrtype", "both"}}), "").apply(info); })), "bad-corrtype", "accepted");
    VH_EXPECT((vh::Throws([&] { dp3::base::BaselineSelection(Parset({{"blrange", "[1,2,3]"}}), ""); })), "bad-range", "accepted");
    VH_EXPECT((vh::Throws([&] { dp3::base::BaselineSelection(Parset({{"baseline", "[[a,b,c]]"}}), "").apply(info); })), "bad-baseline", "accepted");
    R().Nontrivial();
  });
}

// ---- C47 ---------------------------------------------------------------------
struct UvwCrit {
  std::vector<Range> ranges[8];  // uvm um vm wm uvlambda ulambda vlambda wlambda
};
const char* const kUvw[8] = {"uvm", "um", "vm", "wm", "uvlambda", "ulambda", "vlambda", "wlambda"};

std::array<double, 3> UvwOf(const Obs& o, size_t b, double time, double ra, double dec) {
  using namespace casacore;
  const int i = o.ant1[b], j = o.ant2[b];
  MeasFrame f;
  f.set(MEpoch(MVEpoch(time / 86400), MEpoch::UTC));
  const MBaseline bl(MVBaseline(MVPosition(o.x[j] - o.x[i], o.y[j] - o.y[i], o.z[j] - o.z[i])), MBaseline::Ref(MBaseline::ITRF, f));
  const MVBaseline v = MBaseline::Convert(bl, MBaseline::J2000)().getValue();
  const double x = v(0), y = v(1), z = v(2);
  return {-std::sin(ra) * x + std::cos(ra) * y, -std::sin(dec) * (std::cos(ra) * x + std::sin(ra) * y) + std::cos(dec) * z, std::cos(dec) * (std::cos(ra) * x + std::sin(ra) * y) + std::sin(dec) * z};
}
Tri UvwMatch(const UvwCrit& c, const std::array<double, 3>& uvw, double freq) {
  Tri t = kNo;
  const double base[4] = {std::hypot(uvw[0], uvw[1]), uvw[0], uvw[1], uvw[2]};
  for (int k = 0; k < 8; ++k) {
    const double v = k < 4 ? base[k] : base[k - 4] * freq / 299792458.0;
    const double tol = 1e-9 * (1 + std::fabs(v)) + (k < 4 ? 1e-6 : 1e-5);
    for (const Range& g : c.ranges[k]) t = Or(t, And(Less(g.lo, v, tol), Less(v, g.hi, tol)));
  }
  return t;
}
void C47() {
  R().Cases("uvw", R().n(2500, 40000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 8;
    oo.max_time = 4;
    const Obs o = RandomObs(r, oo);
    const bool bda = r.chance(0.35);
    UvwCrit c;
    KV kv;
    const bool center = r.chance(0.35);
    const double extent = center ? 2 * o.Length(o.nbl - 1) + 10 : 1e4;
    size_t n_ranges = 0;
    for (int k = 0; k < 8; ++k) {
      if (!r.chance(0.25)) continue;
      const double scale = extent * (k < 4 ? 1 : o.freqs[0] / 299792458.0);
      auto val = [&] { return (k % 4 == 0 ? r.real(0, 1) : r.real(-1, 1)) * scale; };
      if (r.chance(0.6)) {
        std::string v;
        const size_t n = r.range(1, 3);
        for (size_t i = 0; i < n; ++i) {
          v += v.empty() ? "[" : "," + Blanks(r);
          double a = val(), b = val();
          if (r.chance(0.5)) { if (a > b) std::swap(a, b); v += Fmt(a) + Blanks(r) + ".." + Blanks(r) + Fmt(b); c.ranges[k].push_back({a, b}); }
          else { b = std::fabs(b) * 0.5; v += Fmt(a) + Blanks(r) + "+-" + Blanks(r) + Fmt(b); c.ranges[k].push_back({a - b, a + b}); }
          ++n_ranges;
        }
        kv.push_back({std::string("u.") + kUvw[k] + "range", v + "]"});
      }
      if (r.chance(0.25)) { const double a = std::fabs(val()) * 0.3; kv.push_back({std::string("u.") + kUvw[k] + "min", Fmt(a)}); if (a > 0) c.ranges[k].push_back({-1e15, a}); ++n_ranges; }
      if (r.chance(0.25)) { const double a = std::fabs(val()); kv.push_back({std::string("u.") + kUvw[k] + "max", Fmt(a)}); if (a > 0) c.ranges[k].push_back({a, 1e15}); ++n_ranges; }
    }
    double ra = 0, dec = 0;
    int frame = 0;
    if (center) {
      ra = r.real(0, 6.28); dec = r.real(-1.5, 1.5);
      frame = r.range(0, 3);  // none, J2000, galactic, Sun
      std::string v = frame == 3 ? "[" + Upper(r, "sun") + "]" : "[" + Fmt(ra) + "rad," + Fmt(dec * 180 / M_PI) + "deg" + (frame == 1 ? ",J2000" : frame == 2 ? "," + Upper(r, "galactic") : "") + "]";
      kv.push_back({"u.phasecenter", v});
    }
    std::string text;
    for (auto& [k, v] : kv) text += k.substr(2) + "=" + v + "; ";
    R().Describe(o.Str() + (bda ? " bda " : " ") + text);
    auto step = std::make_shared<dp3::steps::UVWFlagger>(Parset(kv), "u.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
    auto dir = [&](double time) {
      using namespace casacore;
      MeasFrame f;
      f.set(MEpoch(MVEpoch(time / 86400), MEpoch::UTC));
      if (frame == 2) return MDirection::Convert(MDirection(Quantity(ra, "rad"), Quantity(dec, "rad"), MDirection::GALACTIC), MDirection::J2000)().getValue().get();
      if (frame == 3) return MDirection::Convert(MDirection(MDirection::SUN), MDirection::Ref(MDirection::J2000, f))().getValue().get();
      return MVDirection(ra, dec).get();
    };
    long changed = 0;
    size_t yes = 0, no = 0;
    auto check = [&](const std::array<double, 3>& uvw, double f, const auto& before, const auto& after, size_t base, const std::string& where) {
      const Tri m = n_ranges ? UvwMatch(c, uvw, f) : kNo;
      if (!before[base] && after[base]) ++changed;
      if (m == kUnknown) return;
      (m == kYes ? yes : no) += 1;
      for (size_t p = 0; p < o.ncorr; ++p)
        VH_EXPECT(bool(after[base + p]) == (m == kYes || before[base + p]), "flag", where, " uvw ", uvw[0], ",", uvw[1], ",", uvw[2], " frequency ", f, ": flag ", bool(before[base + p]), " became ", bool(after[base + p]), ", in a range: ", m == kYes);
    };
    if (!bda) {
      auto sink = Connect({step}, o.Info());
      for (size_t t = 0; t < o.ntime; ++t) {
        auto b = FlagBuffer(r, o, t);
        const Slot in = Snap(*b);
        step->process(std::move(b));
        const Slot out = Snap(*sink->bufs.back());
        const auto d = dir(in.time);
        for (size_t b2 = 0; b2 < o.nbl; ++b2) {
          const std::array<double, 3> uvw = center ? UvwOf(o, b2, in.time, d[0], d[1]) : std::array<double, 3>{in.U(b2, 0), in.U(b2, 1), in.U(b2, 2)};
          for (size_t ch = 0; ch < o.nchan; ++ch) check(uvw, o.freqs[ch], in.flags, out.flags, in.Idx(b2, ch, 0), Cat("slot ", t, " baseline ", b2, " channel ", ch));
        }
        Slot expect = in;
        expect.flags = out.flags;
        VH_EXPECT(Diff(out, expect).empty(), "other-fields", "changed ", Diff(out, expect));
      }
      step->finish();
      VH_EXPECT(sink->Protocol().empty() && sink->bufs.size() == o.ntime, "protocol", sink->Protocol());
    } else {
      // Every baseline has its own channels.
      DPInfo info = o.Info();
      std::vector<std::vector<double>> f, w;
      for (size_t b = 0; b < o.nbl; ++b) {
        const size_t n = b == 0 ? o.nchan : r.range(1, o.nchan);
        std::vector<double> fb, wb;
        for (size_t k = 0; k < n; ++k) {
          const size_t lo = k * o.nchan / n, hi = (k + 1) * o.nchan / n;
          double ww = 0;
          for (size_t j = lo; j < hi; ++j) ww += o.widths[j];
          fb.push_back(0.5 * (o.freqs[lo] + o.freqs[hi - 1]));
          wb.push_back(ww);
        }
        f.push_back(fb);
        w.push_back(wb);
      }
      const auto freqs = f;
      info.setChannels(std::move(f), std::move(w));
      auto sink = Connect({step}, info);
      for (size_t k = 0; k < 2; ++k) {
        auto buf = std::make_unique<BdaBuffer>(o.nbl * o.nchan * o.ncorr * 3, dp3::common::Fields(dp3::common::Fields::Single::kData) | dp3::common::Fields(dp3::common::Fields::Single::kFlags) | dp3::common::Fields(dp3::common::Fields::Single::kWeights));
        const size_t rows = r.range(1, o.nbl * 2);
        for (size_t i = 0; i < rows; ++i) {
          const size_t b = r.range(0, o.nbl - 1), n = freqs[b].size() * o.ncorr;
          std::vector<cf> d(n, cf(1, 2));
          std::unique_ptr<bool[]> fl(new bool[n]);
          for (size_t j = 0; j < n; j += o.ncorr) std::fill_n(fl.get() + j, o.ncorr, r.chance(0.2));
          std::vector<float> wt(n, 1);
          const double uvw[3] = {r.real(-1e4, 1e4), r.real(-1e4, 1e4), r.real(-1e4, 1e4)};
          buf->AddRow(o.t0 + k * o.dt, o.dt, o.dt, b, freqs[b].size(), o.ncorr, i, d.data(), fl.get(), wt.data(), uvw);
        }
        const auto in = Rows(*buf);
        step->process(std::move(buf));
        const auto out = Rows(*sink->bdas.back());
        VH_EXPECT(in.size() == out.size(), "bda-rows", out.size());
        for (size_t i = 0; i < in.size(); ++i) {
          const auto d = dir(in[i].time);
          const std::array<double, 3> uvw = center ? UvwOf(o, in[i].bl, in[i].time, d[0], d[1]) : std::array<double, 3>{in[i].uvw[0], in[i].uvw[1], in[i].uvw[2]};
          for (size_t ch = 0; ch < in[i].nchan; ++ch) check(uvw, freqs[in[i].bl][ch], in[i].flags, out[i].flags, ch * o.ncorr, Cat("row ", i, " channel ", ch));
          VH_EXPECT(in[i].data == out[i].data && in[i].weights == out[i].weights && std::equal(in[i].uvw, in[i].uvw + 3, out[i].uvw), "other-fields", "row ", i);
        }
      }
      step->finish();
      VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    }
    if (n_ranges) {
      std::ostringstream os;
      step->showCounts(os);
      VH_EXPECT(TotalFlagged(os.str()) == changed, "count", "counted ", TotalFlagged(os.str()), " changed ", changed);
    }
    R().Count("in-range", yes);
    R().Count("out-of-range", no);
    if (yes && no) R().Nontrivial();
  });
}

// ---- C48 ---------------------------------------------------------------------
bool PercOk(int shown, double exact) { return std::abs(shown - exact) <= 0.5 + 1e-9; }
void C48() {
  R().Cases("count", R().n(1500, 20000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_ant = r.chance(0.2) ? 24 : 6;
    oo.max_chan = r.chance(0.3) ? 35 : 9;
    oo.max_time = 4;
    Obs o = RandomObs(r, oo);
    if (r.chance(0.2)) { o.ant1.push_back(o.ant1[0]); o.ant2.push_back(o.ant2[0]); ++o.nbl; }  // a baseline twice
    if (r.chance(0.2)) { o.names.push_back("UNUSED"); o.diam.push_back(1); o.x.push_back(1e6); o.y.push_back(1e6); o.z.push_back(1e6); ++o.nant; }
    const double warn = r.chance(0.5) ? r.range(1, 100) : 0;
    const bool full = r.chance(0.5), json = r.chance(0.5);
    const std::string file = R().scratch + "/flags.json";
    KV kv;
    if (warn) kv.push_back({"c.warnperc", Fmt(warn)});
    if (full) kv.push_back({"c.showfullyflagged", "true"});
    if (json) { kv.push_back({"c.savetojson", "true"}); kv.push_back({"c.jsonfilename", file}); }
    R().Describe(o.Str() + " warn=" + Fmt(warn) + " json=" + vh::S(json));
    auto step = std::make_shared<dp3::steps::Counter>(Parset(kv), "c.");
    const DPInfo info = o.Info();
    auto sink = Connect({step}, info);
    std::vector<long> nbl(o.nbl, 0), nch(o.nchan, 0);
    const int full_bl = r.chance(0.3) ? r.range(0, o.nbl - 1) : -1;
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = FlagBuffer(r, o, t);
      for (size_t bl = 0; bl < o.nbl; ++bl)
        for (size_t c = 0; c < o.nchan; ++c) {
          if (int(bl) == full_bl) for (size_t p = 0; p < o.ncorr; ++p) b->GetFlags()(bl, c, p) = true;
          if (b->GetFlags()(bl, c, 0)) { ++nbl[bl]; ++nch[c]; }
        }
      const Slot in = Snap(*b);
      step->process(std::move(b));
      VH_EXPECT(Diff(Snap(*sink->bufs.back()), in).empty(), "passes-unchanged", "changed");
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    if (json) std::remove(file.c_str());
    std::ostringstream os;
    step->showCounts(os);
    const std::string text = os.str();
    const double per_bl = double(o.ntime) * o.nchan, per_ch = double(o.ntime) * o.nbl;
    long sum = 0, total = 0;
    for (long n : nch) sum += n;
    VH_EXPECT(TotalFlagged(text, &total) == sum && total == long(per_bl * o.nbl), "total", "shown ", TotalFlagged(text), " of ", total, " expected ", sum);
    {
      double perc = -1;
      std::sscanf(text.c_str() + text.find("Total flagged:"), "Total flagged: %lf%%", &perc);
      VH_EXPECT(std::fabs(perc - 100.0 * sum / total) <= 0.00051, "total-percentage", perc, " expected ", 100.0 * sum / total);
    }
    std::vector<long> st(o.nant, 0), used(o.nant, 0);
    std::map<std::pair<int, int>, std::pair<long, long>> pairs;
    for (size_t b = 0; b < o.nbl; ++b) {
      std::set<int> ants{o.ant1[b], o.ant2[b]};
      for (int a : ants) { st[a] += nbl[b]; ++used[a]; }
      auto& p = pairs[{std::min(o.ant1[b], o.ant2[b]), std::max(o.ant1[b], o.ant2[b])}];
      p.first += nbl[b];
      ++p.second;
    }
    // The tables.
    std::istringstream is(text);
    std::string line;
    bool chan = false;
    std::vector<int> cols, shown_ch;
    std::map<std::pair<int, int>, int> shown;
    std::map<int, int> shown_total;
    std::set<std::string> notes;
    std::string fully;
    while (std::getline(is, line)) {
      if (line.find("per channel") != std::string::npos) chan = true;
      else if (line.rfind("** NOTE:", 0) == 0) notes.insert(line.substr(line.find("flagged for")));
      else if (line.rfind("Fully flagged baselines:", 0) == 0) fully = line.substr(24);
      else if (!chan && line.rfind(" ant", 0) == 0) { std::istringstream l(line.substr(4)); cols.clear(); int a; while (l >> a) cols.push_back(a); }
      else if (!chan && !cols.empty() && line.size() >= 5 && (line.rfind("TOTAL", 0) == 0 || std::isdigit(line[3]))) {
        for (size_t i = 0; i < cols.size(); ++i) {
          if (5 + 5 * i + 5 > line.size()) break;
          const std::string cell = line.substr(5 + 5 * i, 5);
          if (cell.find('%') == std::string::npos) continue;
          const int v = std::stoi(cell);
          if (line[0] == 'T') shown_total[cols[i]] = v; else shown[{std::stoi(line.substr(0, 4)), cols[i]}] = v;
        }
      } else if (chan && line.size() > 10 && line[4] == '-' && line.find(":    ") != std::string::npos) {
        std::istringstream l(line.substr(line.find(":    ") + 5));
        std::string cell;
        while (l >> cell) shown_ch.push_back(std::stoi(cell));
      }
    }
    VH_EXPECT(shown_ch.size() == o.nchan, "channel-table", shown_ch.size(), " channels shown");
    for (size_t c = 0; c < o.nchan; ++c) VH_EXPECT(PercOk(shown_ch[c], 100.0 * nch[c] / per_ch), "channel-percentage", "channel ", c, " shown ", shown_ch[c], " expected ", 100.0 * nch[c] / per_ch);
    size_t cells = 0;
    for (auto& [p, v] : pairs)
      for (auto q : std::set<std::pair<int, int>>{p, {p.second, p.first}}) {
        ++cells;
        VH_EXPECT(shown.count(q) && PercOk(shown[q], 100.0 * v.first / (v.second * per_bl)), "baseline-percentage", q.first, "&", q.second, " shown ", shown.count(q) ? shown[q] : -1, " expected ", 100.0 * v.first / (v.second * per_bl));
      }
    VH_EXPECT(shown.size() == cells, "baseline-table", shown.size(), " cells, expected ", cells);
    for (size_t a = 0; a < o.nant; ++a) {
      if (!used[a]) { VH_EXPECT(!shown_total.count(a), "unused-station", "station ", a); continue; }
      VH_EXPECT(shown_total.count(a) && PercOk(shown_total[a], 100.0 * st[a] / (used[a] * per_bl)), "station-percentage", "station ", a, " expected ", 100.0 * st[a] / (used[a] * per_bl));
    }
    if (full) {
      std::set<std::string> want, got;
      for (auto& [p, v] : pairs) if (v.first == v.second * long(per_bl)) want.insert(std::to_string(p.first) + "&" + std::to_string(p.second));
      std::string w;
      for (char ch : fully + ";") { if (ch == ';') { if (!w.empty()) got.insert(w); w.clear(); } else if (ch != ' ') w += ch; }
      VH_EXPECT(want == got, "fully-flagged", "shown '", fully, "', expected ", want.size());
    }
    if (warn) {
      for (size_t a = 0; a < o.nant; ++a) {
        if (!used[a]) continue;
        const double p = 100.0 * st[a] / (used[a] * per_bl);
        if (std::fabs(p - warn) < 1e-9) continue;
        VH_EXPECT(bool(notes.count("flagged for station " + std::to_string(a) + " (" + o.names[a] + ")")) == (p >= warn), "station-warning", "station ", a, " ", p, "% with limit ", warn);
      }
      for (size_t c = 0; c < o.nchan; ++c) {
        const double p = 100.0 * nch[c] / per_ch;
        if (std::fabs(p - warn) < 1e-9) continue;
        VH_EXPECT(bool(notes.count("flagged for channel " + std::to_string(c))) == (p >= warn), "channel-warning", "channel ", c, " ", p, "% with limit ", warn);
      }
    }
    if (json) {
      std::ifstream f(file);
      std::string js((std::istreambuf_iterator<char>(f)), {});
      for (size_t a = 0; a < o.nant; ++a) {
        const std::string key = "'" + o.names[a] + "': ";
        const size_t p = js.find(key);
        VH_EXPECT(p != std::string::npos, "json-station", o.names[a], " is not in ", js);
        if (std::count(o.names.begin(), o.names.end(), o.names[a]) > 1) continue;
        const double v = std::strtod(js.c_str() + p + key.size(), nullptr), want = used[a] ? st[a] / (used[a] * per_bl) : 0;
        VH_EXPECT(std::fabs(v - want) <= 1e-5 * want, "json-fraction", o.names[a], " has ", v, " expected ", want);
      }
      VH_EXPECT(js.front() == '{' && js.back() == '}', "json-form", js);
    }
    if (sum && sum < total) R().Nontrivial();
  });

  R().Cases("merge", R().n(500, 8000), [](Rng& r, size_t) {
    const Obs o = RandomObs(r);
    const DPInfo info = o.Info();
    using dp3::base::FlagCounter;
    const size_t n = r.range(1, 4);
    std::vector<FlagCounter> parts;
    FlagCounter all(Parset({}), ""), whole(Parset({}), "");
    all.init(info);
    whole.init(info);
    for (size_t i = 0; i < n; ++i) { parts.emplace_back(Parset({}), ""); parts.back().init(info); }
    const size_t events = r.range(0, 200);
    std::vector<long> corr(o.ncorr, 0);
    for (size_t e = 0; e < events; ++e) {
      FlagCounter& p = parts[r.range(0, n - 1)];
      const size_t b = r.range(0, o.nbl - 1), c = r.range(0, o.nchan - 1), k = r.range(0, o.ncorr - 1);
      for (FlagCounter* x : {&p, &whole}) { x->incrBaseline(b); x->incrChannel(c); x->incrCorrelation(k); }
      ++corr[k];
    }
    for (const FlagCounter& p : parts) all.add(p);
    R().Describe(o.Str() + " parts=" + vh::S(n) + " events=" + vh::S(events));
    auto show = [&](const FlagCounter& f) { std::ostringstream s; f.showBaseline(s, 100); f.showChannel(s, 100); f.showCorrelation(s, 100); f.showStation(s, 100); return s.str(); };
    VH_EXPECT(show(all) == show(whole), "merged-counts", "merging ", n, " counters gives other counts");
    std::ostringstream s;
    whole.showCorrelation(s, 100);
    std::string want;
    for (long k : corr) want += (want.empty() ? "[" : ",") + std::to_string(k);
    VH_EXPECT(s.str().find(want) != std::string::npos, "correlation-counts", s.str(), " lacks ", want);
    all.init(info);
    FlagCounter zero(Parset({}), "");
    zero.init(info);
    VH_EXPECT(show(all) == show(zero), "init-resets", "counts survive init");
    if (events && n > 1) R().Nontrivial();
  });
}
}  // namespace

VH_MAIN({"C45", C45}, {"C46", C46}, {"C47", C47}, {"C48", C48})
