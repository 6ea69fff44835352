// Monitors for the constraints on calibration solutions.
#include "vh.h"

#include <cmath>
#include <complex>
#include <limits>
#include <numeric>
#include <set>

#include <aocommon/constants.h>

#include "base/CalType.h"
#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "schaapcommon/threading/threadpool.h"

using vh::R;
using vh::Rng;
using vh::S;
using namespace dp3::ddecal;
using dp3::base::CalType;
using cd = std::complex<double>;

namespace {

const double kNan = std::numeric_limits<double>::quiet_NaN();
bool Fin(const cd& x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
cd G(Rng& r) { return cd(r.gauss(), r.gauss()); }

struct Set {
  size_t nch = 1, nant = 1, nsub = 1, npol = 1;
  std::vector<uint32_t> per_dir;
  std::vector<double> freqs, weights;  // weights[ant][ch]
  std::vector<std::vector<double>> sub_weights;
  std::vector<cd> v;
  size_t at(size_t c, size_t a, size_t s, size_t p) const { return ((c * nant + a) * nsub + s) * npol + p; }
  cd& operator()(size_t c, size_t a, size_t s, size_t p) { return v[at(c, a, s, p)]; }
  const cd& operator()(size_t c, size_t a, size_t s, size_t p) const { return v[at(c, a, s, p)]; }
  std::string Str() const { return S("nch=", nch, " nant=", nant, " sub=", vh::Join(per_dir), " npol=", npol); }
};

Set Make(Rng& r, size_t npol, size_t max_ch, bool one_per_direction = false) {
  Set s;
  s.npol = npol;
  s.nch = r.range(1, max_ch);
  s.nant = r.range(1, 6);
  const size_t ndir = r.range(1, 3);
  for (size_t d = 0; d < ndir; ++d) s.per_dir.push_back(one_per_direction || r.chance(0.4) ? 1 : uint32_t(r.range(1, 4)));
  s.nsub = std::accumulate(s.per_dir.begin(), s.per_dir.end(), size_t(0));
  double f = r.real(30e6, 160e6);
  const double width = r.real(0.1e6, 2e6);
  for (size_t c = 0; c < s.nch; ++c) { s.freqs.push_back(f); f += width * (r.chance(0.1) ? r.range(1, 4) : 1); }
  for (size_t i = 0; i < s.nant * s.nch; ++i) s.weights.push_back(r.chance(0.1) ? 0.0 : r.real(0.1, 10));
  for (size_t k = 0; k < s.nsub; ++k) {
    s.sub_weights.push_back(s.weights);
    for (double& w : s.sub_weights.back()) w *= r.real(0.5, 2);
  }
  s.v.resize(s.nch * s.nant * s.nsub * npol);
  for (cd& x : s.v) x = G(r);
  return s;
}

void Holes(Rng& r, Set& s, double part) {
  for (cd& x : s.v)
    if (r.chance(part)) x = r.chance(0.6) ? cd(kNan, kNan) : r.chance(0.5) ? cd(kNan, 1) : cd(0, std::numeric_limits<double>::infinity());
}

void Threads(Rng& r) { schaapcommon::ThreadPool::GetInstance().SetNThreads(r.range(1, 6)); }

std::vector<cd> Apply(Constraint& c, const Set& s) {
  SolutionTensor t({s.nch, s.nant, s.nsub, s.npol});
  std::copy(s.v.begin(), s.v.end(), t.data());
  SolutionSpan span = aocommon::xt::CreateSpan(t);
  c.Apply(span, 0.0);
  return std::vector<cd>(t.data(), t.data() + s.v.size());
}

// The largest difference; a sample that is undefined in one of them only
// counts as infinite.
double Diff(const std::vector<cd>& a, const std::vector<cd>& b) {
  double m = 0;
  if (a.size() != b.size()) return 1e99;
  for (size_t i = 0; i < a.size(); ++i) {
    if (Fin(a[i]) != Fin(b[i])) return 1e99;
    if (Fin(a[i])) m = std::max(m, std::abs(a[i] - b[i]) / (1 + std::abs(b[i])));
  }
  return m;
}

double Wrap(double x, double period) { return x - period * std::round(x / period); }

const ConstraintResult* Find(const std::vector<ConstraintResult>& rs, const std::string& name) {
  for (const ConstraintResult& x : rs) if (x.name == name) return &x;
  return nullptr;
}

void CheckShape(const ConstraintResult& x, const std::string& axes, const std::vector<size_t>& dims) {
  size_t n = 1;
  for (size_t d : dims) n *= d;
  VH_EXPECT(x.axes == axes && x.dims == dims && x.vals.size() == n, "result-shape", x.name, ": axes ", x.axes, " dims ", vh::Join(x.dims), " has ", x.vals.size(), " values");
  VH_EXPECT(x.weights.size() == n, "result-weights", x.name, ": ", x.weights.size(), " weights for ", n, " values");
}

// ---- groups -------------------------------------------------------------------
void Groups(Rng& r, size_t) {
  Set s = Make(r, r.pick(std::vector<size_t>{1, 2, 4}), 6);
  Holes(r, s, r.pick(std::vector<double>{0, 0.2, 0.7}));
  std::vector<size_t> all(s.nant);
  std::iota(all.begin(), all.end(), size_t(0));
  r.shuffle(all);
  std::vector<std::set<size_t>> sets;
  for (size_t i = 0; i < all.size();) {
    std::set<size_t> x;
    for (size_t n = r.range(1, 4); n > 0 && i < all.size(); --n) x.insert(all[i++]);
    if (r.chance(0.7)) sets.push_back(x);
  }
  R().Describe(S("antenna groups ", s.Str(), " groups=", sets.size()));
  if (!sets.empty()) R().Nontrivial();
  Set want = s;
  for (size_t c = 0; c < s.nch; ++c) for (size_t k = 0; k < s.nsub; ++k) for (size_t p = 0; p < s.npol; ++p)
    for (const auto& x : sets) {
      cd sum = 0;
      double n = 0;
      for (size_t a : x) if (Fin(s(c, a, k, p))) { sum += s(c, a, k, p); ++n; }
      for (size_t a : x) want(c, a, k, p) = n ? sum / n : cd(kNan, kNan);
    }
  AntennaConstraint con;
  auto copy = sets;
  con.SetAntennaSets(std::move(copy));
  con.Initialize(s.nant, s.per_dir, s.freqs);
  VH_EXPECT(Diff(Apply(con, s), want.v) < 1e-12, "antenna-groups", "not the average of each group: ", Diff(Apply(con, s), want.v));
}

void Intervals(Rng& r, size_t) {
  Set s = Make(r, r.pick(std::vector<size_t>{1, 2, 4}), 5);
  Holes(r, s, r.pick(std::vector<double>{0, 0.2, 0.7}));
  const size_t most = *std::max_element(s.per_dir.begin(), s.per_dir.end());
  std::vector<size_t> factors;
  for (size_t a = 0; a < s.nant; ++a) factors.push_back(r.range(1, most));
  const int bad = r.chance(0.1) ? int(r.range(1, 3)) : 0;
  if (bad == 1) factors[r.below(s.nant)] = 0;
  if (bad == 2) factors[r.below(s.nant)] = most + 1;
  if (bad == 3) factors.push_back(1);
  R().Describe(S("antenna intervals ", s.Str(), " factors=", vh::Join(factors)));
  if (s.nsub > 1 || bad) R().Nontrivial();
  AntennaIntervalConstraint con(factors);
  const bool threw = vh::Throws([&] { con.Initialize(s.nant, s.per_dir, s.freqs); });
  VH_EXPECT(threw == (bad != 0), "interval-refused", threw ? "refused" : "accepted");
  if (threw) return;
  Set want = s;
  for (size_t a = 0; a < s.nant; ++a) for (size_t c = 0; c < s.nch; ++c) for (size_t p = 0; p < s.npol; ++p) {
    size_t first = 0;
    for (uint32_t n : s.per_dir) {
      for (size_t b = 0; b < n; b += factors[a]) {
        cd sum = 0;
        double cnt = 0;
        const size_t e = std::min<size_t>(n, b + factors[a]);
        for (size_t k = b; k < e; ++k) if (Fin(s(c, a, first + k, p))) { sum += s(c, a, first + k, p); ++cnt; }
        for (size_t k = b; k < e; ++k) want(c, a, first + k, p) = cnt ? sum / cnt : cd(kNan, kNan);
      }
      first += n;
    }
  }
  VH_EXPECT(Diff(Apply(con, s), want.v) < 1e-12, "antenna-intervals", "not the average of each interval: ", Diff(Apply(con, s), want.v));
}

void Simple(Rng& r, size_t) {
  Set s = Make(r, r.pick(std::vector<size_t>{1, 2, 4}), 5);
  Holes(r, s, 0.05);
  R().Describe(S("amplitude ", s.Str()));
  R().Nontrivial();
  AmplitudeOnlyConstraint amp;
  amp.Initialize(s.nant, s.per_dir, s.freqs);
  const std::vector<cd> got = Apply(amp, s);
  for (size_t i = 0; i < got.size(); ++i)
    if (Fin(s.v[i])) VH_EXPECT(std::abs(got[i] - cd(std::abs(s.v[i]))) < 1e-12, "amplitude", s.v[i], " becomes ", got[i]);
  // The reference antenna.
  struct Ref : Constraint { void Apply(SolutionSpan& x, double) override { ApplyReferenceAntenna(x); } } ref;
  ref.Initialize(s.nant, s.per_dir, s.freqs);
  Set h = s;
  for (size_t a = 0; a < s.nant; ++a) if (r.chance(0.3)) for (size_t c = 0; c < s.nch; ++c) if (r.chance(0.9)) for (size_t k = 0; k < s.nsub; ++k) for (size_t p = 0; p < s.npol; ++p) h(c, a, k, p) = cd(kNan, kNan);
  Set want = h;
  for (size_t p = 0; p < h.npol; ++p) {
    size_t pick = h.nant;
    for (size_t a = 0; a < h.nant && pick == h.nant; ++a) {
      size_t n = 0;
      for (size_t c = 0; c < h.nch; ++c) n += Fin(h(c, a, 0, p));
      if (5 * n > h.nch) pick = a;
    }
    if (pick == h.nant) pick = 0;
    for (size_t c = 0; c < h.nch; ++c) for (size_t k = 0; k < h.nsub; ++k) {
      for (size_t a = 0; a < h.nant; ++a) if (a != pick) want(c, a, k, p) = Fin(h(c, a, k, p)) && Fin(h(c, pick, k, p)) ? h(c, a, k, p) / h(c, pick, k, p) : cd(kNan, kNan);
      want(c, pick, k, p) = 1;
    }
  }
  const auto g = Apply(ref, h);
  for (size_t i = 0; i < g.size(); ++i) if (Fin(want.v[i])) VH_EXPECT(std::abs(g[i] - want.v[i]) < 1e-9 * (1 + std::abs(want.v[i])), "reference", "sample ", i, ": ", g[i], ", not ", want.v[i]);
}

void Leakage(Rng& r, size_t) {
  Set s = Make(r, 4, 5);
  Holes(r, s, 0.05);
  R().Describe(S("leakage ", s.Str()));
  R().Nontrivial();
  PolarizationLeakageConstraint con;
  con.Initialize(s.nant, s.per_dir, s.freqs);
  const auto got = Apply(con, s);
  for (size_t i = 0; i < got.size(); ++i) {
    const bool diag = i % 4 == 0 || i % 4 == 3;
    VH_EXPECT(diag ? got[i] == cd(1) : (got[i] == s.v[i] || !Fin(s.v[i])), "leakage", "element ", i % 4, ": ", s.v[i], " becomes ", got[i]);
  }
}

// ---- smoothness ---------------------------------------------------------------
void Smooth(Rng& r, size_t) {
  Set s = Make(r, r.pick(std::vector<size_t>{1, 2, 4}), 20);
  Holes(r, s, r.pick(std::vector<double>{0, 0.1, 0.5}));
  const double bw = r.real(0.5e6, 8e6);
  const double ref = r.chance(0.5) ? 0.0 : r.real(50e6, 150e6);
  const double expo = r.pick(std::vector<double>{-1.0, 0.0, -2.0, 0.5});
  const bool truncate = r.chance(0.4), dd = r.chance(0.4), subw = r.chance(0.4);
  Threads(r);
  SmoothnessConstraint con(bw, ref, expo, truncate);
  con.Initialize(s.nant, s.per_dir, s.freqs);
  std::vector<double> fa, fd;
  for (size_t a = 0; a < s.nant; ++a) fa.push_back(r.real(0.3, 3));
  if (dd) for (size_t k = 0; k < s.nsub; ++k) fd.push_back(r.real(0.3, 3));
  if (dd) VH_EXPECT(vh::Throws([&] { auto x = fd; x.push_back(1); con.SetDdSmoothingFactors(x); }), "smooth-refused", "too many factors are accepted");
  auto copy = fa;
  con.SetAntennaFactors(std::move(copy));
  con.SetDdSmoothingFactors(fd);
  con.SetWeights(s.weights);
  if (subw) con.SetSubSolutionWeights(s.sub_weights);
  R().Describe(S("smooth ", s.Str(), " bandwidth=", bw, " ref=", ref, " exponent=", expo, truncate ? " truncated" : "", dd ? " dd" : "", subw ? " subweights" : ""));
  if (s.nch > 1) R().Nontrivial();
  const auto got = Apply(con, s);
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) for (size_t p = 0; p < s.npol; ++p)
    for (size_t c = 0; c < s.nch; ++c) {
      const double local = ref == 0 ? bw : bw * s.freqs[c] / ref;
      const double factor = std::pow(local / bw, expo) * (dd ? 1 / fd[k] : 1) / fa[a];
      cd sum = 0;
      double wsum = 0, near = 0, lo = 1e99, hi = -1e99;
      for (size_t j = 0; j < s.nch; ++j) {
        const cd x = s(j, a, k, p);
        const double w0 = (subw ? s.sub_weights[k] : s.weights)[a * s.nch + j];
        if (!Fin(x) || w0 == 0) continue;
        const double d = (s.freqs[c] - s.freqs[j]) * factor / bw;
        const double w = std::exp(-9 * d * d) * w0;
        sum += w * x;
        wsum += w;
        if (std::abs(d) <= 1) { lo = std::min(lo, x.real()); hi = std::max(hi, x.real()); near += w; }
      }
      const cd y = got[s.at(c, a, k, p)];
      if (truncate) {
        // Only samples within the kernel count. The channel itself always does.
        const cd own = s(c, a, k, p);
        const bool has = Fin(own) && (subw ? s.sub_weights[k] : s.weights)[a * s.nch + c] != 0;
        if (has) VH_EXPECT(Fin(y), "smooth-lost", "channel ", c, " becomes undefined");
        if (near == 0) VH_EXPECT(!Fin(y), "smooth-invented", "channel ", c, " is ", y, " without samples in reach");
        if (Fin(y)) VH_EXPECT(y.real() >= lo - 1e-9 && y.real() <= hi + 1e-9, "smooth-bounds", "channel ", c, ": ", y.real(), " is outside ", lo, "..", hi);
      } else {
        // Weights that underflow cannot be judged.
        if (wsum > 1e-200) VH_EXPECT(Fin(y) && std::abs(y - sum / wsum) < 1e-9 * (1 + std::abs(y)), "smooth", "channel ", c, " is ", y, ", not ", sum / wsum);
        if (wsum == 0) VH_EXPECT(!Fin(y), "smooth-undefined", "channel ", c, " is ", y, " without weights");
      }
    }
}

// ---- rotation -------------------------------------------------------------------
void PutDiagRot(Set& s, size_t c, size_t a, size_t k, cd x, cd y, double angle) {
  s(c, a, k, 0) = x * std::cos(angle);
  s(c, a, k, 1) = -x * std::sin(angle);
  s(c, a, k, 2) = y * std::sin(angle);
  s(c, a, k, 3) = y * std::cos(angle);
}

void Rotation(Rng& r, size_t) {
  Set s = Make(r, 4, 6);
  std::vector<double> angles;
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) for (size_t c = 0; c < s.nch; ++c) {
    angles.push_back(r.real(-M_PI, M_PI));
    const cd z = std::polar(r.real(0.1, 10), r.real(-M_PI, M_PI));
    PutDiagRot(s, c, a, k, z, z, angles.back());
  }
  R().Describe(S("rotation ", s.Str()));
  R().Nontrivial();
  RotationConstraint con;
  con.Initialize(s.nant, s.per_dir, s.freqs);
  con.SetWeights(s.weights);
  if (r.chance(0.3)) con.SetWeights(s.weights);
  const auto got = Apply(con, s);
  const auto res = con.GetResult();
  VH_EXPECT(res.size() == 1 && res[0].name == "rotation", "result-names", "no rotation");
  CheckShape(res[0], "ant,dir,freq", {s.nant, s.nsub, s.nch});
  size_t i = 0;
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) for (size_t c = 0; c < s.nch; ++c, ++i) {
    VH_EXPECT(std::abs(Wrap(res[0].vals[i] - angles[i], M_PI)) < 1e-9, "rotation", "angle ", res[0].vals[i], ", not ", angles[i]);
    const double g = res[0].vals[i];
    const cd* o = &got[s.at(c, a, k, 0)];
    VH_EXPECT(std::abs(o[0] - std::cos(g)) < 1e-12 && std::abs(o[3] - o[0]) < 1e-12 && std::abs(o[1] + std::sin(g)) < 1e-12 && std::abs(o[2] + o[1]) < 1e-12, "rotation-matrix", "solutions are no rotation by ", g);
    VH_EXPECT(res[0].weights[i] == s.weights[a * s.nch + c], "rotation-weights", "antenna ", a, " channel ", c, " has weight ", res[0].weights[i], ", not ", s.weights[a * s.nch + c]);
  }
}

const std::vector<CalType> kDiagonals{CalType::kDiagonal, CalType::kDiagonalAmplitude, CalType::kDiagonalPhase, CalType::kScalar, CalType::kScalarAmplitude, CalType::kScalarPhase};

bool IsScalar(CalType t) { return t == CalType::kScalar || t == CalType::kScalarAmplitude || t == CalType::kScalarPhase; }
bool HasAmplitude(CalType t) { return t != CalType::kDiagonalPhase && t != CalType::kScalarPhase && t != CalType::kRotation; }
bool HasPhase(CalType t) { return t == CalType::kDiagonal || t == CalType::kDiagonalPhase || t == CalType::kScalar || t == CalType::kScalarPhase; }

// What remains of a diagonal in the given mode.
void Restrict(cd& x, cd& y, CalType t) {
  if (t == CalType::kRotation) { x = y = 1; return; }
  if (IsScalar(t)) x = y = 0.5 * (x + y);
  if (!HasPhase(t)) { x = std::abs(x); y = std::abs(y); }
  if (!HasAmplitude(t)) { x /= std::abs(x); y /= std::abs(y); }
}

void CheckDiagonalResults(const std::vector<ConstraintResult>& res, const Set& s, CalType t, size_t first,
                          const std::vector<std::pair<cd, cd>>& diag, const std::vector<bool>& valid, const char* key, double tol) {
  const size_t npol = IsScalar(t) ? 1 : 2;
  std::vector<std::string> names;
  if (t != CalType::kRotation) { if (HasAmplitude(t)) names.push_back("amplitude"); if (HasPhase(t)) names.push_back("phase"); }
  VH_EXPECT(res.size() == first + names.size(), "result-names", res.size(), " results, not ", first + names.size());
  for (const std::string& n : names) {
    const ConstraintResult* x = Find(res, n);
    VH_EXPECT(x != nullptr, "result-names", "no ", n);
    if (!x) continue;
    CheckShape(*x, npol == 1 ? "ant,dir,freq" : "ant,dir,freq,pol", npol == 1 ? std::vector<size_t>{s.nant, s.nsub, s.nch} : std::vector<size_t>{s.nant, s.nsub, s.nch, 2});
    for (size_t i = 0; i < diag.size(); ++i) for (size_t p = 0; p < npol; ++p) {
      if (!valid[i]) continue;
      const cd want = p == 0 ? diag[i].first : diag[i].second;
      const double got = x->vals[i * npol + p];
      const double d = n == "phase" ? std::abs(Wrap(got - std::arg(want), 2 * M_PI)) : std::abs(got - std::abs(want)) / (1 + std::abs(want));
      VH_EXPECT(d < tol, key, n, " of element ", i, "/", p, " is ", got, ", not ", n == "phase" ? std::arg(want) : std::abs(want));
    }
  }
}

void RotDiag(Rng& r, size_t) {
  Set s = Make(r, 4, 6);
  const CalType t = r.pick(kDiagonals);
  const bool reference = r.chance(0.4);
  const double spread = r.chance(0.5) ? 0.5 : 1.3;  // of the logarithm of the amplitudes
  const double ratio = r.chance(0.5) ? 1.0 : r.real(0.02, 50);  // of the two polarizations
  std::vector<double> angles(s.nant * s.nsub * s.nch);
  std::vector<std::pair<cd, cd>> diag(angles.size());
  std::vector<bool> valid(angles.size(), true), edge(angles.size(), false);
  auto ix = [&](size_t a, size_t k, size_t c) { return (a * s.nsub + k) * s.nch + c; };
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) for (size_t c = 0; c < s.nch; ++c) {
    const size_t i = ix(a, k, c);
    angles[i] = r.real(-1.5, 1.5);
    const double ph = r.real(-M_PI, M_PI);
    // The phases of the two must not be opposite: the rotation is unknown then.
    diag[i] = {std::polar(std::exp(r.real(-spread, spread)), ph), std::polar(ratio * std::exp(r.real(-spread, spread)), ph + r.real(-2, 2))};
    PutDiagRot(s, c, a, k, diag[i].first, diag[i].second, angles[i]);
    if (r.chance(0.1)) { valid[i] = false; s(c, a, k, r.below(4)) = cd(kNan, r.chance(0.5) ? kNan : 0); }
  }
  R().Describe(S("rotation+diagonal ", s.Str(), " mode=", dp3::base::ToString(t), reference ? " reference" : "", " ratio=", ratio));
  R().Nontrivial();
  RotationAndDiagonalConstraint con(t);
  con.Initialize(s.nant, s.per_dir, s.freqs);
  con.SetDoRotationReference(reference);
  con.SetWeights(s.weights);
  if (r.chance(0.3)) { Apply(con, s); con.SetWeights(s.weights); }
  const auto got = Apply(con, s);
  const auto res = con.GetResult();
  // An amplitude exactly at five times the mean of all antennas (the only
  // antenna of five with data) is at the edge of the limit the code applies,
  // where rounding decides what happens: nothing is promised there.
  for (size_t k = 0; k < s.nsub; ++k) for (size_t c = 0; c < s.nch; ++c) {
    double sx = 0, sy = 0;
    for (size_t a = 0; a < s.nant; ++a) if (valid[ix(a, k, c)]) sx += std::abs(diag[ix(a, k, c)].first), sy += std::abs(diag[ix(a, k, c)].second);
    for (size_t a = 0; a < s.nant; ++a) {
      const size_t i = ix(a, k, c);
      for (double q : {std::abs(diag[i].first) * double(s.nant) / sx, std::abs(diag[i].second) * double(s.nant) / sy})
        if (valid[i] && (std::abs(q - 5) < 1e-6 || std::abs(q - 0.2) < 1e-6)) edge[i] = true;
    }
  }
  std::vector<std::pair<cd, cd>> kept = diag;
  std::vector<bool> sure = valid;
  for (size_t i = 0; i < sure.size(); ++i) if (edge[i]) sure[i] = false;
  for (auto& d : kept) Restrict(d.first, d.second, t);
  CheckDiagonalResults(res, s, t, 1, kept, sure, "rotdiag", 1e-9);
  VH_EXPECT(!res.empty() && res[0].name == "rotation", "result-names", "no rotation");
  CheckShape(res[0], "ant,dir,freq", {s.nant, s.nsub, s.nch});
  for (size_t k = 0; k < s.nsub; ++k) for (size_t c = 0; c < s.nch; ++c) {
    double ma = 0, mb = 0;
    for (size_t a = 0; a < s.nant; ++a) if (valid[ix(a, k, c)]) { ma += std::abs(diag[ix(a, k, c)].first); mb += std::abs(diag[ix(a, k, c)].second); }
    ma /= double(s.nant); mb /= double(s.nant);
    bool diverged = false, edge = false;
    for (size_t a = 0; a < s.nant; ++a) if (valid[ix(a, k, c)])
      for (double q : {std::abs(diag[ix(a, k, c)].first) / ma, std::abs(diag[ix(a, k, c)].second) / mb}) {
        diverged = diverged || q < 0.2 || q > 5;
        edge = edge || std::abs(q - 0.2) < 1e-9 || std::abs(q - 5) < 1e-9;
      }
    if (edge) continue;
    R().Count(diverged ? "diverged" : "not diverged");
    double zero = kNan;
    for (size_t a = 0; a < s.nant; ++a) {
      const size_t i = ix(a, k, c);
      for (const ConstraintResult& x : res) {
        const size_t np = x.vals.size() / diag.size();
        for (size_t p = 0; p < np; ++p) {
          const double want = diverged || !valid[i] ? -1.0 : s.weights[a * s.nch + c];
          VH_EXPECT(x.weights[i * np + p] == want, "rotdiag-weights", x.name, " antenna ", a, " sub ", k, " channel ", c, " has weight ", x.weights[i * np + p], ", not ", want);
        }
      }
      if (!valid[i]) continue;
      double want = angles[i];
      if (reference) { if (std::isnan(zero)) { zero = want; want = 0; } else want -= zero; }
      VH_EXPECT(std::abs(Wrap(res[0].vals[i] - want, M_PI)) < 1e-9, "rotdiag-angle", "antenna ", a, ": ", res[0].vals[i], ", not ", want);
      const double g = res[0].vals[i];
      const cd x = kept[i].first, y = kept[i].second;
      // Turning by half a circle is the same as a negative diagonal.
      const cd* o = &got[s.at(c, a, k, 0)];
      const cd w[4] = {x * std::cos(g), -x * std::sin(g), y * std::sin(g), y * std::cos(g)};
      for (int e = 0; e < 4; ++e) VH_EXPECT(std::abs(o[e] - w[e]) < 1e-9 * (1 + std::abs(w[e])), "rotdiag-matrix", "element ", e, ": ", o[e], ", not ", w[e]);
    }
  }
}

void Faraday(Rng& r, size_t) {
  Set s = Make(r, 4, 6, true);
  s.nch = r.range(20, 60);
  s.freqs.clear();
  const double f0 = r.real(110e6, 140e6), width = r.real(0.3e6, 1e6);
  for (size_t c = 0; c < s.nch; ++c) s.freqs.push_back(f0 + width * double(c));
  s.weights.clear();
  for (size_t i = 0; i < s.nant * s.nch; ++i) s.weights.push_back(r.chance(0.1) ? 0.0 : r.real(0.5, 2));
  for (auto& w : s.sub_weights) { w = s.weights; for (double& x : w) x *= r.real(0.5, 2); }
  s.v.assign(s.nch * s.nant * s.nsub * 4, 0);
  const CalType t = r.chance(0.15) ? CalType::kRotation : r.pick(kDiagonals);
  const bool sub = r.chance(0.5);
  std::vector<double> rm(s.nant * s.nsub);
  std::vector<std::pair<cd, cd>> diag(rm.size() * s.nch);
  std::vector<bool> valid(diag.size(), true);
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) {
    rm[a * s.nsub + k] = r.real(-3, 3);
    for (size_t c = 0; c < s.nch; ++c) {
      const double l = aocommon::kSpeedOfLight / s.freqs[c];
      const size_t i = (a * s.nsub + k) * s.nch + c;
      // Phases within half a turn, so that halving twice the angle has one answer.
      const double ph = r.real(-M_PI, M_PI);
      diag[i] = {std::polar(r.real(0.3, 3), ph), std::polar(r.real(0.3, 3), ph + r.real(-2, 2))};
      PutDiagRot(s, c, a, k, diag[i].first, diag[i].second, rm[a * s.nsub + k] * l * l);
      if (r.chance(0.05)) { valid[i] = false; for (size_t e = 0; e < 4; ++e) s(c, a, k, e) = cd(kNan, kNan); }
    }
  }
  R().Describe(S("faraday ", s.Str(), " mode=", dp3::base::ToString(t), " f0=", f0, " width=", width, sub ? " subweights" : ""));
  R().Nontrivial();
  Threads(r);
  FaradayConstraint con(t, r.chance(0.5) ? std::optional<double>() : std::optional<double>(r.real(6, 20)));
  con.Initialize(s.nant, s.per_dir, s.freqs);
  if (sub) con.SetSubSolutionWeights(s.sub_weights); else con.SetWeights(s.weights);
  if (r.chance(0.3)) { if (sub) con.SetSubSolutionWeights(s.sub_weights); else con.SetWeights(s.weights); }
  const auto got = Apply(con, s);
  const auto res = con.GetResult();
  VH_EXPECT(!res.empty() && res[0].name == "rotationmeasure", "result-names", "no rotation measure");
  CheckShape(res[0], "ant,dir", {s.nant, s.nsub});
  for (size_t a = 0; a < s.nant; ++a) for (size_t k = 0; k < s.nsub; ++k) {
    const size_t j = a * s.nsub + k;
    VH_EXPECT(std::abs(res[0].vals[j] - rm[j]) < 1e-4, "faraday", "antenna ", a, " sub ", k, ": ", res[0].vals[j], ", not ", rm[j]);
    double sum = 0;
    for (size_t c = 0; c < s.nch; ++c) sum += (sub ? s.sub_weights[k] : s.weights)[a * s.nch + c];
    VH_EXPECT(std::abs(res[0].weights[j] - sum) < 1e-9 * sum, "faraday-weights", "antenna ", a, " sub ", k, " has weight ", res[0].weights[j], ", not ", sum);
    for (size_t i = 1; i < res.size(); ++i) {
      const size_t np = res[i].vals.size() / diag.size();
      if (res[i].weights.size() != res[i].vals.size()) continue;
      for (size_t c = 0; c < s.nch; ++c) for (size_t p = 0; p < np; ++p) {
        const double w = (sub ? s.sub_weights[k] : s.weights)[a * s.nch + c];
        VH_EXPECT(res[i].weights[(j * s.nch + c) * np + p] == w, "faraday-weights", res[i].name, " antenna ", a, " sub ", k, " channel ", c, " has weight ", res[i].weights[(j * s.nch + c) * np + p], ", not ", w);
      }
    }
    for (size_t c = 0; c < s.nch; ++c) {
      const size_t i = j * s.nch + c;
      if (!valid[i]) continue;
      cd x = diag[i].first, y = diag[i].second;
      Restrict(x, y, t);
      const double l = aocommon::kSpeedOfLight / s.freqs[c], g = rm[j] * l * l;
      const cd w[4] = {x * std::cos(g), -x * std::sin(g), y * std::sin(g), y * std::cos(g)};
      const cd* o = &got[s.at(c, a, k, 0)];
      for (int e = 0; e < 4; ++e) VH_EXPECT(std::abs(o[e] - w[e]) < 5e-3, "faraday-matrix", "element ", e, ": ", o[e], ", not ", w[e]);
    }
  }
  std::vector<std::pair<cd, cd>> kept = diag;
  for (auto& d : kept) Restrict(d.first, d.second, t);
  CheckDiagonalResults(res, s, t, 1, kept, valid, "faraday-diagonal", 5e-3);
}

// ---- TEC ------------------------------------------------------------------------
template <class C>
void RunTec(Rng& r, C& con, int kind, const Set& s, const std::vector<double>& tec, const std::vector<double>& phase, const std::vector<double>& delay, bool reference) {
  con.Initialize(s.nant, s.per_dir, s.freqs);
  con.SetWeights(s.weights);
  const auto got = Apply(con, s);
  const auto res = con.GetResult();
  const size_t nf = s.nant * s.nsub;
  // The solutions follow the model, also where they were undefined.
  size_t ref = s.nant;
  if (reference) for (size_t a = 0; a < s.nant && ref == s.nant; ++a) { size_t n = 0; for (size_t c = 0; c < s.nch; ++c) n += Fin(s(c, a, 0, 0)); if (5 * n > s.nch) ref = a; }
  const ConstraintResult* rt = Find(res, "tec");
  VH_EXPECT(rt != nullptr, "result-names", "no TEC");
  if (!rt) return;
  for (const ConstraintResult& x : res) CheckShape(x, "ant,dir,freq", {s.nant, s.nsub, 1});
  const ConstraintResult* rp = Find(res, "phase");
  const ConstraintResult* rd = Find(res, "delay");
  VH_EXPECT((rp != nullptr) == (kind == 1 || kind == 3), "result-names", "phase");
  VH_EXPECT((rd != nullptr) == (kind >= 2), "result-names", "delay");
  for (size_t i = 0; i < nf; ++i) {
    const size_t a = i / s.nsub, k = i % s.nsub;
    double tt = tec[i], pp = phase[i], dd = delay[i];
    if (ref < s.nant) { const size_t z = ref * s.nsub + k; tt -= tec[z]; pp -= phase[z]; dd -= delay[z]; }
    double wsum = 0;
    for (size_t c = 0; c < s.nch; ++c) {
      // The reference antenna itself is set to one everywhere.
      const bool ok = a == ref || (Fin(s(c, a, k, 0)) && (ref == s.nant || Fin(s(c, ref, k, 0))));
      if (ok) wsum += s.weights[a * s.nch + c];
      const double m = -8.44797245e9 * tt / s.freqs[c] + pp + 2 * M_PI * dd * s.freqs[c];
      const cd y = got[s.at(c, a, k, 0)];
      VH_EXPECT(Fin(y) && std::abs(std::abs(y) - 1) < 1e-9, "tec-amplitude", "antenna ", a, " channel ", c, " is ", y);
      VH_EXPECT(std::abs(y - std::polar(1.0, m)) < 0.05, "tec-phase", "antenna ", a, " sub ", k, " channel ", c, " is ", y, ", not ", std::polar(1.0, m));
    }
    VH_EXPECT(std::abs(rt->vals[i] - tt) < 1e-3 * (1 + std::abs(tt)) * (kind == 0 ? 1 : 5), "tec", "antenna ", a, " sub ", k, " is ", rt->vals[i], ", not ", tt);
    for (const ConstraintResult& x : res) VH_EXPECT(std::abs(x.weights[i] - wsum) < 1e-9 * (1 + wsum), "tec-weights", x.name, " antenna ", a, " sub ", k, " has weight ", x.weights[i], ", not ", wsum);
    // The values that are written must give the phases of the solutions.
    for (size_t c = 0; c < s.nch; ++c) {
      const double m = -8.44797245e9 * rt->vals[i] / s.freqs[c] + (rp ? rp->vals[i] : 0.0) + (rd ? 2 * M_PI * rd->vals[i] * s.freqs[c] : 0.0);
      VH_EXPECT(std::abs(got[s.at(c, a, k, 0)] - std::polar(1.0, m)) < 1e-6, "tec-consistent", "antenna ", a, " channel ", c, ": the written values give ", std::polar(1.0, m), ", the solution is ", got[s.at(c, a, k, 0)]);
    }
  }
}

void Tec(Rng& r, size_t i) {
  const int kind = int(i % 3);  // TEC; TEC and phase; TEC and phase, approximated first
  Set s = Make(r, 1, 6);
  s.nch = r.range(20, 50);
  s.freqs.clear();
  const double f0 = r.real(115e6, 125e6), width = 50e6 / double(s.nch);
  for (size_t c = 0; c < s.nch; ++c) s.freqs.push_back(f0 + width * double(c));
  s.weights.clear();
  for (size_t j = 0; j < s.nant * s.nch; ++j) s.weights.push_back(r.real(0.5, 2));
  const size_t nf = s.nant * s.nsub;
  std::vector<double> tec(nf), ph(nf, 0.0), dl(nf, 0.0);
  for (double& x : tec) x = r.real(-0.15, 0.15);
  if (kind > 0) for (double& x : ph) x = r.real(-M_PI, M_PI);
  s.v.assign(s.nch * nf, 0);
  for (size_t c = 0; c < s.nch; ++c) for (size_t j = 0; j < nf; ++j)
    s.v[c * nf + j] = r.chance(0.05) ? cd(kNan, kNan) : std::polar(r.real(0.5, 2), -8.44797245e9 * tec[j] / s.freqs[c] + ph[j]);
  const bool reference = r.chance(0.5);
  Threads(r);
  R().Describe(S("tec ", s.Str(), " kind=", kind, reference ? " reference" : ""));
  R().Nontrivial();
  const auto mode = kind == 0 ? TecConstraint::Mode::kTecOnly : TecConstraint::Mode::kTecAndCommonScalar;
  if (kind < 2) {
    TecConstraint con(mode);
    con.setDoPhaseReference(reference);
    VH_EXPECT(con.Satisfied(), "tec-satisfied", "never done");
    RunTec(r, con, kind, s, tec, ph, dl, reference);
  } else {
    ApproximateTECConstraint con(mode);
    con.setDoPhaseReference(reference);
    con.SetMaxApproximatingIterations(r.range(1, 5));
    con.Initialize(s.nant, s.per_dir, s.freqs);
    con.SetWeights(s.weights);
    con.PrepareIteration(false, 0, false);
    VH_EXPECT(!con.Satisfied() && con.GetResult().empty(), "tec-satisfied", "done before the real fit");
    const auto y = Apply(con, s);
    for (const cd& x : y) VH_EXPECT(Fin(x) && std::abs(std::abs(x) - 1) < 1e-9, "tec-approximate", "solution ", x);
    const int how = int(r.below(3));
    con.PrepareIteration(how == 0, how == 1 ? 5 : 0, how == 2);
    VH_EXPECT(con.Satisfied(), "tec-satisfied", "the real fit is not used");
    // The constraint keeps its state through Initialize.
    const auto z = Apply(con, s);
    TecConstraint plain(mode);
    plain.setDoPhaseReference(reference);
    plain.Initialize(s.nant, s.per_dir, s.freqs);
    plain.SetWeights(s.weights);
    VH_EXPECT(Diff(z, Apply(plain, s)) < 1e-9, "tec-final", "differs from the fit without approximation");
    VH_EXPECT(con.GetResult().size() == 3, "result-names", "results");
  }
}

void C29() {
  R().Cases("groups", R().n(1500, 30000), Groups);
  R().Cases("intervals", R().n(1500, 30000), Intervals);
  R().Cases("simple", R().n(1500, 30000), Simple);
  R().Cases("leakage", R().n(300, 3000), Leakage);
  R().Cases("smooth", R().n(800, 15000), Smooth);
  R().Cases("rotation", R().n(800, 10000), Rotation);
  R().Cases("rotdiag", R().n(1500, 25000), RotDiag);
  R().Cases("faraday", R().n(150, 2500), Faraday);
  R().Cases("tec", R().n(120, 2000), Tec);
}

}  // namespace

VH_MAIN({"C29", C29})
