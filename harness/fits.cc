// Monitors for the fits over frequency: TEC, TEC+offset+delay, phase slopes,
// kernel smoothing and piece-wise phase fits.
#include "vh.h"

#include <algorithm>
#include <cassert>
#include <complex>

#include "base/PhaseFitter.h"
#include "common/PhaseLineFitter.h"
#include "ddecal/constraints/KernelSmoother.h"
#include "ddecal/constraints/PieceWisePhaseFitter.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"

using vh::R;
using vh::Rng;
using vh::S;
using cd = std::complex<double>;

namespace {

constexpr double kTwoPi = 2 * M_PI;
double WrapTo(double x) { return std::remainder(x, kTwoPi); }
double PhaseDistance(double a, double b) { return std::fabs(WrapTo(a - b)); }

// ---- C23: TEC fits
struct Band {
  std::vector<double> nu, w;
  std::string text;
};
Band RandomBand(Rng& r) {
  Band b;
  const size_t n = 20 + r.below(60);
  const double start = r.real(110e6, 140e6), stop = start + r.real(25e6, 60e6);
  for (size_t i = 0; i < n; ++i) b.nu.push_back(start + (stop - start) * double(i) / double(n - 1) + (r.chance(0.3) ? r.real(-0.2, 0.2) * (stop - start) / double(n) : 0));
  b.w.assign(n, 1.0);
  if (r.chance(0.6))
    for (double& w : b.w) w = r.chance(0.15) ? 0 : r.real(0.4, 2.5);
  size_t used = 0;
  for (double w : b.w) used += w > 0.05;
  if (used < n * 2 / 3) b.w.assign(n, 1.0);
  b.text = S(n, " channels ", start / 1e6, "-", stop / 1e6, " MHz");
  return b;
}

double Cost(const std::vector<double>& nu, const std::vector<double>& w, const std::vector<double>& ph, double a, double b) {
  double c = 0, s = 0;
  for (size_t i = 0; i < nu.size(); ++i) c += w[i] * PhaseDistance(a / nu[i] + b, ph[i]), s += w[i];
  return s == 0 ? 0 : c / s;
}

void C23() {
  R().Cases("noiseless", R().n(250, 5000), [](Rng& r, size_t) {
    const Band band = RandomBand(r);
    const bool two = r.chance(0.5);
    const size_t n = band.nu.size();
    const double alpha = r.real(-1, 1) * (r.chance(0.5) ? 3e9 : 20e9), beta = two ? r.real(-M_PI, M_PI) : 0;
    const double noise = r.chance(0.5) ? 0 : r.real(0, 0.05);
    std::vector<double> ph(n);
    for (size_t i = 0; i < n; ++i) ph[i] = WrapTo(alpha / band.nu[i] + beta + (r.unit() * 2 - 1) * noise) + (r.chance(0.2) ? kTwoPi * double(r.range(-1, 1)) : 0);
    PhaseFitter f(n);
    if (r.chance(0.5)) f = PhaseFitter();
    f.Initialize(band.nu);
    std::copy(band.w.begin(), band.w.end(), f.WeightData());
    std::copy(ph.begin(), ph.end(), f.PhaseData());
    const std::string what = S(two ? "TEC+offset" : "TEC", " alpha ", alpha, " beta ", beta, " noise ", noise, " ", band.text);
    R().Describe(what);
    R().Nontrivial(what);
    // Costs are the weighted mean phase deviation.
    const double ta = r.real(-20e9, 20e9), tb = r.real(-7, 7);
    VH_EXPECT(std::fabs(f.TEC2ModelCost(ta, tb) - Cost(band.nu, band.w, ph, ta, tb)) < 1e-9, "tec-cost", "cost of a trial model is ", f.TEC2ModelCost(ta, tb), " expected ", Cost(band.nu, band.w, ph, ta, tb));
    VH_EXPECT(std::fabs(f.TEC1ModelCost(ta) - Cost(band.nu, band.w, ph, ta, 0)) < 1e-9, "tec-cost", "cost of a trial model is ", f.TEC1ModelCost(ta));
    double a, b;  // the values on input are not used
    a = r.chance(0.2) ? std::nan("") : r.gauss() * 1e9;
    b = r.chance(0.2) ? std::nan("") : r.gauss() * 100;
    if (!two) b = 0;
    const PhaseFitter& cf = f;
    double a1 = a, b1 = b;
    if (two) cf.FitTEC2ModelParameters(a1, b1); else cf.FitTEC1ModelParameters(a1);
    VH_EXPECT(std::equal(ph.begin(), ph.end(), f.PhaseData()), "tec-const", "fitting the parameters changed the phases");
    const double cost = two ? f.FitDataToTEC2Model(a, b) : f.FitDataToTEC1Model(a);
    VH_EXPECT(a == a1 && (!two || b == b1), "tec-same", "the two ways to fit disagree: ", a, " ", a1);
    const double best = Cost(band.nu, band.w, ph, alpha, beta);
    VH_EXPECT(std::fabs(cost - Cost(band.nu, band.w, ph, a, b)) < 1e-9, "tec-fit-cost", "returned cost ", cost, " for ", a, " ", b, " is not the cost of the fit ", Cost(band.nu, band.w, ph, a, b));
    VH_EXPECT(cost <= best + 0.02, S("tec-fit-", two ? 2 : 1), "fit ", a, " ", b, " has cost ", cost, ", the true parameters have ", best);
    R().Count(cost <= best + 1e-3 ? "fits at the optimum" : "fits near the optimum");
    for (size_t i = 0; i < n; ++i) VH_EXPECT(PhaseDistance(f.PhaseData()[i], a / band.nu[i] + b) < 1e-6, "tec-model", "channel ", i, " does not follow the model");
    VH_EXPECT(std::equal(band.w.begin(), band.w.end(), f.WeightData()) && f.GetFrequencies() == band.nu && f.Size() == n, "tec-inputs", "weights or frequencies changed");
    // Scaling all weights, or the phase of a channel without weight, does not change the fit.
    PhaseFitter g;
    g.Initialize(band.nu);
    for (size_t i = 0; i < n; ++i) {
      g.WeightData()[i] = band.w[i] * 4;
      g.PhaseData()[i] = band.w[i] == 0 ? r.real(-3, 3) : ph[i];
    }
    double a2 = 0, b2 = 0;
    if (two) g.FitDataToTEC2Model(a2, b2); else g.FitDataToTEC1Model(a2);
    VH_EXPECT(std::fabs(a2 - a) <= 1e-6 * std::fabs(a) + 1 && PhaseDistance(b2, b) < 1e-6, "tec-weights", "a weightless channel or the scale of the weights changed the fit from ", a, " ", b, " to ", a2, " ", b2);
  });
  R().Cases("unit", R().n(200, 2000), [](Rng& r, size_t) {
    const double alpha = r.gauss() * 1e9, nu = r.real(1e7, 2e8), beta = r.gauss();
    R().Describe(S(alpha, " ", nu));
    R().Nontrivial(S(alpha));
    // phase = -8.44797245e9 * TEC / nu
    VH_EXPECT(std::fabs(PhaseFitter::AlphaToTEC(alpha) * -8.44797245e9 - alpha) <= 1e-9 * std::fabs(alpha), "tec-unit", "TEC ", PhaseFitter::AlphaToTEC(alpha));
    VH_EXPECT(PhaseDistance(PhaseFitter::TEC2ModelFunc(nu, alpha, beta), alpha / nu + beta) < 1e-7 && PhaseDistance(PhaseFitter::TEC1ModelFuncWrapped(nu, alpha), alpha / nu) < 1e-7 &&
                  PhaseDistance(PhaseFitter::TEC2ModelFuncWrapped(nu, alpha, beta), alpha / nu + beta) < 1e-7,
              "tec-model-func", "model value");
    PhaseFitter f(3);
    for (size_t i = 0; i < 3; ++i) f.WeightData()[i] = 0;
    VH_EXPECT(f.TEC1ModelCost(alpha) == 0 && f.TEC2ModelCost(alpha, beta) == 0, "tec-no-weight", "cost without weights");
  });
}

// ---- C24: TEC + offset + delay
double VmCost(const std::vector<double>& x, const std::vector<double>& y, const std::vector<double>& w, double a, double b, double c) {
  double s = 0;
  for (size_t i = 0; i < x.size(); ++i) s += 1.0 - std::cos(y[i] - (a / x[i] + b + c * x[i])) * w[i];
  return s;
}

void C24() {
  auto axis = [](Rng& r, size_t n) {
    std::vector<double> x;
    const double lo = r.real(0.8, 2.0), hi = lo * r.real(1.5, 2.5);
    for (size_t i = 0; i < n; ++i) x.push_back(lo + (hi - lo) * (double(i) + (r.chance(0.3) ? r.real(-0.2, 0.2) : 0)) / double(n - 1));
    return x;
  };
  R().Cases("linear", R().n(3000, 50000), [&](Rng& r, size_t) {
    const size_t n = 3 + r.below(20);
    const auto x = axis(r, n);
    const bool with_b = r.chance(0.5);
    std::vector<double> y(n), w(n);
    for (size_t i = 0; i < n; ++i) y[i] = r.real(-3, 3), w[i] = r.chance(0.1) && n > 6 ? 0 : r.real(0.1, 5);
    R().Describe(S("linear ", with_b ? "with" : "without", " offset, ", n, " samples from ", x[0]));
    R().Nontrivial(S(with_b, n, x[0]));
    const auto fit = with_b ? LinearTecOffsetDelaySolve(x, y, w) : LinearTecDelaySolve(x, y, w);
    VH_EXPECT(fit.has_value(), "linear-refused", "no fit");
    if (!fit) return;
    if (!with_b) VH_EXPECT(fit->b == 0, "linear-offset", "offset ", fit->b);
    // Least squares: the weighted residual is orthogonal to every model term.
    double g[3] = {0, 0, 0}, scale[3] = {0, 0, 0};
    for (size_t i = 0; i < n; ++i) {
      const double res = y[i] - (fit->a / x[i] + fit->b + fit->c * x[i]);
      const double t[3] = {1 / x[i], 1, x[i]};
      for (int k = 0; k < 3; ++k) g[k] += w[i] * res * t[k], scale[k] += w[i] * t[k] * (3 + std::fabs(fit->a) + std::fabs(fit->b) + std::fabs(fit->c));
    }
    for (int k = 0; k < 3; ++k)
      if (k != 1 || with_b) VH_EXPECT(std::fabs(g[k]) <= 1e-8 * scale[k], "linear-fit", "residual not orthogonal to term ", k, ": ", g[k]);
    std::vector<double> model(n);
    const double big = std::pow(10.0, r.real(0, 4));
    const TecOffsetDelayValues v{fit->a * big, fit->b * big, fit->c * big};
    EvaluateLinearTecOffsetValues(v, x, model);
    for (size_t i = 0; i < n; ++i)
      VH_EXPECT(model[i] >= -M_PI - 1e-12 && model[i] < M_PI + 1e-12 && PhaseDistance(model[i], v.a / x[i] + v.b + v.c * x[i]) < 1e-7, "evaluate", "model value ", model[i]);
    const TecOffsetDelayValues t{r.gauss(), r.gauss(), r.gauss()};
    const double want = VmCost(x, y, w, t.a, t.b, t.c);
    VH_EXPECT(std::fabs(TecOffsetDelayCost(x, y, w, t) - want) <= 1e-9 * (1 + std::fabs(want)), "cost", "cost ", TecOffsetDelayCost(x, y, w, t), " expected ", want);
  });
  static double gradient_gap = 0;
  static size_t gradient_fits = 0;
  R().Cases("gradient", R().n(800, 15000), [&](Rng& r, size_t) {
    // The non-linear fit ends where the weighted cost has no slope left.
    const size_t n = 6 + r.below(30);
    const auto x = axis(r, n);
    const double a = r.real(-0.5, 0.5), b = r.real(-0.5, 0.5), c = r.real(-0.3, 0.3);
    std::vector<double> y(n), w(n);
    for (size_t i = 0; i < n; ++i) {
      const bool outlier = r.chance(0.2);
      y[i] = a / x[i] + b + c * x[i] + (outlier ? r.real(0.4, 1.3) : r.real(-0.2, 0.2));
      w[i] = outlier ? r.real(0.001, 0.1) : r.real(0.5, 2);
    }
    R().Describe(S("gradient a=", a, " b=", b, " c=", c, " n=", n, " x=", x[0], "..", x.back()));
    R().Nontrivial(S(a, b, c, n));
    const auto fit = GradientTecOffsetDelaySolve(x, y, w);
    VH_EXPECT(fit.has_value(), "gradient-refused", "no fit");
    if (!fit) return;
    // Reference: iteratively reweighted least squares from the fit to the nearby minimum.
    double pr[3] = {fit->a, fit->b, fit->c};
    for (int it = 0; it < 300; ++it) {
      double m[3][4] = {};
      for (size_t i = 0; i < n; ++i) {
        const double t[3] = {1 / x[i], 1, x[i]}, res = y[i] - (pr[0] / x[i] + pr[1] + pr[2] * x[i]);
        for (int k = 0; k < 3; ++k) {
          for (int l = 0; l < 3; ++l) m[k][l] += w[i] * t[k] * t[l];
          m[k][3] += w[i] * t[k] * std::sin(res);
        }
      }
      for (int k = 0; k < 3; ++k)
        for (int l = 0; l < 3; ++l)
          if (l != k) {
            const double f = m[l][k] / m[k][k];
            for (int q = 0; q < 4; ++q) m[l][q] -= f * m[k][q];
          }
      for (int k = 0; k < 3; ++k) pr[k] += m[k][3] / m[k][k];
    }
    const double gap = VmCost(x, y, w, fit->a, fit->b, fit->c) - VmCost(x, y, w, pr[0], pr[1], pr[2]);
    gradient_gap += gap, ++gradient_fits;
    VH_EXPECT(gap < 4e-3, "gradient-fit", "the cost is ", gap, " above the minimum nearby");
    VH_EXPECT(VmCost(x, y, w, fit->a, fit->b, fit->c) <= VmCost(x, y, w, a, b, c) + 1e-9, "gradient-cost", "cost above that of the true parameters");
  });
  R().Cases("gradient-mean", 1, [](Rng&, size_t) {
    if (gradient_fits) R().Count("mean cost above minimum, 1e-9", uint64_t(std::max(0.0, gradient_gap / double(gradient_fits) * 1e9)));
    VH_EXPECT(gradient_gap <= 1e-5 * double(gradient_fits), "gradient-mean", "on average the cost is ", gradient_gap / double(gradient_fits), " above the minimum");
  });
  static size_t no_offset = 0, no_offset_ok = 0;
  R().Cases("search", R().n(150, 3000), [&](Rng& r, size_t) {
    const size_t n = 20 + r.below(30);
    const auto x = axis(r, n);
    const bool with_b = r.chance(0.5);
    const auto method = r.chance(0.25) ? TecOffsetDelayFittingMethod::VonMises : TecOffsetDelayFittingMethod::LeastSquares;
    const size_t wraps = method == TecOffsetDelayFittingMethod::VonMises ? 1 + r.below(2) : 1 + r.below(4);
    const double range = kTwoPi * double(wraps);
    const double a = r.real(-1, 1) * range / (1 / x.front() - 1 / x.back()), c = r.real(-1, 1) * range / (x.back() - x.front());
    const double b = with_b ? r.real(-M_PI, M_PI) : 0;
    const double noise = r.chance(0.5) ? 0 : 0.05;
    std::vector<double> y(n), w(n);
    for (size_t i = 0; i < n; ++i) y[i] = WrapTo(a / x[i] + b + c * x[i] + noise * (2 * r.unit() - 1)) + (r.chance(0.3) ? M_PI * 2 : 0), w[i] = r.chance(0.1) ? 0 : r.real(0.5, 2);
    const std::string what = S("search a=", a, " b=", b, " c=", c, " wraps ", wraps, method == TecOffsetDelayFittingMethod::VonMises ? " VonMises" : " LSQ", " noise ", noise, " n=", n, " x=", x[0], "..", x.back());
    R().Describe(what);
    R().Nontrivial(what);
    const auto fit = TecOffsetDelayGridSearch(x, y, w, with_b, wraps, method);
    if (!with_b) VH_EXPECT(fit.b == 0, "search-offset", "offset ", fit.b, " while no offset was asked for");
    const double got = VmCost(x, y, w, fit.a, fit.b, fit.c), best = VmCost(x, y, w, a, b, c);
    if (!with_b) {
      // Without an offset the grid is too coarse to promise the global optimum
      // (see DESIGN.md); the search may not be worse than one linear fit from a grid point.
      R().Count("searches without offset");
      ++no_offset;
      if (got <= best + 0.01 * double(n)) ++no_offset_ok, R().Count("searches without offset at the optimum");
      for (size_t k = 0; k < 6; ++k) {
        const double ga = k == 0 ? 0 : (double(r.below(wraps * 4 + 1)) / double(wraps * 2) - 1) * range / (1 / x.front() - 1 / x.back());
        const double gc = k == 0 ? 0 : (double(r.below(wraps * 4 + 1)) / double(wraps * 2) - 1) * range / (x.back() - x.front());
        double m00 = 0, m01 = 0, m11 = 0, v0 = 0, v1 = 0;
        for (size_t i = 0; i < n; ++i) {
          const double res = WrapTo(y[i] - ga / x[i] - gc * x[i]);
          m00 += w[i] / (x[i] * x[i]), m01 += w[i], m11 += w[i] * x[i] * x[i], v0 += w[i] * res / x[i], v1 += w[i] * res * x[i];
        }
        const double det = m00 * m11 - m01 * m01;
        const double c0 = VmCost(x, y, w, ga + (v0 * m11 - v1 * m01) / det, 0, gc + (m00 * v1 - m01 * v0) / det);
        if (method == TecOffsetDelayFittingMethod::LeastSquares) VH_EXPECT(got <= c0 + 1e-6, "search-grid", "cost ", got, " while a grid point gives ", c0);
      }
      return;
    }
    VH_EXPECT(got <= best + 0.01 * double(n), S("search-", method == TecOffsetDelayFittingMethod::VonMises ? "vonmises" : "lsq"), "found ", fit.a, " ", fit.b, " ", fit.c, " with cost ", got, " while the true parameters have ", best);
    if (method == TecOffsetDelayFittingMethod::LeastSquares) {
      // The result is refined: one more linear fit of what is left does not improve it.
      double m[3][4] = {};
      for (size_t i = 0; i < n; ++i) {
        const double t[3] = {1 / x[i], 1, x[i]}, res = WrapTo(y[i] - (fit.a / x[i] + fit.b + fit.c * x[i]));
        for (int k = 0; k < 3; ++k) {
          for (int l = 0; l < 3; ++l) m[k][l] += w[i] * t[k] * t[l];
          m[k][3] += w[i] * t[k] * res;
        }
      }
      for (int k = 0; k < 3; ++k)
        for (int l = 0; l < 3; ++l)
          if (l != k) {
            const double f = m[l][k] / m[k][k];
            for (int q = 0; q < 4; ++q) m[l][q] -= f * m[k][q];
          }
      const double next = VmCost(x, y, w, fit.a + m[0][3] / m[0][0], fit.b + m[1][3] / m[1][1], fit.c + m[2][3] / m[2][2]);
      VH_EXPECT(next > got - 1e-4, "search-refined", "another fit of the residual lowers the cost from ", got, " to ", next);
    }
    if (got <= best + 1e-6) R().Count("optimum reached");
    if (noise == 0 && method == TecOffsetDelayFittingMethod::LeastSquares) VH_EXPECT(got <= best + 1e-6, "search-exact", "cost ", got, " instead of ", best);
  });
  R().Cases("search-rate", 1, [](Rng&, size_t) {
    R().Describe(S(no_offset_ok, " of ", no_offset, " searches without offset reached the optimum"));
    VH_EXPECT(no_offset_ok * 10 >= no_offset * 9, "search-no-offset-rate", no_offset_ok, " of ", no_offset);
  });
}

// ---- C25: phase slopes
using dp3::common::phase_fitting::FitSample;
double SlopeCost(const std::vector<FitSample>& d, double slope, bool squared) {
  double c = 0, s = 0;
  for (const FitSample& f : d) {
    const double dist = PhaseDistance(slope * f.x, f.y);
    c += f.weight * (squared ? dist * dist : dist), s += f.weight;
  }
  return s == 0 ? 0 : c / s;
}

void C25() {
  namespace pf = dp3::common::phase_fitting;
  R().Cases("slopes", R().n(2500, 60000), [](Rng& r, size_t) {
    const size_t n = 2 + r.below(r.chance(0.3) ? 40 : 12);
    std::vector<FitSample> d(n);
    std::vector<double> x(n);
    const int kind = int(r.below(4));
    if (kind == 0) {  // frequencies
      const double f0 = r.real(30, 200), df = r.real(1, 5);
      for (size_t i = 0; i < n; ++i) x[i] = f0 + df * double(i);
    } else if (kind == 1) {  // wavelength squared
      const double f0 = r.real(110, 180), df = r.real(0.5, 3);
      for (size_t i = 0; i < n; ++i) x[i] = std::pow(299.792458 / (f0 + df * double(i)), 2);
    } else if (kind == 2) {  // irregular, around zero
      for (double& v : x) v = r.real(-10, 10);
    } else {  // mostly negative, with duplicates
      for (double& v : x) v = double(r.range(-25, 8)) * 0.5;
    }
    std::sort(x.begin(), x.end());
    double min_delta = 1e300, max_abs = 0;
    for (size_t i = 0; i + 1 < n; ++i)
      if (x[i + 1] > x[i]) min_delta = std::min(min_delta, x[i + 1] - x[i]);
    for (double v : x) max_abs = std::max(max_abs, std::fabs(v));
    if (max_abs == 0 || max_abs / min_delta > 400) return;
    const bool limited = r.chance(0.3);
    const int limit = 1 + int(r.below(10));
    int steps = int(std::min<double>(400, std::ceil(max_abs / min_delta)));
    if (n < 20) steps = std::min(steps, 10 * (2 << int(n)));
    if (limited) steps = std::min(steps, limit);
    const double slope = r.real(-1, 1) * (r.chance(0.5) ? 1.0 : 0.1) * double(steps) * M_PI / max_abs;
    const double noise = r.chance(0.5) ? 0 : 0.08;
    for (size_t i = 0; i < n; ++i) d[i] = {x[i], WrapTo(slope * x[i] + noise * (2 * r.unit() - 1)) + (r.chance(0.2) ? kTwoPi * double(r.range(-2, 2)) : 0), r.chance(0.1) ? 0 : r.real(0.2, 3)};
    const std::string what = S("slope ", slope, " of ", n, " samples, x ", x.front(), "..", x.back(), " noise ", noise, limited ? S(" limit ", limit) : "");
    R().Describe(what);
    R().Nontrivial(what);
    const double got = limited ? pf::FitSlope(d, pf::GetRange(d, limit)) : pf::FitSlope(d);
    if (!limited) VH_EXPECT(got == pf::FitSlope(d, pf::GetRange(d)), "slope-range", "a fit with a precomputed range differs");
    VH_EXPECT(std::isfinite(got), "slope-finite", "slope ", got);
    // The range depends on the x values only.
    std::vector<FitSample> d2 = d;
    for (FitSample& f : d2) f.y = 0, f.weight = 1;
    VH_EXPECT(pf::GetRange(d).max_wraps == pf::GetRange(d2).max_wraps && pf::GetRange(d).wrap_step == pf::GetRange(d2).wrap_step, "slope-range", "the range depends on y or the weights");
    const double c1 = SlopeCost(d, got, true);
    VH_EXPECT(c1 <= 2.0 * noise * noise + 1e-12, "slope-fit", "found ", got, " with mean squared deviation ", c1);
    VH_EXPECT(std::fabs(pf::SlopeModelCost(d, got) - SlopeCost(d, got, false)) < 1e-9, "slope-cost", "cost ", pf::SlopeModelCost(d, got));
    // Least squares on the unwrapped data: the weighted residual is orthogonal to x.
    double g = 0, sc = 0;
    bool near_edge = false;
    for (const FitSample& f : d) {
      const double res = WrapTo(f.y - got * f.x);
      near_edge |= std::fabs(res) > 1.5;
      g += f.weight * f.x * res, sc += f.weight * f.x * f.x;
    }
    if (!near_edge) VH_EXPECT(std::fabs(g) <= 1e-8 * (sc * (1 + std::fabs(got)) + 1), "slope-lsq", "residual along x: ", g);
    R().Count(noise == 0 ? "noiseless fits" : "noisy fits");
  });
  R().Cases("degenerate", R().n(400, 4000), [](Rng& r, size_t) {
    std::vector<FitSample> d;
    const int kind = int(r.below(5));
    const double slope = r.real(-0.5, 0.5), x0 = r.real(0.5, 3);
    switch (kind) {
      case 0: break;
      case 1: d = {{x0, WrapTo(slope * x0), 1.0}}; break;
      case 2: d = {{0, r.real(-3, 3), 1.0}, {0, r.real(-3, 3), 1.0}}; break;
      case 3: for (double x = 1; x < 6; ++x) d.push_back({x * x0, WrapTo(slope * x * x0), 0.0}); break;
      default: {  // two samples very close together
        const double eps = std::pow(10.0, r.real(-13, -8));
        d = {{1, slope, 1.0}, {1 + eps, slope * (1 + eps), 1.0}, {2, WrapTo(2 * slope), 1.0}, {3, WrapTo(3 * slope), 1.0}};
      }
    }
    R().Describe(S("degenerate kind ", kind, " slope ", slope, " x0 ", x0, d.size() > 1 ? S(" dx ", d[1].x - d[0].x) : ""));
    R().Nontrivial(S(kind, slope));
    const double got = pf::FitSlope(d);
    VH_EXPECT(std::isfinite(got), "slope-finite", "slope ", got);
    if (kind != 2) VH_EXPECT(SlopeCost(d, got, false) < 1e-6, "slope-degenerate", "slope ", got, " has cost ", SlopeCost(d, got, false));
  });
}

// ---- C26: kernel smoothing
template <typename D>
double Mag(const D& d) { return std::abs(d); }

template <typename D>
void SmoothCase(Rng& r) {
  using KS = dp3::ddecal::KernelSmoother<D, double>;
  const size_t n = 1 + r.below(40);
  std::vector<double> nu(n);
  double f = r.real(100e6, 150e6);
  const double df = r.real(5e4, 1e6);
  for (double& v : nu) v = f, f += df * (r.chance(0.2) ? r.real(0.1, 5) : 1.0);
  const int type = int(r.below(4));
  static const typename KS::KernelType types[] = {KS::RectangularKernel, KS::TriangularKernel, KS::GaussianKernel, KS::EpanechnikovKernel};
  const double bw = df * r.real(0.3, 15), ref = r.chance(0.5) ? 0 : r.real(100e6, 200e6), expo = r.pick(std::vector<double>{0, 1, -1, -2, 0.5}), factor = r.chance(0.5) ? 1.0 : r.real(0.3, 4);
  const bool trunc = r.chance(0.6);
  KS smoother(nu, types[type], bw, ref, expo, trunc);
  static const char* names[] = {"rectangular", "triangular", "gaussian", "epanechnikov"};
  const std::string what = S(names[type], " n=", n, " bw/df=", bw / df, " ref ", ref, " exponent ", expo, " factor ", factor, trunc ? " truncated" : "");
  R().Describe(what);
  if (n > 2) R().Nontrivial(what);
  // The kernel has the documented shape and is symmetric.
  auto kernel = [&](double dist) {
    const double x = std::fabs(dist / bw);
    switch (type) {
      case 0: return x > 1 ? 0.0 : 0.5;
      case 1: return x > 1 ? 0.0 : 1 - x;
      case 2: return trunc && x > 1 ? 0.0 : std::exp(-9 * x * x);
      default: return x > 1 ? 0.0 : 0.75 * (1 - x * x);
    }
  };
  for (int k = 0; k < 6; ++k) {
    const double dist = r.real(-1.5, 1.5) * bw;
    if (std::fabs(std::fabs(dist / bw) - 1) < 1e-9) continue;
    VH_EXPECT(std::fabs(smoother.Kernel(dist) - kernel(dist)) < 1e-12, S("kernel-", names[type]), "kernel at ", dist / bw, " is ", smoother.Kernel(dist), " expected ", kernel(dist));
    VH_EXPECT(std::fabs(smoother.Kernel(dist) - smoother.Kernel(-dist)) < 1e-12, "kernel-symmetric", "kernel at +/-", dist / bw, " is ", smoother.Kernel(dist), " / ", smoother.Kernel(-dist));
  }
  for (int round = 0; round < 2; ++round) {  // the object is reused for many series
    std::vector<D> data(n);
    std::vector<double> w(n);
    for (size_t i = 0; i < n; ++i) {
      if constexpr (std::is_same_v<D, double>) data[i] = r.gauss(); else data[i] = D(r.gauss(), r.gauss());
      w[i] = r.chance(0.25) ? 0 : r.real(0.1, 3);
    }
    const std::vector<D> in = data;
    const std::vector<double> w0 = w;
    smoother.Smooth(data.data(), w.data(), factor);
    std::vector<char> tiny(n, 0);
    VH_EXPECT(w == w0, "smooth-weights", "weights were modified");
    for (size_t i = 0; i < n; ++i) {
      const double local = ref == 0 ? bw : bw * nu[i] / ref;
      const double corr = std::pow(local / bw, expo) * factor;
      // Truncated: at least all channels within half the local bandwidth, at most a few neighbours more.
      size_t lo = 0, hi = n, hi_max = n;
      if (trunc) {
        lo = i;
        while (lo > 0 && nu[lo - 1] >= nu[i] - local * 0.5 * (1 + 1e-9)) --lo;
        hi = i + 1;
        while (hi < n && nu[hi] < nu[i] + local * 0.5 * (1 - 1e-9)) ++hi;
        // The window of the first channels is never smaller than that of the first channel with the plain bandwidth.
        hi_max = std::max<size_t>(hi, std::lower_bound(nu.begin(), nu.end(), nu[0] + bw * 0.5) - nu.begin() + 1) + 3;
      }
      bool match = false;
      D best{};
      for (size_t s = trunc ? (lo > 2 ? lo - 2 : 0) : 0; s <= lo && !match; ++s)
        for (size_t e = hi; e <= std::min(n, hi_max) && !match; ++e) {
          D sum(0.0);
          double ws = 0;
          for (size_t j = s; j < e; ++j) {
            const double k = kernel((nu[i] - nu[j]) * corr) * w[j];
            sum += in[j] * k, ws += k;
          }
          best = sum / ws;
          tiny[i] = ws < 1e-200;  // the sum of weights is not a normal number: any mean will do
          if (tiny[i]) match = true;
          if (ws == 0) match = std::isnan(Mag(data[i]));
          else match = Mag(D(data[i] - best)) <= 1e-9 * (1 + Mag(best));
        }
      VH_EXPECT(match, "smooth-value", "channel ", i, " is ", Mag(data[i]), " expected ", Mag(best));
      R().Count("channels smoothed");
    }
    // A constant stays the constant, whatever the weights.
    for (size_t i = 0; i < n; ++i) data[i] = D(2.5);
    smoother.Smooth(data.data(), w.data(), factor);
    for (size_t i = 0; i < n; ++i)
      VH_EXPECT(tiny[i] || Mag(D(data[i] - D(2.5))) < 1e-9, "smooth-constant", "constant data became ", Mag(data[i]), " in channel ", i);
  }
}

void C26() {
  R().Cases("complex", R().n(3000, 60000), [](Rng& r, size_t) { SmoothCase<cd>(r); });
  R().Cases("real", R().n(3000, 60000), [](Rng& r, size_t) { SmoothCase<double>(r); });
}

// ---- C27: piece-wise and sliding phase fits
void C27() {
  using F = dp3::ddecal::PieceWisePhaseFitter;
  R().Cases("unwrap", R().n(3000, 40000), [](Rng& r, size_t) {
    std::vector<double> v(1 + r.below(30));
    for (double& x : v) x = r.real(-12, 12);
    std::vector<double> u = v;
    F::Unwrap(u.begin(), u.end());
    R().Describe(S("unwrap ", vh::Join(v)));
    if (v.size() > 1) R().Nontrivial(vh::Join(v));
    for (size_t i = 0; i < v.size(); ++i) {
      VH_EXPECT(PhaseDistance(u[i], v[i]) < 1e-9, "unwrap-value", "value ", i, " changed by no multiple of 2 pi");
      if (i) VH_EXPECT(std::fabs(u[i] - u[i - 1]) <= M_PI + 1e-9, "unwrap-step", "step ", u[i] - u[i - 1]);
    }
    VH_EXPECT(u[0] == v[0], "unwrap-first", "the first value moved");
  });
  R().Cases("median", R().n(5000, 80000), [](Rng& r, size_t) {
    std::vector<std::pair<double, double>> v(r.below(12));
    double total = 0;
    for (auto& p : v) p = {double(r.range(-5, 5)), r.chance(0.2) ? 0 : double(r.range(1, 9))}, total += p.second;
    std::string t;
    for (auto& p : v) t += S(p.first, "*", p.second, " ");
    R().Describe("weighted median of " + t);
    if (v.size() > 2) R().Nontrivial(t);
    const auto v0 = v;
    const double m = F::WeightedMedian(v);
    if (v.empty()) { VH_EXPECT(m == 0, "median-empty", m); return; }
    double below = 0, above = 0;
    bool member = false;
    for (auto& p : v0) member |= p.first == m, below += p.first < m ? p.second : 0, above += p.first > m ? p.second : 0;
    VH_EXPECT(member && below <= total / 2 && above <= total / 2, "weighted-median", "median ", m, " has weight ", below, " below and ", above, " above of ", total);
  });
  R().Cases("fits", R().n(3000, 50000), [](Rng& r, size_t) {
    const size_t n = 1 + r.below(60), chunk = r.below(20);
    std::vector<double> nu(n), data(n), w(n, 1.0);
    const double f0 = r.real(100e6, 150e6), df = r.real(1e5, 2e5);
    for (size_t i = 0; i < n; ++i) nu[i] = f0 + df * double(i);
    // A line whose change over a window stays well below pi, as the fit assumes.
    const double slope = r.real(-1, 1) * 1.2 / (df * double(std::max<size_t>(std::min(chunk, n), 1))), off = r.real(-M_PI, M_PI);
    const bool weighted = r.chance(0.6);
    const double scale = weighted ? std::pow(10.0, r.real(-6, 3)) : 1;
    const bool zeros = weighted && r.chance(0.3);
    for (size_t i = 0; i < n; ++i) {
      // Phases as the constraint gives them: in [0, 2 pi).
      data[i] = std::fmod(off + slope * (nu[i] - f0), kTwoPi);
      if (data[i] < 0) data[i] += kTwoPi;
      if (weighted) w[i] = (zeros && i % 5 == 2 ? 0 : r.real(0.7, 1.4)) * scale;
    }
    const int method = int(r.below(2));
    const std::string what = S(method ? "sliding" : "piece-wise", " n=", n, " chunk ", chunk, " slope*chunk ", slope * df * double(chunk), " offset ", off, " weight scale ", weighted ? scale : 1, zeros ? " zeros" : "");
    R().Describe(what);
    if (chunk > 1 && n > 2) R().Nontrivial(what);
    F fitter(r.chance(0.5) ? chunk : 3);
    fitter.SetChunkSize(chunk);
    VH_EXPECT(fitter.ChunkSize() == chunk, "chunk-size", fitter.ChunkSize());
    std::vector<double> fitted(n, -99), fitted4(n, -99);
    std::vector<double> w4 = w;
    for (double& v : w4) v *= 4096;
    auto run = [&](const std::vector<double>& ww, std::vector<double>& out) {
      if (method) {
        if (weighted) fitter.SlidingFit(nu.data(), data.data(), ww.data(), out.data(), n); else fitter.SlidingFit(nu.data(), data.data(), out.data(), n);
      } else {
        if (weighted) fitter.PieceWiseFit(nu, data, ww.data(), out); else fitter.PieceWiseFit(nu, data, out);
      }
    };
    run(w, fitted);
    run(w4, fitted4);
    for (size_t i = 0; i < n; ++i) {
      // (a window with one weighted channel does not determine the line elsewhere)
      const bool determined = chunk >= 4 || w[i] != 0;
      VH_EXPECT(std::isfinite(fitted[i]) && (!determined || PhaseDistance(fitted[i], data[i]) < 1e-4), method ? "sliding-line" : "piecewise-line", "channel ", i, " of a straight line is fitted as ", fitted[i], " instead of ", data[i]);
      VH_EXPECT(std::fabs(fitted4[i] - fitted[i]) < 1e-6, "fit-weight-scale", "scaling all weights changes channel ", i, " from ", fitted[i], " to ", fitted4[i]);
      R().Count("channels fitted");
    }
    if (weighted && n >= 1) {
      std::vector<double> fb(n, -99);
      const size_t bp = fitter.SlidingFitWithBreak(nu.data(), data.data(), w.data(), fb.data(), n);
      VH_EXPECT(bp <= n, "break-point", "break point ", bp, " of ", n);
      for (size_t i = 0; i < n; ++i) VH_EXPECT(std::isfinite(fb[i]) && (zeros || PhaseDistance(fb[i], data[i]) < 1e-4), "break-line", "channel ", i, " is ", fb[i], " instead of ", data[i]);
    }
    const size_t cs = F::CalculateChunkSize(nu);
    VH_EXPECT(cs >= 1 && cs <= n, "chunk-calculated", "chunk size ", cs, " for ", n, " channels");
  });
}

}  // namespace

VH_MAIN({"C23", C23}, {"C24", C24}, {"C25", C25}, {"C26", C26}, {"C27", C27})
