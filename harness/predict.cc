// Monitors for the prediction of visibilities from a sky model.
#include "vh.h"

#include <algorithm>
#include <array>
#include <complex>
#include <cstring>
#include <memory>
#include <numeric>
#include <set>

#include <casacore/casa/Arrays/Cube.h>

#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "base/Simulate.h"
#include "base/Simulator.h"

using vh::R;
using vh::Rng;
using vh::S;
using dp3::base::Baseline;
using dp3::base::Direction;
using dp3::base::GaussianSource;
using dp3::base::PointSource;
using dp3::base::Simulator;
using dp3::base::Stokes;
using cd = std::complex<double>;

namespace {
constexpr double kC = 299792458.0;
using V3 = std::array<double, 3>;
double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 Cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
V3 Sum(double x, const V3& a, double y, const V3& b, double z, const V3& c) {
  return {x * a[0] + y * b[0] + z * c[0], x * a[1] + y * b[1] + z * c[1], x * a[2] + y * b[2] + z * c[2]};
}
/// The directions of increasing right ascension and declination and of the source itself, on the sky sphere.
struct Frame {
  V3 u, v, w;
  explicit Frame(const Direction& d)
      : u{-std::sin(d.ra), std::cos(d.ra), 0},
        v{-std::cos(d.ra) * std::sin(d.dec), -std::sin(d.ra) * std::sin(d.dec), std::cos(d.dec)},
        w{std::cos(d.ra) * std::cos(d.dec), std::sin(d.ra) * std::cos(d.dec), std::sin(d.dec)} {}
};

struct Source {
  bool gaussian = false, absolute = false, logarithmic = false;
  Direction dir;
  Stokes flux;
  std::vector<double> terms;
  double ref_freq = 0, major = 0, minor = 0, angle = 0;

  std::shared_ptr<dp3::base::ModelComponent> Make() const {
    if (!gaussian) {
      auto p = std::make_shared<PointSource>(dir, flux);
      if (!terms.empty()) p->setSpectralTerms(ref_freq, logarithmic, terms.begin(), terms.end());
      if (has_rm) p->setRotationMeasure(fraction, pol_angle, rm);
      return p;
    }
    auto g = std::make_shared<GaussianSource>(dir, flux);
    if (!terms.empty()) g->setSpectralTerms(ref_freq, logarithmic, terms.begin(), terms.end());
    if (has_rm) g->setRotationMeasure(fraction, pol_angle, rm);
    g->setMajorAxis(major);
    g->setMinorAxis(minor);
    g->setPositionAngle(angle);
    g->setPositionAngleIsAbsolute(absolute);
    return g;
  }
  bool has_rm = false;
  double fraction = 0, pol_angle = 0, rm = 0;
  /// The fluxes at a frequency: Q and U follow I only with a rotation measure.
  std::array<double, 4> Flux(double f) const {
    std::array<double, 4> q = Spectrum(f);
    if (has_rm) {
      const cd l = q[0] * fraction * std::polar(1.0, 2 * (pol_angle + rm * (kC / f) * (kC / f)));
      q[1] = l.real(), q[2] = l.imag();
    }
    return q;
  }
  /// The spectrum is that of I.
  std::array<double, 4> Spectrum(double f) const {
    if (terms.empty()) return {flux.I, flux.Q, flux.U, flux.V};
    if (logarithmic) {
      double e = 0, l = std::log10(f / ref_freq), q = 1;
      for (double t : terms) e += t * q, q *= l;
      return {flux.I * std::pow(f / ref_freq, e), flux.Q, flux.U, flux.V};
    }
    double x = f / ref_freq - 1, q = x, add = 0;
    for (double t : terms) add += t * q, q *= x;
    return {flux.I + add, flux.Q, flux.U, flux.V};
  }
  std::string Str() const {
    return S(gaussian ? (absolute ? "gaussian(absolute)" : "gaussian") : "point", " at ", dir.ra, ",", dir.dec, " I=", flux.I, " Q=", flux.Q, " U=", flux.U, " V=", flux.V,
             gaussian ? S(" axes ", major, ",", minor, " angle ", angle) : "", terms.empty() ? "" : logarithmic ? " log-spectrum" : " polynomial");
  }
};

struct Scene {
  Direction ref;
  size_t nst;
  std::vector<V3> uvw;
  std::vector<Baseline> bl;
  std::vector<double> freq, width;
  std::vector<Source> sources;
  bool freq_smear, time_smear, stokes_i;
  double angle = 0;  // rotation of the earth during the integration
  std::string Str() const {
    return S(nst, " stations ", bl.size(), " baselines ", freq.size(), " channels", freq_smear ? " freq-smear" : "", time_smear ? " time-smear" : "", stokes_i ? " I" : "", " ref ", ref.ra, ",", ref.dec);
  }
};

Direction Near(Rng& r, const Direction& d, double dist) {
  const Frame f(d);
  const double pa = r.real(0, 2 * M_PI), x = dist * r.unit();
  const V3 p = Sum(std::sin(x) * std::sin(pa), f.u, std::sin(x) * std::cos(pa), f.v, std::cos(x), f.w);
  return Direction(std::atan2(p[1], p[0]), std::asin(std::clamp(p[2], -1.0, 1.0)));
}

Scene Make(Rng& r) {
  Scene s;
  s.ref = Direction(r.real(-M_PI, 2 * M_PI), r.real(-1.5, 1.5));
  s.nst = r.range(1, 7);
  const double size = std::pow(10, r.real(1, 4.7));
  s.uvw.resize(s.nst);
  for (V3& v : s.uvw) v = {r.real(-size, size), r.real(-size, size), r.real(-size, size)};
  if (r.chance(0.7)) s.uvw[0] = {0, 0, 0};
  for (size_t p = 0; p < s.nst; ++p)
    for (size_t q = 0; q < s.nst; ++q)
      if (p <= q ? r.chance(0.85) : r.chance(0.1)) s.bl.emplace_back(p, q);
  if (s.bl.empty()) s.bl.emplace_back(0, s.nst - 1);
  r.shuffle(s.bl);
  const size_t nch = r.chance(0.2) ? 1 : r.range(1, 9);
  const double f0 = r.real(20e6, 200e6);
  const double w = std::pow(10, r.real(3, 6));
  for (size_t c = 0; c < nch; ++c) s.freq.push_back(f0 + double(c) * w * (r.chance(0.2) ? 3 : 1)), s.width.push_back(w * (r.chance(0.3) ? r.real(0.5, 3) : 1));
  s.freq_smear = r.chance(0.4);
  s.time_smear = r.chance(0.4);
  s.stokes_i = r.chance(0.4);
  s.angle = 7.2921e-5 * std::pow(10, r.real(-1, 2.5));
  const size_t nsrc = r.range(1, 4);
  for (size_t i = 0; i < nsrc; ++i) {
    Source x;
    x.dir = r.chance(0.1) ? s.ref : Near(r, s.ref, r.chance(0.2) ? 2.5 : std::pow(10, r.real(-4, 0)));
    const double I = std::pow(10, r.real(-2, 2));
    x.flux.I = r.chance(0.1) ? -I : I;
    if (r.chance(0.6)) x.flux.Q = I * r.real(-1, 1), x.flux.U = I * r.real(-1, 1), x.flux.V = I * r.real(-1, 1);
    if (r.chance(0.4)) {
      x.logarithmic = r.chance(0.7);
      x.ref_freq = r.real(30e6, 200e6);
      const size_t n = r.range(1, 3);
      for (size_t k = 0; k < n; ++k) x.terms.push_back(x.logarithmic ? r.real(-1, 1) : I * r.real(-0.3, 0.3));
    }
    x.has_rm = r.chance(0.3);
    if (x.has_rm) x.fraction = r.unit(), x.pol_angle = r.real(-4, 4), x.rm = r.real(-5, 5);
    x.gaussian = r.chance(0.5);
    if (x.gaussian) {
      x.absolute = r.chance(0.5);
      // Sizes for which some of the flux is left on the baselines.
      x.major = r.chance(0.1) ? 0 : kC / f0 / size * std::pow(10, r.real(-1.5, 0.3));
      x.minor = r.chance(0.2) ? x.major : x.major * r.unit();
      x.angle = r.real(-7, 7);
    }
    s.sources.push_back(x);
  }
  return s;
}

double Sinc(double x) { return std::abs(x) < 1e-9 ? 1 : std::sin(x) / x; }

/// What one source adds to one baseline and channel: XX, XY, YX, YY.
std::array<cd, 4> Model(const Scene& s, const Source& x, const V3& b, double f, double width) {
  const Frame ref(s.ref), src(x.dir);
  // Towards the source, relative to the phase centre, in the uvw frame.
  const V3 d = {Dot(src.w, ref.u), Dot(src.w, ref.v), Dot(src.w, ref.w) - 1};
  const double delay = Dot(b, d) / kC;
  double amp = 1;
  if (s.freq_smear) amp *= Sinc(M_PI * delay * width);
  if (s.time_smear) {
    // The pole in the uvw frame; the baseline turns around it.
    const V3 pole = {0, std::cos(s.ref.dec), std::sin(s.ref.dec)};
    amp *= Sinc(M_PI * f / kC * s.angle * Dot(Cross(b, pole), d));
  }
  if (x.gaussian) {
    double u = b[0], v = b[1];
    if (x.absolute) {
      const V3 sky = Sum(b[0], ref.u, b[1], ref.v, b[2], ref.w);
      u = Dot(sky, src.u), v = Dot(sky, src.v);
    }
    // Along and across the major axis; the angle runs from north over east.
    const double along = u * std::sin(x.angle) + v * std::cos(x.angle), across = u * std::cos(x.angle) - v * std::sin(x.angle);
    const double k = M_PI * f / kC;
    amp *= std::exp(-(k * k / (4 * std::log(2.0))) * (x.major * x.major * along * along + x.minor * x.minor * across * across));
  }
  const cd g = amp * std::polar(1.0, 2 * M_PI * std::remainder(delay * f, 1.0));
  const std::array<double, 4> q = x.Flux(f);
  return {g * (q[0] + q[1]), g * cd(q[2], q[3]), g * cd(q[2], -q[3]), g * (q[0] - q[1])};
}

void Predict(Rng& r, size_t) {
  const Scene s = Make(r);
  std::string what = s.Str();
  for (const Source& x : s.sources) what += "; " + x.Str();
  R().Describe(what);
  R().Nontrivial(what);
  const size_t ncor = s.stokes_i ? 1 : 4, nch = s.freq.size(), nbl = s.bl.size();
  xt::xtensor<double, 2> uvw(std::array<size_t, 2>{s.nst, 3});
  for (size_t a = 0; a < s.nst; ++a) for (size_t k = 0; k < 3; ++k) uvw(a, k) = s.uvw[a][k];
  const xt::xtensor<double, 2> uvw_before = uvw;
  // The model is added to what is there.
  std::vector<cd> data(ncor * nch * nbl), start;
  const bool empty = r.chance(0.5);
  for (cd& v : data) v = empty ? cd(0, 0) : cd(r.real(-5, 5), r.real(-5, 5));
  start = data;
  casacore::Cube<cd> cube(casacore::IPosition(3, ncor, nch, nbl), data.data(), casacore::SHARE);
  const std::array<double, 3> ncp = {0, std::cos(s.ref.dec) * s.angle, std::sin(s.ref.dec) * s.angle};
  std::unique_ptr<Simulator> sim;
  if (s.time_smear || r.chance(0.5)) sim = std::make_unique<Simulator>(s.ref, s.nst, s.bl, s.freq, s.width, ncp, uvw, cube, s.time_smear, s.freq_smear, s.stokes_i);
  else sim = std::make_unique<Simulator>(s.ref, s.nst, s.bl, s.freq, s.width, uvw, cube, s.freq_smear, s.stokes_i);
  for (const Source& x : s.sources) sim->simulate(x.Make());
  VH_EXPECT(std::equal(uvw.begin(), uvw.end(), uvw_before.begin()), "predict-uvw-changed", "station uvw were changed");
  static size_t some = 0;
  for (size_t b = 0; b < nbl; ++b) {
    const auto [p, q] = s.bl[b];
    const V3 base = {s.uvw[q][0] - s.uvw[p][0], s.uvw[q][1] - s.uvw[p][1], s.uvw[q][2] - s.uvw[p][2]};
    for (size_t c = 0; c < nch; ++c) {
      std::array<cd, 4> want{};
      double tol = 1e-9;
      if (p != q)
        for (const Source& x : s.sources) {
          const auto m = Model(s, x, base, s.freq[c], s.width[c]);
          double scale = 0;
          for (double v : x.Flux(s.freq[c])) scale = std::max(scale, std::abs(v));
          // Rounding of the phase itself, and of the smearing, which is in single precision.
          const double phase = 2 * M_PI * s.freq[c] / kC * (std::abs(s.uvw[p][0]) + std::abs(s.uvw[p][1]) + std::abs(s.uvw[p][2]) + std::abs(s.uvw[q][0]) + std::abs(s.uvw[q][1]) + std::abs(s.uvw[q][2])) * 2;
          tol += scale * (1e-14 * phase + 1e-10 + (s.freq_smear || s.time_smear ? 2e-6 : 0));
          for (size_t k = 0; k < 4; ++k) want[k] += m[k];
        }
      if (s.stokes_i) {
        want[0] = 0;
        if (p != q)
          for (Source x : s.sources) {
            const auto m = Model(s, x, base, s.freq[c], s.width[c]);
            want[0] += 0.5 * (m[0] + m[3]);
          }
      }
      for (size_t k = 0; k < ncor; ++k) {
        const size_t i = (b * nch + c) * ncor + k;
        const cd got = data[i] - start[i];
        if (std::abs(want[k]) > 1e-3) ++some;
        VH_EXPECT(std::abs(got - want[k]) <= tol, p == q ? "predict-auto" : "predict", "baseline ", p, "-", q, " channel ", c, " correlation ", k, ": added ", got, ", not ", want[k], " (", std::abs(got - want[k]), ")");
      }
    }
  }
  R().Count("visibilities", data.size());
  if (some) R().Count("visibilities with flux", some), some = 0;
}

/// Smearing equals the mean of the model over the channel and the integration.
void Smearing(Rng& r, size_t) {
  Scene s = Make(r);
  s.sources.resize(1);
  s.sources[0].terms.clear();
  s.sources[0].gaussian = s.sources[0].has_rm = false;
  s.sources[0].dir = Near(r, s.ref, 0.05);
  s.nst = 2;
  s.uvw.resize(2, V3{r.real(-1000, 1000), r.real(-1000, 1000), r.real(-1000, 1000)});
  s.bl = {{0, 1}};
  const bool time = r.chance(0.5);
  s.time_smear = time, s.freq_smear = !time;
  s.stokes_i = r.chance(0.5);
  s.freq.resize(1), s.width.resize(1);
  const V3 base = {s.uvw[1][0] - s.uvw[0][0], s.uvw[1][1] - s.uvw[0][1], s.uvw[1][2] - s.uvw[0][2]};
  const Frame ref(s.ref), src(s.sources[0].dir);
  const V3 d = {Dot(src.w, ref.u), Dot(src.w, ref.v), Dot(src.w, ref.w) - 1};
  const V3 pole = {0, std::cos(s.ref.dec), std::sin(s.ref.dec)};
  // Up to some four turns of phase across the channel or integration; a small rotation.
  const double turns = r.real(0.05, 4);
  s.angle = 0.002 * r.unit();
  const double rate = Dot(Cross(base, pole), d) / kC, delay = Dot(base, d) / kC;
  if (time) {
    if (std::abs(rate * s.freq[0] * s.angle) > 4) s.angle = 4 / std::abs(rate * s.freq[0]);
  } else {
    s.width[0] = std::min(2e6, turns / std::max(1e-12, std::abs(delay)));
  }
  R().Describe(S("smearing ", s.Str(), time ? S(" by ", rate * s.freq[0] * s.angle, " turns in time") : S(" by ", delay * s.width[0], " turns in frequency")));
  R().Nontrivial();
  cd mean = 0;
  const int n = 2000;
  const Scene plain = [&] { Scene x = s; x.time_smear = x.freq_smear = false; return x; }();
  for (int i = 0; i < n; ++i) {
    const double t = (i + 0.5) / n - 0.5;
    V3 b = base;
    if (time) {
      // Rodrigues rotation about the pole.
      const double a = t * s.angle;
      const V3 x = Cross(pole, base);
      b = Sum(std::cos(a), base, std::sin(a), x, (1 - std::cos(a)) * Dot(pole, base), pole);
    }
    mean += Model(plain, s.sources[0], b, s.freq[0] + (time ? 0 : t * s.width[0]), 0)[0];
  }
  mean /= double(n);
  std::vector<cd> data(s.stokes_i ? 1 : 4);
  xt::xtensor<double, 2> uvw(std::array<size_t, 2>{2, 3});
  for (size_t a = 0; a < 2; ++a) for (size_t k = 0; k < 3; ++k) uvw(a, k) = s.uvw[a][k];
  casacore::Cube<cd> cube(casacore::IPosition(3, data.size(), 1, 1), data.data(), casacore::SHARE);
  Source x = s.sources[0];
  if (s.stokes_i) x.flux.I += x.flux.Q;
  Simulator sim(s.ref, 2, s.bl, s.freq, s.width, {0, pole[1] * s.angle, pole[2] * s.angle}, uvw, cube, time, !time, s.stokes_i);
  sim.simulate(x.Make());
  const double scale = std::abs(s.sources[0].flux.I) + std::abs(s.sources[0].flux.Q);
  // Curvature of the track during the integration is left out.
  const double second = time ? 2 * M_PI * s.freq[0] / kC * std::sqrt(Dot(base, base)) * std::sqrt(Dot(d, d)) * s.angle * s.angle : 0;
  VH_EXPECT(std::abs(data[0] - mean) < scale * (1e-4 + second), time ? "smear-time" : "smear-frequency", "predicted ", data[0], ", the mean is ", mean);
}

// ---- station coordinates from baseline coordinates
void Split(Rng& r, size_t i) {
  const size_t n = r.range(1, 12);
  std::vector<V3> pos(n);
  for (V3& p : pos) p = {r.real(-1e4, 1e4), r.real(-1e4, 1e4), r.real(-1e4, 1e4)};
  // Stations in groups that no baseline connects.
  const size_t ngroup = r.chance(0.6) ? 1 : r.range(1, std::min<size_t>(n, 4));
  std::vector<size_t> group(n);
  for (size_t& g : group) g = r.below(ngroup);
  std::vector<int> a1, a2;
  const double density = r.real(0.2, 1);
  std::vector<std::pair<int, int>> pairs;
  for (size_t p = 0; p < n; ++p)
    for (size_t q = p; q < n; ++q)
      if (group[p] == group[q] && r.chance(density)) pairs.push_back(r.chance(0.5) ? std::make_pair(int(p), int(q)) : std::make_pair(int(q), int(p)));
  if (r.chance(0.7)) r.shuffle(pairs);
  const bool autos = r.chance(0.5);
  for (auto& p : pairs) if (autos || p.first != p.second) a1.push_back(p.first), a2.push_back(p.second);
  const size_t nbl = a1.size();
  const bool sorted = i % 2;
  // Autocorrelations are of no use: with lengths given, use sets that have cross baselines only.
  if (sorted && autos) { a1.clear(), a2.clear(); for (auto& p : pairs) if (p.first != p.second) a1.push_back(p.first), a2.push_back(p.second); }
  const size_t m = a1.size();
  (void)nbl;
  std::string what = S("split ", n, " stations ", sorted ? "longest first" : "in order", ":");
  for (size_t b = 0; b < m; ++b) what += S(" ", a1[b], "-", a2[b]);
  R().Describe(what);
  if (m) R().Nontrivial(what);
  // Which stations the baselines connect.
  std::vector<size_t> root(n);
  std::iota(root.begin(), root.end(), 0);
  for (size_t k = 0; k < n; ++k) for (size_t b = 0; b < m; ++b) { const size_t x = std::min(root[a1[b]], root[a2[b]]); root[a1[b]] = root[a2[b]] = x; }
  const size_t nroot = std::set<size_t>(root.begin(), root.end()).size();
  const std::vector<int> index = sorted ? dp3::base::SetupUvwSplitting(n, a1, a2, pos) : dp3::base::SetupUvwSplitting(n, a1, a2);
  VH_EXPECT(index.size() == n - nroot, "split-count", index.size(), " baselines used for ", n, " stations in ", nroot, " groups");
  std::vector<Baseline> bl(m);
  dp3::base::DPBuffer::UvwType uvw(std::array<size_t, 2>{m, 3});
  for (size_t b = 0; b < m; ++b) {
    bl[b] = {a1[b], a2[b]};
    for (size_t k = 0; k < 3; ++k) uvw(b, k) = pos[a2[b]][k] - pos[a1[b]][k];
  }
  for (int x : index) VH_EXPECT((x >= 0 && size_t(x) < m) || (x < 0 && size_t(-(x + 1)) < m), "split-index", x);
  if (std::any_of(index.begin(), index.end(), [&](int x) { return x >= 0 ? size_t(x) >= m : size_t(-(x + 1)) >= m; })) return;
  xt::xtensor<double, 2> out(std::array<size_t, 2>{n, 3});
  out.fill(17.0);
  dp3::base::SplitUvw(index, bl, uvw, out);
  for (size_t b = 0; b < m; ++b)
    for (size_t k = 0; k < 3; ++k)
      VH_EXPECT(std::abs(out(a2[b], k) - out(a1[b], k) - uvw(b, k)) < 1e-6, "split-uvw", "baseline ", a1[b], "-", a2[b], " has ", out(a2[b], k) - out(a1[b], k), ", not ", uvw(b, k));
  // Every group has one station at the origin: the first one.
  for (size_t g = 0; g < n; ++g)
    if (root[g] == g) for (size_t k = 0; k < 3; ++k) VH_EXPECT(out(g, k) == 0, "split-origin", "station ", g, " is at ", out(g, k));
  if (sorted) {
    // The coordinates come from the longest baselines that still reach every station:
    // a spanning tree whose baselines are as long as possible (Kruskal).
    std::vector<double> len(m);
    for (size_t b = 0; b < m; ++b) { const V3 d = {uvw(b, 0), uvw(b, 1), uvw(b, 2)}; len[b] = std::sqrt(Dot(d, d)); }
    std::vector<size_t> order(m), comp(n);
    std::iota(order.begin(), order.end(), 0);
    std::iota(comp.begin(), comp.end(), 0);
    std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return len[x] > len[y]; });
    std::vector<double> want, got;
    for (size_t b : order)
      if (comp[a1[b]] != comp[a2[b]]) {
        const size_t from = comp[a1[b]], to = comp[a2[b]];
        for (size_t& c : comp) if (c == from) c = to;
        want.push_back(len[b]);
      }
    for (int x : index) got.push_back(len[x >= 0 ? x : -(x + 1)]);
    std::sort(got.rbegin(), got.rend());
    VH_EXPECT(got == want, "split-longest", "not the longest baselines");
  }
}

void Rotate(Rng& r, size_t) {
  const Direction from(r.real(-7, 7), r.real(-1.57, 1.57)), to(r.real(-7, 7), r.real(-1.57, 1.57));
  const size_t n = r.range(1, 8);
  std::vector<double> uvw(3 * n), before;
  for (double& x : uvw) x = r.real(-1e5, 1e5);
  before = uvw;
  R().Describe(S("rotate ", n, " from ", from.ra, ",", from.dec, " to ", to.ra, ",", to.dec));
  R().Nontrivial();
  const size_t used = r.chance(0.8) ? n : r.below(n);
  dp3::base::rotateUVW(from, to, used, uvw.data());
  const Frame a(from), b(to);
  for (size_t i = 0; i < n; ++i) {
    const V3 sky = Sum(before[3 * i], a.u, before[3 * i + 1], a.v, before[3 * i + 2], a.w);
    const V3 want = i < used ? V3{Dot(sky, b.u), Dot(sky, b.v), Dot(sky, b.w)} : V3{before[3 * i], before[3 * i + 1], before[3 * i + 2]};
    for (size_t k = 0; k < 3; ++k) VH_EXPECT(std::abs(uvw[3 * i + k] - want[k]) < 1e-8, "rotate", "station ", i, " axis ", k, " is ", uvw[3 * i + k], ", not ", want[k]);
  }
}

void C35() {
  R().Cases("predict", R().n(2500, 60000), Predict);
  R().Cases("smearing", R().n(400, 8000), Smearing);
  R().Cases("split", R().n(4000, 80000), Split);
  R().Cases("rotate", R().n(2000, 40000), Rotate);
}
}  // namespace

VH_MAIN({"C35", C35})
