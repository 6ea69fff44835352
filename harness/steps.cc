// Monitors of steps that change visibilities: phase shift (C49), MAD flagging
// (C50), interpolation (C51), scaling, combining and nulling (C52), upsampling
// (C53), and passing streams on (C54).
#include "pipe.h"
#include "glob.h"

#include <schaapcommon/threading/threadpool.h>

#include "steps/BDAAverager.h"
#include "steps/BDAResultStep.h"
#include "steps/Combine.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/MultiResultStep.h"
#include "steps/NullStokes.h"
#include "steps/NullStep.h"
#include "steps/PhaseShift.h"
#include "steps/ResultStep.h"
#include "steps/ScaleData.h"
#include "steps/SetBeam.h"
#include "steps/Upsample.h"

namespace {
using namespace ppl;
using KV = std::vector<std::pair<std::string, std::string>>;
constexpr double kC = 299792458.0;

template <typename... T> std::string Cat(const T&... t) { std::ostringstream o; (o << ... << t); return o.str(); }
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
void Threads(Rng& r) { schaapcommon::ThreadPool::GetInstance().Force(r.range(1, 5)); }
using V3 = std::array<double, 3>;

// Unit vectors of u, v and w for a direction.
std::array<V3, 3> Basis(double ra, double dec) {
  return {V3{-std::sin(ra), std::cos(ra), 0},
          V3{-std::sin(dec) * std::cos(ra), -std::sin(dec) * std::sin(ra), std::cos(dec)},
          V3{std::cos(dec) * std::cos(ra), std::cos(dec) * std::sin(ra), std::sin(dec)}};
}
double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 ToXyz(const V3& uvw, const std::array<V3, 3>& b) {
  V3 x{};
  for (int k = 0; k < 3; ++k) x[k] = uvw[0] * b[0][k] + uvw[1] * b[1][k] + uvw[2] * b[2][k];
  return x;
}
// The uvw of a baseline at a time.
V3 UvwOf(const Obs& o, size_t b, double time, double ra, double dec) {
  using namespace casacore;
  const int i = o.ant1[b], j = o.ant2[b];
  MeasFrame f;
  f.set(MEpoch(MVEpoch(time / 86400), MEpoch::UTC));
  const MBaseline bl(MVBaseline(MVPosition(o.x[j] - o.x[i], o.y[j] - o.y[i], o.z[j] - o.z[i])), MBaseline::Ref(MBaseline::ITRF, f));
  const MVBaseline v = MBaseline::Convert(bl, MBaseline::J2000)().getValue();
  const V3 x{v(0), v(1), v(2)};
  const auto e = Basis(ra, dec);
  return {Dot(x, e[0]), Dot(x, e[1]), Dot(x, e[2])};
}

// ---- C49 ---------------------------------------------------------------------
void C49() {
  R().Cases("shift", R().n(2000, 30000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 10; oo.max_time = 4; oo.irregular = r.chance(0.3);
    const Obs o = RandomObs(r, oo);
    const size_t n_shift = r.range(1, 3);
    struct Centre { double ra, dec; };
    std::vector<Centre> centres;
    std::vector<std::shared_ptr<Step>> steps;
    std::string text;
    bool moved = false;
    double ra = o.ra, dec = o.dec;
    for (size_t s = 0; s < n_shift; ++s) {
      std::string v;
      if (s > 0 && r.chance(0.4)) {
        v = "[]"; ra = o.ra; dec = o.dec;  // back to the original centre
      } else {
        const double reach = r.pick(std::vector<double>{1e-4, 1e-2, 0.3, 3});
        ra = ra + reach * r.real(-1, 1); dec = std::clamp(dec + reach * r.real(-0.5, 0.5), -1.57, 1.57);
        if (r.chance(0.5)) { ra = std::fmod(ra + 4 * M_PI, 2 * M_PI); v = "[" + Fmt(ra) + "rad, " + Fmt(dec) + "rad]"; }
        else { v = "[" + Fmt(ra * 180 / M_PI) + "deg, " + Fmt(dec * 180 / M_PI) + "deg]"; }
        moved = true;
      }
      centres.push_back({ra, dec});
      text += v + " ";
      const std::string pre = "p" + std::to_string(s) + ".";
      if (v == "[]" && r.chance(0.5)) steps.push_back(std::make_shared<dp3::steps::PhaseShift>(Parset({}), pre, std::vector<std::string>{}));
      else steps.push_back(std::make_shared<dp3::steps::PhaseShift>(Parset({{pre + "phasecenter", v}}), pre));
    }
    R().Describe(o.Str() + " centres " + text);
    if (moved) R().Nontrivial();
    Threads(r);
    auto sink = Connect(steps, o.Info());
    // The metadata.
    const DPInfo& out = sink->getInfoOut();
    const auto pc = out.phaseCenter().getValue();
    const auto e = Basis(centres.back().ra, centres.back().dec);
    VH_EXPECT(std::fabs(std::sin(pc.get()[1]) - e[2][2]) < 1e-9 && std::fabs(std::cos(pc.get()[1]) * std::cos(pc.get()[0]) - e[2][0]) < 1e-9 && std::fabs(std::cos(pc.get()[1]) * std::sin(pc.get()[0]) - e[2][1]) < 1e-9, "phase-centre-info", "phase centre not set");
    VH_EXPECT(std::fabs(out.originalPhaseCenter().getValue().get()[0] - o.ra) < 1e-12, "original-centre", "original phase centre changed");
    VH_EXPECT(out.metaChanged(), "meta-changed", "meta not marked as changed");
    for (size_t t = 0; t < o.ntime; ++t) {
      BufOpt bo; bo.extra = r.chance(0.2);
      auto b = RandomBuffer(r, o, t, bo);
      const Slot in = Snap(*b);
      steps.front()->process(std::move(b));
      VH_EXPECT(sink->bufs.size() == t + 1, "slot-lost", "no output for slot ", t);
      Slot got = Snap(*sink->bufs.back());
      R().Count("samples", got.data.size());
      for (size_t bl = 0; bl < o.nbl; ++bl) {
        const V3 u{in.U(bl, 0), in.U(bl, 1), in.U(bl, 2)};
        auto from = Basis(o.ra, o.dec);
        const V3 xyz = ToXyz(u, from);
        const double size = std::sqrt(Dot(u, u));
        for (int k = 0; k < 3; ++k)
          VH_EXPECT(std::fabs(got.U(bl, k) - Dot(xyz, e[k])) < 1e-9 * size + 1e-9, "uvw", "baseline ", bl, " axis ", k, ": ", got.U(bl, k), " expected ", Dot(xyz, e[k]));
        for (size_t c = 0; c < o.nchan; ++c) {
          const double ph = 2 * M_PI * o.freqs[c] / kC * (Dot(xyz, from[2]) - Dot(xyz, e[2]));
          const cd f(std::cos(ph), std::sin(ph));
          for (size_t p = 0; p < o.ncorr; ++p) {
            const cd want = cd(in.D(bl, c, p)) * f;
            VH_EXPECT(std::abs(cd(got.D(bl, c, p)) - want) <= std::abs(want) * (4e-7 * n_shift + 1e-11 * size) + 1e-30, "phase", "baseline ", bl, " channel ", c, " corr ", p, ": ", got.D(bl, c, p), " expected ", want);
          }
        }
      }
      got.data = in.data; got.uvw = in.uvw;
      VH_EXPECT(Diff(in, got).empty(), "side-effect", "slot ", t, ": ", Diff(in, got), " changed");
    }
    steps.front()->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  });
  // A source at the new centre becomes real and the same in all channels; a
  // shift and the shift back is the identity.
  R().Cases("source", R().n(400, 6000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 10; oo.max_time = 3;
    const Obs o = RandomObs(r, oo);
    const double reach = r.pick(std::vector<double>{1e-3, 1e-2, 0.2});
    const double ra = o.ra + reach * r.real(-1, 1), dec = std::clamp(o.dec + reach * r.real(-1, 1), -1.55, 1.55);
    auto step = std::make_shared<dp3::steps::PhaseShift>(Parset({{"p.phasecenter", "[" + Fmt(ra) + "rad," + Fmt(dec) + "rad]"}}), "p.");
    const bool back = r.chance(0.5);
    std::vector<std::shared_ptr<Step>> steps{step};
    if (back) steps.push_back(std::make_shared<dp3::steps::PhaseShift>(Parset({{"q.phasecenter", "[]"}}), "q."));
    R().Describe(o.Str() + " source at the new centre " + Fmt(ra) + "," + Fmt(dec) + (back ? " and back" : ""));
    R().Nontrivial();
    Threads(r);
    auto sink = Connect(steps, o.Info());
    const auto from = Basis(o.ra, o.dec), to = Basis(ra, dec);
    const double l = Dot(to[2], from[0]), m = Dot(to[2], from[1]), n = Dot(to[2], from[2]);
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = RandomBuffer(r, o, t);
      const double flux = r.real(0.5, 5);
      for (size_t bl = 0; bl < o.nbl; ++bl) {
        // The uvw of DP3: the vis. of a source is exp(2 pi i (ul + vm + w(n-1)) f / c).
        const V3 u{b->GetUvw()(bl, 0), b->GetUvw()(bl, 1), b->GetUvw()(bl, 2)};
        for (size_t c = 0; c < o.nchan; ++c) {
          const double ph = 2 * M_PI * o.freqs[c] / kC * (u[0] * l + u[1] * m + u[2] * (n - 1));
          for (size_t p = 0; p < o.ncorr; ++p) b->GetData()(bl, c, p) = cf(flux * std::cos(ph), flux * std::sin(ph));
        }
      }
      const Slot in = Snap(*b);
      steps.front()->process(std::move(b));
      const Slot got = Snap(*sink->bufs.back());
      for (size_t bl = 0; bl < o.nbl; ++bl)
        for (size_t c = 0; c < o.nchan; ++c)
          for (size_t p = 0; p < o.ncorr; ++p) {
            const cd want = back ? cd(in.D(bl, c, p)) : cd(flux, 0);
            VH_EXPECT(std::abs(cd(got.D(bl, c, p)) - want) < 2e-6 * flux, back ? "round-trip" : "source-phase", "baseline ", bl, " channel ", c, ": ", got.D(bl, c, p), " expected ", want);
          }
    }
    steps.front()->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  });
}

// ---- C50 ---------------------------------------------------------------------
struct WindowExpr {  // value per baseline length, and its text
  std::string text;
  std::function<double(double)> f;
};
WindowExpr RandomWindow(Rng& r, double lo, double hi, double scale, bool integral) {
  auto val = [&] { double v = r.real(lo, hi); return integral ? std::floor(v) : std::round(v * 100) / 100; };
  const double a = val(), b = val();
  if (r.chance(0.6)) return {Fmt(a), [=](double) { return a; }};
  const double lim = std::floor(scale * r.unit());
  return {"iif(bl<" + Fmt(lim) + ", " + Fmt(a) + ", " + Fmt(b) + ")", [=](double bl) { return bl < lim ? a : b; }};
}
int Odd(double v, int max) {
  int w = std::max(1, int(v + 0.5));
  if (max > 0) w = std::min(w, max);
  return w % 2 ? w : w - 1;
}
void C50() {
  R().Cases("mad", R().n(1500, 20000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_ant = 4; oo.max_chan = 9; oo.max_time = 9;
    Obs o = RandomObs(r, oo);
    const int announced = r.chance(0.8) ? o.ntime : r.chance(0.5) ? o.ntime + r.range(1, 6) : 0;
    double longest = 0;
    for (size_t b = 0; b < o.nbl; ++b) longest = std::max(longest, o.Length(b));
    const WindowExpr fw = RandomWindow(r, 1, 12, longest, r.chance(0.8)), tw = RandomWindow(r, 1, 12, longest, r.chance(0.8)), th = RandomWindow(r, 0.3, 4, longest, false);
    KV kv{{"m.threshold", th.text}, {"m.freqwindow", fw.text}, {"m.timewindow", tw.text}};
    std::vector<unsigned> corr;
    if (r.chance(0.4)) {
      std::vector<unsigned> all{0, 1, 2, 3, 4, 7};
      r.shuffle(all);
      corr.assign(all.begin(), all.begin() + r.range(1, 4));
      kv.push_back({"m.correlations", "[" + vh::Join(corr, ",") + "]"});
    }
    bool has_auto = false;
    for (size_t b = 0; b < o.nbl; ++b) has_auto |= o.ant1[b] == o.ant2[b];
    const bool autos = r.chance(has_auto ? 0.4 : 0.05);
    if (autos) kv.push_back({"m.applyautocorr", "true"});
    double blmin = -1, blmax = 1e30;
    if (r.chance(0.3)) { blmin = longest * r.real(0, 0.6); kv.push_back({"m.blmin", Fmt(blmin)}); }
    if (r.chance(0.3)) { blmax = longest * r.real(0.5, 1); kv.push_back({"m.blmax", Fmt(blmax)}); }
    const double pflag = r.pick(std::vector<double>{0, 0, 0.1, 0.5, 0.9});
    R().Describe(o.Str() + " announced=" + vh::S(announced) + " " + Text(kv) + " flagged " + Fmt(pflag));
    Threads(r);
    auto step = std::make_shared<dp3::steps::MadFlagger>(Parset(kv), "m.");
    DPInfo info = o.Info();
    if (announced) info.setTimes(o.t0, o.t0 + (announced - 1) * o.dt, o.dt); else info.setTimeIntervalAndSteps(o.dt, 0);
    if (int(info.ntime()) != announced) throw std::logic_error("harness: ntime");
    std::shared_ptr<Sink> sink;
    if (autos && !has_auto) {
      VH_EXPECT(vh::Throws([&] { Connect({step}, info); }), "autos-missing", "accepted without autocorrelations");
      return;
    }
    sink = Connect({step}, info);
    // The plan per baseline.
    std::vector<int> fwin(o.nbl), twin(o.nbl);
    std::vector<double> thr(o.nbl);
    int tmax = 0;
    for (size_t b = 0; b < o.nbl; ++b) {
      const double len = o.Length(b);
      fwin[b] = Odd(fw.f(len), o.nchan);
      twin[b] = Odd(tw.f(len), announced);
      tmax = std::max(tmax, twin[b]);
      thr[b] = th.f(len);
    }
    std::vector<unsigned> use;
    if (corr.empty()) for (unsigned p = 0; p < o.ncorr; ++p) use.push_back(p);
    for (unsigned p : corr) if (p < o.ncorr) use.push_back(p);
    if (use.empty()) use.push_back(0);
    std::vector<Slot> in;
    for (size_t t = 0; t < o.ntime; ++t) {
      BufOpt bo; bo.flag_prob = 0;
      auto b = RandomBuffer(r, o, t, bo);
      for (size_t bl = 0; bl < o.nbl; ++bl)
        for (size_t c = 0; c < o.nchan; ++c) {
          const bool f = r.chance(pflag), hot = r.chance(0.08);
          for (size_t p = 0; p < o.ncorr; ++p) {
            b->GetFlags()(bl, c, p) = f;
            if (hot && r.chance(0.7)) b->GetData()(bl, c, p) *= float(r.real(3, 50));
            else if (f && r.chance(0.2)) b->GetData()(bl, c, p) = cf(1e20f, 0);
          }
        }
      in.push_back(Snap(*b));
      step->process(std::move(b));
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    VH_EXPECT(sink->bufs.size() == o.ntime, "slot-count", sink->bufs.size(), " slots, expected ", o.ntime);
    auto median = [](std::vector<double> v) {
      std::sort(v.begin(), v.end());
      const size_t n = v.size();
      return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
    };
    dp3::base::FlagCounter counter(Parset(kv), "m.count.");
    counter.init(sink->getInfoOut());
    size_t new_flags = 0, undecided = 0, clear = 0;
    for (size_t t = 0; t < o.ntime; ++t) {
      Slot got = Snap(*sink->bufs[t]);
      std::vector<char> want(o.nbl * o.nchan);  // 0, 1, 2 (undecided)
      for (size_t b = 0; b < o.nbl; ++b) {
        const bool is_auto = o.ant1[b] == o.ant2[b];
        const double len = o.Length(b);
        for (size_t c = 0; c < o.nchan; ++c) {
          char& w = want[b * o.nchan + c];
          w = in[t].F(b, c, 0);
          if (w || (autos ? !is_auto : len < blmin || len > blmax)) continue;
          for (unsigned p : use) {
            std::vector<double> v;
            // The window is reduced when it turns out at the end that there
            // are fewer slots; until then it is mirrored at the start.
            const int tw = int(t) + tmax / 2 < int(o.ntime) ? twin[b] : std::min(twin[b], Odd(1e6, o.ntime));
            for (int i = -(tw / 2); i <= tw / 2; ++i) {
              int ti = std::abs(int(t) + i);
              if (ti >= int(o.ntime)) ti = 2 * (int(o.ntime) - 1) - ti;
              for (int j = -(fwin[b] / 2); j <= fwin[b] / 2; ++j) {
                int ci = std::abs(int(c) + j);
                if (ci >= int(o.nchan)) ci = 2 * (int(o.nchan) - 1) - ci;
                if (!in[ti].F(b, ci, 0)) v.push_back(std::abs(in[ti].D(b, ci, p)));
              }
            }
            const double z1 = median(v);
            for (double& x : v) x = std::fabs(x - z1);
            const double z2 = median(v), limit = z1 + thr[b] * z2 * 1.4826, a = std::abs(in[t].D(b, c, p));
            if (std::fabs(a - limit) <= 1e-5 * (a + limit)) { w = 2; break; }  // undecided
            if (a > limit) { w = 1; ++new_flags; counter.incrBaseline(b); counter.incrChannel(c); counter.incrCorrelation(p); break; }
          }
          if (w == 2) ++undecided;
          if (w == 0) ++clear;
        }
      }
      if (autos)
        for (size_t b = 0; b < o.nbl; ++b) {
          const int i = o.ant1[b], j = o.ant2[b];
          const double len = o.Length(b);
          if (i == j || len < blmin || len > blmax) continue;
          for (size_t c = 0; c < o.nchan; ++c) {
            char& w = want[b * o.nchan + c];
            if (w == 1) continue;
            char any = 0;
            for (size_t a = 0; a < o.nbl; ++a)
              if (o.ant1[a] == o.ant2[a] && (o.ant1[a] == i || o.ant1[a] == j)) {
                const char x = want[a * o.nchan + c];
                any = any == 1 || x == 1 ? 1 : std::max(any, x);
              }
            if (any == 1) { w = 1; ++new_flags; counter.incrBaseline(b); counter.incrChannel(c); }
            else if (any == 2) { w = 2; ++undecided; }
          }
        }
      for (size_t b = 0; b < o.nbl; ++b)
        for (size_t c = 0; c < o.nchan; ++c)
          for (size_t p = 0; p < o.ncorr; ++p) {
            const char w = want[b * o.nchan + c];
            if (w != 2) VH_EXPECT(got.F(b, c, p) == (w == 1), "mad-flag", "slot ", t, " baseline ", b, " channel ", c, " corr ", p, ": flag ", got.F(b, c, p), " expected ", w == 1, " windows ", fwin[b], "x", twin[b]);
            else VH_EXPECT(got.F(b, c, p) == got.F(b, c, 0), "corr-equal", "flags differ between correlations");
          }
      got.flags = in[t].flags;
      VH_EXPECT(Diff(in[t], got).empty(), "side-effect", "slot ", t, ": ", Diff(in[t], got), " changed");
    }
    R().Count("flags set", new_flags); R().Count("undecided", undecided);
    if (new_flags && clear && (tmax > 1)) R().Nontrivial();
    if (!undecided) {
      std::ostringstream a, b;
      step->showCounts(a);
      b << "\nFlags set by MADFlagger m." << "\n=======================\n";
      counter.showBaseline(b, o.ntime); counter.showChannel(b, o.ntime); counter.showCorrelation(b, o.ntime);
      VH_EXPECT(a.str() == b.str(), "counts", "flag counts differ:\n", a.str(), "\nexpected\n", b.str());
    }
  });
}

// ---- C51 ---------------------------------------------------------------------
void C51() {
  R().Cases("interpolate", R().n(800, 10000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_ant = 3; oo.max_chan = 12; oo.max_time = 14;
    const Obs o = RandomObs(r, oo);
    const int win = r.pick(std::vector<int>{1, 3, 3, 5, 7, 9, 15, 21});
    KV kv;
    if (win != 15 || r.chance(0.5)) kv.push_back({"i.windowsize", vh::S(win)});
    const double pf = r.pick(std::vector<double>{0.05, 0.3, 0.7, 0.95});
    const bool per_corr = r.chance(0.3), nans = r.chance(0.2);
    R().Describe(o.Str() + " window " + vh::S(win) + " flagged " + Fmt(pf) + (nans ? " with unflagged NaN" : ""));
    Threads(r);
    auto step = std::make_shared<dp3::steps::Interpolate>(Parset(kv), "i.");
    auto sink = Connect({step}, o.Info());
    std::vector<Slot> in;
    size_t n_flagged = 0, n_mid = 0;
    for (size_t t = 0; t < o.ntime; ++t) {
      BufOpt bo; bo.flag_prob = 0;
      auto b = RandomBuffer(r, o, t, bo);
      const bool slot = r.chance(0.08);
      for (size_t bl = 0; bl < o.nbl; ++bl) {
        const bool whole = slot || r.chance(0.08);
        for (size_t c = 0; c < o.nchan; ++c) {
          bool f = false;
          for (size_t p = 0; p < o.ncorr; ++p) {
            if (p == 0 || per_corr) f = whole || r.chance(pf);
            b->GetFlags()(bl, c, p) = f;
            n_flagged += f;
            if (f && r.chance(0.3)) b->GetData()(bl, c, p) = cf(NAN, 1e30f);
            else if (nans && r.chance(0.03)) b->GetData()(bl, c, p) = r.chance(0.5) ? cf(NAN, 0) : cf(0, INFINITY);
          }
        }
      }
      in.push_back(Snap(*b));
      step->process(std::move(b));
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    VH_EXPECT(sink->bufs.size() == o.ntime, "slot-count", sink->bufs.size(), " slots, expected ", o.ntime);
    const int h = win / 2;
    for (int t = 0; t < int(o.ntime); ++t) {
      Slot got = Snap(*sink->bufs[t]);
      for (size_t b = 0; b < o.nbl; ++b)
        for (int c = 0; c < int(o.nchan); ++c)
          for (size_t p = 0; p < o.ncorr; ++p) {
            cd want = in[t].D(b, c, p);
            double tol = 0;
            bool unsure = false, neighbours = false;
            if (in[t].F(b, c, p)) {
              cd sum = 0; double wsum = 0, mag = 0;
              for (int i = std::max(0, t - h); i <= std::min(int(o.ntime) - 1, t + h); ++i)
                for (int j = std::max(0, c - h); j <= std::min(int(o.nchan) - 1, c + h); ++j) {
                  if (in[i].F(b, j, p)) continue;
                  const double w = std::exp(-0.5 * ((i - t) * (i - t) + (j - c) * (j - c)));
                  sum += cd(in[i].D(b, j, p)) * w; wsum += w; mag += std::abs(cd(in[i].D(b, j, p))) * w;
                  neighbours = true;
                }
              want = neighbours ? sum / wsum : cd(NAN, NAN);
              tol = 3e-5 * mag / wsum + 1e-30;
              unsure = neighbours && wsum < 1e-34;
              if (neighbours) ++n_mid;
            }
            if (unsure) continue;
            const bool bad = !std::isfinite(want.real()) || !std::isfinite(want.imag());
            VH_EXPECT(got.F(b, c, p) == bad, "flag-left", "slot ", t, " baseline ", b, " channel ", c, " corr ", p, ": flag ", got.F(b, c, p), " expected ", bad);
            if (bad) VH_EXPECT(got.D(b, c, p) == cf(0, 0), "bad-not-zero", "slot ", t, " baseline ", b, " channel ", c, ": ", got.D(b, c, p), " where nothing is known");
            else VH_EXPECT(std::abs(cd(got.D(b, c, p)) - want) <= tol, "value", "slot ", t, " baseline ", b, " channel ", c, " corr ", p, ": ", got.D(b, c, p), " expected ", want);
          }
      got.flags = in[t].flags; got.data = in[t].data;
      VH_EXPECT(Diff(in[t], got).empty(), "side-effect", "slot ", t, ": ", Diff(in[t], got), " changed");
    }
    R().Count("samples interpolated", n_mid);
    if (n_mid && n_mid < n_flagged * 4 && win > 1) R().Nontrivial();
  });
  R().Cases("even", R().n(20, 200), [](Rng& r, size_t) {
    const int win = 2 * r.range(0, 20);
    R().Describe("window " + vh::S(win));
    VH_EXPECT(vh::Throws([&] { dp3::steps::Interpolate s(Parset({{"i.windowsize", vh::S(win)}}), "i."); }), "even-window", "even window accepted");
  });
}

// ---- C52 ---------------------------------------------------------------------
// A random BDA buffer over the observation; nchan per baseline given.
std::unique_ptr<BdaBuffer> RandomBda(Rng& r, const Obs& o, const std::vector<size_t>& nchan, const std::vector<std::string>& names) {
  size_t total = 0, nrows = r.range(1, 12);
  std::vector<size_t> bl(nrows);
  for (size_t& b : bl) { b = r.range(0, o.nbl - 1); total += nchan[b] * o.ncorr; }
  auto buf = std::make_unique<BdaBuffer>(total + r.range(0, 20), dp3::common::Fields(dp3::common::Fields::Single::kFlags) | dp3::common::Fields(dp3::common::Fields::Single::kWeights) | dp3::common::Fields(dp3::common::Fields::Single::kData));
  for (const std::string& n : names) buf->AddData(n);
  for (size_t i = 0; i < nrows; ++i) {
    const size_t n = nchan[bl[i]] * o.ncorr;
    std::vector<cf> d(n);
    std::vector<float> w(n);
    auto flags = std::make_unique<bool[]>(n);
    for (size_t k = 0; k < n; ++k) { d[k] = cf(r.gauss() * 3, r.gauss() * 3); w[k] = r.real(0, 2); flags[k] = r.chance(0.2); }
    const double uvw[3] = {r.gauss(), r.gauss(), r.gauss()};
    if (!buf->AddRow(o.t0 + i, o.dt, o.dt, bl[i], nchan[bl[i]], o.ncorr, i, d.data(), flags.get(), w.data(), uvw)) throw std::logic_error("harness: BDA row refused");
  }
  for (size_t i = 0; i < nrows; ++i)
    for (const std::string& name : names) {
      cf* e = buf->GetData(i, name);
      for (size_t k = 0; k < nchan[bl[i]] * o.ncorr; ++k) e[k] = cf(r.gauss(), r.gauss());
    }
  return buf;
}
// Compares everything but the main data; "" when equal.
std::string RowsDiff(const std::vector<BdaRow>& a, const std::vector<BdaRow>& b) {
  if (a.size() != b.size()) return "row count";
  for (size_t i = 0; i < a.size(); ++i) {
    const BdaRow &x = a[i], &y = b[i];
    if (x.time != y.time || x.interval != y.interval || x.exposure != y.exposure || x.bl != y.bl || x.row_nr != y.row_nr) return "row metadata";
    if (x.nchan != y.nchan || x.ncorr != y.ncorr) return "row shape";
    if (!std::equal(x.uvw, x.uvw + 3, y.uvw)) return "uvw";
    if (x.flags != y.flags) return "flags";
    if (x.weights != y.weights) return "weights";
    if (x.data.size() != y.data.size()) return "data names";
    for (auto& [n, v] : x.data) {
      if (n.empty()) continue;
      auto it = y.data.find(n);
      if (it == y.data.end() || !SameData(v, it->second)) return "data " + n;
    }
  }
  return "";
}
void ScaleCases() {
  R().Cases("scale", R().n(1000, 15000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 12; oo.max_time = 3; oo.irregular = r.chance(0.3);
    Obs o = RandomObs(r, oo);
    o.antenna_set = r.pick(std::vector<std::string>{"", "HBA_DUAL", "LBA_INNER", "LBA_OUTER", "HBA_JOINED"});
    const size_t n = r.range(0, 3);
    std::vector<std::string> pats;
    std::vector<std::vector<double>> coef;
    std::string ctext;
    for (size_t i = 0; i < n; ++i) {
      std::string p = r.pick(o.names);
      if (r.chance(0.3)) p = p.substr(0, 2) + "*"; else if (r.chance(0.3)) p[r.range(2, 4)] = '?'; else if (r.chance(0.2)) p = "*" + p.substr(p.size() - 3);
      pats.push_back(p);
      std::vector<double> c;
      for (int k = r.range(1, 4); k > 0; --k) c.push_back(std::round(r.real(0.1, 5) * 1000) / 1000);
      coef.push_back(c);
      std::vector<std::string> t;
      for (double v : c) t.push_back(Fmt(v));
      ctext += (i ? "," : "") + (c.size() == 1 && r.chance(0.3) ? t[0] : "[" + vh::Join(t, ",") + "]");
    }
    KV kv{{"s.scalesize", "false"}};
    if (n || r.chance(0.3)) { kv.push_back({"s.stations", "[" + vh::Join(pats, ",") + "]"}); kv.push_back({"s.coeffs", "[" + ctext + "]"}); }
    const bool bda = r.chance(0.4);
    R().Describe(o.Str() + (bda ? " bda " : " ") + o.antenna_set + " " + Text(kv));
    DPInfo info = o.Info();
    std::vector<std::vector<double>> freqs(o.nbl, o.freqs);
    std::vector<size_t> nchan(o.nbl, o.nchan);
    if (bda) {
      std::vector<std::vector<double>> widths(o.nbl, o.widths);
      for (size_t b = 0; b < o.nbl; ++b) {
        const size_t f = r.pick(std::vector<size_t>{1, 1, 2, 3, 5});
        std::vector<double> nf, nw;
        for (size_t c = 0; c < o.nchan; c += f) {
          const size_t e = std::min(o.nchan, c + f);
          double lo = o.freqs[c] - o.widths[c] / 2, hi = o.freqs[e - 1] + o.widths[e - 1] / 2;
          nf.push_back((lo + hi) / 2); nw.push_back(hi - lo);
        }
        freqs[b] = nf; widths[b] = nw; nchan[b] = nf.size();
      }
      info.setChannels(std::vector<std::vector<double>>(freqs), std::vector<std::vector<double>>(widths));
    }
    // The factor of a station at a frequency.
    static const std::vector<double> lba{1.02306755e+06, -7.31426342e+04, 2.05537660e+03, -2.61310245e+01, 1.26031118e-01},
        hba{2.35166277e+05, -6.20793100e+03, 6.22685124e+01, -2.78418826e-01, 4.67920578e-04};
    auto factor = [&](int ant, double freq) {
      const std::vector<double>* c = o.antenna_set.substr(0, 3) == "LBA" ? &lba : &hba;
      for (size_t i = 0; i < n; ++i) if (GlobMatch(pats[i], o.names[ant])) { c = &coef[i]; break; }
      long double v = 0;
      for (size_t k = 0; k < c->size(); ++k) v += (*c)[k] * std::pow((long double)(freq / 1e6), int(k));
      return double(v);
    };
    auto check = [&](cf in, cf out, size_t b, double f, size_t i) {
      const double f1 = factor(o.ant1[b], f), f2 = factor(o.ant2[b], f);
      if (f1 * f2 <= 0) return;
      // The default polynomials cancel digits.
      const double k = std::sqrt(f1 * f2), tol = 1e-6 + 1e-9 / std::min(std::fabs(f1), std::fabs(f2)) * 1e6;
      const cd want = cd(in) * k;
      VH_EXPECT(std::abs(cd(out) - want) <= tol * std::abs(want) + 1e-30, "scale", "baseline ", b, " sample ", i, ": ", out, " expected ", want);
    };
    auto step = std::make_shared<dp3::steps::ScaleData>(Parset(kv), "s.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
    auto sink = Connect({step}, info);
    R().Nontrivial();
    for (size_t t = 0; t < o.ntime; ++t) {
      if (bda) {
        auto b = RandomBda(r, o, nchan, {});
        const auto in = Rows(*b);
        step->process(std::move(b));
        VH_EXPECT(sink->bdas.size() == t + 1, "slot-lost", "no output");
        const auto got = Rows(*sink->bdas.back());
        VH_EXPECT(RowsDiff(in, got).empty(), "side-effect", RowsDiff(in, got), " changed");
        for (size_t i = 0; i < in.size(); ++i)
          for (size_t k = 0; k < in[i].data.at("").size(); ++k)
            check(in[i].data.at("")[k], got[i].data.at("")[k], in[i].bl, freqs[in[i].bl][k / o.ncorr], k);
        R().Count("rows", in.size());
      } else {
        auto b = RandomBuffer(r, o, t);
        const Slot in = Snap(*b);
        step->process(std::move(b));
        VH_EXPECT(sink->bufs.size() == t + 1, "slot-lost", "no output");
        Slot got = Snap(*sink->bufs.back());
        for (size_t i = 0; i < in.data.size(); ++i) check(in.data[i], got.data[i], i / (o.nchan * o.ncorr), o.freqs[i / o.ncorr % o.nchan], i);
        got.data = in.data;
        VH_EXPECT(Diff(in, got).empty(), "side-effect", Diff(in, got), " changed");
        R().Count("samples", in.data.size());
      }
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  });
}
void CombineCases() {
  R().Cases("combine", R().n(800, 12000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 8; oo.max_time = 3;
    const Obs o = RandomObs(r, oo);
    const bool bda = r.chance(0.5), missing = r.chance(0.1), def = r.chance(0.3), add = !def && r.chance(0.5);
    const std::string name = missing ? "other" : "extra" + vh::S(r.range(0, 1));
    KV kv{{"c.buffername", name}};
    if (!def) kv.push_back({"c.operation", add ? "add" : "subtract"});
    R().Describe(o.Str() + (bda ? " bda " : " ") + Text(kv));
    auto step = std::make_shared<dp3::steps::Combine>(Parset(kv), "c.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
    auto sink = Connect({step}, o.Info());
    auto check = [&](const std::vector<cf>& a, const std::vector<cf>& b, const std::vector<cf>& got) {
      VH_EXPECT(a.size() == got.size(), "size", "size ", got.size());
      for (size_t i = 0; i < a.size(); ++i)
        VH_EXPECT(SameC(got[i], add ? a[i] + b[i] : a[i] - b[i]), "value", "sample ", i, ": ", got[i], " of ", a[i], " and ", b[i]);
      R().Count("samples", a.size());
    };
    if (!missing) R().Nontrivial();
    for (size_t t = 0; t < o.ntime; ++t) {
      if (bda) {
        std::vector<size_t> nchan(o.nbl);
        for (size_t& n : nchan) n = r.range(1, o.nchan);
        auto b = RandomBda(r, o, nchan, {"extra0", "extra1"});
        auto in = Rows(*b);
        if (missing) { VH_EXPECT(vh::Throws([&] { step->process(std::move(b)); }), "missing-buffer", "a buffer that does not exist is accepted"); continue; }
        step->process(std::move(b));
        VH_EXPECT(sink->bdas.size() == t + 1, "slot-lost", "no output");
        const auto got = Rows(*sink->bdas.back());
        for (size_t i = 0; i < in.size() && i < got.size(); ++i) { check(in[i].data.at(""), in[i].data.at(name), got[i].data.at("")); in[i].data.erase(name); }
        VH_EXPECT(RowsDiff(in, got).empty(), "side-effect", RowsDiff(in, got), " changed");
      } else {
        BufOpt bo; bo.extra = 2;
        auto b = RandomBuffer(r, o, t, bo);
        Slot in = Snap(*b);
        if (missing) { VH_EXPECT(vh::Throws([&] { step->process(std::move(b)); }), "missing-buffer", "a buffer that does not exist is accepted"); continue; }
        step->process(std::move(b));
        VH_EXPECT(sink->bufs.size() == t + 1, "slot-lost", "no output");
        Slot got = Snap(*sink->bufs.back());
        check(in.data, in.extra.at(name), got.data);
        in.extra.erase(name); got.data = in.data;
        VH_EXPECT(Diff(in, got).empty(), "side-effect", Diff(in, got), " changed");
      }
    }
    step->finish();
    if (!missing) VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  });
}
void NullCases() {
  R().Cases("null-stokes", R().n(800, 12000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 8; oo.max_time = 3;
    const Obs o = RandomObs(r, oo);
    bool m[4];
    KV kv;
    const char* names[4] = {"modify_i", "modify_q", "modify_u", "modify_v"};
    for (int k = 0; k < 4; ++k) { m[k] = r.chance(0.4); if (m[k] || r.chance(0.3)) kv.push_back({std::string("n.") + names[k], m[k] ? "true" : "false"}); }
    R().Describe(o.Str() + " " + Text(kv));
    auto step = std::make_shared<dp3::steps::NullStokes>(Parset(kv), "n.");
    const bool any = m[0] || m[1] || m[2] || m[3];
    if (o.ncorr != 4) {
      if (any) VH_EXPECT(vh::Throws([&] { auto s = Connect({step}, o.Info()); step->process(RandomBuffer(r, o, 0)); }), "correlations", "accepts data with ", o.ncorr, " correlations");
      return;
    }
    if (any) R().Nontrivial();
    auto sink = Connect({step}, o.Info());
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = RandomBuffer(r, o, t);
      const Slot in = Snap(*b);
      step->process(std::move(b));
      VH_EXPECT(sink->bufs.size() == t + 1, "slot-lost", "no output");
      Slot got = Snap(*sink->bufs.back());
      for (size_t i = 0; i < in.data.size(); i += 4) {
        const cd x[4] = {in.data[i], in.data[i + 1], in.data[i + 2], in.data[i + 3]}, y[4] = {got.data[i], got.data[i + 1], got.data[i + 2], got.data[i + 3]};
        const cd s[4] = {x[0] + x[3], x[0] - x[3], x[1] + x[2], x[1] - x[2]}, g[4] = {y[0] + y[3], y[0] - y[3], y[1] + y[2], y[1] - y[2]};
        const double scale = std::abs(x[0]) + std::abs(x[3]) + std::abs(x[1]) + std::abs(x[2]);
        for (int k = 0; k < 4; ++k)
          VH_EXPECT(std::abs(g[k] - (m[k] ? cd(0) : s[k])) <= 1e-6 * scale, m[k] ? "not-zeroed" : "other-stokes", "Stokes ", "IQUV"[k], " is ", g[k], " was ", s[k]);
        R().Count("samples", 1);
      }
      got.data = in.data;
      VH_EXPECT(Diff(in, got).empty(), "side-effect", Diff(in, got), " changed");
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  });
}
void C52() { ScaleCases(); CombineCases(); NullCases(); }

// ---- C53 ---------------------------------------------------------------------
void C53() {
  R().Cases("upsample", R().n(1500, 20000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 5; oo.max_time = 6;
    const Obs o = RandomObs(r, oo);
    const int f = r.range(2, 6);
    const bool uvw = r.chance(0.4);
    KV kv{{"u.timestep", vh::S(f)}};
    if (uvw) kv.push_back({"u.updateuvw", "true"});
    const double sub = o.dt / f;
    const bool none = r.chance(0.02);
    // Slots that start some sub-slots early overlap the previous one; some
    // slots are missing.
    std::vector<long> start;  // in sub-slots
    const int mode = r.range(0, 2);
    long at = 0;
    for (size_t t = 0; t < o.ntime && !none; ++t) {
      start.push_back(at);
      at += f;
      // Slots that are two apart do not overlap.
      const long room = start.size() < 2 ? f - 1 : std::min<long>(f - 1, at - (start[start.size() - 2] + f));
      if (mode == 1 && room > 0 && r.chance(0.5)) at -= r.range(1, room);
      if (mode == 2 && r.chance(0.3)) at += r.range(1, 3 * f);
    }
    R().Describe(o.Str() + " " + Text(kv) + "starts " + vh::Join(start, ","));
    auto step = std::make_shared<dp3::steps::Upsample>(Parset(kv), "u.");
    auto sink = Connect({step}, o.Info());
    const DPInfo& info = sink->getInfoOut();
    VH_EXPECT(std::fabs(info.timeInterval() - sub) < 1e-12 * sub && info.ntime() == o.ntime * f, "info", "interval ", info.timeInterval(), " slots ", info.ntime());
    VH_EXPECT(std::fabs(info.startTime() - (o.t0 - o.dt / 2)) < 1e-5, "start-time", "starts ", info.startTime() - (o.t0 - o.dt / 2), " s after the data");
    VH_EXPECT(std::fabs(info.firstTime() - (o.t0 - o.dt / 2 + sub / 2)) < 1e-5 && std::fabs(info.lastTime() - (o.t0 + (o.ntime - 0.5) * o.dt - sub / 2)) < 1e-5, "first-time", "first or last time is not that of the upsampled slots");
    VH_EXPECT(info.metaChanged(), "meta-changed", "meta not marked as changed");
    std::vector<Slot> in;
    std::vector<bool> all_flagged;
    for (size_t t = 0; t < start.size(); ++t) {
      auto b = RandomBuffer(r, o, t);
      b->SetTime(o.t0 + start[t] * sub);
      const bool all = r.chance(mode == 1 ? 0.4 : 0.1);
      if (all) b->GetFlags().fill(true);
      if (!all) b->GetFlags()(0, 0, 0) = false;
      all_flagged.push_back(all);
      in.push_back(Snap(*b));
      step->process(std::move(b));
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    // Which input slot serves each output slot: of two that overlap the later
    // one, unless it is flagged entirely.
    std::map<long, size_t> want;
    for (size_t t = 0; t < start.size(); ++t)
      for (int k = 0; k < f; ++k) {
        auto [it, fresh] = want.insert({start[t] + k, t});
        if (!fresh && !all_flagged[t]) it->second = t;
      }
    VH_EXPECT(sink->bufs.size() == want.size(), "slot-count", sink->bufs.size(), " slots, expected ", want.size());
    size_t i = 0;
    for (auto& [pos, src] : want) {
      Slot got = Snap(*sink->bufs[i++]);
      const double time = o.t0 + (pos - (f - 1) / 2.0) * sub;
      VH_EXPECT(std::fabs(got.time - time) < 1e-5, "time", "slot ", i - 1, " at ", got.time - o.t0, " expected ", time - o.t0);
      VH_EXPECT(std::fabs(got.exposure - in[src].exposure / f) < 1e-9, "exposure", "exposure ", got.exposure);
      if (uvw)
        for (size_t b = 0; b < o.nbl; ++b) {
          const V3 u = UvwOf(o, b, got.time, o.ra, o.dec);
          for (int k = 0; k < 3; ++k) VH_EXPECT(std::fabs(got.U(b, k) - u[k]) < 1e-5 + 1e-9 * o.Length(b), "uvw", "baseline ", b, " axis ", k, ": ", got.U(b, k), " expected ", u[k]);
        }
      got.time = in[src].time; got.exposure = in[src].exposure; if (uvw) got.uvw = in[src].uvw;
      VH_EXPECT(Diff(in[src], got).empty(), "content", "slot ", i - 1, " should hold input slot ", src, ": ", Diff(in[src], got), " differs");
    }
    R().Count("slots", want.size());
    if (start.size() > 1) R().Nontrivial();
  });
  R().Cases("factor", R().n(10, 50), [](Rng& r, size_t) {
    const int f = r.range(0, 1);
    R().Describe("timestep " + vh::S(f));
    VH_EXPECT(vh::Throws([&] { dp3::steps::Upsample s(Parset({{"u.timestep", vh::S(f)}}), "u."); }), "factor", "timestep ", f, " accepted");
  });
}
}  // namespace

VH_MAIN({"C49", C49}, {"C50", C50}, {"C51", C51}, {"C52", C52}, {"C53", C53})
