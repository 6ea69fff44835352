// Monitors for the sky model: component fluxes, patches, the sky-model text
// format, patch selection and clustering.
#include "vh.h"

#include <algorithm>
#include <complex>
#include <cstring>
#include <fstream>
#include <map>
#include <set>

#include "base/ComponentInfo.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "common/ProximityClustering.h"
#include "sky_model/Patch.h"
#include "sky_model/ReadSkyModel.h"
#include "sky_model/SkyModelCache.h"
#include "sky_model/SkyModelFunctions.h"
#include "sky_model/SkyModelSelection.h"

using vh::R;
using vh::Rng;
using vh::S;
using dp3::base::ComponentInfo;
using dp3::base::Direction;
using dp3::base::GaussianSource;
using dp3::base::ModelComponent;
using dp3::base::PointSource;
using dp3::base::Stokes;
using dp3::sky_model::Patch;

namespace {
constexpr double kC = 2.99792458e8;
using ld = long double;

struct V3 {
  ld x = 0, y = 0, z = 0;
  void add(double ra, double dec, ld w = 1) {
    x += std::cos(ld(ra)) * std::cos(ld(dec)) * w;
    y += std::sin(ld(ra)) * std::cos(ld(dec)) * w;
    z += std::sin(ld(dec)) * w;
  }
  ld norm() const { return std::sqrt(x * x + y * y + z * z); }
};
// Angle between a direction and a (not normalised) vector.
double Angle(const Direction& d, const V3& v) {
  V3 a;
  a.add(d.ra, d.dec);
  const ld cx = a.y * v.z - a.z * v.y, cy = a.z * v.x - a.x * v.z, cz = a.x * v.y - a.y * v.x;
  return double(std::atan2(std::sqrt(cx * cx + cy * cy + cz * cz), a.x * v.x + a.y * v.y + a.z * v.z));
}
double Angle(const Direction& a, const Direction& b) {
  V3 v;
  v.add(b.ra, b.dec);
  return Angle(a, v);
}
bool Close(double a, double b, double rel, double abs) { return std::fabs(a - b) <= std::max(abs, rel * std::max(std::fabs(a), std::fabs(b))); }

// ---- C30: component fluxes
void Flux() {
  R().Cases("flux", R().n(3000, 60000), [](Rng& r, size_t) {
    Stokes st;
    st.I = r.chance(0.1) ? -r.real(0.1, 5) : r.real(0.01, 100);
    st.Q = r.real(-3, 3), st.U = r.real(-3, 3), st.V = r.real(-3, 3);
    const double f0 = r.real(30e6, 200e6);
    const double freq = r.chance(0.15) ? f0 : r.real(20e6, 2e9);
    std::vector<double> terms(r.below(5));
    const bool log = r.chance(0.5);
    for (double& t : terms) t = r.real(-2, 2);
    const bool rm = r.chance(0.5);
    const double frac = r.real(0, 1), angle = r.real(-4, 4), rmv = r.real(-30, 30);
    R().Describe(S("I=", st.I, " f=", freq, " f0=", f0, " terms=", vh::Join(terms), " log=", log, " rm=", rm, " ", frac, " ", angle, " ", rmv));
    std::shared_ptr<PointSource> p;
    const bool gauss = r.chance(0.3);
    const Direction dir(r.real(-6, 6), r.real(-1.5, 1.5));
    if (gauss) p = std::make_shared<GaussianSource>(dir, st);
    else if (r.chance(0.5)) p = std::make_shared<PointSource>(dir, st);
    else { p = std::make_shared<PointSource>(Direction(0, 0)); p->setDirection(dir); p->setStokes(st); }
    if (!terms.empty()) p->setSpectralTerms(f0, log, terms.begin(), terms.end());
    if (rm) p->setRotationMeasure(frac, angle, rmv);
    ld I = st.I;
    if (!terms.empty()) {
      if (log) {
        const ld l = std::log10(ld(freq) / ld(f0));
        ld e = 0, pw = 1;
        for (double t : terms) e += t * pw, pw *= l;
        I *= std::pow(ld(freq) / ld(f0), e);
      } else {
        const ld x = ld(freq) / ld(f0) - 1;
        ld pw = x;
        for (double t : terms) I += t * pw, pw *= x;
      }
    }
    ld Q = st.Q, U = st.U;
    ld tol = 1e-10;
    if (rm) {
      const ld lambda = kC / ld(freq), chi = 2 * (ld(angle) + ld(rmv) * lambda * lambda);
      Q = I * frac * std::cos(chi), U = I * frac * std::sin(chi);
      tol += 1e-15 * std::fabs(chi);
    }
    ld scale = std::fabs(I) + std::fabs(Q) + std::fabs(U);
    if (!log) { ld pw = std::fabs(ld(freq) / f0 - 1); const ld x = pw; scale += std::fabs(st.I); for (double t : terms) scale += std::fabs(t) * pw, pw *= x; }
    if (!std::isfinite(scale) || scale > 1e30 || std::fabs(I) < 1e-30) return;
    const Stokes before = p->stokes();
    const Stokes out = p->stokes(freq);
    VH_EXPECT(std::fabs(out.I - I) <= tol * scale, "flux:I", "Stokes I ", out.I, " expected ", double(I));
    VH_EXPECT(std::fabs(out.Q - Q) <= tol * scale, "flux:Q", "Stokes Q ", out.Q, " expected ", double(Q));
    VH_EXPECT(std::fabs(out.U - U) <= tol * scale, "flux:U", "Stokes U ", out.U, " expected ", double(U));
    VH_EXPECT(out.V == st.V, "flux:V", "Stokes V ", out.V, " expected ", st.V);
    const Stokes ref = p->stokes();
    VH_EXPECT(ref.I == st.I && ref.Q == st.Q && ref.U == st.U && ref.V == st.V && before.I == ref.I, "flux:reference", "the reference Stokes changed");
    VH_EXPECT(p->direction().ra == dir.ra && p->direction().dec == dir.dec, "flux:direction", "the direction changed");
    if (freq == f0 && !rm) VH_EXPECT(Close(out.I, st.I, 1e-12, 0), "flux:at-reference", "flux at the reference frequency ", out.I);
    // A second set of terms replaces the first.
    if (r.chance(0.2)) {
      std::vector<double> t2{r.real(-1, 1)};
      p->setSpectralTerms(f0, true, t2.begin(), t2.end());
      const double want = double(st.I * std::pow(ld(freq) / f0, ld(t2[0])));
      VH_EXPECT(Close(p->stokes(freq).I, want, 1e-10, 0), "flux:replace", "after new spectral terms Stokes I ", p->stokes(freq).I, " expected ", want);
    }
    if (!terms.empty() || rm) R().Nontrivial(S(terms.size(), log, rm, gauss, int(freq / 1e6)));
  });
  R().Cases("inspect", R().n(1500, 20000), [](Rng& r, size_t) {
    // One inspector looks at a sequence of components.
    ComponentInfo info;
    std::string text;
    const size_t n = 1 + r.below(6);
    for (size_t k = 0; k < n; ++k) {
      Stokes st;
      st.I = r.real(-5, 5), st.Q = r.real(-5, 5), st.U = r.real(-5, 5), st.V = r.real(-5, 5);
      const Direction dir(r.real(-3, 3), r.real(-1.5, 1.5));
      std::vector<double> terms(r.below(5));
      for (double& t : terms) t = r.real(-2, 2);
      const double f0 = r.real(1e8, 2e8);
      double pa = 0, major = 0, minor = 0;
      std::shared_ptr<PointSource> p;
      const bool gauss = r.chance(0.5);
      if (gauss) {
        std::shared_ptr<GaussianSource> g;
        if (r.chance(0.5)) g = std::make_shared<GaussianSource>(dir, st);
        else { void* mem = ::operator new(sizeof(GaussianSource)); std::memset(mem, r.chance(0.5) ? 0 : 0xAB, sizeof(GaussianSource));
          g = std::shared_ptr<GaussianSource>(new (mem) GaussianSource(dir), [](GaussianSource* x) { x->~GaussianSource(); ::operator delete(x); });
          g->setStokes(st); }
        VH_EXPECT(g->getPositionAngleIsAbsolute(), "inspect:absolute", "a new Gaussian's orientation is not absolute");
        VH_EXPECT(g->getMajorAxis() == 0 && g->getMinorAxis() == 0 && g->getPositionAngle() == 0, "inspect:initial", "a new Gaussian has a shape");
        pa = r.real(0, 3), major = r.real(1e-5, 1e-3), minor = r.real(1e-6, 1e-5);
        g->setPositionAngle(pa), g->setMajorAxis(major), g->setMinorAxis(minor);
        if (r.chance(0.3)) { g->setPositionAngleIsAbsolute(false); VH_EXPECT(!g->getPositionAngleIsAbsolute(), "inspect:absolute", "orientation flag not stored"); }
        VH_EXPECT(g->getMajorAxis() == major && g->getMinorAxis() == minor && g->getPositionAngle() == pa, "inspect:shape", "shape not stored");
        p = g;
      } else p = std::make_shared<PointSource>(dir, st);
      if (!terms.empty()) p->setSpectralTerms(f0, true, terms.begin(), terms.end());
      text += S(gauss ? "G" : "P", terms.size(), " ");
      R().Describe(text);
      if (terms.size() > 3) {
        VH_EXPECT(vh::Throws([&] { info.inspect(p); }), "inspect:too-many", "four spectral terms were accepted");
        continue;
      }
      info.inspect(p);
      VH_EXPECT(info.ra_ == dir.ra && info.dec_ == dir.dec, "inspect:direction", "direction ", info.ra_, ",", info.dec_);
      VH_EXPECT(info.sI_ == st.I && info.sQ_ == st.Q && info.sU_ == st.U && info.sV_ == st.V, "inspect:stokes", "Stokes differ");
      for (size_t i = 0; i < 3; ++i) {
        const double want = i < terms.size() ? terms[i] : 0;
        VH_EXPECT(info.spectrum_[i] == want, "inspect:spectrum", "term ", i, " is ", info.spectrum_[i], " expected ", want, " (component ", k, ")");
      }
      VH_EXPECT(info.source_type_ == (gauss ? ComponentInfo::kGaussian : ComponentInfo::kPoint), "inspect:type", "type");
      if (!terms.empty()) VH_EXPECT(info.f0_ == f0, "inspect:frequency", "reference frequency ", info.f0_);
      if (gauss) VH_EXPECT(info.g_pa_ == pa && info.g_major_ == major && info.g_minor_ == minor, "inspect:gaussian", "Gaussian shape differs");
    }
    if (n > 1) R().Nontrivial(text);
  });
}

// ---- C31: patches and clusters
struct Sky { std::vector<std::shared_ptr<ModelComponent>> c; std::vector<Direction> d; std::string text; };
Sky RandomSky(Rng& r, size_t n, double spread) {
  Sky s;
  double ra0 = r.real(0, 2 * M_PI), dec0 = r.real(-1.4, 1.4);
  if (r.chance(0.25)) ra0 = r.chance(0.5) ? 0 : M_PI;
  if (r.chance(0.2)) dec0 = r.chance(0.5) ? M_PI / 2 - 1e-3 : -M_PI / 2 + 1e-3;
  for (size_t i = 0; i < n; ++i) {
    double dec = dec0 + r.real(-spread, spread), ra = ra0 + r.real(-spread, spread) / std::max(0.05, std::cos(dec0));
    if (dec > M_PI / 2) dec = M_PI - dec, ra += M_PI;
    if (dec < -M_PI / 2) dec = -M_PI - dec, ra += M_PI;
    ra = std::fmod(ra + 4 * M_PI, 2 * M_PI);
    if (r.chance(0.1) && !s.d.empty()) ra = s.d.back().ra, dec = s.d.back().dec;
    s.d.emplace_back(ra, dec);
    s.c.push_back(std::make_shared<PointSource>(Direction(ra, dec)));
    s.text += S("(", ra, ",", dec, ")");
  }
  return s;
}
void Patches() {
  R().Cases("patch-direction", R().n(3000, 50000), [](Rng& r, size_t) {
    Sky s = RandomSky(r, 1 + r.below(12), r.chance(0.2) ? 1.2 : r.real(1e-4, 0.3));
    R().Describe(s.text);
    V3 v;
    for (const Direction& d : s.d) v.add(d.ra, d.dec);
    Patch p("p", s.c.begin(), s.c.end());
    VH_EXPECT(p.NComponents() == s.c.size() && p.Name() == "p" && std::equal(p.begin(), p.end(), s.c.begin()), "patch:components", "components differ");
    if (v.norm() < 1e-3L * s.d.size()) return;
    VH_EXPECT(Angle(p.Direction(), v) < 1e-9, "patch:direction", "direction ", p.Direction().ra, ",", p.Direction().dec, " is ", Angle(p.Direction(), v), " rad off the mean of its components");
    // The order has no influence.
    auto shuffled = s.c;
    r.shuffle(shuffled);
    Patch q("q", shuffled.begin(), shuffled.end());
    VH_EXPECT(Angle(q.Direction(), p.Direction()) < 1e-9, "patch:order", "direction depends on the order of the components");
    p.SetDirection(Direction(1, 0.5));
    VH_EXPECT(p.Direction().ra == 1 && p.Direction().dec == 0.5, "patch:set", "direction not set");
    p.ComputeDirection();
    VH_EXPECT(Angle(q.Direction(), p.Direction()) < 1e-9, "patch:recompute", "recomputed direction differs");
    if (s.c.size() > 1) R().Nontrivial(s.text);
  });
  R().Cases("patch-sum", R().n(3000, 50000), [](Rng& r, size_t) {
    Sky s = RandomSky(r, 1 + r.below(12), r.chance(0.2) ? 1.2 : r.real(1e-4, 0.3));
    V3 v;
    const unsigned id = unsigned(r.below(1000));
    dp3::sky_model::PatchSumInfo sum(id);
    ld total = 0;
    std::string fl;
    for (const Direction& d : s.d) {
      const double f = r.real(0.01, 10);
      fl += S(f, " ");
      v.add(d.ra, d.dec, f), total += f;
      sum.add(d.ra, d.dec, f);
    }
    R().Describe(s.text + " fluxes " + fl);
    VH_EXPECT(Close(sum.getFlux(), double(total), 1e-12, 0), "patchsum:flux", "total flux ", sum.getFlux(), " expected ", double(total));
    VH_EXPECT(sum.getPatchId() == id, "patchsum:id", "id");
    if (v.norm() < 1e-3L * total) return;
    const double a = Angle(Direction(sum.getRa(), sum.getDec()), v);
    VH_EXPECT(a < 1e-9, "patchsum:direction", "direction ", sum.getRa(), ",", sum.getDec(), " is ", a, " rad off the flux-weighted mean");
    if (s.c.size() > 1) R().Nontrivial(s.text);
  });
  R().Cases("cluster", R().n(400, 6000), [](Rng& r, size_t) {
    std::vector<std::shared_ptr<Patch>> list;
    std::vector<ModelComponent*> all;
    const double limit = r.real(1e-3, 0.1);
    std::string text = S("limit ", limit, ": ");
    const size_t np = 1 + r.below(4);
    for (size_t k = 0; k < np; ++k) {
      Sky s = RandomSky(r, 1 + r.below(10), r.chance(0.5) ? limit * 0.2 : limit * r.real(1, 8));
      list.push_back(std::make_shared<Patch>(S("P", k), s.c.begin(), s.c.end()));
      for (auto& c : s.c) all.push_back(c.get());
      text += s.text + " | ";
    }
    R().Describe(text);
    const auto out = dp3::sky_model::clusterProximateSources(list, limit);
    std::multiset<ModelComponent*> seen;
    std::set<std::string> names;
    std::vector<V3> centres;
    for (const auto& p : out) {
      V3 v;
      VH_EXPECT(p->NComponents() > 0, "cluster:empty", "a cluster has no components");
      std::vector<Direction> ds;
      for (const auto& c : *p) seen.insert(c.get()), v.add(c->direction().ra, c->direction().dec), ds.push_back(c->direction());
      VH_EXPECT(names.insert(p->Name()).second, "cluster:name", "two clusters are named ", p->Name());
      const double a = Angle(p->Direction(), v);
      double extent = 0;
      for (const Direction& d : ds) extent = std::max(extent, Angle(d, v));
      // The centre is that of its components, to within the extent squared.
      VH_EXPECT(a <= 1e-9 + extent * extent, "cluster:direction", "cluster of extent ", extent, " has its direction ", a, " rad from its components' mean");
      centres.push_back(v);
    }
    VH_EXPECT(seen.size() == all.size() && std::set<ModelComponent*>(seen.begin(), seen.end()).size() == all.size() &&
                  std::all_of(all.begin(), all.end(), [&](ModelComponent* c) { return seen.count(c); }),
              "cluster:partition", "clusters hold ", seen.size(), " components of ", all.size());
    // Sources on the same spot end up together.
    for (const auto& p : out)
      for (const auto& c : *p)
        for (const auto& q : out)
          if (p != q) for (const auto& e : *q)
            if (p->NComponents() == 1 && q->NComponents() == 1)
              VH_EXPECT(Angle(c->direction(), e->direction()) >= limit * (1 - 1e-9), "cluster:close", "two lone sources are ", Angle(c->direction(), e->direction()), " apart");
    if (out.size() < all.size() && out.size() > 1) R().Nontrivial(text);
    // One patch per component.
    const auto one = dp3::sky_model::makeOnePatchPerComponent(list);
    VH_EXPECT(one.size() == all.size(), "one-per:count", one.size(), " patches");
    std::set<std::string> onames;
    for (size_t i = 0; i < one.size() && i < all.size(); ++i) {
      VH_EXPECT(one[i]->NComponents() == 1 && one[i]->begin()->get() == all[i], "one-per:component", "component ", i, " is not in its own patch");
      VH_EXPECT(one[i]->Direction().ra == all[i]->direction().ra && one[i]->Direction().dec == all[i]->direction().dec, "one-per:direction", "direction of ", i);
      VH_EXPECT(onames.insert(one[i]->Name()).second, "one-per:name", "name ", one[i]->Name());
    }
    // The flat source list.
    const auto flat = dp3::sky_model::makeSourceList(list);
    VH_EXPECT(flat.size() == all.size(), "flat:count", flat.size(), " sources");
    size_t k = 0;
    for (const auto& p : list)
      for (const auto& c : *p) {
        if (k < flat.size()) VH_EXPECT(flat[k].first == c && flat[k].second == p, "flat:pair", "source ", k);
        ++k;
      }
    dp3::sky_model::SetPatchIndices(list);
    for (size_t i = 0; i < list.size(); ++i) VH_EXPECT(list[i]->Index() == i, "flat:index", "index of ", i);
  });
}

// ---- C32: the sky-model text format
struct Src {
  std::string name, patch, type;
  double ra = 0, dec = 0, I = 1, Q = 0, U = 0, V = 0;
  std::vector<double> terms;
  bool log = true, absolute = false, rm = false;
  double f0 = 0, major = 1, minor = 1, pa = 1, frac = 0, angle = 0, rmv = 0;
  bool viaQU = false;
  double wavel = 0;
};
std::string Num(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
std::string RaText(Rng& r, double& ra) {
  switch (r.below(5)) {
    case 0: { const int h = int(r.below(24)), m = int(r.below(60)); const double s = double(r.below(60000)) / 1000; ra = (h + m / 60.0 + s / 3600) * M_PI / 12; char b[64]; std::snprintf(b, sizeof b, "%02d:%02d:%06.3f", h, m, s); return b; }
    case 1: { const int h = int(r.below(24)), m = int(r.below(60)); const double s = double(r.below(60000)) / 1000; ra = (h + m / 60.0 + s / 3600) * M_PI / 12; char b[64]; std::snprintf(b, sizeof b, "%dh%dm%.3f", h, m, s); return b; }
    case 2: { const double d = double(r.range(-180000, 360000)) / 1000; ra = d * M_PI / 180; return S(Num(d), "deg"); }
    case 3: { ra = double(r.range(-3000, 6000)) / 1000; return S(Num(ra), "rad"); }
    default: { const double d = double(r.below(360000)) / 1000; ra = d * M_PI / 180; return S('"', Num(d), " deg\""); }
  }
}
std::string DecText(Rng& r, double& dec) {
  const int d = int(r.below(90)), m = int(r.below(60));
  const double s = double(r.below(60000)) / 1000;
  const bool neg = r.chance(0.5);
  dec = (d + m / 60.0 + s / 3600) * M_PI / 180 * (neg ? -1 : 1);
  char b[64];
  switch (r.below(4)) {
    case 0: std::snprintf(b, sizeof b, "%s%02d.%02d.%06.3f", neg ? "-" : r.chance(0.5) ? "+" : "", d, m, s); return b;
    case 1: std::snprintf(b, sizeof b, "%s%dd%dm%.3f", neg ? "-" : "", d, m, s); return b;
    case 2: { const double v = double(r.range(-90000, 90000)) / 1000; dec = v * M_PI / 180; return S(Num(v), "deg"); }
    default: { dec = double(r.range(-1570, 1570)) / 1000; return S(Num(dec), "rad"); }
  }
}
std::string Case(Rng& r, std::string s) { if (r.chance(0.5)) return s; for (char& c : s) if (r.chance(0.5)) c = char(r.chance(0.5) ? std::tolower(c) : std::toupper(c)); return s; }
struct Field { std::string name; std::string def; bool hasDef = false, fixed = false; };
void Reading() {
  R().Cases("read", R().n(2500, 40000), [](Rng& r, size_t idx) {
    // Choose the fields.
    std::vector<Field> f;
    auto has = [&](const char* n) { return std::any_of(f.begin(), f.end(), [&](const Field& x) { return x.name == n; }); };
    auto maybe = [&](const char* n, double p) { if (r.chance(p)) f.push_back({n}); };
    f.push_back({"Name"});
    maybe("Type", 0.8), maybe("Patch", 0.6), maybe("I", 0.9), maybe("Q", 0.6), maybe("U", 0.6), maybe("V", 0.5);
    maybe("SpectralIndex", 0.6), maybe("LogarithmicSI", 0.4), maybe("MajorAxis", 0.6), maybe("MinorAxis", 0.6), maybe("Orientation", 0.6), maybe("OrientationIsAbsolute", 0.4);
    maybe("RefType", 0.2), maybe("Category", 0.2);
    if (has("SpectralIndex") || r.chance(0.4)) f.push_back({"ReferenceFrequency"});
    if (r.chance(0.4)) {
      f.push_back({"RotationMeasure"});
      maybe("PolarizedFraction", 0.5), maybe("PolarizationAngle", 0.5), maybe("ReferenceWavelength", 0.5);
    }
    const bool splitRa = r.chance(0.2), splitDec = r.chance(0.2);
    const bool raHours = r.chance(0.5);
    if (splitRa) f.push_back({raHours ? "rah" : "rad"}), f.push_back({"ram"}), f.push_back({"ras"}); else f.push_back({"Ra"});
    if (splitDec) f.push_back({"decd"}), f.push_back({"decm"}), f.push_back({"decs"}); else f.push_back({"Dec"});
    if (r.chance(0.3)) f.push_back({"dummy"});
    if (r.chance(0.3)) f.push_back({"MyOwnField"});
    r.shuffle(f);
    // Separator; a blank one cannot hold empty values.
    const char sep = r.chance(0.7) ? ',' : r.chance(0.5) ? ';' : '|';
    for (Field& x : f) {
      if (x.name == "ReferenceFrequency" && r.chance(0.6)) x.def = Num(double(r.range(100, 200)) * 1e6), x.hasDef = true;
      if (x.name == "SpectralIndex" && r.chance(0.3)) x.def = "[]", x.hasDef = true;
      if (x.name == "LogarithmicSI" && r.chance(0.3)) x.def = "false", x.hasDef = true;
      if (x.name == "Type" && r.chance(0.3)) x.def = "GAUSSIAN", x.hasDef = true;
      if (x.name == "I" && r.chance(0.3)) x.def = "2.5", x.hasDef = true;
      if (x.name == "OrientationIsAbsolute" && r.chance(0.3)) x.def = "true", x.hasDef = true;
      if (x.name == "MajorAxis" && r.chance(0.3)) x.def = "7", x.hasDef = true;
      if (x.name == "V" && r.chance(0.15)) x.def = "0.25", x.fixed = true;
      if (x.name == "Category" && r.chance(0.5)) x.def = "3", x.fixed = true;
    }
    std::string format;
    for (size_t i = 0; i < f.size(); ++i) {
      if (i) format += S(r.chance(0.5) ? " " : "", sep, r.chance(0.5) ? " " : "");
      format += Case(r, f[i].name);
      const char q = r.chance(0.7) ? '\'' : '"';
      if (f[i].hasDef || f[i].fixed) format += S(r.chance(0.3) ? " " : "", "=", f[i].fixed ? Case(r, "fixed") : std::string(), q, f[i].def, q);
    }
    // Sources.
    std::vector<Src> srcs;
    std::vector<std::string> patchNames;
    struct PatchExp { V3 v; ld flux = 0; size_t n = 0; double ra = 0, dec = 0, I = 1; };
    std::map<std::string, PatchExp> patchExp;
    std::vector<std::string> lines;
    const size_t n = 1 + r.below(6);
    auto value = [&](const Field& x, Src& s, bool patchLine) -> std::string {
      auto q = [&](const std::string& t) { return t.empty() || r.chance(0.7) ? t : r.chance(0.5) ? '"' + t + '"' : '\'' + t + '\''; };
      auto num = [&](double& d, double lo, double hi, double dflt) -> std::string {
        if (x.fixed) { d = std::stod(x.def); return "#none"; }
        if (r.chance(0.25)) { d = x.hasDef ? std::stod(x.def) : dflt; return ""; }
        d = double(std::llround(r.real(lo, hi) * 1000)) / 1000;
        if (d == 0) d = 0.001;
        return q(Num(d));
      };
      if (x.name == "I") return num(s.I, 0.1, 50, 1);
      if (x.name == "V") return num(s.V, -2, 2, 0);
      if (x.name == "MajorAxis") return num(s.major, 1, 90, 1);
      if (x.name == "MinorAxis") return num(s.minor, 0.1, 1, 1);
      if (x.name == "Orientation") return num(s.pa, -90, 90, 1);
      if (x.name == "Category") return "2";
      if (x.name == "RefType") return r.chance(0.5) ? "J2000" : "";
      if (x.name == "dummy") return r.chance(0.5) ? "anything 'sep , ; | quoted'" : "";
      if (x.name == "MyOwnField") return r.chance(0.5) ? "12.5" : "";
      if (x.name == "ReferenceFrequency") {
        if (x.hasDef && r.chance(0.4)) { s.f0 = std::stod(x.def); return ""; }
        s.f0 = double(r.range(50, 250)) * 1e6;
        return q(r.chance(0.5) ? Num(s.f0) : S(s.f0 / 1e6, "e6"));
      }
      if (x.name == "LogarithmicSI" || x.name == "OrientationIsAbsolute") {
        bool& b = x.name == "LogarithmicSI" ? s.log : s.absolute;
        if (r.chance(0.4)) { if (x.hasDef) b = x.def == "true"; return ""; }
        b = r.chance(0.5);
        return q(b ? r.chance(0.5) ? "true" : "True" : r.chance(0.5) ? "false" : "F");
      }
      if (x.name == "Type") {
        if (r.chance(0.3)) { s.type = x.hasDef ? x.def : "POINT"; return ""; }
        s.type = r.chance(0.5) ? "POINT" : "GAUSSIAN";
        return q(Case(r, s.type));
      }
      if (x.name == "SpectralIndex") {
        if (r.chance(0.2)) return "";
        const size_t k = r.below(4);
        if (k == 0) return "[]";
        std::string t;
        for (size_t i = 0; i < k; ++i) { double c = double(r.range(-2000, 2000)) / 1000; s.terms.push_back(c); t += S(i ? r.chance(0.5) ? " , " : "," : "", Num(c)); }
        if (k == 1 && r.chance(0.5)) return t;
        return S("[", r.chance(0.3) ? " " : "", t, r.chance(0.3) ? " " : "", "]");
      }
      (void)patchLine;
      return "";
    };
    auto line = [&](Src& s, bool patchLine) {
      // Positions in separate fields share one direction.
      std::map<std::string, std::string> pos;
      if (splitRa) {
        const int a = int(r.below(raHours ? 24 : 360)), m = int(r.below(60));
        const double sec = double(r.below(60000)) / 1000;
        s.ra = (a + m / 60.0 + sec / 3600) * (raHours ? M_PI / 12 : M_PI / 180);
        pos[raHours ? "rah" : "rad"] = S(a), pos["ram"] = S(m), pos["ras"] = Num(sec);
      } else pos["Ra"] = RaText(r, s.ra);
      if (splitDec) {
        const int d = int(r.below(r.chance(0.3) ? 1 : 90)), m = int(r.below(60));
        const double sec = double(r.below(60000)) / 1000;
        const bool neg = r.chance(0.5);
        s.dec = (d + m / 60.0 + sec / 3600) * M_PI / 180 * (neg ? -1 : 1);
        pos["decd"] = S(neg ? "-" : "", d), pos["decm"] = S(m), pos["decs"] = Num(sec);
      } else pos["Dec"] = DecText(r, s.dec);
      for (auto& p : pos) if (p.second.find('"') == std::string::npos && r.chance(0.15)) p.second = '"' + p.second + '"';
      // Polarization.
      const bool rmField = has("RotationMeasure");
      std::map<std::string, std::string> pol;
      if (rmField && !patchLine && r.chance(0.6)) {
        const bool qu = has("Q") && has("U"), ang = has("PolarizedFraction") && has("PolarizationAngle");
        s.rmv = double(r.range(-2000, 2000)) / 100;
        if (qu && has("ReferenceWavelength") && (!ang || r.chance(0.5))) {
          s.rm = s.viaQU = true;
          s.wavel = double(r.range(50, 300)) / 100;
          s.Q = double(r.range(-1000, 1000)) / 1000, s.U = double(r.range(1, 1000)) / 1000;
          pol["RotationMeasure"] = Num(s.rmv), pol["Q"] = Num(s.Q), pol["U"] = Num(s.U), pol["ReferenceWavelength"] = Num(s.wavel);
        } else if (ang) {
          s.rm = true;
          s.frac = double(r.below(1000)) / 1000, s.angle = double(r.range(-3000, 3000)) / 1000;
          pol["RotationMeasure"] = Num(s.rmv), pol["PolarizedFraction"] = Num(s.frac), pol["PolarizationAngle"] = Num(s.angle);
        }
      } else {
        if (has("Q") && r.chance(0.7)) { s.Q = double(r.range(-1000, 1000)) / 1000; pol["Q"] = Num(s.Q); }
        if (has("U") && r.chance(0.7)) { s.U = double(r.range(-1000, 1000)) / 1000; pol["U"] = Num(s.U); }
        if (has("RotationMeasure")) { pol["Q"] = s.Q != 0 ? pol["Q"] : ""; }
      }
      s.type = "POINT";
      std::string out;
      bool first = true;
      for (Field& x : f) {
        std::string v;
        if (pos.count(x.name)) v = pos[x.name];
        else if (x.name == "Name") v = patchLine ? "" : r.chance(0.3) ? '"' + s.name + '"' : s.name;
        else if (x.name == "Patch") v = s.patch;
        else if (pol.count(x.name)) v = pol[x.name];
        else v = value(x, s, patchLine);
        if (x.fixed) { if (v == "#none" || x.name == "Category") continue; }
        if (!first) out += S(r.chance(0.3) ? " " : "", sep, r.chance(0.6) ? " " : "");
        first = false;
        out += v;
      }
      return out;
    };
    const bool patches = has("Patch");
    std::set<std::string> used;
    for (size_t k = 0; k < n; ++k) {
      Src s;
      s.name = S("src", k, r.chance(0.2) ? "_x" : "", r.chance(0.1) ? "," : "");
      const bool odd = s.name.back() == ',';
      if (odd) s.name.pop_back();
      if (patches && r.chance(0.7)) {
        s.patch = patchNames.empty() || r.chance(0.4) ? S("patch", patchNames.size()) : r.pick(patchNames);
        if (!patchExp.count(s.patch)) {
          Src p;
          p.patch = s.patch;
          patchNames.push_back(s.patch);
          lines.push_back(line(p, true));
          PatchExp e;
          e.ra = p.ra, e.dec = p.dec, e.I = p.I;
          patchExp[s.patch] = e;
        }
      }
      lines.push_back(line(s, false));
      if (patches && s.patch.empty()) ;
      if (!s.patch.empty()) {
        PatchExp& e = patchExp[s.patch];
        e.v.add(s.ra, s.dec, s.I), e.flux += s.I, ++e.n;
      } else {
        PatchExp e;
        e.ra = s.ra, e.dec = s.dec, e.I = s.I;
        patchExp[s.name] = e;
        s.patch = s.name;
      }
      if (s.terms.size() && s.f0 == 0) return;  // would be refused; below
      srcs.push_back(s);
    }
    // The file.
    const std::string file = S(R().scratch, "/sky", idx % 7, r.chance(0.5) ? ".txt" : ".skymodel");
    const std::string eol = r.chance(0.3) ? "\r\n" : "\n";
    std::string text;
    const int style = int(r.below(3));
    if (r.chance(0.3)) text += "# A comment, with = signs" + eol;
    if (style == 0) text += S("# (", format, ") = ", Case(r, "format"), eol);
    else if (style == 1) text += S(Case(r, "FORMAT"), r.chance(0.5) ? " = " : "=", format, eol);
    for (size_t i = 0; i < lines.size(); ++i) {
      if (r.chance(0.15)) text += S(r.chance(0.5) ? "" : "# skipped, 1, 2, 3", eol);
      if (r.chance(0.1)) text += S("   ", r.chance(0.5) ? "\t" : "", eol);
      text += S(r.chance(0.2) ? "  " : "", lines[i]);
      if (i + 1 < lines.size() || r.chance(0.7)) text += eol;
    }
    // A first value that looks like nothing may be an empty line.
    std::ofstream(file, std::ios::binary) << text;
    R().Describe(S(style == 2 ? "format given: " + format + "\n" : "", text));
    const dp3::sky_model::SkyModel m = style == 2 ? dp3::sky_model::ReadSkyModel(file, format) : dp3::sky_model::ReadSkyModel(file);
    if (style != 2) VH_EXPECT(dp3::sky_model::ReadFormat("", file) == format, "read:format", "format read as '", dp3::sky_model::ReadFormat("", file), "'");
    const auto& got = m.GetSources();
    VH_EXPECT(got.size() == srcs.size(), "read:count", got.size(), " sources, expected ", srcs.size());
    for (size_t i = 0; i < got.size() && i < srcs.size(); ++i) {
      const auto& g = got[i];
      const Src& s = srcs[i];
      const auto& in = g.getInfo();
      const bool gaussian = s.type == "GAUSSIAN";
      VH_EXPECT(in.getName() == s.name, "read:name", "name '", in.getName(), "' expected '", s.name, "'");
      VH_EXPECT(g.getPatchName() == s.patch, "read:patch", s.name, ": patch '", g.getPatchName(), "' expected '", s.patch, "'");
      VH_EXPECT((in.getType() == dp3::sky_model::SourceInfo::GAUSSIAN) == gaussian, "read:type", s.name, ": type");
      VH_EXPECT(in.getRefType() == "J2000", "read:reftype", s.name, ": reference type ", in.getRefType());
      VH_EXPECT(Close(g.getRa(), s.ra, 1e-10, 1e-10), "read:ra", s.name, ": ra ", g.getRa(), " expected ", s.ra);
      VH_EXPECT(Close(g.getDec(), s.dec, 1e-10, 1e-10), "read:dec", s.name, ": dec ", g.getDec(), " expected ", s.dec);
      VH_EXPECT(g.getI() == s.I, "read:I", s.name, ": I ", g.getI(), " expected ", s.I);
      VH_EXPECT(g.getV() == s.V, "read:V", s.name, ": V ", g.getV(), " expected ", s.V);
      VH_EXPECT(in.getUseRotationMeasure() == s.rm, "read:rm", s.name, ": rotation measure used ", in.getUseRotationMeasure());
      if (!s.rm) VH_EXPECT(g.getQ() == s.Q && g.getU() == s.U, "read:QU", s.name, ": Q,U ", g.getQ(), ",", g.getU(), " expected ", s.Q, ",", s.U);
      VH_EXPECT(g.getSpectralTerms() == s.terms, "read:spectral", s.name, ": spectral terms ", vh::Join(g.getSpectralTerms()), " expected ", vh::Join(s.terms));
      if (!s.terms.empty()) {
        VH_EXPECT(in.getSpectralTermsRefFreq() == s.f0, "read:reference-frequency", s.name, ": ", in.getSpectralTermsRefFreq());
        VH_EXPECT(in.getHasLogarithmicSI() == s.log, "read:log", s.name, ": logarithmic ", in.getHasLogarithmicSI());
      }
      if (gaussian) {
        VH_EXPECT(g.getMajorAxis() == s.major && g.getMinorAxis() == s.minor && g.getOrientation() == s.pa, "read:shape", s.name, ": shape ", g.getMajorAxis(), ",", g.getMinorAxis(), ",", g.getOrientation());
        VH_EXPECT(in.getPositionAngleIsAbsolute() == s.absolute, "read:absolute", s.name, ": orientation absolute ", in.getPositionAngleIsAbsolute());
      }
      if (s.rm && !s.viaQU) VH_EXPECT(g.getPolarizedFraction() == s.frac && g.getPolarizationAngle() == s.angle && g.getRotationMeasure() == s.rmv, "read:polarization", s.name, ": ", g.getPolarizedFraction(), ",", g.getPolarizationAngle(), ",", g.getRotationMeasure());
    }
    // Patches.
    VH_EXPECT(m.GetPatches().size() == patchExp.size(), "read:patches", m.GetPatches().size(), " patches, expected ", patchExp.size());
    std::vector<std::string> names;
    for (const auto& [name, e] : patchExp) {
      names.push_back(name);
      const auto& p = m.GetPatch(name);
      if (e.n == 0) {
        VH_EXPECT(Close(p.getRa(), e.ra, 1e-10, 1e-10) && Close(p.getDec(), e.dec, 1e-10, 1e-10) && p.apparentBrightness() == e.I, "read:patch-own", name, ": ", p.getRa(), ",", p.getDec(), " ", p.apparentBrightness());
      } else {
        VH_EXPECT(Close(p.apparentBrightness(), double(e.flux), 1e-12, 0), "read:patch-flux", name, ": flux ", p.apparentBrightness(), " expected ", double(e.flux));
        if (e.v.norm() > 0.01L * e.flux) { const double a = Angle(Direction(p.getRa(), p.getDec()), e.v); VH_EXPECT(a < 1e-8, "read:patch-direction", name, ": direction is ", a, " rad off the flux-weighted mean"); }
      }
    }
    VH_EXPECT(m.GetPatchNames() == names, "read:patch-names", "patch names ", vh::Join(m.GetPatchNames()));
    // The components a prediction uses.
    std::vector<std::string> filled;
    for (const std::string& nm : names) if (std::any_of(srcs.begin(), srcs.end(), [&](const Src& s) { return s.patch == nm; })) filled.push_back(nm);
    const auto list = dp3::sky_model::MakePatches(m, filled);
    VH_EXPECT(list.size() == filled.size(), "components:patches", list.size(), " patches");
    for (size_t k = 0; k < list.size() && k < filled.size(); ++k) {
      const auto& info = m.GetPatch(filled[k]);
      VH_EXPECT(list[k]->Name() == filled[k], "components:name", list[k]->Name());
      VH_EXPECT(list[k]->Direction().ra == info.getRa() && list[k]->Direction().dec == info.getDec() && list[k]->Brightness() == info.apparentBrightness(), "components:patch", filled[k], ": direction or brightness differs");
      size_t c = 0;
      for (const Src& s : srcs) {
        if (s.patch != filled[k]) continue;
        if (c >= list[k]->NComponents()) { VH_EXPECT(false, "components:count", filled[k], " has ", list[k]->NComponents(), " components"); break; }
        auto p = std::dynamic_pointer_cast<PointSource>(list[k]->component(c++));
        auto g = std::dynamic_pointer_cast<GaussianSource>(p);
        VH_EXPECT(bool(g) == (s.type == "GAUSSIAN"), "components:type", s.name, ": type");
        VH_EXPECT(Close(p->direction().ra, s.ra, 1e-10, 1e-10) && Close(p->direction().dec, s.dec, 1e-10, 1e-10), "components:direction", s.name);
        if (g) VH_EXPECT(Close(g->getMajorAxis(), s.major * M_PI / 648000, 1e-12, 0) && Close(g->getMinorAxis(), s.minor * M_PI / 648000, 1e-12, 0) && Close(g->getPositionAngle(), s.pa * M_PI / 180, 1e-12, 0) && g->getPositionAngleIsAbsolute() == s.absolute, "components:shape", s.name, ": Gaussian shape");
        if (s.f0 > 0) {
          const Stokes at = p->stokes(s.f0);
          VH_EXPECT(Close(at.I, s.I, 1e-12, 0) && at.V == s.V, "components:flux", s.name, ": at the reference frequency I=", at.I, " V=", at.V);
        }
        if (s.viaQU) {
          // At the reference wavelength the given Q and U come back.
          const Stokes at = p->stokes(kC / s.wavel);
          const double scale = std::fabs(s.Q) + std::fabs(s.U);
          VH_EXPECT(Close(at.Q, s.Q, 0, 1e-9 * scale) && Close(at.U, s.U, 0, 1e-9 * scale), "components:QU", s.name, ": at the reference wavelength Q,U=", at.Q, ",", at.U, " expected ", s.Q, ",", s.U, " (log=", s.log, ")");
        }
      }
      VH_EXPECT(c == list[k]->NComponents(), "components:count", filled[k], " has ", list[k]->NComponents(), " components, expected ", c);
    }
    R().Count("sources", srcs.size());
    if (srcs.size() > 1) R().Nontrivial(text);
  });
  R().Cases("read-default-format", R().n(150, 1500), [](Rng& r, size_t idx) {
    // Without a format: a fixed order of fields.
    const std::string file = S(R().scratch, "/skyd", idx % 7, ".txt");
    double ra, dec;
    std::string rt = RaText(r, ra), dt = DecText(r, dec);
    const bool g = r.chance(0.5);
    const double I = double(r.range(1, 900)) / 100;
    std::string l = S("name", idx, ",", g ? "GAUSSIAN" : "POINT", ",", rt, ",", dt, ",", Num(I), ",0.1,-0.2,0.3");
    if (g) l += ",12,3,45";
    const bool emptyFormat = r.chance(0.5);
    if (emptyFormat) {
      const char sep = r.chance(0.6) ? ',' : ';';
      std::string x = S("name", idx, sep, g ? "GAUSSIAN" : "POINT", sep, "J2000", sep, rt, sep, dt, sep, Num(I), sep, "0.1", sep, "-0.2", sep, "0.3");
      if (g) x += S(sep, sep, sep, "150e6", sep, "12", sep, "3", sep, "45");
      std::ofstream(file) << x << "\n";
      const std::string fmt = sep == ';' ? r.chance(0.5) ? ";" : " ; " : r.chance(0.5) ? "" : r.chance(0.5) ? " " : ",";
      R().Describe(S("format '", fmt, "' line ", x));
      const auto m = dp3::sky_model::ReadSkyModel(file, fmt);
      VH_EXPECT(m.GetSources().size() == 1, "default:count", "sources");
      if (m.GetSources().size() != 1) return;
      const auto& s = m.GetSources()[0];
      VH_EXPECT(s.getI() == I && s.getQ() == 0.1 && s.getU() == -0.2 && s.getV() == 0.3 && Close(s.getRa(), ra, 1e-10, 1e-10) && Close(s.getDec(), dec, 1e-10, 1e-10), "default:values", "values differ");
      if (g) VH_EXPECT(s.getMajorAxis() == 12 && s.getMinorAxis() == 3 && s.getOrientation() == 45, "default:shape", "shape differs");
    } else {
      std::ofstream(file) << l << "\n";
      R().Describe(S("no format, line ", l));
      const auto m = dp3::sky_model::ReadSkyModel(file);
      VH_EXPECT(m.GetSources().size() == 1, "default:count", "sources");
      if (m.GetSources().size() != 1) return;
      const auto& s = m.GetSources()[0];
      VH_EXPECT(s.getI() == I && s.getQ() == 0.1 && s.getU() == -0.2 && s.getV() == 0.3 && Close(s.getRa(), ra, 1e-10, 1e-10) && Close(s.getDec(), dec, 1e-10, 1e-10), "default:values", "values differ");
      if (g) VH_EXPECT(s.getMajorAxis() == 12 && s.getMinorAxis() == 3 && s.getOrientation() == 45, "default:shape", "shape differs");
    }
    R().Nontrivial(l);
  });
  R().Cases("refuse", R().n(400, 3000), [](Rng& r, size_t idx) {
    struct Bad { const char *format, *line; };
    static const std::vector<Bad> bad = {
        {"Name,Type,Ra,Dec,I", "a,SQUARE,1rad,0.5rad,1"}, {"Name,Ra,Dec,SpectralIndex", "a,1rad,0.5rad,[0.5]"},
        {"Name,Ra,Dec,SpectralIndex,ReferenceFrequency", "a,1rad,0.5rad,[0.5,1e6"}, {"Name,Ra,Dec,I", "'a,1rad,0.5rad,1"},
        {"Name,Ra,Dec,SpectralIndex", "a,1rad,0.5rad,0.5]"}, {"Name,Ra,Dec,I", "a,1rad,1.7rad,1"}, {"Name,Ra,Dec,I", "a,7rad,0.5rad,1"},
        {"Name,Ra,Dec,Patch", "a,1rad,0.5rad,unknown"}, {"Name,Ra,Dec,Patch", ",1rad,0.5rad,"}, {"Name,Ra,Dec,I", "a,1rad,0.5rad,xyz"},
        {"Name,Ra,Dec,Q,U,RotationMeasure", "a,1rad,0.5rad,0.1,0.2,3"}, {"Name,Ra,Dec,PolarizedFraction", "a,1rad,0.5rad,0.3"},
        {"Name,Ra,Dec,RotationMeasure", "a,1rad,0.5rad,0.3"}, {"Name,Ra,Dec,RefType", "a,1rad,0.5rad,EARTH"}, {"Name,Ra,Dec,I", "a,1rad,10:20:30,1"},
        {"Name,Dec,I", "a,0.5rad,1"}, {"Name,Ra,I", "a,0.5rad,1"}, {"Name,Ra,rah,Dec", "a,0.5rad,1,0.5rad"}, {"Name,rah,rad,Dec", "a,1,1,0.5rad"},
        {"Name,Ra,Dec,I='1", "a,1rad,0.5rad,1"}, {"Name,Ra,Dec,I=1", "a,1rad,0.5rad,1"}, {"Name,Ra,Dec,I=", "a,1rad,0.5rad,1"},
        {"Name,Ra,Dec,SpectralIndexDegree,I", "a,1rad,0.5rad,1,1"}, {"Name,Ra,Dec,SpectralIndex,ReferenceFrequency", "a,1rad,0.5rad,[1e9],1e8"},
        {"Name,Ra,Dec,RotationMeasure,PolarizedFraction,PolarizationAngle,ReferenceWavelength", "a,1rad,0.5rad,3,0.1,0.2,1.5"},
        {"Name,Ra,Dec,Q,RotationMeasure,ReferenceWavelength", "a,1rad,0.5rad,0.1,2,1.5"}};
    const Bad& b = bad[idx % bad.size()];
    const std::string file = S(R().scratch, "/skyb.txt");
    std::ofstream(file) << (r.chance(0.5) ? "# comment\n" : "") << b.line << (r.chance(0.5) ? "\n" : "");
    R().Describe(S(b.format, " : ", b.line));
    VH_EXPECT(vh::Throws([&] { dp3::sky_model::ReadSkyModel(file, b.format); }), "refuse:accepted", "the line was accepted");
    R().Nontrivial(S(b.format, b.line));
  });
  R().Cases("refuse-file", 1, [](Rng&, size_t) {
    VH_EXPECT(vh::Throws([&] { dp3::sky_model::ReadSkyModel(R().scratch + "/absent.txt"); }), "refuse:absent", "an absent file was accepted");
    std::ofstream(R().scratch + "/x.sourcedb") << "\n";
    VH_EXPECT(vh::Throws([&] { dp3::sky_model::ReadSkyModel(R().scratch + "/x.sourcedb"); }), "refuse:extension", "an unknown extension was accepted");
    R().Nontrivial("files");
  });
}

// ---- C33: selecting patches
bool Glob(const std::string& p, size_t i, const std::string& s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == '*') { for (size_t k = j; k <= s.size(); ++k) if (Glob(p, i + 1, s, k)) return true; return false; }
  return j < s.size() && (p[i] == '?' || p[i] == s[j]) && Glob(p, i + 1, s, j + 1);
}
void Selection() {
  R().Cases("select", R().n(400, 5000), [](Rng& r, size_t idx) {
    // A model with patches of sources, some polarised or with absolute angle.
    std::vector<std::string> names;
    const std::string alpha = "abAB01_";
    while (names.size() < 1 + r.below(8)) {
      std::string n;
      for (size_t k = 1 + r.below(4); k > 0; --k) n += alpha[r.below(alpha.size())];
      if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
    }
    std::map<std::string, std::vector<std::string>> sources;
    std::set<std::string> polarised, absolute;
    std::string text = "FORMAT=Name,Type,Patch,Ra,Dec,I,Q,U,V,OrientationIsAbsolute,RotationMeasure,PolarizedFraction,PolarizationAngle\n";
    std::vector<std::pair<std::string, std::string>> order;
    for (const std::string& n : names) text += S(",,", n, ",1rad,0.5rad\n");
    for (const std::string& n : names) for (size_t k = 1 + r.below(3); k > 0; --k) order.push_back({n, S("s", order.size())});
    r.shuffle(order);
    for (auto& [n, s] : order) {
      std::string q = "0", u = "0", v = "0", rm, fr, an;
      const double x = r.unit();
      if (x < 0.05) q = "0.1"; else if (x < 0.1) u = "-0.1"; else if (x < 0.15) v = "1";
      else if (x < 0.2) { q = u = ""; rm = "1.5", fr = "0.3", an = "1"; } else if (x < 0.3) { q = u = "", rm = "1.5", fr = "0", an = "1"; }
      if (x < 0.2) polarised.insert(n);
      const bool abs = r.chance(0.1);
      if (abs) absolute.insert(n);
      sources[n].push_back(s);
      text += S(s, ",POINT,", n, ",1rad,0.5rad,1,", q, ",", u, ",", v, ",", abs ? "true" : "false", ",", rm, ",", fr, ",", an, "\n");
    }
    const std::string file = S(R().scratch, "/sel", idx % 11, ".skymodel");
    std::ofstream(file) << text;
    std::vector<std::string> pats;
    for (size_t k = r.below(4); k > 0; --k) {
      std::string p = r.chance(0.3) ? std::string("*") : r.pick(names);
      for (char& c : p) if (r.chance(0.3)) c = r.chance(0.5) ? '*' : '?';
      if (r.chance(0.3)) p += "*";
      pats.push_back(p);
    }
    R().Describe(S("patches ", vh::Join(names), " patterns ", vh::Join(pats)));
    std::vector<std::string> want;
    std::set<std::string> sorted(names.begin(), names.end());
    for (const std::string& n : sorted) if (pats.empty() || std::any_of(pats.begin(), pats.end(), [&](const std::string& p) { return Glob(p, 0, n, 0); })) want.push_back(n);
    dp3::sky_model::SkyModelCache& cache = *new dp3::sky_model::SkyModelCache();
    for (int pass = 0; pass < 2; ++pass) {
      auto sel = cache.GetMatchedSkyModel(file, pats);
      bool pol = false, abs = false;
      for (const std::string& n : want) pol |= polarised.count(n) > 0, abs |= absolute.count(n) > 0;
      VH_EXPECT(sel.CheckPolarized() == pol, "select:polarised", "polarised ", !pol);
      VH_EXPECT(sel.CheckAnyOrientationIsAbsolute() == abs, "select:absolute", "absolute ", !abs);
      const auto list = sel.MakePatchList();
      std::vector<std::string> got;
      for (const auto& p : list) got.push_back(p->Name());
      VH_EXPECT(got == want, "select:names", "selected ", vh::Join(got), " expected ", vh::Join(want));
      for (size_t i = 0; i < list.size() && i < want.size(); ++i)
        VH_EXPECT(list[i]->Name() == want[i] && list[i]->NComponents() == sources[want[i]].size(), "select:components", want[i], ": ", list[i]->NComponents(), " components");
    }
    delete &cache;
    // A list of patches keeps its order.
    auto some = names;
    r.shuffle(some);
    some.resize(1 + r.below(some.size()));
    dp3::sky_model::SkyModelCache c2;
    auto sel = c2.GetSkyModelPatches(file, some);
    const auto list = sel.MakePatchList();
    VH_EXPECT(list.size() == some.size(), "select:list", list.size(), " patches");
    for (size_t i = 0; i < list.size() && i < some.size(); ++i) VH_EXPECT(list[i]->Name() == some[i] && list[i]->NComponents() == sources[some[i]].size(), "select:list-components", some[i]);
    VH_EXPECT(vh::Throws([&] { auto x = c2.GetSkyModelPatches(file, {"nowhere"}); x.MakePatchList(); }), "select:unknown", "an unknown patch was accepted");
    VH_EXPECT(vh::Throws([&] { c2.GetMatchedSkyModel(file, {names[0], ""}); }), "select:empty-pattern", "an empty pattern was accepted");
    VH_EXPECT(vh::Throws([&] { c2.GetSkyModelPatches(file, {""}); }), "select:empty-name", "an empty name was accepted");
    // Directions for calibration.
    std::vector<std::vector<std::string>> dirs;
    for (const std::string& n : sorted) dirs.push_back({n});
    VH_EXPECT(dp3::sky_model::MakeDirectionList({}, file) == dirs, "directions:all", "not every patch is a direction");
    std::vector<std::string> packed;
    std::vector<std::vector<std::string>> expected;
    for (size_t k = 1 + r.below(3); k > 0; --k) {
      std::vector<std::string> d;
      for (size_t j = 1 + r.below(3); j > 0; --j) d.push_back(r.pick(names));
      packed.push_back("[" + vh::Join(d, ",") + "]");
      expected.push_back(d);
    }
    VH_EXPECT(dp3::sky_model::MakeDirectionList(packed, r.chance(0.5) ? file : "") == expected, "directions:packed", "directions ", vh::Join(packed));
    if (!pats.empty() && want.size() < names.size() && !want.empty()) R().Nontrivial(S(vh::Join(names), vh::Join(pats)));
  });
}
}  // namespace

VH_MAIN({"C30", Flux}, {"C31", Patches}, {"C32", Reading}, {"C33", Selection})
