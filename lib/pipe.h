// Helpers for the monitors of pipeline steps: random observations, random
// time slots, a recording sink, and a step-protocol monitor.
#ifndef VERIF_PIPE_H_
#define VERIF_PIPE_H_
#include "vh.h"

#include <algorithm>
#include <cmath>
#include <complex>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"

namespace ppl {
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::base::DPInfo;
using dp3::common::ParameterSet;
using dp3::steps::Step;
using vh::R;
using vh::Rng;
using cf = std::complex<float>;
using cd = std::complex<double>;

struct Obs {
  size_t nant = 0, nbl = 0, nchan = 0, ncorr = 4, ntime = 1;
  double t0 = 4.5e9, dt = 1.0;  // t0: centre of the first slot
  std::vector<std::string> names;
  std::vector<double> diam, x, y, z;
  std::vector<int> ant1, ant2;
  std::vector<double> freqs, widths;
  double ra = 0.5, dec = 0.8;
  std::string antenna_set;
  double Length(size_t b) const {
    const size_t i = ant1[b], j = ant2[b];
    return std::sqrt((x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]) + (z[i] - z[j]) * (z[i] - z[j]));
  }
  DPInfo Info() const {
    DPInfo info(ncorr, nchan, antenna_set);
    info.setTimes(t0, t0 + (ntime - 1) * dt, dt);
    info.setMsNames("in.MS", "DATA", "FLAG", "WEIGHT_SPECTRUM");
    std::vector<casacore::MPosition> pos;
    for (size_t i = 0; i < nant; ++i) pos.push_back(Pos(i));
    info.setArrayInformation(pos.front(), Dir(), Dir(), Dir());
    info.setAntennas(names, diam, pos, ant1, ant2);
    info.setChannels(std::vector<double>(freqs), std::vector<double>(widths));
    return info;
  }
  casacore::MPosition Pos(size_t i) const {
    return casacore::MPosition(casacore::MVPosition(x[i], y[i], z[i]), casacore::MPosition::ITRF);
  }
  casacore::MDirection Dir() const {
    return casacore::MDirection(casacore::Quantity(ra, "rad"), casacore::Quantity(dec, "rad"), casacore::MDirection::J2000);
  }
  std::string Str() const {
    return "nant=" + S(nant) + " nbl=" + S(nbl) + " nchan=" + S(nchan) + " ncorr=" + S(ncorr) + " ntime=" + S(ntime) + " dt=" + S(dt);
  }
  static std::string S(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
};

struct ObsOpt {
  size_t max_ant = 6, max_chan = 16, max_time = 12;
  bool autos = true, irregular = false, all_pairs = false, dyadic = false, corr4 = false;
};

inline Obs RandomObs(Rng& r, const ObsOpt& opt = {}) {
  Obs o;
  o.nant = r.range(2, opt.max_ant);
  o.ncorr = opt.corr4 ? 4 : r.pick(std::vector<size_t>{1, 2, 4, 4, 4});
  o.nchan = r.range(1, opt.max_chan);
  o.ntime = r.range(1, opt.max_time);
  o.dt = r.pick(std::vector<double>{1.0, 2.0, 10.0, 0.5, 1.00139008, 4.00556, 8.01112});
  o.t0 = 4.5e9 + std::floor(r.real(0, 1e7)) + r.pick(std::vector<double>{0, 0.5, 0.25, 0.123});
  const double extent = std::pow(10.0, r.real(1, 5));
  for (size_t i = 0; i < o.nant; ++i) {
    o.names.push_back((r.chance(0.5) ? "CS" : "RS") + std::string(i < 10 ? "00" : "0") + std::to_string(i) + "HBA" + (r.chance(0.3) ? "1" : "0"));
    o.diam.push_back(r.pick(std::vector<double>{30.75, 41.05, 56.5}));
    // LOFAR-like: around a point on the Earth's surface.
    o.x.push_back(3826577.1 + extent * r.real(-1, 1));
    o.y.push_back(461022.9 + extent * r.real(-1, 1));
    o.z.push_back(5064892.8 + extent * r.real(-1, 1));
  }
  const bool autos = opt.autos && r.chance(0.5);
  for (size_t i = 0; i < o.nant; ++i)
    for (size_t j = i; j < o.nant; ++j) {
      if (i == j && !autos) continue;
      if (!opt.all_pairs && o.nant > 2 && r.chance(0.15)) continue;
      const bool swap = r.chance(0.1);
      o.ant1.push_back(swap ? j : i);
      o.ant2.push_back(swap ? i : j);
    }
  if (o.ant1.empty()) { o.ant1 = {0}; o.ant2 = {1}; }
  o.nbl = o.ant1.size();
  const double w = opt.dyadic ? 48828.125 : r.pick(std::vector<double>{48828.125, 12207.03125, 195312.5, 24414.0625, 1e5, 1e5 / 3, 183.1e3 / 7});
  double f = r.pick(std::vector<double>{120e6, 55e6, 150e6, 30e6}) + std::floor(r.real(0, 1e6));
  for (size_t c = 0; c < o.nchan; ++c) {
    const double wc = opt.irregular ? w * (1 + 0.5 * r.unit()) : w;
    o.freqs.push_back(opt.irregular ? f + wc / 2 : f + (c + 0.5) * w);
    o.widths.push_back(wc);
    f += opt.irregular ? wc : 0;
  }
  o.ra = r.real(-3, 3);
  o.dec = r.real(-1.5, 1.5);
  return o;
}

struct BufOpt {
  double flag_prob = 0.2;
  bool nan_flagged = false;   // flagged samples may hold NaN / huge values
  bool zero_weights = true;
  int extra = 0;              // number of extra data buffers
};

inline std::unique_ptr<DPBuffer> RandomBuffer(Rng& r, const Obs& o, size_t t, const BufOpt& opt = {}) {
  auto b = std::make_unique<DPBuffer>(o.t0 + t * o.dt, o.dt * r.pick(std::vector<double>{1.0, 1.0, 0.5, 0.9}));
  const std::array<size_t, 3> shape{o.nbl, o.nchan, o.ncorr};
  b->GetData().resize(shape);
  b->GetFlags().resize(shape);
  b->GetWeights().resize(shape);
  b->GetUvw().resize({o.nbl, 3});
  for (int e = 0; e < opt.extra; ++e) {
    const std::string name = "extra" + std::to_string(e);
    b->AddData(name);
    auto& d = b->GetData(name);
    for (size_t i = 0; i < d.size(); ++i) d.data()[i] = cf(r.gauss(), r.gauss());
  }
  const int wmode = r.range(0, 2);
  for (size_t bl = 0; bl < o.nbl; ++bl) {
    const bool whole = r.chance(0.08 * (opt.flag_prob > 0));
    for (size_t c = 0; c < o.nchan; ++c)
      for (size_t p = 0; p < o.ncorr; ++p) {
        cf v(r.gauss() * 3 + 1, r.gauss() * 3);
        bool f = whole || r.chance(opt.flag_prob);
        float w = wmode == 0 ? 1.0f : wmode == 1 ? float(r.range(1, 8)) * 0.25f : float(r.real(0.01, 10));
        if (opt.zero_weights && r.chance(0.05)) w = 0;
        if (f && opt.nan_flagged && r.chance(0.3)) v = r.chance(0.5) ? cf(NAN, NAN) : cf(1e30f, -1e30f);
        b->GetData()(bl, c, p) = v;
        b->GetFlags()(bl, c, p) = f;
        b->GetWeights()(bl, c, p) = w;
      }
    for (int k = 0; k < 3; ++k) b->GetUvw()(bl, k) = r.real(-1e4, 1e4);
  }
  casacore::Vector<dp3::common::rownr_t> rows(o.nbl);
  for (size_t bl = 0; bl < o.nbl; ++bl) rows[bl] = t * o.nbl + bl;
  b->SetRowNumbers(rows);
  return b;
}

// A deep snapshot of a time slot.
struct Slot {
  double time = 0, exposure = 0;
  std::array<size_t, 3> shape{0, 0, 0};
  std::vector<cf> data;
  std::vector<char> flags;
  std::vector<float> weights;
  std::vector<double> uvw;
  std::map<std::string, std::vector<cf>> extra;
  size_t Idx(size_t b, size_t c, size_t p) const { return (b * shape[1] + c) * shape[2] + p; }
  cf D(size_t b, size_t c, size_t p) const { return data[Idx(b, c, p)]; }
  bool F(size_t b, size_t c, size_t p) const { return flags[Idx(b, c, p)]; }
  float W(size_t b, size_t c, size_t p) const { return weights[Idx(b, c, p)]; }
  double U(size_t b, size_t k) const { return uvw[b * 3 + k]; }
};
template <typename T, typename A>
std::vector<T> Vec(const A& a) { return std::vector<T>(a.data(), a.data() + a.size()); }
inline Slot Snap(const DPBuffer& b) {
  Slot s;
  s.time = b.GetTime();
  s.exposure = b.GetExposure();
  const auto& d = b.GetData();
  s.shape = {d.shape(0), d.shape(1), d.shape(2)};
  s.data = Vec<cf>(d);
  s.flags = Vec<char>(b.GetFlags());
  s.weights = Vec<float>(b.GetWeights());
  s.uvw = Vec<double>(b.GetUvw());
  for (const std::string& n : b.GetDataNames())
    if (!n.empty()) s.extra[n] = Vec<cf>(b.GetData(n));
  return s;
}
inline bool SameC(cf a, cf b) {
  auto eq = [](float x, float y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  return eq(a.real(), b.real()) && eq(a.imag(), b.imag());
}
inline bool SameData(const std::vector<cf>& a, const std::vector<cf>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!SameC(a[i], b[i])) return false;
  return true;
}
// What differs between two slots ("" when nothing does).
inline std::string Diff(const Slot& a, const Slot& b) {
  if (a.time != b.time) return "time";
  if (a.exposure != b.exposure) return "exposure";
  if (a.shape != b.shape) return "shape";
  if (!SameData(a.data, b.data)) return "data";
  if (a.flags != b.flags) return "flags";
  if (a.weights != b.weights) return "weights";
  if (a.uvw != b.uvw) return "uvw";
  if (a.extra.size() != b.extra.size()) return "extra data names";
  for (auto& [n, v] : a.extra) {
    auto it = b.extra.find(n);
    if (it == b.extra.end() || !SameData(v, it->second)) return "extra data " + n;
  }
  return "";
}

// A copy of a BDA row.
struct BdaRow {
  double time, interval, exposure;
  size_t row_nr, bl, nchan, ncorr;
  double uvw[3];
  std::map<std::string, std::vector<cf>> data;
  std::vector<char> flags;
  std::vector<float> weights;
};
inline std::vector<BdaRow> Rows(const BdaBuffer& b) {
  std::vector<BdaRow> out;
  for (size_t i = 0; i < b.GetRows().size(); ++i) {
    const auto& r = b.GetRows()[i];
    BdaRow q{r.time, r.interval, r.exposure, size_t(r.row_nr), r.baseline_nr, r.n_channels, r.n_correlations, {r.uvw[0], r.uvw[1], r.uvw[2]}, {}, {}, {}};
    const size_t n = r.GetDataSize();
    for (const std::string& name : b.GetDataNames()) {
      const cf* d = b.GetData(i, name);
      if (d) q.data[name] = std::vector<cf>(d, d + n);
    }
    if (const bool* f = b.GetFlags(i)) q.flags.assign(f, f + n);
    if (const float* w = b.GetWeights(i)) q.weights.assign(w, w + n);
    out.push_back(std::move(q));
  }
  return out;
}

// Recording sink; monitors the step protocol.
class Sink : public Step {
 public:
  std::vector<std::unique_ptr<DPBuffer>> bufs;
  std::vector<std::unique_ptr<BdaBuffer>> bdas;
  int finished = 0, after_finish = 0, bad_shape = 0, bad_order = 0;
  bool keep = true;
  size_t n_process = 0;
  bool process(std::unique_ptr<DPBuffer> b) override {
    ++n_process;
    if (finished) ++after_finish;
    if (!b) { ++bad_shape; return true; }
    const DPInfo& i = getInfoOut();
    const auto& d = b->GetData();
    if (check_shape && (d.shape(0) != i.nbaselines() || d.shape(1) != i.nchan() || d.shape(2) != i.ncorr())) ++bad_shape;
    if (!bufs.empty() && bufs.back()->GetTime() >= b->GetTime()) ++bad_order;
    bufs.push_back(std::move(b));
    return true;
  }
  bool process(std::unique_ptr<BdaBuffer> b) override {
    ++n_process;
    if (finished) ++after_finish;
    if (!b) { ++bad_shape; return true; }
    bdas.push_back(std::move(b));
    return true;
  }
  void finish() override { ++finished; }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool accepts(MsType) const override { return true; }
  bool check_shape = true;
  std::string Protocol() const {
    if (finished != 1) return "finish called " + std::to_string(finished) + " times";
    if (after_finish) return "process after finish";
    if (bad_shape) return "a buffer whose shape differs from the step's output info";
    if (bad_order) return "time slots out of order";
    return "";
  }
};

inline ParameterSet Parset(const std::vector<std::pair<std::string, std::string>>& kv) {
  ParameterSet p;
  for (auto& [k, v] : kv) p.add(k, v);
  return p;
}
// Connects the steps and passes the info down the chain.
inline std::shared_ptr<Sink> Connect(const std::vector<std::shared_ptr<Step>>& steps, const DPInfo& info) {
  auto sink = std::make_shared<Sink>();
  for (size_t i = 0; i + 1 < steps.size(); ++i) steps[i]->setNextStep(steps[i + 1]);
  steps.back()->setNextStep(sink);
  steps.front()->setInfo(info);
  return sink;
}
}  // namespace ppl
#endif
