// Monitors for the core of the pipeline: metadata, averaging, baseline-dependent
// averaging and expansion, and the time-slot buffers.
#include "pipe.h"

#include <schaapcommon/threading/threadpool.h>

#include "steps/Averager.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"

using namespace ppl;
using vh::S;
using dp3::common::Fields;

namespace {

// ---- C40: metadata
struct Model {
  std::vector<double> f, w, res, eff;
  size_t start = 0;
  double first, dt;
  size_t ntime;
  std::vector<std::string> names;
  std::vector<double> diam;
  std::map<std::string, std::array<double, 3>> pos;
  std::vector<std::pair<std::string, std::string>> bl;  // by station name
};
void CheckInfo(const DPInfo& i, const Model& m, bool caches) {
  VH_EXPECT(i.nchan() == m.f.size() && i.chanFreqs() == m.f, "channel-freqs", "nchan ", i.nchan(), " expected ", m.f.size());
  VH_EXPECT(i.chanWidths().size() == m.w.size() && i.resolutions().size() == m.w.size() && i.effectiveBW().size() == m.w.size(), "channel-lists", "list sizes differ");
  double sw = 0, tol = 0;
  for (size_t c = 0; c < m.w.size(); ++c) {
    sw += m.eff[c];
    tol = 1e-9 * m.w[c] * m.w.size();
    if (c < i.chanWidths().size())
      VH_EXPECT(std::fabs(i.chanWidths()[c] - m.w[c]) <= tol && std::fabs(i.resolutions()[c] - m.res[c]) <= tol && std::fabs(i.effectiveBW()[c] - m.eff[c]) <= tol,
                "channel-widths", "channel ", c, " width ", i.chanWidths()[c], " expected ", m.w[c], " resolution ", i.resolutions()[c], " expected ", m.res[c]);
  }
  VH_EXPECT(std::fabs(i.totalBW() - sw) <= 1e-9 * sw, "total-bandwidth", "total bandwidth ", i.totalBW(), " but the channels sum to ", sw);
  VH_EXPECT(i.startchan() == m.start, "start-channel", i.startchan(), " expected ", m.start);
  VH_EXPECT(i.ntime() == m.ntime, "time-count", "ntime ", i.ntime(), " expected ", m.ntime);
  VH_EXPECT(std::fabs(i.timeInterval() - m.dt) < 1e-9 * m.dt && std::fabs(i.firstTime() - m.first) < 2e-6 && std::fabs(i.lastTime() - (m.first + (m.ntime - 1) * m.dt)) < 4e-6 &&
                std::fabs(i.startTime() - (m.first - 0.5 * m.dt)) < 2e-6,
            "time-grid", "first ", i.firstTime() - m.first, " last ", i.lastTime() - m.first, " interval ", i.timeInterval(), " expected ", m.dt, " n ", m.ntime);
  // Stations and baselines
  VH_EXPECT(i.antennaNames() == m.names && i.antennaDiam() == m.diam && i.nantenna() == m.names.size() && i.antennaPos().size() == m.names.size(), "stations", "station list differs (", i.nantenna(), " vs ", m.names.size(), ")");
  bool ok = i.nbaselines() == m.bl.size() && i.getAnt1().size() == m.bl.size() && i.getAnt2().size() == m.bl.size();
  std::set<std::string> used;
  for (size_t b = 0; ok && b < m.bl.size(); ++b) {
    ok = size_t(i.getAnt1()[b]) < m.names.size() && size_t(i.getAnt2()[b]) < m.names.size() && i.antennaNames()[i.getAnt1()[b]] == m.bl[b].first && i.antennaNames()[i.getAnt2()[b]] == m.bl[b].second;
    used.insert(m.bl[b].first);
    used.insert(m.bl[b].second);
  }
  VH_EXPECT(ok, "baseline-stations", "the baselines no longer connect the same stations");
  std::vector<std::string> expect_used;
  std::vector<int> uidx, map(m.names.size(), -1);
  for (size_t a = 0; a < m.names.size(); ++a)
    if (used.count(m.names[a])) {
      map[a] = uidx.size();
      uidx.push_back(a);
      expect_used.push_back(m.names[a]);
    }
  VH_EXPECT(i.antennaUsed() == uidx && i.antennaMap() == map && i.GetUsedAntennaNames() == expect_used, "used-stations", "used ", i.antennaUsed().size(), " expected ", uidx.size());
  for (size_t a = 0; a < std::min(i.antennaPos().size(), m.names.size()); ++a) {
    const auto v = i.antennaPos()[a].getValue().getValue();
    const auto& p = m.pos.at(m.names[a]);
    VH_EXPECT(v[0] == p[0] && v[1] == p[1] && v[2] == p[2], "station-positions", "station ", a);
  }
  if (!caches) return;
  const std::vector<double>& len = i.getBaselineLengths();
  VH_EXPECT(len.size() == m.bl.size(), "baseline-lengths", len.size(), " lengths for ", m.bl.size(), " baselines");
  for (size_t b = 0; b < std::min(len.size(), m.bl.size()); ++b) {
    const auto &p = m.pos.at(m.bl[b].first), &q = m.pos.at(m.bl[b].second);
    const double l = std::sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]));
    VH_EXPECT(std::fabs(len[b] - l) <= 1e-6 + 1e-9 * l, "baseline-lengths", "baseline ", b, " length ", len[b], " expected ", l);
  }
  if (m.bl.empty()) return;
  const std::vector<int>& ac = i.getAutoCorrIndex();
  for (size_t a = 0; a < m.names.size(); ++a) {
    bool has = false;
    for (auto& b : m.bl) has |= b.first == m.names[a] && b.second == m.names[a];
    const int idx = a < ac.size() ? ac[a] : -1;
    const bool good = has ? (idx >= 0 && size_t(idx) < m.bl.size() && m.bl[idx].first == m.names[a] && m.bl[idx].second == m.names[a]) : idx == -1;
    VH_EXPECT(good, "autocorrelation-index", "station ", a, " has an autocorrelation: ", has, ", index ", idx);
  }
}
void C40() {
  R().Cases("history", R().n(1500, 30000), [](Rng& r, size_t) {
    ObsOpt opt;
    opt.max_time = 40;
    opt.irregular = r.chance(0.3);
    opt.max_chan = 24;
    Obs o = RandomObs(r, opt);
    DPInfo info = o.Info();
    Model m;
    m.f = o.freqs; m.w = m.res = m.eff = o.widths;
    if (r.chance(0.5)) {  // distinct resolutions and effective bandwidths
      for (double& v : m.res) v *= 1.5;
      for (double& v : m.eff) v *= 0.75;
      info.setChannels(std::vector<double>(m.f), std::vector<double>(m.w), std::vector<double>(m.res), std::vector<double>(m.eff));
    }
    const double ref = info.refFreq();
    VH_EXPECT(std::fabs(ref - 0.5 * (m.f[(m.f.size() - 1) / 2] + m.f[m.f.size() / 2])) < 1, "reference-frequency", ref);
    m.first = o.t0; m.dt = o.dt; m.ntime = o.ntime;
    m.names = o.names; m.diam = o.diam;
    // Station names must be unique for the model.
    for (size_t a = 0; a < m.names.size(); ++a) m.pos[m.names[a]] = {o.x[a], o.y[a], o.z[a]};
    for (size_t b = 0; b < o.nbl; ++b) m.bl.emplace_back(o.names[o.ant1[b]], o.names[o.ant2[b]]);
    std::string hist;
    unsigned chan_factor = 1, time_factor = 1;
    auto check = [&](bool caches) {
      R().Describe(o.Str() + " ops:" + hist);
      CheckInfo(info, m, caches);
      VH_EXPECT(info.nchanAvg() == chan_factor && info.ntimeAvg() == time_factor, "averaging-factors", "chan ", info.nchanAvg(), "/", chan_factor, " time ", info.ntimeAvg(), "/", time_factor);
      VH_EXPECT(info.origNChan() == o.nchan && info.ncorr() == o.ncorr, "original-channels", info.origNChan());
    };
    check(r.chance(0.5));
    const size_t n = r.range(1, 7);
    bool channels_averaged = false;
    for (size_t k = 0; k < n; ++k) {
      switch (r.range(0, 5)) {
        case 0: {  // channel selection
          const size_t s = r.below(m.f.size()), c = r.range(1, m.f.size() - s);
          hist += " chan[" + S(s) + "+" + S(c) + "]";
          info.SelectChannels(s, c);
          auto cut = [&](std::vector<double>& v) { v = std::vector<double>(v.begin() + s, v.begin() + s + c); };
          cut(m.f); cut(m.w); cut(m.res); cut(m.eff);
          m.start += s;
          R().Count("op.channels");
          break;
        }
        case 1: {  // averaging
          size_t ca = r.range(1, m.f.size() + 2), ta = r.range(1, m.ntime + 3);
          hist += " avg(" + S(ca) + "," + S(ta) + ")";
          const size_t ce = std::min(ca, m.f.size()), te = std::min(ta, m.ntime);
          if (m.f.size() % ce) {
            VH_EXPECT((vh::Throws([&] { DPInfo copy = info; copy.update(ca, ta); })), "indivisible-average", "averaging ", m.f.size(), " channels by ", ca, " is accepted");
            R().Count("op.indivisible");
            break;
          }
          const unsigned got = info.update(ca, ta);
          VH_EXPECT(got == ce, "average-clamped", "returned ", got, " expected ", ce);
          std::vector<double> f, w, res, eff;
          for (size_t c = 0; c < m.f.size(); c += ce) {
            f.push_back(0.5 * (m.f[c] + m.f[c + ce - 1]));
            double a = 0, b = 0, d = 0;
            for (size_t j = c; j < c + ce; ++j) { a += m.w[j]; b += m.res[j]; d += m.eff[j]; }
            w.push_back(a); res.push_back(b); eff.push_back(d);
          }
          m.f = f; m.w = w; m.res = res; m.eff = eff;
          m.first += 0.5 * (te - 1) * m.dt;
          m.dt *= te;
          m.ntime = (m.ntime + te - 1) / te;
          chan_factor *= ce; time_factor *= te;
          channels_averaged = true;
          R().Count("op.average");
          break;
        }
        case 2: {  // baseline selection
          if (m.bl.empty()) break;
          std::vector<unsigned> sel;
          std::vector<std::pair<std::string, std::string>> nb;
          for (size_t b = 0; b < m.bl.size(); ++b)
            if (r.chance(0.6)) { sel.push_back(b); nb.push_back(m.bl[b]); }
          if (sel.empty()) { sel.push_back(0); nb.push_back(m.bl[0]); }
          hist += " bl(" + S(sel.size()) + ")";
          info.SelectBaselines(sel);
          m.bl = nb;
          R().Count("op.baselines");
          break;
        }
        case 3: {
          hist += " unused";
          std::set<std::string> used;
          for (auto& b : m.bl) { used.insert(b.first); used.insert(b.second); }
          std::vector<std::string> names; std::vector<double> diam;
          for (size_t a = 0; a < m.names.size(); ++a)
            if (used.count(m.names[a])) { names.push_back(m.names[a]); diam.push_back(m.diam[a]); }
          const bool change = names.size() != m.names.size();
          info.clearMetaChanged();
          info.RemoveUnusedAntennas();
          VH_EXPECT(info.metaChanged() == change, "meta-changed", "stations removed: ", change, " meta changed: ", info.metaChanged());
          m.names = names; m.diam = diam;
          R().Count(change ? "op.removed-stations" : "op.nothing-removed");
          break;
        }
        case 4: {  // a new station with its baselines (as the station adder does)
          const std::string nm = "ADDED" + S(k);
          const size_t from = r.below(m.names.size());
          m.pos[nm] = {3.8e6 + r.real(-1e4, 1e4), 4.6e5 + r.real(-1e4, 1e4), 5e6 + r.real(-1e4, 1e4)};
          m.names.push_back(nm);
          m.diam.push_back(70);
          hist += " add";
          std::vector<int> a1(info.getAnt1()), a2(info.getAnt2());
          a1.push_back(from); a2.push_back(m.names.size() - 1);
          m.bl.emplace_back(m.names[from], nm);
          if (r.chance(0.5)) {
            a1.push_back(m.names.size() - 1); a2.push_back(m.names.size() - 1);
            m.bl.emplace_back(nm, nm);
          }
          std::vector<casacore::MPosition> pos;
          for (auto& s : m.names) pos.emplace_back(casacore::MVPosition(m.pos[s][0], m.pos[s][1], m.pos[s][2]), casacore::MPosition::ITRF);
          info.setAntennas(m.names, m.diam, pos, a1, a2);
          R().Count("op.add-station");
          break;
        }
        case 5: {  // out of range channel selection is refused
          const size_t s = r.range(0, m.f.size() + 1), c = m.f.size() - std::min(s, m.f.size()) + r.range(1, 3);
          VH_EXPECT((vh::Throws([&] { DPInfo copy = info; copy.SelectChannels(s, c); })), "channel-range", "selecting ", s, "+", c, " of ", m.f.size(), " channels is accepted");
          R().Count("op.refused-selection");
          break;
        }
      }
      check(r.chance(0.5));
      R().Nontrivial();
    }
    (void)channels_averaged;
    check(true);
    DPInfo copy = info;
    CheckInfo(copy, m, true);
  });
  R().Cases("times", R().n(3000, 60000), [](Rng& r, size_t) {
    DPInfo info(4, 1);
    const double dt = r.pick(std::vector<double>{1, 1.00139, 2.00278, 4.00556, 10.0139, 0.1, 1.0 / 3});
    const size_t n = r.pick(std::vector<size_t>{1, 2, 3, size_t(r.range(1, 100)), size_t(r.range(1, 100000))});
    const double first = 4.9e9 + r.real(0, 1e6);
    info.setTimes(first, first + (n - 1) * dt + r.real(-0.2, 0.2) * dt * (n > 1), dt);
    R().Describe("dt=" + S(dt) + " n=" + S(n));
    VH_EXPECT(info.ntime() == n, "slot-count", "ntime ", info.ntime(), " expected ", n);
    VH_EXPECT(std::fabs(info.startTime() - (first - 0.5 * dt)) < 2e-6, "start-time", info.startTime() - first);
    VH_EXPECT((vh::Throws([&] { DPInfo c = info; c.setTimes(first, first - dt, dt); }) && vh::Throws([&] { DPInfo c = info; c.setTimes(first, first, 0); })), "bad-times", "accepted");
    R().Nontrivial();
  });
  // Channel lists per baseline, with equal totals.
  R().Cases("bda-channels", R().n(1000, 20000), [](Rng& r, size_t) {
    ObsOpt opt; opt.max_chan = 32;
    Obs o = RandomObs(r, opt);
    DPInfo info = o.Info();
    std::vector<std::vector<double>> f(o.nbl), w(o.nbl);
    size_t mx = 0;
    for (size_t b = 0; b < o.nbl; ++b) {
      const size_t n = r.range(1, o.nchan);
      mx = std::max(mx, n);
      for (size_t c = 0; c < n; ++c) {
        const size_t lo = c * o.nchan / n, hi = (c + 1) * o.nchan / n;
        double s = 0;
        for (size_t k = lo; k < hi; ++k) s += o.widths[k];
        f[b].push_back(0.5 * (o.freqs[lo] + o.freqs[hi - 1]));
        w[b].push_back(s);
      }
    }
    R().Describe(o.Str());
    auto ff = f, ww = w;
    bool threw = false;
    try { info.setChannels(std::move(ff), std::move(ww)); } catch (const std::exception& e) {
      threw = true;
      VH_EXPECT(false, "equal-bandwidth-refused", "channel lists that cover the same band are refused: ", e.what());
    }
    if (threw) return;
    double tot = 0;
    for (double x : o.widths) tot += x;
    VH_EXPECT(info.nchan() == mx && std::fabs(info.totalBW() - tot) < 1e-6 * tot, "bda-totals", info.nchan(), " channels, bandwidth ", info.totalBW(), " expected ", tot);
    for (size_t b = 0; b < o.nbl; ++b) VH_EXPECT(info.chanFreqs(b) == f[b] && info.chanWidths(b) == w[b] && info.effectiveBW(b) == w[b] && info.resolutions(b) == w[b], "bda-lists", "baseline ", b);
    if (o.nbl > 1) {
      auto f2 = f, w2 = w;
      for (double& x : w2.back()) x *= 1.5;
      VH_EXPECT((vh::Throws([&] { DPInfo c = info; c.setChannels(std::move(f2), std::move(w2)); })), "unequal-bandwidth", "lists that cover different bandwidths are accepted");
      auto f3 = f; f3.pop_back();
      auto w3 = w;
      VH_EXPECT((vh::Throws([&] { DPInfo c = info; c.setChannels(std::move(f3), std::move(w3)); })), "missing-baseline", "accepted");
    }
    R().Nontrivial();
  });
  // Regularity of the channels.
  R().Cases("regular", R().n(800, 10000), [](Rng& r, size_t) {
    ObsOpt opt; opt.max_chan = 20;
    Obs o = RandomObs(r, opt);
    const size_t bad = r.below(o.nchan);
    const bool irr = r.chance(0.5) && o.nchan > 2;
    if (irr) { if (r.chance(0.5)) o.freqs[bad] += 5000; else o.widths[bad] += 5000; }
    else if (o.nchan > 2) { o.freqs[bad] += 100; o.widths[bad] += 100; }
    R().Describe("bad=" + S(bad) + " of " + S(o.nchan) + " irregular " + S(irr));
    VH_EXPECT(o.Info().channelsAreRegular() == !irr, "regularity", "irregular layout: ", irr);
    R().Nontrivial();
  });
}

// ---- C41: averaging
struct Acc { cd s{0, 0}, all{0, 0}; double w = 0, wall = 0, mag = 0, magall = 0; size_t n = 0, tot = 0; };
void RunAverager(Rng& r) {
  ObsOpt opt;
  opt.max_time = 14;
  opt.max_chan = 24;
  Obs o = RandomObs(r, opt);
  size_t nthreads = r.pick(std::vector<size_t>{1, 1, 2, 4});
  schaapcommon::ThreadPool::GetInstance().Force(nthreads);
  std::vector<std::pair<std::string, std::string>> kv;
  size_t cavg = 1, tavg = 1;
  std::shared_ptr<dp3::steps::Averager> step;
  size_t minpoints = 1;
  double minperc = 0;
  const bool direct = r.chance(0.15);
  std::ostringstream desc;
  std::vector<size_t> div;
  for (size_t d = 1; d <= o.nchan; ++d) if (o.nchan % d == 0) div.push_back(d);
  const bool legal = r.chance(0.9);
  size_t want_c = legal ? r.pick(div) : r.range(1, o.nchan + 3);
  if (r.chance(0.1)) want_c = o.nchan + r.range(1, 5);
  size_t want_t = r.range(1, o.ntime + 3);
  if (direct) {
    step = std::make_shared<dp3::steps::Averager>("avg", unsigned(want_c), unsigned(want_t));
    cavg = want_c; tavg = want_t;
    desc << "Averager(" << want_c << "," << want_t << ")";
  } else {
    if (r.chance(0.4)) {  // by resolution
      const double hz = o.widths[0] * (want_c + r.real(-0.3, 0.3));
      std::ostringstream v;
      v.precision(12);
      switch (r.range(0, 3)) {
        case 0: v << hz; break;
        case 1: v << hz / 1e3 << "kHz"; break;
        case 2: v << hz / 1e6 << (r.chance(0.5) ? " MHz" : "MHz"); break;
        default: v << hz << "Hz"; break;
      }
      kv.emplace_back("avg.freqresolution", v.str());
      if (r.chance(0.5)) kv.emplace_back("avg.freqstep", S(want_c + 1));  // overridden
    } else if (want_c != 1 || r.chance(0.5)) kv.emplace_back("avg.freqstep", S(want_c));
    cavg = want_c;
    if (r.chance(0.4)) {
      std::ostringstream v;
      v.precision(12);
      v << o.dt * (want_t + r.real(-0.3, 0.3));
      kv.emplace_back("avg.timeresolution", v.str());
      if (r.chance(0.5)) kv.emplace_back("avg.timestep", S(want_t + 1));
    } else if (want_t != 1 || r.chance(0.5)) kv.emplace_back("avg.timestep", S(want_t));
    tavg = want_t;
    if (r.chance(0.4)) { minpoints = r.range(1, cavg * tavg + 1); kv.emplace_back("avg.minpoints", S(minpoints)); }
    if (r.chance(0.4)) { minperc = r.range(0, 100); kv.emplace_back("avg.minperc", S(minperc)); }
    for (auto& [k, v] : kv) desc << k << "=" << v << " ";
    step = std::make_shared<dp3::steps::Averager>(Parset(kv), "avg.");
  }
  R().Describe(o.Str() + " " + desc.str() + " threads " + S(nthreads));
  const bool none = cavg == 1 && tavg == 1;
  const size_t ce = std::min(cavg, o.nchan), te = std::min(tavg, o.ntime);
  if (o.nchan % ce) {
    VH_EXPECT((vh::Throws([&] { Connect({step}, o.Info()); })), "indivisible", "averaging ", o.nchan, " channels by ", cavg, " is accepted");
    R().Count("indivisible");
    return;
  }
  auto sink = Connect({step}, o.Info());
  const DPInfo& out = step->getInfoOut();
  VH_EXPECT(out.nchan() == o.nchan / ce && out.ntime() == (o.ntime + te - 1) / te, "output-counts", "nchan ", out.nchan(), " expected ", o.nchan / ce, " ntime ", out.ntime(), " expected ", (o.ntime + te - 1) / te);
  VH_EXPECT(std::fabs(out.timeInterval() - te * o.dt) < 1e-9 * te * o.dt, "output-interval", out.timeInterval());
  BufOpt bo;
  bo.flag_prob = r.pick(std::vector<double>{0, 0.1, 0.4, 0.8});
  std::vector<Slot> in;
  for (size_t t = 0; t < o.ntime; ++t) {
    auto b = RandomBuffer(r, o, t, bo);
    // Sometimes a point that is flagged in every slot but the last.
    in.push_back(Snap(*b));
    step->process(std::move(b));
  }
  step->finish();
  VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
  VH_EXPECT(sink->bufs.size() == (o.ntime + te - 1) / te, "slots-out", sink->bufs.size(), " slots for ", o.ntime, " by ", te);
  for (size_t k = 0; k < sink->bufs.size(); ++k) {
    const Slot s = Snap(*sink->bufs[k]);
    if (none) {
      VH_EXPECT(Diff(s, in[k]).empty(), "identity", "averaging by 1x1 changed the ", Diff(s, in[k]));
      continue;
    }
    const size_t t0 = k * te, t1 = std::min(o.ntime, t0 + te);
    const double centre = o.t0 - 0.5 * o.dt + (k + 0.5) * te * o.dt;
    VH_EXPECT(std::fabs(s.time - centre) < 1e-5, "slot-time", "slot ", k, " at ", s.time - centre, " s from the centre of its interval");
    VH_EXPECT(std::fabs(s.exposure - te * o.dt) < 1e-9 * te * o.dt, "slot-exposure", s.exposure, " expected ", te * o.dt);
    VH_EXPECT(s.shape[0] == o.nbl && s.shape[1] == o.nchan / ce && s.shape[2] == o.ncorr && s.flags.size() == s.data.size() && s.weights.size() == s.data.size(), "slot-shape", s.shape[1]);
    if (s.shape[1] != o.nchan / ce) continue;
    for (size_t b = 0; b < o.nbl; ++b) {
      for (size_t u = 0; u < 3; ++u) {
        double m = 0;
        for (size_t t = t0; t < t1; ++t) m += in[t].U(b, u);
        m /= t1 - t0;
        VH_EXPECT(std::fabs(s.U(b, u) - m) < 1e-6, "uvw-mean", "baseline ", b, " got ", s.U(b, u), " expected ", m);
      }
      for (size_t c = 0; c < o.nchan / ce; ++c)
        for (size_t p = 0; p < o.ncorr; ++p) {
          Acc a;
          for (size_t t = t0; t < t1; ++t)
            for (size_t i = c * ce; i < (c + 1) * ce; ++i) {
              const double w = in[t].W(b, i, p);
              const cd v(in[t].D(b, i, p));
              a.all += v * w; a.wall += w; a.magall += std::abs(v) * w; ++a.tot;
              if (!in[t].F(b, i, p)) { a.s += v * w; a.w += w; a.mag += std::abs(v) * w; ++a.n; }
            }
          const double need = a.tot * minperc / 100;
          if (std::fabs(need - a.n) < 1e-3 * (need != 0)) { R().Count("boundary-skipped"); continue; }
          const bool flag = a.w == 0 || a.n < minpoints || a.n < need;
          VH_EXPECT(s.F(b, c, p) == flag, "flag", "baseline ", b, " channel ", c, ": flag ", s.F(b, c, p), " with ", a.n, " of ", a.tot, " unflagged, weight ", a.w);
          const cd num = flag ? a.all : a.s;
          const double w = flag ? a.wall : a.w, mag = flag ? a.magall : a.mag;
          const cd e = w == 0 ? cd(0) : num / w;
          const double tol = w == 0 ? 0 : 1e-6 * (a.tot + 4) * mag / w + 1e-30;
          VH_EXPECT(std::abs(cd(s.D(b, c, p)) - e) <= tol, "visibility", "baseline ", b, " channel ", c, " got ", s.D(b, c, p), " expected ", e, " flagged ", flag);
          VH_EXPECT(std::fabs(s.W(b, c, p) - w) <= 1e-6 * (a.tot + 4) * w, "weight", "got ", s.W(b, c, p), " expected ", w);
          R().Count(flag ? "points.flagged" : "points.averaged");
        }
    }
  }
  R().Count("slots", sink->bufs.size());
  R().Nontrivial();
}
void C41() {
  R().Cases("average", R().n(700, 15000), [](Rng& r, size_t) { RunAverager(r); });
  // Two averagers in a row equal one with the product of the factors.
  R().Cases("chain", R().n(120, 2500), [](Rng& r, size_t) {
    ObsOpt opt; opt.max_time = 12; opt.max_chan = 1;
    Obs o = RandomObs(r, opt);
    const size_t a = r.range(1, 3), b = r.range(1, 3), c = r.range(1, 3), d = r.range(1, 3);
    const size_t k = r.range(1, 2);
    const double f0 = o.freqs[0], w = o.widths[0];
    o.nchan = a * b * k;
    o.freqs.clear(); o.widths.assign(o.nchan, w);
    for (size_t i = 0; i < o.nchan; ++i) o.freqs.push_back(f0 + i * w);
    o.ntime = c * d * r.range(1, 2);
    R().Describe(o.Str() + " chan " + S(a) + "x" + S(b) + " time " + S(c) + "x" + S(d));
    auto s1 = std::make_shared<dp3::steps::Averager>("a", unsigned(a), unsigned(c));
    auto s2 = std::make_shared<dp3::steps::Averager>("b", unsigned(b), unsigned(d));
    auto s3 = std::make_shared<dp3::steps::Averager>("c", unsigned(a * b), unsigned(c * d));
    auto k1 = Connect({s1, s2}, o.Info());
    auto k2 = Connect({s3}, o.Info());
    BufOpt bo; bo.flag_prob = 0.15; bo.zero_weights = false;
    for (size_t t = 0; t < o.ntime; ++t) {
      auto x = RandomBuffer(r, o, t, bo);
      // keep whole cells flagged or not, so that the two-stage result is exact
      auto y = std::make_unique<DPBuffer>(*x);
      s1->process(std::move(x));
      s3->process(std::move(y));
    }
    s1->finish(); s3->finish();
    VH_EXPECT(k1->Protocol().empty() && k2->Protocol().empty() && k1->bufs.size() == k2->bufs.size(), "chain-protocol", k1->Protocol(), k2->Protocol(), " slots ", k1->bufs.size(), " and ", k2->bufs.size());
    for (size_t i = 0; i < std::min(k1->bufs.size(), k2->bufs.size()); ++i) {
      const Slot x = Snap(*k1->bufs[i]), y = Snap(*k2->bufs[i]);
      VH_EXPECT(std::fabs(x.time - y.time) < 1e-5 && std::fabs(x.exposure - y.exposure) < 1e-6, "chain-time", x.time - y.time);
      for (size_t j = 0; j < x.data.size(); ++j) {
        if (y.flags[j] || x.flags[j]) { VH_EXPECT(x.flags[j] == y.flags[j], "chain-flag", "sample ", j); continue; }
        VH_EXPECT(std::abs(x.data[j] - y.data[j]) < 2e-4 * (1 + std::abs(y.data[j])) && std::fabs(x.weights[j] - y.weights[j]) < 1e-4 * y.weights[j], "chain-visibility", "sample ", j, " ", x.data[j], " vs ", y.data[j]);
      }
    }
    const DPInfo &i1 = s2->getInfoOut(), &i2 = s3->getInfoOut();
    VH_EXPECT(i1.nchan() == i2.nchan() && i1.ntime() == i2.ntime() && std::fabs(i1.timeInterval() - i2.timeInterval()) < 1e-9 && std::fabs(i1.firstTime() - i2.firstTime()) < 1e-5, "chain-info", "info differs");
    R().Nontrivial();
  });
}

// ---- C42: baseline dependent averaging
struct Plan { std::vector<size_t> tf, nc; bool ok = true; };
// Predicted factors; ok=false when a value is too close to a rounding step.
Plan MakePlan(const Obs& o, double timebase, double freqbase, double maxint, size_t minchan) {
  Plan p;
  auto near = [&](double v) { return std::fabs(v - std::round(v)) < 1e-6 * std::max(1.0, v) && v > 0.5; };
  for (size_t b = 0; b < o.nbl; ++b) {
    const double len = o.Length(b);
    double q = timebase / std::max(len, 0.1);
    if (q > 0 && near(q)) p.ok = false;
    size_t f = std::floor(q);
    if (maxint > 0 && f * o.dt > maxint) {
      if (near(maxint / o.dt)) p.ok = false;
      f = std::floor(maxint / o.dt);
    }
    if (maxint > 0 && near(f * o.dt / maxint) && f * o.dt != maxint) p.ok = false;
    p.tf.push_back(std::max<size_t>(1, f));
    size_t n = o.nchan;
    if (freqbase > 0) {
      const double x = len / freqbase * o.nchan;
      if (x > 0 && near(x)) p.ok = false;
      n = std::min<double>(o.nchan, std::ceil(x));
      n = std::min(std::max(n, minchan), o.nchan);
    }
    p.nc.push_back(n);
  }
  return p;
}
struct BdaConf { double timebase = 0, freqbase = 0, maxint = 0; size_t minchan = 1; ParameterSet parset; std::string str; };
BdaConf RandomBda(Rng& r, const Obs& o) {
  BdaConf c;
  std::vector<double> len;
  for (size_t b = 0; b < o.nbl; ++b) len.push_back(std::max(1.0, o.Length(b)));
  std::sort(len.begin(), len.end());
  if (r.chance(0.85)) c.timebase = len[r.below(len.size())] * r.real(0.5, 6);
  if (r.chance(0.7)) c.freqbase = len[r.below(len.size())] * r.real(0.5, 4);
  if (r.chance(0.4)) c.maxint = o.dt * r.range(1, 8) + (r.chance(0.5) ? r.real(0.1, 0.9) * o.dt : 0);
  if (r.chance(0.4)) c.minchan = r.range(1, o.nchan + (r.chance(0.2) ? 3 : 0));
  std::ostringstream a, b, m;
  a.precision(17); b.precision(17); m.precision(17);
  a << c.timebase; b << c.freqbase; m << c.maxint;
  c.parset.add("bda.timebase", a.str());
  c.parset.add("bda.frequencybase", b.str());
  c.parset.add("bda.maxinterval", m.str());
  c.parset.add("bda.minchannels", S(c.minchan));
  c.str = "timebase=" + a.str() + " frequencybase=" + b.str() + " maxinterval=" + m.str() + " minchannels=" + S(c.minchan);
  return c;
}
void C42() {
  R().Cases("bda", R().n(500, 10000), [](Rng& r, size_t) {
    ObsOpt opt;
    opt.max_time = 16; opt.max_chan = 20;
    Obs o = RandomObs(r, opt);
    const BdaConf c = RandomBda(r, o);
    const bool weighted = r.chance(0.8);
    R().Describe(o.Str() + " " + c.str + " weighted " + S(weighted));
    const Plan plan = MakePlan(o, c.timebase, c.freqbase, c.maxint, c.minchan);
    if (!plan.ok) { R().Count("boundary-skipped"); return; }
    auto step = std::make_shared<dp3::steps::BdaAverager>(c.parset, "bda.", weighted);
    auto sink = Connect({step}, o.Info());
    const DPInfo& out = step->getInfoOut();
    std::vector<size_t> requests;
    if (r.chance(0.3)) {
      const size_t mx = *std::max_element(plan.nc.begin(), plan.nc.end()) * o.ncorr;
      for (size_t k = 0; k < 3; ++k) { requests.push_back(mx + r.below(4 * mx)); step->PushBufferSizeRequest(requests.back()); }
    }
    // Metadata
    VH_EXPECT(out.isBDAIntervalFactorInteger() && out.BdaChanFreqs().size() == o.nbl, "info-bda", "not marked as BDA");
    std::vector<std::vector<size_t>> edge(o.nbl);
    for (size_t b = 0; b < o.nbl; ++b) {
      VH_EXPECT(out.ntimeAvg(b) == plan.tf[b], "time-factor", "baseline ", b, " of length ", o.Length(b), ": factor ", out.ntimeAvg(b), " expected ", plan.tf[b]);
      VH_EXPECT(out.chanFreqs(b).size() == plan.nc[b] && out.chanWidths(b).size() == plan.nc[b], "channel-count", "baseline ", b, " of length ", o.Length(b), ": ", out.chanFreqs(b).size(), " channels, expected ", plan.nc[b]);
      if (out.chanFreqs(b).size() != plan.nc[b]) return;
      // The channels partition the input band: walk the widths.
      size_t i = 0;
      edge[b].push_back(0);
      for (size_t ch = 0; ch < plan.nc[b]; ++ch) {
        double w = 0;
        size_t j = i;
        while (j < o.nchan && w < out.chanWidths(b)[ch] - 0.5 * o.widths[0]) w += o.widths[j++];
        VH_EXPECT(j > i && std::fabs(w - out.chanWidths(b)[ch]) < 1e-3, "channel-partition", "baseline ", b, " channel ", ch, " of width ", out.chanWidths(b)[ch]);
        if (j == i) return;
        const double f = 0.5 * (o.freqs[i] + o.freqs[j - 1]);
        VH_EXPECT(std::fabs(out.chanFreqs(b)[ch] - f) < 1, "channel-frequency", "baseline ", b, " channel ", ch, " at ", out.chanFreqs(b)[ch], " expected ", f);
        i = j;
        edge[b].push_back(i);
      }
      VH_EXPECT(i == o.nchan, "channel-partition", "baseline ", b, " covers ", i, " of ", o.nchan, " channels");
      if (i != o.nchan) return;
      // As even as possible.
      size_t lo = o.nchan, hi = 0;
      for (size_t ch = 0; ch < plan.nc[b]; ++ch) { const size_t n = edge[b][ch + 1] - edge[b][ch]; lo = std::min(lo, n); hi = std::max(hi, n); }
      VH_EXPECT(hi - lo <= 1, "channel-balance", "groups of ", lo, " to ", hi, " channels");
    }
    BufOpt bo;
    bo.flag_prob = r.pick(std::vector<double>{0, 0.2, 0.6, 1.0});
    bo.extra = r.chance(0.3) ? r.range(1, 2) : 0;
    std::vector<Slot> in;
    const size_t nt = o.ntime;
    for (size_t t = 0; t < nt; ++t) {
      auto b = RandomBuffer(r, o, t, bo);
      in.push_back(Snap(*b));
      step->process(std::move(b));
    }
    step->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    // Every baseline's rows must tile time exactly once.
    std::vector<size_t> next(o.nbl, 0);
    size_t rownr = 0, bufno = 0;
    for (auto& bb : sink->bdas) {
      if (bufno < requests.size()) VH_EXPECT(bb->GetNumberOfElements() + bb->GetRemainingCapacity() == requests[bufno], "requested-size", "buffer ", bufno, " has pool ", bb->GetNumberOfElements() + bb->GetRemainingCapacity(), " requested ", requests[bufno]);
      ++bufno;
      VH_EXPECT(bb->GetNumberOfElements() > 0, "empty-buffer", "an empty BDA buffer was sent");
      for (const BdaRow& row : Rows(*bb)) {
        VH_EXPECT(row.row_nr == rownr, "row-number", "row ", row.row_nr, " expected ", rownr);
        ++rownr;
        VH_EXPECT(row.bl < o.nbl && row.nchan == plan.nc[row.bl] && row.ncorr == o.ncorr, "row-shape", "baseline ", row.bl, " channels ", row.nchan);
        if (row.bl >= o.nbl || row.nchan != plan.nc[row.bl]) return;
        const size_t b = row.bl, t0 = next[b], t1 = std::min(nt, t0 + plan.tf[b]);
        VH_EXPECT(t0 < nt, "extra-row", "baseline ", b, " has a row after its last slot");
        if (t0 >= nt) return;
        next[b] = t1;
        double expo = 0, uvw[3] = {0, 0, 0};
        for (size_t t = t0; t < t1; ++t) { expo += in[t].exposure; for (int k = 0; k < 3; ++k) uvw[k] += in[t].U(b, k) / (t1 - t0); }
        const double start = o.t0 + t0 * o.dt - 0.5 * o.dt, interval = (t1 - t0) * o.dt;
        VH_EXPECT(std::fabs(row.interval - interval) < 1e-6 && std::fabs(row.time - (start + interval / 2)) < 1e-5 && std::fabs(row.exposure - expo) < 1e-6, "row-time", "baseline ", b, " interval ", row.interval, " expected ", interval, " time off by ", row.time - (start + interval / 2), " exposure ", row.exposure, " expected ", expo);
        bool wsum = false;
        VH_EXPECT(row.data.size() == size_t(1 + bo.extra) && row.weights.size() == row.nchan * row.ncorr && row.flags.size() == row.weights.size(), "row-fields", "data buffers ", row.data.size());
        for (auto& [name, d] : row.data) {
          for (size_t ch = 0; ch < row.nchan; ++ch)
            for (size_t p = 0; p < o.ncorr; ++p) {
              cd s = 0; double w = 0, mag = 0; size_t n = 0;
              for (size_t t = t0; t < t1; ++t)
                for (size_t i = edge[b][ch]; i < edge[b][ch + 1]; ++i) {
                  if (weighted && in[t].F(b, i, p)) continue;
                  const cd v(name.empty() ? in[t].D(b, i, p) : in[t].extra.at(name)[in[t].Idx(b, i, p)]);
                  const double wi = weighted ? in[t].W(b, i, p) : 1;
                  s += v * wi; w += wi; mag += std::abs(v) * wi; ++n;
                }
              const size_t idx = ch * o.ncorr + p;
              wsum |= w > 0;
              VH_EXPECT(std::fabs(row.weights[idx] - w) <= 1e-6 * (n + 2) * w, "row-weight", "baseline ", b, " channel ", ch, " weight ", row.weights[idx], " expected ", w);
              const cd e = w > 0 ? s / w : cd(0);
              VH_EXPECT(std::abs(cd(d[idx]) - e) <= (w > 0 ? 1e-6 * (n + 2) * mag / w + 1e-30 : 1e-30), "row-visibility", "baseline ", b, " channel ", ch, " of '", name, "' got ", d[idx], " expected ", e);
              R().Count("points");
            }
        }
        for (int k = 0; k < 3; ++k) VH_EXPECT(std::fabs(row.uvw[k] - uvw[k]) < 1e-6 * (1 + std::fabs(uvw[k])) + 1e-6, wsum ? "row-uvw" : "row-uvw-without-weight", "baseline ", b, " got ", row.uvw[k], " expected ", uvw[k]);
        R().Count("rows");
      }
    }
    for (size_t b = 0; b < o.nbl; ++b) VH_EXPECT(next[b] == nt, "missing-rows", "baseline ", b, " covers ", next[b], " of ", nt, " slots");
    // Re-averaging with the scheme of an existing BDA set gives the same rows.
    if (r.chance(0.3)) {
      auto again = std::make_shared<dp3::steps::BdaAverager>(ParameterSet(), "x.", weighted);
      again->SetAveragingParameters(out);
      auto sink2 = Connect({again}, o.Info());
      VH_EXPECT(again->getInfoOut().ntimeAvgs() == out.ntimeAvgs(), "scheme-factors", "different factors");
      for (auto& s : in) {
        auto b = std::make_unique<DPBuffer>(s.time, s.exposure);
        b->GetData().resize(s.shape); b->GetFlags().resize(s.shape); b->GetWeights().resize(s.shape); b->GetUvw().resize({o.nbl, 3});
        std::copy(s.data.begin(), s.data.end(), b->GetData().data());
        std::copy(s.flags.begin(), s.flags.end(), b->GetFlags().data());
        std::copy(s.weights.begin(), s.weights.end(), b->GetWeights().data());
        std::copy(s.uvw.begin(), s.uvw.end(), b->GetUvw().data());
        again->process(std::move(b));
      }
      again->finish();
      std::vector<BdaRow> x, y;
      for (auto& b : sink->bdas) for (auto& q : Rows(*b)) x.push_back(q);
      for (auto& b : sink2->bdas) for (auto& q : Rows(*b)) y.push_back(q);
      bool same = x.size() == y.size();
      for (size_t i = 0; same && i < x.size(); ++i) same = x[i].bl == y[i].bl && x[i].time == y[i].time && x[i].interval == y[i].interval && SameData(x[i].data[""], y[i].data[""]) && x[i].weights == y[i].weights;
      VH_EXPECT(same, "scheme-rows", "re-averaging with the scheme of a BDA set gives other rows");
      R().Count("schemes");
    }
    R().Nontrivial();
  });
}

// ---- C43: expansion of BDA data
void C43() {
  R().Cases("expand", R().n(400, 8000), [](Rng& r, size_t) {
    ObsOpt opt;
    opt.max_time = 14; opt.max_chan = 16;
    Obs o = RandomObs(r, opt);
    const BdaConf c = RandomBda(r, o);
    R().Describe(o.Str() + " " + c.str);
    auto bda = std::make_shared<dp3::steps::BdaAverager>(c.parset, "bda.");
    auto mid = Connect({bda}, o.Info());
    BufOpt bo;
    bo.flag_prob = r.pick(std::vector<double>{0, 0.2});
    std::vector<Slot> in;
    const bool constant = r.chance(0.4);  // same visibility everywhere on a baseline
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = RandomBuffer(r, o, t, bo);
      in.push_back(Snap(*b));
      if (constant) {
        for (size_t bl = 0; bl < o.nbl; ++bl) for (size_t ch = 0; ch < o.nchan; ++ch) for (size_t p = 0; p < o.ncorr; ++p) b->GetData()(bl, ch, p) = in[0].D(bl, 0, p);
        in.back() = Snap(*b);
      }
      bda->process(std::move(b));
    }
    bda->finish();
    const DPInfo info = bda->getInfoOut();
    const size_t nout = info.nchan();
    const bool full = nout == o.nchan;
    auto expander = std::make_shared<dp3::steps::BdaExpander>("exp.");
    auto sink = Connect({expander}, info);
    const DPInfo& out = expander->getInfoOut();
    // Metadata: a regular layout over the same band.
    double bw = 0, bw_in = 0;
    for (double w : out.chanWidths()) bw += w;
    for (double w : o.widths) bw_in += w;
    VH_EXPECT(out.nchan() == nout && out.chanFreqs().size() == nout && std::fabs(bw - bw_in) < 1e-6 * bw_in, "expanded-band", out.nchan(), " channels, bandwidth ", bw, " expected ", bw_in);
    for (size_t ch = 0; ch < nout && ch < out.chanFreqs().size(); ++ch) {
      const double f = o.freqs[0] - 0.5 * o.widths[0] + (ch + 0.5) * bw_in / nout;
      VH_EXPECT(std::fabs(out.chanFreqs()[ch] - f) < 1, "expanded-frequency", "channel ", ch, " at ", out.chanFreqs()[ch], " expected ", f);
    }
    // Record the rows first; the expander consumes the buffers.
    std::vector<BdaRow> rows;
    for (auto& b : mid->bdas) {
      if (r.chance(0.5)) for (size_t i = 0; i < b->GetNumberOfElements(); ++i) b->GetFlags()[i] = r.chance(0.2);
      for (auto& q : Rows(*b)) rows.push_back(q);
    }
    for (auto& b : mid->bdas) expander->process(std::move(b));
    expander->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    VH_EXPECT(sink->bufs.size() == o.ntime, "slots-out", sink->bufs.size(), " slots of ", o.ntime);
    if (sink->bufs.size() != o.ntime) return;
    std::vector<Slot> res;
    for (auto& b : sink->bufs) res.push_back(Snap(*b));
    for (size_t t = 0; t < o.ntime; ++t) VH_EXPECT(std::fabs(res[t].time - (o.t0 + t * o.dt)) < 2e-5, "slot-time", "slot ", t, " off by ", res[t].time - (o.t0 + t * o.dt));
    for (const BdaRow& row : rows) {
      const size_t t0 = std::lround((row.time - row.interval / 2 - (o.t0 - o.dt / 2)) / o.dt), n = std::lround(row.interval / o.dt);
      const auto& w = info.chanWidths(row.bl);
      // Output channels per row channel: exact when the expanded layout is the original.
      double edge = 0;
      std::vector<double> wsum(row.weights.size(), 0);
      for (size_t ch = 0; ch < nout; ++ch) {
        size_t i = 0;
        edge = w[0];
        const double centre = (ch + 0.5) * bw_in / nout;
        while (i + 1 < w.size() && centre > edge) edge += w[++i];
        // Skip channels whose centre is on an edge.
        if (!full && (std::fabs(centre - edge) < 0.1 * bw_in / nout || std::fabs(centre - (edge - w[i])) < 0.1 * bw_in / nout)) { R().Count("edge-skipped"); continue; }
        for (size_t t = t0; t < std::min(o.ntime, t0 + n); ++t)
          for (size_t p = 0; p < o.ncorr; ++p) {
            const size_t idx = i * o.ncorr + p;
            VH_EXPECT(SameC(res[t].D(row.bl, ch, p), row.data.at("")[idx]), "expanded-visibility", "baseline ", row.bl, " slot ", t, " channel ", ch, " got ", res[t].D(row.bl, ch, p), " expected ", row.data.at("")[idx]);
            VH_EXPECT(res[t].F(row.bl, ch, p) == bool(row.flags[idx]), "expanded-flag", "baseline ", row.bl, " channel ", ch);
            wsum[idx] += res[t].W(row.bl, ch, p);
            R().Count("points");
          }
      }
      for (size_t t = t0; t < std::min(o.ntime, t0 + n); ++t)
        for (int k = 0; k < 3; ++k) VH_EXPECT(res[t].U(row.bl, k) == row.uvw[k], "expanded-uvw", "baseline ", row.bl);
      if (full)
        for (size_t i = 0; i < wsum.size(); ++i) VH_EXPECT(std::fabs(wsum[i] - row.weights[i]) < 1e-4 * row.weights[i] + 1e-12, "weight-conserved", "the expanded weights sum to ", wsum[i], ", the row has ", row.weights[i]);
    }
    if (full && constant && bo.flag_prob == 0) {
      for (size_t t = 0; t < o.ntime; ++t)
        for (size_t i = 0; i < res[t].data.size(); ++i)
          if (res[t].weights[i] > 0) VH_EXPECT(std::abs(res[t].data[i] - in[t].data[i]) < 2e-5f * (1 + std::abs(in[t].data[i])), "round-trip", "slot ", t, " sample ", i, " got ", res[t].data[i], " expected ", in[t].data[i]);
      R().Count("round-trips");
    }
    R().Count(full ? "layouts.full" : "layouts.reduced");
    R().Nontrivial();
  });
}

// ---- C44: buffers
struct RefRow { double t, iv, ex; size_t bl, nc, np, nr; std::vector<double> uvw; std::map<std::string, std::vector<cf>> d; std::vector<char> f; std::vector<float> w; };
void CheckBda(const BdaBuffer& b, const std::vector<RefRow>& m, const std::set<std::string>& names, bool flags, bool weights, size_t cap) {
  size_t n = 0;
  for (auto& q : m) n += q.nc * q.np;
  VH_EXPECT(b.GetRows().size() == m.size() && b.GetNumberOfElements() == n && b.GetRemainingCapacity() == cap - n, "bda-sizes", "rows ", b.GetRows().size(), "/", m.size(), " elements ", b.GetNumberOfElements(), "/", n, " remaining ", b.GetRemainingCapacity());
  const auto got = b.GetDataNames();
  VH_EXPECT(got == std::vector<std::string>(names.begin(), names.end()), "bda-names", got.size(), " names");
  if (b.GetRows().size() != m.size()) return;
  const auto rows = Rows(b);
  for (size_t i = 0; i < m.size(); ++i) {
    const auto &x = rows[i];
    const auto &y = m[i];
    VH_EXPECT(x.time == y.t && x.interval == y.iv && x.exposure == y.ex && x.bl == y.bl && x.nchan == y.nc && x.ncorr == y.np && x.row_nr == y.nr, "bda-row-metadata", "row ", i);
    for (int k = 0; k < 3; ++k) VH_EXPECT(y.uvw.empty() ? std::isnan(x.uvw[k]) : x.uvw[k] == y.uvw[k], "bda-row-uvw", "row ", i);
    for (auto& nm : names) {
      auto it = y.d.find(nm);
      if (it == y.d.end()) continue;  // not initialised: no claim
      VH_EXPECT(x.data.count(nm) && SameData(x.data.at(nm), it->second), "bda-row-data", "row ", i, " buffer '", nm, "'");
    }
    if (flags && !y.f.empty()) VH_EXPECT(x.flags == y.f, "bda-row-flags", "row ", i);
    if (weights && !y.w.empty()) VH_EXPECT(x.weights == y.w, "bda-row-weights", "row ", i);
  }
}
void C44() {
  R().Cases("regular-buffer", R().n(1500, 30000), [](Rng& r, size_t) {
    ObsOpt opt; opt.max_ant = 4; opt.max_chan = 5;
    Obs o = RandomObs(r, opt);
    BufOpt bo; bo.extra = r.range(0, 2);
    std::vector<std::unique_ptr<DPBuffer>> b;
    std::vector<Slot> m;
    for (size_t k = 0; k < 3; ++k) { b.push_back(RandomBuffer(r, o, k, bo)); m.push_back(Snap(*b.back())); }
    std::string hist;
    const size_t n = r.range(1, 10);
    for (size_t k = 0; k < n; ++k) {
      const size_t x = r.below(3), y = r.below(3);
      std::vector<std::string> names{""};
      for (auto& [nm, v] : m[x].extra) names.push_back(nm);
      const std::string src = r.pick(names), dst = r.pick(std::vector<std::string>{"extra0", "extra1", "model", "other"});
      switch (r.range(0, 8)) {
        case 0: hist += " copy" + S(x) + S(y); *b[y] = *b[x]; m[y] = m[x]; break;
        case 1: { hist += " copyctor" + S(x); DPBuffer c(*b[x]); VH_EXPECT(Diff(Snap(c), m[x]).empty(), "copy-constructor", Diff(Snap(c), m[x])); b[y] = std::make_unique<DPBuffer>(c); m[y] = m[x]; break; }
        case 2: {  // move assignment, then refill the source
          if (x == y) break;
          hist += " move" + S(x) + S(y);
          *b[y] = std::move(*b[x]); m[y] = m[x];
          b[x] = RandomBuffer(r, o, k, bo); m[x] = Snap(*b[x]);
          break;
        }
        case 3: {
          hist += " movector" + S(x);
          DPBuffer c(std::move(*b[x]));
          VH_EXPECT(Diff(Snap(c), m[x]).empty(), "move-constructor", Diff(Snap(c), m[x]));
          *b[x] = std::move(c);
          break;
        }
        case 4: {  // partial copy
          if (x == y) break;
          Fields f;
          const bool fd = r.chance(0.5), ff = r.chance(0.5), fw = r.chance(0.5), fu = r.chance(0.5), ex = r.chance(0.5);
          if (fd) f |= Step::kDataField;
          if (ff) f |= Step::kFlagsField;
          if (fw) f |= Step::kWeightsField;
          if (fu) f |= Step::kUvwField;
          hist += " partial" + S(x) + S(y);
          b[y]->Copy(*b[x], f, ex);
          m[y].time = m[x].time; m[y].exposure = m[x].exposure;
          if (fd) m[y].data = m[x].data;
          if (ff) m[y].flags = m[x].flags;
          if (fw) m[y].weights = m[x].weights;
          if (fu) m[y].uvw = m[x].uvw;
          if (ex) m[y].extra = m[x].extra;
          break;
        }
        case 5: hist += " copydata" + S(x) + S(y) + "(" + src + "," + dst + ")"; b[y]->CopyData(*b[x], src, dst); m[y].extra[dst] = src.empty() ? std::vector<cf>(m[x].data) : std::vector<cf>(m[x].extra[src]); break;
        case 6: {
          if (src.empty() || (x == y && src == dst)) break;
          hist += " movedata" + S(x) + S(y) + "(" + src + "," + dst + ")";
          b[y]->MoveData(*b[x], src, dst);
          auto v = m[x].extra[src];
          m[x].extra.erase(src);
          m[y].extra[dst] = v;
          break;
        }
        case 7: {
          hist += " remove" + S(x) + "(" + src + ")";
          b[x]->RemoveData(src);
          if (src.empty()) m[x].extra.clear(); else m[x].extra.erase(src);
          break;
        }
        case 8: {  // writing one buffer never shows in another
          hist += " write" + S(x);
          if (m[x].data.empty()) break;
          const size_t i = r.below(m[x].data.size());
          b[x]->GetData(src).data()[i] = cf(-7, 7);
          (src.empty() ? m[x].data : m[x].extra[src])[i] = cf(-7, 7);
          b[x]->GetFlags().data()[i] = !m[x].flags[i]; m[x].flags[i] = !m[x].flags[i];
          b[x]->GetWeights().data()[i] = 9; m[x].weights[i] = 9;
          b[x]->GetUvw().data()[0] = 5; m[x].uvw[0] = 5;
          b[x]->SetTime(k); m[x].time = k;
          break;
        }
      }
      R().Describe(o.Str() + hist);
      for (size_t q = 0; q < 3; ++q) {
        const std::string d = Diff(Snap(*b[q]), m[q]);
        VH_EXPECT(d.empty(), "buffer-state", "buffer ", q, ": unexpected ", d);
        for (auto& nm : std::vector<std::string>{"extra0", "extra1", "model", "other"}) {
          VH_EXPECT(b[q]->HasData(nm) == (m[q].extra.count(nm) > 0), "has-data", nm);
          if (!m[q].extra.count(nm)) VH_EXPECT((vh::Throws([&] { b[q]->GetData(nm); })), "missing-data", "reading '", nm, "' does not fail");
        }
      }
      R().Count("ops");
    }
    R().Nontrivial();
  });
  R().Cases("solutions", R().n(500, 10000), [](Rng& r, size_t) {
    const size_t nd = r.range(1, 4), na = r.range(1, 5), nc = r.range(1, 4), np = r.pick(std::vector<size_t>{1, 2, 4});
    std::vector<std::string> dirs;
    for (size_t d = 0; d < nd; ++d) dirs.push_back(S(r.pick(std::vector<std::string>{"b", "a", "z"}), d));
    std::vector<std::vector<cd>> sol(nc, std::vector<cd>(na * nd * np));
    for (auto& v : sol) for (auto& x : v) x = cd(r.gauss(), r.gauss());
    DPBuffer b;
    R().Describe(S("dirs ", nd, " ant ", na, " chan ", nc, " pol ", np));
    b.SetSolution(sol, na, np, dirs);
    auto sorted = dirs;
    std::sort(sorted.begin(), sorted.end());
    VH_EXPECT(b.GetSolutionDirectionNames() == sorted, "solution-names", "differ");
    DPBuffer copy(b);
    for (const DPBuffer* q : {&b, &copy})
      for (size_t d = 0; d < nd; ++d) {
        const auto got = q->GetSolution(dirs[d]);
        bool ok = got.size() == nc;
        for (size_t c = 0; ok && c < nc; ++c)
          for (size_t a = 0; a < na; ++a)
            for (size_t p = 0; p < np; ++p) ok &= got[c].size() == na * np && got[c][a * np + p] == sol[c][(a * nd + d) * np + p];
        VH_EXPECT(ok, "solution-values", "direction ", dirs[d]);
      }
    VH_EXPECT((vh::Throws([&] { b.GetSolution("nosuch"); })), "missing-solution", "no error");
    R().Nontrivial();
  });
  R().Cases("bda-buffer", R().n(1200, 25000), [](Rng& r, size_t) {
    const bool hd = r.chance(0.8), hf = r.chance(0.7), hw = r.chance(0.7);
    Fields f;
    if (hd) f |= Step::kDataField;
    if (hf) f |= Step::kFlagsField;
    if (hw) f |= Step::kWeightsField;
    size_t cap = r.range(8, 300);
    auto b = std::make_unique<BdaBuffer>(cap, f);
    std::vector<RefRow> m;
    std::set<std::string> names;
    if (hd) names.insert("");
    std::string hist;
    R().Describe(S("capacity ", cap, " data ", hd, " flags ", hf, " weights ", hw));
    double t = 100;
    size_t nr = 0;
    const size_t n = r.range(1, 20);
    for (size_t k = 0; k < n; ++k) {
      switch (r.range(0, 9)) {
        case 0: case 1: case 2: case 3: case 4: {
          RefRow q;
          q.iv = r.range(1, 5); q.ex = q.iv * 0.9; q.t = t + r.range(0, 3) + q.iv / 2; q.bl = r.below(9); q.nc = r.range(1, 6); q.np = r.pick(std::vector<size_t>{1, 2, 4}); q.nr = nr++;
          const size_t sz = q.nc * q.np;
          if (!m.empty() && q.t + q.iv / 2 <= m.back().t - m.back().iv / 2 + 1e-5) {
            VH_EXPECT((vh::Throws([&] { b->AddRow(q.t, q.iv, q.ex, q.bl, q.nc, q.np, q.nr); })), "bda-order", "a row that ends before the previous one starts is accepted");
            R().Count("unordered");
            break;
          }
          std::vector<cf> d(sz); std::vector<float> w(sz); std::unique_ptr<bool[]> fl(new bool[sz]); double uvw[3] = {r.gauss(), r.gauss(), r.gauss()};
          for (size_t i = 0; i < sz; ++i) { d[i] = cf(r.gauss(), r.gauss()); w[i] = r.unit(); fl[i] = r.chance(0.3); }
          const bool gd = r.chance(0.7), gf = r.chance(0.7), gw = r.chance(0.7), gu = r.chance(0.7);
          const size_t rem = b->GetRemainingCapacity();
          const bool ok = b->AddRow(q.t, q.iv, q.ex, q.bl, q.nc, q.np, q.nr, gd ? d.data() : nullptr, gf ? fl.get() : nullptr, gw ? w.data() : nullptr, gu ? uvw : nullptr);
          VH_EXPECT(ok == (rem >= sz), "bda-capacity", "adding ", sz, " elements with ", rem, " left returned ", ok);
          if (!ok) { R().Count("full"); break; }
          for (auto& nm : names) q.d[nm] = nm.empty() && gd ? d : std::vector<cf>(sz);
          if (hf) q.f = gf ? std::vector<char>(fl.get(), fl.get() + sz) : std::vector<char>(sz, 0);
          if (hw) q.w = gw ? w : std::vector<float>(sz, 0);
          if (gu) q.uvw.assign(uvw, uvw + 3);
          m.push_back(q);
          hist += " row" + S(sz);
          break;
        }
        case 5: {
          const std::string nm = r.pick(std::vector<std::string>{"", "model", "x"});
          hist += " add(" + nm + ")";
          b->AddData(nm);
          names.insert(nm);
          break;
        }
        case 6: {
          if (names.size() < 2) break;
          std::vector<std::string> v(names.begin(), names.end());
          const std::string nm = r.pick(v);
          hist += " remove(" + nm + ")";
          b->RemoveData(nm);
          names.erase(nm);
          for (auto& q : m) q.d.erase(nm);
          break;
        }
        case 7: {
          if (names.empty()) break;
          std::vector<std::string> v(names.begin(), names.end());
          const std::string a = r.pick(v), c = r.pick(std::vector<std::string>{"", "model", "moved"});
          hist += " move(" + a + "," + c + ")";
          b->MoveData(*b, a, c);
          if (a != c) {
            names.erase(a); names.insert(c);
            for (auto& q : m) {
              q.d.erase(c);
              auto it = q.d.find(a);
              if (it != q.d.end()) { q.d[c] = it->second; q.d.erase(a); }
            }
          }
          break;
        }
        case 8:
          if (r.chance(0.3)) { hist += " clear"; b->Clear(); m.clear(); }
          break;
        case 9: {  // a copy holds everything it was asked for, and is independent
          Fields cf2;
          const bool cd2 = r.chance(0.7), cfl = r.chance(0.6), cw = r.chance(0.6);
          if (cd2) cf2 |= Step::kDataField;
          if (cfl) cf2 |= Step::kFlagsField;
          if (cw) cf2 |= Step::kWeightsField;
          hist += " copy";
          BdaBuffer c(*b, cf2);
          size_t sz = 0;
          for (auto& q : m) sz += q.nc * q.np;
          std::set<std::string> nn;
          if (cd2) { nn = names; nn.insert(""); }
          CheckBda(c, m, nn, cfl && hf, cw && hw, sz);
          VH_EXPECT((c.GetFlags() != nullptr) == (cfl && sz > 0) && (c.GetWeights() != nullptr) == (cw && sz > 0), "bda-copy-fields", "flags ", c.GetFlags() != nullptr, " asked ", cfl);
          VH_EXPECT(c.IsMetadataEqual(*b) && b->IsMetadataEqual(c), "bda-metadata-equal", "a copy has other metadata");
          if (cd2 && sz) for (auto& nm : nn) c.GetData(nm)[0] = cf(99, 99);
          if (!m.empty()) {  // and differs once a row is changed
            c.GetRows().back().uvw[1] += 1;
            c.GetRows().back().baseline_nr;
            if (!m.back().uvw.empty()) VH_EXPECT(!c.IsMetadataEqual(*b), "bda-metadata-different", "a row with another uvw is equal");
          }
          R().Count("copies");
          break;
        }
      }
      R().Describe(S("capacity ", cap, " data ", hd, " flags ", hf, " weights ", hw, hist));
      CheckBda(*b, m, names, hf, hw, cap);
    }
    R().Nontrivial();
  });
}
}  // namespace

VH_MAIN({"C40", C40}, {"C41", C41}, {"C42", C42}, {"C43", C43}, {"C44", C44})
