// Monitor of reading measurement sets (C57).
#include "ms.h"

#include "base/UVWCalculator.h"
#include "steps/InputStep.h"
#include "steps/MsReader.h"

namespace {
using namespace msx;
using dp3::common::Fields;
using dp3::steps::InputStep;
using dp3::steps::MsReader;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }

// A date and time with a part of the second in the given number of decimals.
std::string TimeText(double t, int decimals = 3) {
  const long day = long(std::floor(t / 86400));
  double sec = t - day * 86400.0;
  // Civil date of a modified julian day.
  long z = day + 678881; const long era = (z >= 0 ? z : z - 146096) / 146097; const unsigned doe = unsigned(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); const unsigned mp = (5 * doy + 2) / 153;
  const unsigned d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; const long y = long(yoe) + era * 400 + (m <= 2);
  const int h = int(sec / 3600); sec -= h * 3600; const int mi = int(sec / 60); sec -= mi * 60;
  char buf[96];
  std::snprintf(buf, sizeof buf, "%04ld/%02u/%02u/%02d:%02d:%0*.*f", y, m, d, h, mi, decimals + 3, decimals, sec);
  return buf;
}

struct Want {
  double time;
  long group = -1;  // index in Ms::slots, or -1: inserted
};
struct Plan {
  bool refuse = false;
  bool empty = false;
  std::vector<Want> slots;
  double first = 0, last = 0;
  std::string why;
};

// The slots that a reader has to give, given the settings.
struct Times {
  bool has_start = false, has_end = false;
  double start = 0, end = 0;
  int ntimes = 0, start_slot = 0;
};
Plan Expect(const Ms& m, const Times& t) {
  Plan p;
  const double dt = m.o.dt;
  const double ms_first = m.times.front(), ms_last = m.times.back();
  double first = ms_first, last = ms_last;
  size_t g = 0;  // first group to use
  if (t.has_start && t.start_slot > 0) { p.refuse = true; return p; }
  if (t.has_start) {
    if (t.start > ms_last) { p.refuse = true; return p; }
    while (g < m.times.size() && m.times[g] < t.start - 1e-4) ++g;
    if (g == m.times.size()) { p.refuse = true; return p; }
    const double k = std::floor((m.times[g] - t.start) / dt + 1e-4);
    first = m.times[g] - k * dt;
  } else if (t.start_slot > 0) {
    if (size_t(t.start_slot) >= m.times.size()) { p.empty = true; return p; }
    g = t.start_slot;
    first = m.times[g];
  } else if (t.start_slot < 0) {
    first += t.start_slot * dt;
  }
  if (t.has_end && t.ntimes > 0) { p.refuse = true; return p; }
  if (t.has_end) {
    if (t.end < ms_first - dt / 2) { p.refuse = true; return p; }
    const double k = std::floor((t.end - first) / dt + 1e-4);
    if (k < 0) { p.refuse = true; return p; }
    last = first + k * dt;
  } else if (t.ntimes > 0) {
    last = first + (t.ntimes - 1) * dt;
  }
  p.first = first; p.last = last;
  for (size_t k = 0; first + k * dt < last + dt * 0.25; ++k) {
    Want w{first + k * dt, -1};
    while (g < m.times.size() && m.times[g] < w.time - dt * 0.25) ++g;
    if (g < m.times.size() && std::abs(m.times[g] - w.time) <= 0.0101) w.group = long(g++);
    p.slots.push_back(w);
  }
  return p;
}

void Regular() {
  R().Cases("reader", R().n(4000, 60000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 10; mo.obs.max_time = 14; mo.obs.max_ant = 5;
    mo.max_spw = r.chance(0.4) ? 3 : 1;
    mo.jitter = r.chance(0.4) ? 0.45 : 0;
    mo.shuffle = r.chance(0.25);
    mo.extra = r.chance(0.35) ? int(r.range(1, 2)) : 0;
    const bool times = r.chance(0.6);
    mo.whole_seconds = times && r.chance(0.7);
    const std::string name = R().scratch + "/in.MS";
    const Ms m = RandomMs(r, name, mo);
    const Obs& o = m.o;
    KV kv;
    Fields f;
    const bool data = r.chance(0.85), flags = r.chance(0.85), weights = r.chance(0.8), uvw = r.chance(0.8);
    if (data) f |= Fields(Fields::Single::kData);
    if (flags) f |= Fields(Fields::Single::kFlags);
    if (weights) f |= Fields(Fields::Single::kWeights);
    if (uvw) f |= Fields(Fields::Single::kUvw);
    // Band.
    size_t spw = 0;
    bool band = m.nspw > 1 || r.chance(0.2);
    bool bad_band = band && r.chance(0.03), many = m.nspw > 1 && r.chance(0.03);
    if (many) band = bad_band = false;
    if (band) { spw = bad_band ? m.nspw + 1 : r.range(0, m.nspw - 1); kv.emplace_back("msin.band", std::to_string(spw)); }
    if (mo.shuffle) kv.emplace_back("msin.sort", "true");
    else if (r.chance(0.2)) kv.emplace_back("msin.sort", r.chance(0.5) ? "true" : "false");
    // Baselines.
    std::vector<size_t> bls;
    std::string bl_text;
    if (r.chance(0.3)) {
      const int kind = r.range(0, 2);
      const size_t a = r.range(0, o.nant - 1);
      bl_text = kind == 0 ? "*&" : kind == 1 ? o.names[a] + "&&*" : "*&&&";
      for (size_t b = 0; b < o.nbl; ++b) {
        const bool is_auto = o.ant1[b] == o.ant2[b];
        // Stations may share a name.
        const bool has = o.names[o.ant1[b]] == o.names[a] || o.names[o.ant2[b]] == o.names[a];
        if (kind == 0 ? !is_auto : kind == 1 ? has : is_auto) bls.push_back(b);
      }
      kv.emplace_back("msin.baseline", bl_text);
    } else {
      for (size_t b = 0; b < o.nbl; ++b) bls.push_back(b);
    }
    // Channels.
    size_t start = 0, nchan = o.nchan;
    bool bad_chan = false;
    if (r.chance(0.5)) {
      start = r.range(0, o.nchan - 1);
      bad_chan = r.chance(0.03);
      if (bad_chan) start = o.nchan + r.range(0, 3);
      if (r.chance(0.3) && !bad_chan && start) kv.emplace_back("msin.startchan", "nchan-" + std::to_string(o.nchan - start));
      else if (r.chance(0.2) && !bad_chan && 32 % o.nchan == 0) kv.emplace_back("msin.startchan", "nchan*" + std::to_string(start) + "/" + std::to_string(o.nchan));
      else kv.emplace_back("msin.startchan", std::to_string(start));
      nchan = o.nchan - std::min(start, o.nchan);
      if (r.chance(0.7)) {
        const size_t ask = r.range(0, o.nchan + 2);
        kv.emplace_back("msin.nchan", ask == o.nchan && r.chance(0.5) ? "nchan" : std::to_string(ask));
        if (ask) nchan = std::min(nchan, ask);
      }
    }
    if (!m.extra.empty()) kv.emplace_back("msin.extradatacolumns", "[" + [&] { std::string s; for (auto& e : m.extra) s += (s.empty() ? "" : ",") + e; return s; }() + "]");
    bool use_flags = true;
    if (r.chance(0.2)) { use_flags = r.chance(0.4); kv.emplace_back("msin.useflag", use_flags ? "true" : "false"); }
    const bool plain_weight = r.chance(0.15);
    if (plain_weight) kv.emplace_back("msin.weightcolumn", "WEIGHT");
    bool has_auto = false;
    const bool auto_weight = r.chance(0.1) && data && weights;
    if (auto_weight) kv.emplace_back("msin.forceautoweight", "true");
    const bool data2 = !m.extra.empty() && r.chance(0.2);
    if (data2) kv.emplace_back("msin.datacolumn", m.extra[0]);
    // Times.
    Times tt;
    if (times) {
      const int kind = r.range(0, 4);
      auto any_time = [&](bool edge) {
        double t = m.GridTime(long(r.range(0, o.ntime + 2)) - 1);
        if (edge) t += o.dt * r.pick(std::vector<double>{0.3, -0.3, 0.45});
        return t;
      };
      if (kind == 0 || kind == 3) {
        tt.has_start = true; const double t = any_time(r.chance(0.3)); const std::string s = TimeText(t, 6);
        casacore::Quantity q; casacore::MVTime::read(q, s); tt.start = q.getValue("s");
        kv.emplace_back("msin.starttime", s);
      }
      if (kind == 1 || (kind == 4 && r.chance(0.5))) { tt.start_slot = int(r.range(0, o.ntime + 3)) - 3; kv.emplace_back("msin.starttimeslot", std::to_string(tt.start_slot)); }
      if (kind == 2 || (kind == 3 && r.chance(0.6))) {
        tt.has_end = true; const double t = any_time(r.chance(0.3)); const std::string s = TimeText(t, 6);
        casacore::Quantity q; casacore::MVTime::read(q, s); tt.end = q.getValue("s");
        kv.emplace_back("msin.endtime", s);
      } else if (kind == 4 || r.chance(0.2)) { tt.ntimes = r.range(0, o.ntime + 3); kv.emplace_back("msin.ntimes", std::to_string(tt.ntimes)); }
      if (r.chance(0.02) && !tt.has_start && kind != 1) { tt.has_start = true; tt.start = m.times[0]; tt.start_slot = 1; kv.clear(); kv.emplace_back("msin.starttime", TimeText(tt.start)); kv.emplace_back("msin.starttimeslot", "1"); }
    }
    Plan plan = Expect(m, tt);
    // Times that fall between what is on the grid or not are not judged.
    auto vague = [&](double t) { double x = (t - o.t0) / o.dt; x -= std::floor(x); const double e = std::min(x, 1 - x) * o.dt; return e > 1e-4 && e < 0.02; };
    if ((tt.has_start && (vague(tt.start) || mo.jitter > 0)) || (tt.has_end && (vague(tt.end) || mo.jitter > 0))) return;
    if (tt.start_slot > 0 && mo.jitter > 0) return;
    const bool refuse = plan.refuse || bad_band || many || bls.empty() || bad_chan;
    R().Describe(o.Str() + " nspw=" + std::to_string(m.nspw) + " present=" + std::to_string(m.slots.size()) + " weights=" + std::to_string(m.weights) + " | " + Text(kv));

    std::shared_ptr<MsReader> reader;
    const ParameterSet ps = Parset(kv);
    bool threw = false;
    std::string what;
    try { reader = std::make_shared<MsReader>(cc::MeasurementSet(name), ps, "msin.", false); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (refuse) { R().Count("refused"); VH_EXPECT(threw, "reader-accepts", "settings that cannot be met were accepted"); return; }
    VH_EXPECT(!threw, "reader-refuses", "a regular measurement set was refused: ", what);
    if (threw) return;
    reader->setFieldsToRead(f);
    auto sink = std::make_shared<Sink>();
    sink->check_shape = data;
    reader->setNextStep(sink);
    reader->setInfo(DPInfo());
    const DPInfo& info = reader->getInfoOut();
    if (plan.empty) {
      VH_EXPECT(!reader->process(std::make_unique<DPBuffer>()), "reader-past-end", "a slot came from after the end");
      return;
    }
    // Metadata.
    VH_EXPECT(info.ncorr() == 4 && info.nchan() == nchan && info.nbaselines() == bls.size() && info.nantenna() == o.nant, "reader-meta", "sizes are wrong: nchan ", info.nchan(), " not ", nchan, ", nbl ", info.nbaselines(), " not ", bls.size());
    if (info.nchan() != nchan || info.nbaselines() != bls.size()) return;
    for (size_t i = 0; i < bls.size(); ++i) VH_EXPECT(info.getAnt1()[i] == o.ant1[bls[i]] && info.getAnt2()[i] == o.ant2[bls[i]], "reader-meta", "baseline ", i, " has other antennas");
    for (size_t a = 0; a < o.nant; ++a) VH_EXPECT(info.antennaNames()[a] == o.names[a] && info.antennaDiam()[a] == o.diam[a] && info.antennaPos()[a].getValue()(1) == o.y[a], "reader-meta", "antenna ", a, " differs");
    double bw = 0;
    for (size_t c = 0; c < nchan; ++c) {
      VH_EXPECT(info.chanFreqs()[c] == m.freqs[spw][start + c] && info.chanWidths()[c] == m.widths[spw][start + c] && info.resolutions()[c] == m.resol[spw][start + c] && info.effectiveBW()[c] == m.effbw[spw][start + c], "reader-meta", "channel ", c, " has another frequency, width, resolution or bandwidth");
      bw += m.effbw[spw][start + c];
    }
    VH_EXPECT(std::abs(info.totalBW() - bw) <= 1e-9 * bw, "reader-meta", "bandwidth ", info.totalBW(), " of the channels is not ", bw);
    VH_EXPECT(info.spectralWindow() == int(spw) && info.startchan() == start && info.origNChan() == o.nchan && info.refFreq() == m.ref_freq[spw], "reader-meta", "band or first channel differs: startchan ", info.startchan(), " orig ", info.origNChan(), " ref ", info.refFreq());
    VH_EXPECT(std::abs(info.firstTime() - plan.first) < 2e-4 && std::abs(info.lastTime() - plan.last) < 2e-4 + 0.02 * (mo.jitter > 0) && info.timeInterval() == o.dt, "reader-meta", "times ", info.firstTime() - o.t0, " to ", info.lastTime() - o.t0, " are not ", plan.first - o.t0, " to ", plan.last - o.t0);
    VH_EXPECT(info.ntime() == plan.slots.size(), "reader-meta", "ntime ", info.ntime(), " is not ", plan.slots.size());
    VH_EXPECT(info.GetTelescopeName() == m.telescope && info.GetObserver() == m.observer && info.GetFieldName() == m.field_name && info.antennaSet() == m.antenna_set && info.polarizations().size() == 4, "reader-meta", "telescope, observer, field or antenna set differs");
    auto same_dir = [](const casacore::MDirection& d, double ra, double dec) { auto v = d.getValue(); casacore::MVDirection w(ra, dec); return std::abs(v.separation(w)) < 1e-9; };
    VH_EXPECT(same_dir(info.phaseCenter(), o.ra, o.dec) && same_dir(info.originalPhaseCenter(), o.ra, o.dec) && same_dir(info.delayCenter(), m.delay_ra, m.delay_dec), "reader-meta", "phase or delay centre differs");
    for (auto& e : m.extra) {
      auto it = info.GetDirections().find(e);
      VH_EXPECT(it != info.GetDirections().end(), "reader-directions", "no direction for ", e);
      if (it != info.GetDirections().end()) VH_EXPECT(same_dir(casacore::MDirection(casacore::MVDirection(it->second.ra, it->second.dec)), o.ra, o.dec), "reader-directions", "direction of extra data column ", e, " is (", it->second.ra, ",", it->second.dec, "), not the phase centre");
    }
    VH_EXPECT(cc::AbsName(info.msName()) == cc::AbsName(name) && info.dataColumnName() == (data2 ? m.extra[0] : "DATA") && info.flagColumnName() == "FLAG" && info.weightColumnName() == (plain_weight ? "WEIGHT" : "WEIGHT_SPECTRUM"), "reader-meta", "column names differ");

    size_t n = 0;
    while (n < plan.slots.size() + 5 && reader->process(std::make_unique<DPBuffer>())) ++n;
    reader->finish();
    VH_EXPECT(n == sink->bufs.size(), "reader-slots", n, " slots gave ", sink->bufs.size(), " buffers");
    VH_EXPECT(sink->bufs.size() == plan.slots.size(), "reader-slots", sink->bufs.size(), " slots came, not ", plan.slots.size());
    VH_EXPECT(sink->Protocol().empty(), "reader-protocol", sink->Protocol());
    if (sink->bufs.size() != plan.slots.size()) return;
    R().Nontrivial();
    R().Count("slots", plan.slots.size());
    std::vector<casacore::MPosition> pos;
    for (size_t a = 0; a < o.nant; ++a) pos.push_back(o.Pos(a));
    casacore::MPosition arr = pos[o.nant / 2];
    casacore::MeasTable::Observatory(arr, m.telescope);
    dp3::base::UVWCalculator calc(o.Dir(), arr, pos);
    for (size_t k = 0; k < plan.slots.size(); ++k) {
      const DPBuffer& b = *sink->bufs[k];
      const Want& w = plan.slots[k];
      VH_EXPECT(std::abs(b.GetTime() - w.time) < 2e-4, "reader-time", "slot ", k, " has time ", b.GetTime() - o.t0, " not ", w.time - o.t0);
      if (!data) VH_EXPECT(b.GetData().size() == 0, "reader-unasked", "data were read without need");
      if (!uvw) VH_EXPECT(b.GetUvw().size() == 0, "reader-unasked", "uvw were read without need");
      if (!weights) VH_EXPECT(b.GetWeights().size() == 0, "reader-unasked", "weights were read without need");
      if (!flags) VH_EXPECT(b.GetFlags().size() == 0, "reader-unasked", "flags were read without need");
      if (data) VH_EXPECT(b.GetDataNames().size() == 1 + m.extra.size(), "reader-extra", "number of data buffers");
      if (w.group < 0) {
        R().Count("inserted");
        VH_EXPECT(b.GetRowNumbers().empty(), "reader-inserted", "an inserted slot has row numbers");
        VH_EXPECT(b.GetExposure() == o.dt, "reader-inserted", "an inserted slot has exposure ", b.GetExposure());
        for (size_t i = 0; i < b.GetFlags().size(); ++i) if (!b.GetFlags().data()[i]) { VH_EXPECT(false, "reader-inserted", "an inserted slot is not flagged"); break; }
        for (size_t i = 0; i < b.GetData().size(); ++i) if (b.GetData().data()[i] != cf(0, 0)) { VH_EXPECT(false, "reader-inserted", "an inserted slot has data"); break; }
        if (data) for (auto& e : m.extra) for (size_t i = 0; i < b.GetData(e).size(); ++i) if (b.GetData(e).data()[i] != cf(0, 0)) { VH_EXPECT(false, "reader-inserted", "an inserted slot has extra data"); break; }
        for (size_t i = 0; i < b.GetWeights().size(); ++i) if (b.GetWeights().data()[i] != 0) { VH_EXPECT(false, "reader-inserted", "an inserted slot has weights"); break; }
        if (uvw) for (size_t i = 0; i < bls.size(); ++i) {
          const std::array<double, 3> u = calc.getUVW(o.ant1[bls[i]], o.ant2[bls[i]], b.GetTime());
          for (int c = 0; c < 3; ++c) VH_EXPECT(std::abs(b.GetUvw()(i, c) - u[c]) <= 1e-6, "reader-inserted-uvw", "uvw of an inserted slot differ from the computed ones");
        }
        if (flags) VH_EXPECT(b.GetFlags().shape(0) == bls.size() && b.GetFlags().shape(1) == nchan, "reader-inserted", "flags have another shape");
        if (weights) VH_EXPECT(b.GetWeights().shape(0) == bls.size() && b.GetWeights().shape(1) == nchan, "reader-inserted", "weights have another shape");
        continue;
      }
      const std::vector<size_t> rows = m.Rows(m.slots[w.group], spw);
      VH_EXPECT(b.GetExposure() == m.rows[rows[0]].exposure, "reader-exposure", "exposure ", b.GetExposure(), " is not that in the table");
      VH_EXPECT(b.GetRowNumbers().size() == bls.size(), "reader-rows", "number of row numbers");
      if (b.GetRowNumbers().size() != bls.size()) return;
      for (size_t i = 0; i < bls.size(); ++i) {
        const Row& q = m.rows[rows[bls[i]]];
        VH_EXPECT(b.GetRowNumbers()[i] == rows[bls[i]], "reader-rows", "row number of baseline ", i, " is ", b.GetRowNumbers()[i], " not ", rows[bls[i]]);
        if (uvw) for (int c = 0; c < 3; ++c) VH_EXPECT(b.GetUvw()(i, c) == q.uvw[c], "reader-uvw", "uvw differ");
        const std::vector<cf>& src = data2 ? q.extra.at(m.extra[0]) : q.data;
        for (size_t c = 0; c < nchan; ++c) {
          bool any = false, nan = false;
          for (size_t p = 0; p < 4; ++p) {
            const size_t x = (start + c) * 4 + p;
            any = any || (use_flags && (q.flags[x] || q.flag_row));
            nan = nan || !std::isfinite(src[x].real()) || !std::isfinite(src[x].imag());
          }
          for (size_t p = 0; p < 4; ++p) {
            const size_t x = (start + c) * 4 + p;
            if (data) {
              VH_EXPECT(SameC(b.GetData()(i, c, p), src[x]), "reader-data", "data of baseline ", i, " channel ", c, " differ");
              for (auto& e : m.extra) VH_EXPECT(SameC(b.GetData(e)(i, c, p), q.extra.at(e)[x]), "reader-extra", "extra data of baseline ", i, " channel ", c, " differ");
            }
            if (flags && data) VH_EXPECT(b.GetFlags()(i, c, p) == (any || nan), "reader-flags", "flag of baseline ", i, " channel ", c, " correlation ", p, " is ", b.GetFlags()(i, c, p));
            else if (flags) {
              const bool own = use_flags && (q.flags[x] || q.flag_row);
              VH_EXPECT((!own || b.GetFlags()(i, c, p)) && (any || !b.GetFlags()(i, c, p)), "reader-flags", "flag of baseline ", i, " channel ", c, " correlation ", p, " is ", b.GetFlags()(i, c, p));
            }
            if (weights) {
              float e = m.weights == 0 && !plain_weight ? q.wspec[x] : q.weight[p] == 0 ? 1.0f : q.weight[p];
              float tol = 0;
              if (auto_weight) {
                // Divided by the power of both stations where known.
                const Row *a1 = nullptr, *a2 = nullptr;
                for (size_t k2 : bls) if (o.ant1[k2] == o.ant2[k2]) { if (o.ant1[k2] == o.ant1[bls[i]]) a1 = &m.rows[rows[k2]]; if (o.ant1[k2] == o.ant2[bls[i]]) a2 = &m.rows[rows[k2]]; }
                if (a1 && a2) {
                  auto D = [&](const Row* z, size_t pp) { return (data2 ? z->extra.at(m.extra[0]) : z->data)[(start + c) * 4 + pp].real(); };
                  bool ok = true;
                  for (size_t pp : {0, 3}) for (auto z : {a1, a2}) ok = ok && (D(z, pp) != 0 || (p == 0 && pp == 3));
                  if (ok) { has_auto = true; e = e * (m.widths[spw][start + c] * o.dt) / (double(D(a1, p < 2 ? 0 : 3)) * D(a2, p % 2 ? 3 : 0)); tol = 1e-5f; }
                }
              }
              const float g = b.GetWeights()(i, c, p);
              VH_EXPECT(g == e || (std::isnan(e) && std::isnan(g)) || std::abs(g - e) <= tol * std::abs(e) || !std::isfinite(e), "reader-weights", "weight of baseline ", i, " channel ", c, " correlation ", p, " is ", g, " not ", e);
            }
          }
        }
      }
    }
    if (has_auto) R().Count("autoweighted");
  });
}

// Slots that are off the grid move it.
void Irregular() {
  R().Cases("irregular", R().n(1000, 15000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 2; mo.obs.max_time = 14; mo.obs.max_ant = 3; mo.gaps = false;
    const std::string name = R().scratch + "/in.MS";
    Ms m = RandomMs(r, name, mo);
    const Obs& o = m.o;
    if (m.slots.size() < 3) return;
    // Any increasing times; the first and the last on the grid of the first.
    double t = o.t0;
    std::vector<double> ts{t};
    for (size_t k = 1; k < m.slots.size(); ++k) { t += o.dt * (r.chance(0.4) ? 1.0 : r.chance(0.5) ? r.real(0.5, 1) : r.real(1, 2.5)); ts.push_back(t); }
    for (Row& q : m.rows) for (size_t k = 0; k < m.slots.size(); ++k) if (m.slots[k] == q.slot) { q.time = ts[k]; break; }
    m.times = ts;
    Store(m);
    const double tol = r.chance(0.7) ? 0.01 : r.pick(std::vector<double>{0.001, 0.1});
    KV kv;
    if (tol != 0.01) kv.emplace_back("msin.timetolerance", Fmt(tol));
    R().Describe(o.Str() + " | " + Text(kv) + vh::Join(ts));
    R().Nontrivial();
    auto reader = std::make_shared<MsReader>(cc::MeasurementSet(name), Parset(kv), "msin.", false);
    reader->setFieldsToRead(Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw));
    auto sink = std::make_shared<Sink>();
    reader->setNextStep(sink);
    reader->setInfo(DPInfo());
    size_t n = 0;
    while (n < 60 && reader->process(std::make_unique<DPBuffer>())) ++n;
    reader->finish();
    VH_EXPECT(sink->Protocol().empty(), "irregular-protocol", sink->Protocol());
    // Whatever the times: every buffer with rows holds the rows of one slot of
    // the table, in order and at most once; its time is that slot's within the
    // tolerance; buffers never go back, and never lie more than an interval apart.
    size_t next = 0;
    for (size_t k = 0; k < sink->bufs.size(); ++k) {
      const DPBuffer& b = *sink->bufs[k];
      if (k) VH_EXPECT(b.GetTime() - sink->bufs[k - 1]->GetTime() <= o.dt + tol + 1e-4, "irregular-hole", "slots ", k - 1, " and ", k, " are ", b.GetTime() - sink->bufs[k - 1]->GetTime(), " apart");
      if (b.GetRowNumbers().empty()) { R().Count("inserted"); continue; }
      const size_t row = b.GetRowNumbers()[0], g = row / o.nbl;
      VH_EXPECT(row % o.nbl == 0 && g >= next && g < ts.size(), "irregular-order", "slot ", k, " holds row ", row);
      if (g >= ts.size()) return;
      next = g + 1;
      VH_EXPECT(std::abs(ts[g] - b.GetTime()) <= tol + 1e-4, "irregular-time", "slot ", k, " of time ", b.GetTime() - o.t0, " has the rows of ", ts[g] - o.t0);
      VH_EXPECT(SameC(b.GetData()(0, 0, 0), m.rows[row].data[0]), "irregular-data", "data of another row");
      R().Count("slots");
    }
    // A slot that comes no more than an interval after the one before it is never lost.
    std::set<size_t> got;
    for (auto& b : sink->bufs) if (!b->GetRowNumbers().empty()) got.insert(b->GetRowNumbers()[0] / o.nbl);
    for (size_t g = 1; g < ts.size(); ++g) if (got.count(g - 1) && ts[g] - ts[g - 1] <= o.dt && ts[g] - ts[g - 1] > 0.02 && ts[g] < ts.back()) VH_EXPECT(got.count(g), "irregular-lost", "slot ", g, " at ", ts[g] - o.t0, " was lost");
  });
}

// The beam that was applied, channel expressions, refused settings, missing columns.
void Special() {
  R().Cases("special", R().n(600, 6000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 4; mo.obs.max_time = 4; mo.obs.max_ant = 3;
    const std::string name = R().scratch + "/in.MS";
    const Ms m = RandomMs(r, name, mo);
    const int kind = r.range(0, 5);
    R().Describe(m.o.Str() + " kind " + std::to_string(kind));
    R().Nontrivial();
    cc::MeasurementSet ms(name);
    const Fields all = Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw);
    if (kind == 0) {
      VH_EXPECT(vh::Throws([&] { MsReader(ms, Parset({{"msin.datacolumn", "NOSUCH"}}), "msin.", false); }), "special-missing", "a missing data column was accepted");
      VH_EXPECT(vh::Throws([&] { MsReader(ms, Parset({{"msin.extradatacolumns", "[DATA,NOSUCH]"}}), "msin.", false); }), "special-missing", "a missing extra data column was accepted");
      VH_EXPECT(vh::Throws([&] { MsReader(ms, Parset({{"msin.autoweight", "true"}}), "msin.", false); }), "special-autoweight", "autoweight was accepted for data that are not raw");
    } else if (kind == 1) {
      // Allowed to be missing: flagged slots with zero data.
      MsReader reader(ms, Parset({{"msin.datacolumn", "NOSUCH"}}), "msin.", true);
      reader.setFieldsToRead(all);
      auto sink = std::make_shared<Sink>();
      reader.setNextStep(sink);
      reader.setInfo(DPInfo());
      while (reader.process(std::make_unique<DPBuffer>()) && sink->bufs.size() < 40) {}
      VH_EXPECT(sink->bufs.size() == m.slots.back() + 1, "special-missing", "number of slots");
      for (auto& b : sink->bufs) {
        bool ok = b->GetData().size() == m.o.nbl * m.o.nchan * 4 && b->GetFlags().size() == b->GetData().size();
        for (size_t i = 0; ok && i < b->GetData().size(); ++i) ok = b->GetFlags().data()[i] && b->GetData().data()[i] == cf(0, 0);
        VH_EXPECT(ok, "special-missing", "a slot without a data column is not zero and flagged");
      }
    } else if (kind == 2) {
      const std::string mode = r.pick(std::vector<std::string>{"Full", "Element", "ArrayFactor", "None"});
      cc::ArrayColumn<cc::Complex> col(ms, "DATA");
      col.rwKeywordSet().define("LOFAR_APPLIED_BEAM_MODE", mode == "ArrayFactor" ? std::string("array_factor") : mode);
      const double ra = r.real(-3, 3), dec = r.real(-1.5, 1.5);
      if (mode != "None") {
        cc::Record rec; cc::String err;
        cc::MeasureHolder(casacore::MDirection(casacore::MVDirection(ra, dec), casacore::MDirection::J2000)).toRecord(err, rec);
        col.rwKeywordSet().defineRecord("LOFAR_APPLIED_BEAM_DIR", rec);
      }
      MsReader reader(ms, Parset({}), "msin.", false);
      const int want = mode == "None" ? 0 : mode == "Full" ? 1 : mode == "ArrayFactor" ? 2 : 3;
      VH_EXPECT(reader.getInfoOut().beamCorrectionMode() == want, "special-beam", "beam mode ", reader.getInfoOut().beamCorrectionMode(), " was read for ", mode);
      if (want) VH_EXPECT(std::abs(reader.getInfoOut().beamCorrectionDir().getValue().separation(casacore::MVDirection(ra, dec))) < 1e-9, "special-beam", "beam direction differs");
    } else if (kind == 3) {
      const unsigned n = r.range(1, 300);
      const unsigned a = r.range(0, n - 1);
      auto [s, c] = MsReader::ParseChannelSelection("nchan*" + std::to_string(a) + "/" + std::to_string(n), "nchan/" + std::to_string(r.range(1, 1)), n);
      VH_EXPECT(s == a && c == n - a, "special-channels", "nchan*", a, "/", n, " gave ", s, " and ", c);
      auto [s2, c2] = MsReader::ParseChannelSelection(std::to_string(a), "0", n);
      VH_EXPECT(s2 == a && c2 == n - a, "special-channels", "startchan ", a, " nchan 0 of ", n, " gave ", s2, ",", c2);
      const unsigned w = r.range(1, 2 * n);
      auto [s3, c3] = MsReader::ParseChannelSelection(std::to_string(a), std::to_string(w), n);
      VH_EXPECT(s3 == a && c3 == std::min(w, n - a), "special-channels", "startchan ", a, " nchan ", w, " of ", n, " gave ", s3, ",", c3);
      VH_EXPECT(vh::Throws([&] { MsReader::ParseChannelSelection(std::to_string(n), "1", n); }), "special-channels", "startchan beyond the last channel was accepted");
    } else if (kind == 4) {
      // Another number of baselines in one slot.
      if (m.slots.size() < 2 || m.o.nbl < 2) return;
      Ms b = m;
      b.rows.erase(b.rows.begin() + (b.rows.size() - 1));
      Store(b);
      MsReader reader(cc::MeasurementSet(name), Parset({}), "msin.", false);
      reader.setFieldsToRead(all);
      auto sink = std::make_shared<Sink>();
      reader.setNextStep(sink);
      reader.setInfo(DPInfo());
      VH_EXPECT(vh::Throws([&] { while (reader.process(std::make_unique<DPBuffer>()) && sink->bufs.size() < 40) {} }), "special-irregular", "a slot with too few baselines was accepted");
    } else {
      // The reader is chosen by what the measurement set is.
      auto step = InputStep::CreateReader(Parset({{"msin", name}}));
      VH_EXPECT(bool(dynamic_cast<MsReader*>(step.get())), "special-create", "no MsReader for a regular measurement set");
    }
  });
}

void C57() { Regular(); Irregular(); Special(); }
}  // namespace

VH_MAIN({"C57", C57})
