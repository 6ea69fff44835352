// Random measurement sets in the in-memory tables stand-in, with the values
// that were put in them.
#ifndef VERIF_MS_H_
#define VERIF_MS_H_
#include "pipe.h"

#include <casacore/ms/MeasurementSets/MeasurementSet.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/TableRecord.h>

namespace msx {
using namespace ppl;
namespace cc = casacore;

struct MsOpt {
  ObsOpt obs;
  size_t max_spw = 1;
  bool gaps = true;          // missing time slots
  double jitter = 0;         // relative to the time tolerance of 0.01 s
  bool shuffle = false;      // rows in random order
  int weights = -1;          // 0: WEIGHT_SPECTRUM, 1: undefined, 2: no column, -1: any
  int extra = 0;             // extra data columns DATA2...
  bool history = true;
  bool field_tables = true;
  bool whole_seconds = false;
  bool fixed = false;        // data and flags of a fixed shape
};

// What a row of the main table holds.
struct Row {
  size_t slot = 0, spw = 0, bl = 0;
  double time = 0, exposure = 0, interval = 0;
  double uvw[3] = {0, 0, 0};
  bool flag_row = false;
  std::vector<cf> data;               // [channel][correlation]
  std::vector<char> flags;
  std::vector<float> wspec, weight, sigma;
  std::map<std::string, std::vector<cf>> extra;
};

struct Ms {
  std::string name;
  Obs o;                    // frequencies of band 0
  size_t nspw = 1;
  std::vector<size_t> slots;  // which slots of the grid are there, in order
  std::vector<double> times;  // per slot present
  std::vector<Row> rows;      // as stored
  int weights = 0;
  bool fixed = false;
  std::vector<std::string> extra;
  std::vector<std::vector<double>> freqs, widths, resol, effbw;  // per band
  std::vector<double> ref_freq, bandwidth;
  std::vector<int> meas_freq_ref;
  std::vector<std::string> spw_name;
  std::string telescope = "LOFAR", observer = "someone", field_name = "F", antenna_set;
  double delay_ra = 0, delay_dec = 0, tile_ra = 0, tile_dec = 0;
  std::vector<size_t> Rows(size_t slot, size_t spw) const {
    std::vector<size_t> v;
    for (size_t i = 0; i < rows.size(); ++i) if (rows[i].slot == slot && rows[i].spw == spw) v.push_back(i);
    std::sort(v.begin(), v.end(), [&](size_t a, size_t b) { return rows[a].bl < rows[b].bl; });
    return v;
  }
  double GridTime(long slot) const { return o.t0 + slot * o.dt; }
};

template <class T> void Sca(cc::Table& t, const std::string& n, size_t row, const T& v) { cc::ScalarColumn<T>(t, n).put(row, v); }
template <class T> void Arr(cc::Table& t, const std::string& n, size_t row, const cc::Array<T>& v) { cc::ArrayColumn<T>(t, n).put(row, v); }
template <class T, class V> cc::Array<T> MakeArr(const cc::IPosition& s, const V& v) { cc::Array<T> a(s); for (size_t i = 0; i < a.size(); ++i) a.At(i) = T(v[i]); return a; }
template <class T> cc::Array<T> Vec1(const std::vector<T>& v) { return MakeArr<T>(cc::IPosition(1, v.size()), v); }
inline cc::Table Sub(cc::Table& main, const std::string& n, const cc::TableDesc& d) {
  cc::SetupNewTable s(main.tableName() + "/" + n, d, cc::Table::New);
  cc::Table t(s);
  main.rwKeywordSet().defineTable(n, t);
  return t;
}
template <class T> void AddS(cc::TableDesc& d, std::initializer_list<const char*> n) { for (auto c : n) d.addColumn(cc::ScalarColumnDesc<T>(c)); }
template <class T> void AddA(cc::TableDesc& d, std::initializer_list<const char*> n) { for (auto c : n) d.addColumn(cc::ArrayColumnDesc<T>(c)); }

// Writes the tables for the values in ms.
inline void Store(const Ms& ms) {
  const Obs& o = ms.o;
  cc::TableDesc d = cc::MeasurementSet::requiredTableDesc();
  using M = cc::MeasurementSet;
  M::addColumnToDesc(d, M::DATA);
  if (ms.weights != 2) M::addColumnToDesc(d, M::WEIGHT_SPECTRUM);
  for (auto& n : ms.extra) d.addColumn(cc::ArrayColumnDesc<cc::Complex>(n));
  if (ms.fixed) for (auto n : {"DATA", "FLAG"}) d.rwColumnDesc(n).setShape(cc::IPosition(2, o.ncorr, o.nchan));
  cc::SetupNewTable setup(ms.name, d, cc::Table::New);
  cc::Table t(setup);
  t.addRow(ms.rows.size());
  const cc::IPosition shape(2, o.ncorr, o.nchan);
  for (size_t i = 0; i < ms.rows.size(); ++i) {
    const Row& r = ms.rows[i];
    for (auto n : {"TIME", "TIME_CENTROID"}) Sca<double>(t, n, i, r.time);
    Sca<double>(t, "EXPOSURE", i, r.exposure);
    Sca<double>(t, "INTERVAL", i, r.interval);
    Sca<int>(t, "ANTENNA1", i, o.ant1[r.bl]);
    Sca<int>(t, "ANTENNA2", i, o.ant2[r.bl]);
    Sca<int>(t, "DATA_DESC_ID", i, int(r.spw));
    for (auto n : {"ARRAY_ID", "FEED1", "FEED2", "FIELD_ID", "OBSERVATION_ID", "PROCESSOR_ID", "SCAN_NUMBER", "STATE_ID"}) Sca<int>(t, n, i, 0);
    Sca<bool>(t, "FLAG_ROW", i, r.flag_row);
    Arr<double>(t, "UVW", i, MakeArr<double>(cc::IPosition(1, 3), r.uvw));
    Arr<cc::Complex>(t, "DATA", i, MakeArr<cc::Complex>(shape, r.data));
    Arr<bool>(t, "FLAG", i, MakeArr<bool>(shape, r.flags));
    Arr<float>(t, "WEIGHT", i, Vec1(r.weight));
    Arr<float>(t, "SIGMA", i, Vec1(r.sigma));
    if (ms.weights == 0) Arr<float>(t, "WEIGHT_SPECTRUM", i, MakeArr<float>(shape, r.wspec));
    for (auto& [n, v] : r.extra) Arr<cc::Complex>(t, n, i, MakeArr<cc::Complex>(shape, v));
  }
  {
    cc::TableDesc ad;
    AddS<cc::String>(ad, {"NAME", "STATION", "TYPE", "MOUNT"});
    AddA<double>(ad, {"POSITION", "OFFSET", "LOFAR_PHASE_REFERENCE"});
    AddS<double>(ad, {"DISH_DIAMETER"}); AddS<bool>(ad, {"FLAG_ROW"}); AddS<int>(ad, {"LOFAR_STATION_ID"});
    cc::Table a = Sub(t, "ANTENNA", ad);
    a.addRow(o.nant);
    for (size_t i = 0; i < o.nant; ++i) {
      Sca<cc::String>(a, "NAME", i, o.names[i]); Sca<cc::String>(a, "STATION", i, "ST" + std::to_string(i)); Sca<cc::String>(a, "TYPE", i, "GROUND-BASED"); Sca<cc::String>(a, "MOUNT", i, "X-Y");
      Arr<double>(a, "POSITION", i, Vec1(std::vector<double>{o.x[i], o.y[i], o.z[i]}));
      Arr<double>(a, "OFFSET", i, Vec1(std::vector<double>{0, 0, double(i)}));
      Arr<double>(a, "LOFAR_PHASE_REFERENCE", i, Vec1(std::vector<double>{o.x[i], o.y[i], o.z[i]}));
      Sca<double>(a, "DISH_DIAMETER", i, o.diam[i]); Sca<bool>(a, "FLAG_ROW", i, false); Sca<int>(a, "LOFAR_STATION_ID", i, int(i));
    }
  }
  {
    cc::TableDesc dd; AddS<int>(dd, {"SPECTRAL_WINDOW_ID", "POLARIZATION_ID"}); AddS<bool>(dd, {"FLAG_ROW"});
    cc::Table s = Sub(t, "DATA_DESCRIPTION", dd);
    s.addRow(ms.nspw);
    for (size_t i = 0; i < ms.nspw; ++i) { Sca<int>(s, "SPECTRAL_WINDOW_ID", i, int(i)); Sca<int>(s, "POLARIZATION_ID", i, 0); Sca<bool>(s, "FLAG_ROW", i, false); }
  }
  {
    cc::Table s = Sub(t, "SPECTRAL_WINDOW", cc::MSSpectralWindow::requiredTableDesc());
    s.addRow(ms.nspw);
    for (size_t i = 0; i < ms.nspw; ++i) {
      Arr<double>(s, "CHAN_FREQ", i, Vec1(ms.freqs[i])); Arr<double>(s, "CHAN_WIDTH", i, Vec1(ms.widths[i]));
      Arr<double>(s, "RESOLUTION", i, Vec1(ms.resol[i])); Arr<double>(s, "EFFECTIVE_BW", i, Vec1(ms.effbw[i]));
      Sca<int>(s, "NUM_CHAN", i, int(o.nchan)); Sca<double>(s, "REF_FREQUENCY", i, ms.ref_freq[i]); Sca<double>(s, "TOTAL_BANDWIDTH", i, ms.bandwidth[i]);
      Sca<int>(s, "MEAS_FREQ_REF", i, ms.meas_freq_ref[i]); Sca<cc::String>(s, "NAME", i, ms.spw_name[i]); Sca<bool>(s, "FLAG_ROW", i, false);
    }
  }
  {
    cc::TableDesc pd; AddA<int>(pd, {"CORR_TYPE"}); AddS<int>(pd, {"NUM_CORR"});
    cc::Table s = Sub(t, "POLARIZATION", pd); s.addRow();
    Arr<int>(s, "CORR_TYPE", 0, Vec1(std::vector<int>{9, 10, 11, 12})); Sca<int>(s, "NUM_CORR", 0, 4);
  }
  {
    cc::TableDesc fd; AddS<cc::String>(fd, {"NAME"}); AddA<double>(fd, {"PHASE_DIR", "DELAY_DIR", "REFERENCE_DIR", "LOFAR_TILE_BEAM_DIR"});
    cc::Table s = Sub(t, "FIELD", fd); s.addRow();
    Sca<cc::String>(s, "NAME", 0, ms.field_name);
    auto dir = [](double a, double b) { return MakeArr<double>(cc::IPosition(2, 2, 1), std::vector<double>{a, b}); };
    Arr<double>(s, "PHASE_DIR", 0, dir(o.ra, o.dec)); Arr<double>(s, "REFERENCE_DIR", 0, dir(o.ra, o.dec));
    Arr<double>(s, "DELAY_DIR", 0, dir(ms.delay_ra, ms.delay_dec)); Arr<double>(s, "LOFAR_TILE_BEAM_DIR", 0, dir(ms.tile_ra, ms.tile_dec));
  }
  {
    cc::TableDesc od; AddS<cc::String>(od, {"TELESCOPE_NAME", "OBSERVER"}); AddA<double>(od, {"TIME_RANGE"});
    if (!ms.antenna_set.empty()) AddS<cc::String>(od, {"LOFAR_ANTENNA_SET"});
    cc::Table s = Sub(t, "OBSERVATION", od); s.addRow();
    Sca<cc::String>(s, "TELESCOPE_NAME", 0, ms.telescope); Sca<cc::String>(s, "OBSERVER", 0, ms.observer);
    const double t1 = ms.times.empty() ? o.t0 : ms.times.front(), t2 = ms.times.empty() ? o.t0 : ms.times.back();
    Arr<double>(s, "TIME_RANGE", 0, Vec1(std::vector<double>{t1 - o.dt / 2, t2 + o.dt / 2}));
    if (!ms.antenna_set.empty()) Sca<cc::String>(s, "LOFAR_ANTENNA_SET", 0, ms.antenna_set);
  }
  {
    cc::TableDesc hd; AddS<double>(hd, {"TIME"}); AddS<int>(hd, {"OBSERVATION_ID", "OBJECT_ID"}); AddS<cc::String>(hd, {"MESSAGE", "APPLICATION", "PRIORITY", "ORIGIN"}); AddA<cc::String>(hd, {"APP_PARAMS", "CLI_COMMAND"});
    Sub(t, "HISTORY", hd);
  }
  {
    cc::TableDesc fd; AddS<int>(fd, {"ANTENNA_ID", "FEED_ID"});
    cc::Table s = Sub(t, "FEED", fd); s.addRow(o.nant);
    for (size_t i = 0; i < o.nant; ++i) { Sca<int>(s, "ANTENNA_ID", i, int(i)); Sca<int>(s, "FEED_ID", i, int(100 + i)); }
  }
}

inline Ms RandomMs(Rng& r, const std::string& name, const MsOpt& opt = {}) {
  Ms m;
  m.name = name;
  ObsOpt oo = opt.obs;
  oo.corr4 = true;
  m.o = RandomObs(r, oo);
  Obs& o = m.o;
  // In the order of sorting on antennas, as the tables of observations.
  {
    std::vector<std::pair<int, int>> b;
    for (size_t i = 0; i < o.nbl; ++i) b.emplace_back(o.ant1[i], o.ant2[i]);
    std::sort(b.begin(), b.end());
    for (size_t i = 0; i < o.nbl; ++i) { o.ant1[i] = b[i].first; o.ant2[i] = b[i].second; }
  }
  if (opt.whole_seconds) { o.dt = r.pick(std::vector<double>{1, 2, 10, 0.5, 4}); o.t0 = std::floor(o.t0); }
  m.nspw = r.range(1, opt.max_spw);
  m.fixed = opt.fixed;
  m.weights = opt.weights < 0 ? int(r.range(0, 2)) : opt.weights;
  for (int i = 0; i < opt.extra; ++i) m.extra.push_back("DATA" + std::to_string(i + 2));
  // Which time slots there are; the first and the last always.
  for (size_t s = 0; s < o.ntime; ++s) if (!opt.gaps || s == 0 || s + 1 == o.ntime || !r.chance(0.25)) m.slots.push_back(s);
  for (size_t s : m.slots) m.times.push_back(m.GridTime(s) + (s && opt.jitter > 0 && r.chance(0.5) ? r.real(-1, 1) * opt.jitter * 0.01 : 0));
  for (size_t k = 0; k < m.nspw; ++k) {
    std::vector<double> f = o.freqs, w = o.widths, re, eb;
    for (size_t c = 0; c < o.nchan; ++c) { f[c] += k * 3e6; re.push_back(w[c] * (1 + 0.01 * k)); eb.push_back(w[c] * (0.9 - 0.01 * k)); }
    double bw = 0; for (double x : eb) bw += x;
    m.freqs.push_back(f); m.widths.push_back(w); m.resol.push_back(re); m.effbw.push_back(eb);
    m.ref_freq.push_back(f[o.nchan / 2] + 1);
    m.bandwidth.push_back(bw); m.meas_freq_ref.push_back(int(r.range(1, 5))); m.spw_name.push_back("SB-" + std::to_string(k + r.range(0, 300)));
  }
  m.telescope = r.pick(std::vector<std::string>{"LOFAR", "AARTFAAC", "WSRT"});
  m.observer = "obs" + std::to_string(r.range(0, 9)); m.field_name = "field" + std::to_string(r.range(0, 9));
  m.antenna_set = r.chance(0.7) ? r.pick(std::vector<std::string>{"HBA_DUAL_INNER", "LBA_OUTER"}) : "";
  m.delay_ra = r.real(-3, 3); m.delay_dec = r.real(-1.5, 1.5); m.tile_ra = r.real(-3, 3); m.tile_dec = r.real(-1.5, 1.5);
  const int wmode = r.range(0, 2);
  for (size_t k = 0; k < m.slots.size(); ++k)
    for (size_t w = 0; w < m.nspw; ++w) {
      const double expo = o.dt * r.pick(std::vector<double>{1, 1, 0.5, 0.9});
      for (size_t b = 0; b < o.nbl; ++b) {
        Row q;
        q.slot = m.slots[k]; q.spw = w; q.bl = b; q.time = m.times[k]; q.exposure = expo; q.interval = o.dt;
        for (double& u : q.uvw) u = r.real(-1e4, 1e4);
        q.flag_row = r.chance(0.05);
        const size_t n = o.nchan * o.ncorr;
        const bool whole = r.chance(0.05);
        for (size_t i = 0; i < n; ++i) {
          cf v(r.gauss() * 3 + 1, r.gauss() * 3);
          if (r.chance(0.02)) v = r.pick(std::vector<cf>{{NAN, 0}, {0, NAN}, {INFINITY, 1}, {1, -INFINITY}});
          q.data.push_back(v);
          q.flags.push_back(whole || r.chance(0.08));
          q.wspec.push_back(wmode == 0 ? 1.0f : wmode == 1 ? float(r.range(0, 8)) * 0.25f : float(r.real(0.01, 10)));
          for (auto& e : m.extra) q.extra[e].push_back(cf(r.gauss(), r.gauss()));
        }
        for (size_t p = 0; p < o.ncorr; ++p) { q.weight.push_back(r.chance(0.2) ? 0.0f : float(r.real(0.1, 5))); q.sigma.push_back(float(r.real(0.1, 5))); }
        m.rows.push_back(std::move(q));
      }
    }
  if (opt.shuffle) r.shuffle(m.rows);
  Store(m);
  return m;
}
}  // namespace msx
#endif
