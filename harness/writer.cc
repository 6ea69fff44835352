// Monitors of writing (C58) and updating (C59) measurement sets, and of the
// subtables after stations were removed or added (C60).
#include "ms.h"

#include <schaapcommon/threading/threadpool.h>

#include "common/VdsMaker.h"
#include "steps/Averager.h"
#include "steps/Counter.h"
#include "steps/Filter.h"
#include "steps/InputStep.h"
#include "steps/MSUpdater.h"
#include "steps/MSWriter.h"
#include "steps/MsReader.h"
#include "steps/NullStep.h"
#include "steps/PhaseShift.h"
#include "steps/SetBeam.h"
#include "steps/StationAdder.h"

namespace dp3::common {
void VdsMaker::create(const std::string&, const std::string&, const std::string&, const std::string&, bool) {}
}  // namespace dp3::common

namespace {
using namespace msx;
using dp3::common::Fields;
using dp3::steps::MsReader;
using dp3::steps::MSUpdater;
using dp3::steps::MSWriter;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
const Fields kD(Fields::Single::kData), kF(Fields::Single::kFlags), kW(Fields::Single::kWeights), kU(Fields::Single::kUvw);
const Fields kAll = kD | kF | kW | kU;

// Passes buffers on and keeps a copy of what it saw.
class Tee : public Step {
 public:
  std::vector<Slot> slots;
  std::vector<std::vector<size_t>> rows;
  int finished = 0;
  bool process(std::unique_ptr<DPBuffer> b) override {
    slots.push_back(Snap(*b));
    rows.emplace_back(b->GetRowNumbers().begin(), b->GetRowNumbers().end());
    getNextStep()->process(std::move(b));
    return true;
  }
  void finish() override { ++finished; getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
  // Between filter and writer: what goes to the table goes through.
};

void Chain(const std::vector<std::shared_ptr<Step>>& s) { for (size_t i = 0; i + 1 < s.size(); ++i) s[i]->setNextStep(s[i + 1]); }
void Run(dp3::steps::InputStep& reader, size_t most = 100) {
  size_t n = 0;
  while (n++ < most && reader.process(std::make_unique<DPBuffer>())) {}
  reader.finish();
}

// Cell contents as text, whatever the type.
std::string Cell(const cc::ColBase& c, size_t i) {
  std::ostringstream o;
  o.precision(17);
  auto sca = [&](auto* p) { if (p) { o << p->v.at(i); return true; } return false; };
  auto arr = [&](auto* p) { if (!p) return false; const auto& a = p->v.at(i); o << a.ndim() << ':'; for (size_t k = 0; k < a.size(); ++k) o << a.At(k) << ','; return true; };
  if (sca(dynamic_cast<const cc::ScaCol<double>*>(&c)) || sca(dynamic_cast<const cc::ScaCol<int>*>(&c)) || sca(dynamic_cast<const cc::ScaCol<bool>*>(&c)) || sca(dynamic_cast<const cc::ScaCol<cc::String>*>(&c)) ||
      arr(dynamic_cast<const cc::ArrCol<double>*>(&c)) || arr(dynamic_cast<const cc::ArrCol<int>*>(&c)) || arr(dynamic_cast<const cc::ArrCol<bool>*>(&c)) || arr(dynamic_cast<const cc::ArrCol<float>*>(&c)) || arr(dynamic_cast<const cc::ArrCol<cc::String>*>(&c)) || arr(dynamic_cast<const cc::ArrCol<cc::Complex>*>(&c)))
    return o.str();
  return "?";
}
// What differs between two tables, apart from some columns.
std::string TableDiff(const cc::TableRep& a, const cc::TableRep& b, const std::set<std::string>& skip = {}) {
  if (a.nrow != b.nrow) return "numbers of rows " + std::to_string(a.nrow) + " and " + std::to_string(b.nrow);
  if (a.cols.size() != b.cols.size()) return "numbers of columns";
  for (auto& c : a.cols) {
    const std::string n = c->desc.name();
    auto d = b.Col(n);
    if (!d) return "no column " + n;
    if (skip.count(n)) continue;
    for (size_t i = 0; i < a.nrow; ++i) if (Cell(*c, i) != Cell(*d, i)) return "column " + n + " row " + std::to_string(i) + ": " + Cell(*c, i) + " and " + Cell(*d, i);
  }
  return "";
}
std::shared_ptr<cc::TableRep> Copy(const std::string& name) {
  auto t = cc::Registry::I().Find(name);
  auto c = std::make_shared<cc::TableRep>();
  c->name = t->name; c->nrow = t->nrow; c->kw = t->kw;
  for (auto& x : t->cols) c->cols.push_back(x->Copy());
  return c;
}
const std::vector<std::string> kSubs{"ANTENNA", "DATA_DESCRIPTION", "SPECTRAL_WINDOW", "POLARIZATION", "FIELD", "OBSERVATION", "HISTORY", "FEED"};

struct Job {
  Ms m;
  KV kv;                                    // reader
  size_t spw = 0;
  std::shared_ptr<MsReader> reader;
  std::vector<std::shared_ptr<Step>> steps; // between reader and output
  std::string text;
  bool average = false, shift = false, beam = false;
};
// A measurement set, a reader with a selection, and some steps.
Job Make(Rng& r, const std::string& name, bool change_meta, const MsOpt& base) {
  Job j;
  j.m = RandomMs(r, name, base);
  const Obs& o = j.m.o;
  if (j.m.nspw > 1) { j.spw = r.range(0, j.m.nspw - 1); j.kv.emplace_back("band", std::to_string(j.spw)); }
  if (r.chance(0.4)) {
    const size_t start = r.range(0, o.nchan - 1);
    j.kv.emplace_back("startchan", std::to_string(start));
    j.kv.emplace_back("nchan", std::to_string(r.range(0, o.nchan - start)));
  }
  if (r.chance(0.3)) {
    const size_t a = r.range(0, o.nant - 1);
    bool any = false;
    for (size_t b = 0; b < o.nbl; ++b) any = any || o.names[o.ant1[b]] == o.names[a] || o.names[o.ant2[b]] == o.names[a];
    if (any) j.kv.emplace_back("baseline", o.names[a] + "&&*");
  }
  if (r.chance(0.2)) j.kv.emplace_back("starttimeslot", std::to_string(int(r.range(0, 3)) - 2));
  if (r.chance(0.2)) j.kv.emplace_back("ntimes", std::to_string(r.range(1, o.ntime + 2)));
  KV pre;
  for (auto& [k, v] : j.kv) pre.emplace_back("msin." + k, v);
  const ParameterSet p = Parset(pre);
  j.reader = std::make_shared<MsReader>(cc::MeasurementSet(name), p, "msin.", false);
  j.text = o.Str() + " present=" + std::to_string(j.m.slots.size()) + " nspw=" + std::to_string(j.m.nspw) + " | " + Text(pre);
  const size_t n = r.range(0, 2);
  for (size_t i = 0; i < n; ++i) {
    const std::string s = "s" + std::to_string(i) + ".";
    switch (r.range(0, 4)) {
      case 0: j.steps.push_back(std::make_shared<dp3::steps::Counter>(Parset({}), s)); j.text += "counter "; break;
      case 1:
        if (!change_meta) break;
        { KV kv{{s + "timestep", std::to_string(r.range(1, 3))}, {s + "freqstep", std::to_string(r.range(1, 3))}}; j.steps.push_back(std::make_shared<dp3::steps::Averager>(Parset(kv), s)); j.text += "average " + Text(kv); j.average = true; }
        break;
      case 2:
        if (!change_meta || j.shift) break;
        { KV kv{{s + "phasecenter", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1.5, 1.5)) + "rad]"}}; j.steps.push_back(std::make_shared<dp3::steps::PhaseShift>(Parset(kv), s)); j.text += "shift " + Text(kv); j.shift = true; }
        break;
      case 3: { KV kv{{s + "beammode", r.pick(std::vector<std::string>{"full", "none", "array_factor", "element"})}, {s + "direction", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1.5, 1.5)) + "rad]"}}; j.steps.push_back(std::make_shared<dp3::steps::SetBeam>(Parset(kv), s)); j.text += "setbeam " + Text(kv); j.beam = true; } break;
      default: {
        if (!change_meta) break;
        KV kv{{s + "startchan", "0"}, {s + "nchan", "1"}};
        j.steps.push_back(std::make_shared<dp3::steps::Filter>(Parset(kv), s)); j.text += "filter " + Text(kv);
      }
    }
  }
  return j;
}

// The rows of a written table against the slots that were to be written.
void CheckRows(const std::string& name, const std::vector<Slot>& slots, size_t from, size_t n, const DPInfo& info, const std::string& key, bool dysco) {
  cc::Table t(name);
  const size_t nbl = info.nbaselines();
  VH_EXPECT(t.nrow() == n * nbl, key + "-rows", t.nrow(), " rows were written, not ", n * nbl);
  if (t.nrow() != n * nbl) return;
  cc::ScalarColumn<double> time(t, "TIME"), cent(t, "TIME_CENTROID"), expo(t, "EXPOSURE"), inter(t, "INTERVAL");
  cc::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2");
  cc::ScalarColumn<bool> frow(t, "FLAG_ROW");
  cc::ArrayColumn<cc::Complex> data(t, "DATA");
  cc::ArrayColumn<bool> flag(t, "FLAG");
  cc::ArrayColumn<float> ws(t, "WEIGHT_SPECTRUM"), w(t, "WEIGHT"), sig(t, "SIGMA");
  cc::ArrayColumn<double> uvw(t, "UVW");
  const cc::IPosition shape(2, info.ncorr(), info.nchan());
  for (size_t k = 0; k < n; ++k) {
    const Slot& s = slots[from + k];
    for (size_t b = 0; b < nbl; ++b) {
      const size_t row = k * nbl + b;
      VH_EXPECT(time(row) == s.time && cent(row) == s.time, key + "-time", "row ", row, " has another time");
      VH_EXPECT(expo(row) == s.exposure && inter(row) == info.timeInterval(), key + "-exposure", "row ", row, " has exposure ", expo(row), " interval ", inter(row));
      VH_EXPECT(a1(row) == info.getAnt1()[b] && a2(row) == info.getAnt2()[b], key + "-antenna", "row ", row, " has other antennas");
      for (auto c : {"FEED1", "FEED2", "DATA_DESC_ID", "PROCESSOR_ID", "FIELD_ID", "SCAN_NUMBER", "ARRAY_ID", "OBSERVATION_ID", "STATE_ID"}) VH_EXPECT((cc::ScalarColumn<int>(t, c)(row)) == 0, key + "-ids", c, " of row ", row, " is not 0");
      const auto d = data(row); const auto f = flag(row); const auto q = ws(row); const auto u = uvw(row); const auto ww = w(row), ss = sig(row);
      VH_EXPECT(d.shape() == shape && f.shape() == shape && q.shape() == shape, key + "-shape", "row ", row, " has another shape");
      if (!(d.shape() == shape && f.shape() == shape && q.shape() == shape)) return;
      bool all = true;
      for (size_t i = 0; i < d.size(); ++i) {
        const size_t x = b * d.size() + i;
        const bool fl = s.flags[x];
        all = all && fl;
        const bool blank = dysco && fl;
        VH_EXPECT(blank ? std::isnan(d.At(i).real()) : SameC(d.At(i), s.data[x]), key + "-data", "data of row ", row, " differ");
        VH_EXPECT(bool(f.At(i)) == fl, key + "-flags", "flags of row ", row, " differ");
        VH_EXPECT(blank ? q.At(i) == 0 : q.At(i) == s.weights[x] || (std::isnan(q.At(i)) && std::isnan(s.weights[x])), key + "-weights", "weights of row ", row, " differ");
      }
      VH_EXPECT(frow(row) == all, key + "-flagrow", "FLAG_ROW of row ", row, " is ", frow(row));
      for (int c = 0; c < 3; ++c) VH_EXPECT(u.At(c) == s.uvw[b * 3 + c], key + "-uvw", "uvw of row ", row, " differ");
      VH_EXPECT(ww.size() == info.ncorr() && ss.size() == info.ncorr(), key + "-weight", "WEIGHT or SIGMA has another size");
      for (size_t p = 0; p < ww.size(); ++p) VH_EXPECT(ww.At(p) == 1 && ss.At(p) == 1, key + "-weight", "WEIGHT or SIGMA is not 1");
    }
    R().Count("slots");
  }
}

void CheckSubs(const std::string& name, const Job& j, const DPInfo& info, const std::string& key, const ParameterSet& ps) {
  cc::Table t(name);
  for (auto& s : kSubs) {
    VH_EXPECT(t.keywordSet().isDefined(s), key + "-subtable", "no subtable ", s);
    if (!t.keywordSet().isDefined(s)) return;
    VH_EXPECT(cc::AbsName(t.keywordSet().asTable(s).tableName()) == cc::AbsName(name + "/" + s), key + "-subtable", "subtable ", s, " is not a copy of its own");
  }
  auto in = [&](const std::string& s) -> const cc::TableRep& { return *cc::Registry::I().Find(j.m.name + "/" + s); };
  auto out = [&](const std::string& s) -> const cc::TableRep& { return *cc::Registry::I().Find(name + "/" + s); };
  for (std::string s : {"ANTENNA", "POLARIZATION", "FEED"}) { const std::string d = TableDiff(in(s), out(s)); VH_EXPECT(d.empty(), key + "-subtable", s, " differs: ", d); }
  std::string d = TableDiff(in("FIELD"), out("FIELD"), {"PHASE_DIR"});
  VH_EXPECT(d.empty(), key + "-subtable", "FIELD differs: ", d);
  d = TableDiff(in("OBSERVATION"), out("OBSERVATION"), {"TIME_RANGE"});
  VH_EXPECT(d.empty(), key + "-subtable", "OBSERVATION differs: ", d);
  // The one band.
  cc::Table spw(name + "/SPECTRAL_WINDOW"), dd(name + "/DATA_DESCRIPTION");
  VH_EXPECT(spw.nrow() == 1 && dd.nrow() == 1, key + "-spw", spw.nrow(), " bands were written");
  if (spw.nrow() != 1 || dd.nrow() != 1) return;
  VH_EXPECT((cc::ScalarColumn<int>(dd, "SPECTRAL_WINDOW_ID")(0)) == 0 && (cc::ScalarColumn<int>(dd, "POLARIZATION_ID")(0)) == 0, key + "-spw", "data description points elsewhere");
  auto vec = [&](const char* c) { return cc::ArrayColumn<double>(spw, c)(0).tovector(); };
  VH_EXPECT(vec("CHAN_FREQ") == info.chanFreqs() && vec("CHAN_WIDTH") == info.chanWidths() && vec("RESOLUTION") == info.resolutions() && vec("EFFECTIVE_BW") == info.effectiveBW(), key + "-spw", "frequencies, widths, resolutions or bandwidths differ");
  VH_EXPECT((cc::ScalarColumn<int>(spw, "NUM_CHAN")(0)) == int(info.nchan()) && (cc::ScalarColumn<double>(spw, "REF_FREQUENCY")(0)) == info.refFreq() && (cc::ScalarColumn<double>(spw, "TOTAL_BANDWIDTH")(0)) == info.totalBW(), key + "-spw", "number of channels, reference frequency or bandwidth differs");
  VH_EXPECT(std::string(cc::ScalarColumn<cc::String>(spw, "NAME")(0)) == j.m.spw_name[j.spw] && (cc::ScalarColumn<int>(spw, "MEAS_FREQ_REF")(0)) == j.m.meas_freq_ref[j.spw], key + "-spw", "name or frame of the band differs");
  // Times and directions.
  const auto range = cc::ArrayColumn<double>(t.keywordSet().asTable("OBSERVATION"), "TIME_RANGE")(0);
  VH_EXPECT(std::abs(range.At(0) - (info.firstTime() - info.timeInterval() / 2)) < 1e-5 && std::abs(range.At(1) - (info.lastTime() + info.timeInterval() / 2)) < 1e-5, key + "-timerange", "TIME_RANGE differs");
  const auto dir = cc::ArrayColumn<double>(t.keywordSet().asTable("FIELD"), "PHASE_DIR")(0);
  VH_EXPECT(std::abs(info.phaseCenter().getValue().separation(casacore::MVDirection(dir.At(0), dir.At(1)))) < 1e-9, key + "-phasedir", "PHASE_DIR is not the phase centre");
  // The history.
  cc::Table h(name + "/HISTORY");
  VH_EXPECT(h.nrow() == 1, key + "-history", h.nrow(), " rows of history");
  if (h.nrow() == 1) {
    std::set<std::string> have, want;
    const auto a = cc::ArrayColumn<cc::String>(h, "APP_PARAMS")(0);
    for (size_t i = 0; i < a.size(); ++i) have.insert(a.At(i));
    for (auto& [k, v] : ps) want.insert(k + "=" + v.get());
    VH_EXPECT(have == want, key + "-history", "the history does not hold the settings");
    VH_EXPECT(std::string(cc::ScalarColumn<cc::String>(h, "APPLICATION")(0)) == "DP3", key + "-history", "history of another application");
  }
  // The beam.
  cc::ArrayColumn<cc::Complex> data(t, "DATA");
  const int mode = info.beamCorrectionMode();
  if (mode || data.keywordSet().isDefined("LOFAR_APPLIED_BEAM_MODE")) {
    VH_EXPECT(data.keywordSet().isDefined("LOFAR_APPLIED_BEAM_MODE"), key + "-beam", "no beam mode");
    if (data.keywordSet().isDefined("LOFAR_APPLIED_BEAM_MODE")) {
      VH_EXPECT(data.keywordSet().asString("LOFAR_APPLIED_BEAM_MODE") == everybeam::ToString(everybeam::BeamMode(mode)), key + "-beam", "beam mode ", data.keywordSet().asString("LOFAR_APPLIED_BEAM_MODE"), " for ", mode);
      cc::MeasureHolder h2; cc::String err;
      VH_EXPECT(h2.fromRecord(err, data.keywordSet().asRecord("LOFAR_APPLIED_BEAM_DIR")) && std::abs(h2.asMDirection().getValue().separation(info.beamCorrectionDir().getValue())) < 1e-9, key + "-beam", "beam direction differs");
    }
  }
}

// ---- C58 -----------------------------------------------------------------------
void Writer() {
  R().Cases("write", R().n(1300, 30000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    schaapcommon::ThreadPool::GetInstance().Force(r.range(1, 4));
    MsOpt mo;
    mo.obs.max_chan = 8; mo.obs.max_time = 12; mo.obs.max_ant = 5; mo.max_spw = r.chance(0.3) ? 3 : 1;
    const std::string name = R().scratch + "/in.MS", out = R().scratch + r.pick(std::vector<std::string>{"/out.MS", "/out", "/a.b.MS"});
    Job j = Make(r, name, true, mo);
    KV kv{{"msout.flush", std::to_string(r.range(0, 3))}};
    const bool dysco = r.chance(0.2);
    if (dysco) kv.emplace_back("msout.storagemanager", r.chance(0.5) ? "dysco" : "Dysco");
    double chunk = 0;
    if (r.chance(0.3)) { chunk = j.m.o.dt * r.pick(std::vector<double>{0.5, 1, 1.5, 2, 2.5, 3, 100}); kv.emplace_back("msout.chunkduration", Fmt(chunk)); }
    if (r.chance(0.2)) kv.emplace_back("msout.tilesize", std::to_string(r.range(1, 100)));
    if (r.chance(0.2)) kv.emplace_back("msout.tilenchan", std::to_string(r.range(0, 20)));
    const bool exists = r.chance(0.15), overwrite = r.chance(0.5);
    if (exists && chunk == 0) { cc::Table t(name); t.deepCopy(out, cc::Table::New); }
    if (overwrite) kv.emplace_back("msout.overwrite", "true");
    kv.emplace_back("msin", name);
    const bool thread = r.chance(0.5);
    R().Describe(j.text + " -> " + Text(kv) + (thread ? "thread" : ""));
    const ParameterSet ps = Parset(kv);
    auto tee = std::make_shared<Tee>();
    auto writer = std::make_shared<MSWriter>(out, ps, "msout.");
    writer->SetFieldsToWrite(kAll);
    auto sink = std::make_shared<Sink>();
    std::vector<std::shared_ptr<Step>> all{j.reader};
    all.insert(all.end(), j.steps.begin(), j.steps.end());
    all.push_back(tee); all.push_back(writer);
    if (thread) all.push_back(std::make_shared<dp3::steps::NullStep>()); else all.push_back(sink);
    Chain(all);
    j.reader->setFieldsToRead(kAll);
    const auto before = Copy(name);
    bool threw = false;
    std::string what;
    try { j.reader->setInfo(DPInfo()); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (exists && !overwrite && chunk == 0) {
      VH_EXPECT(threw, "write-overwrite", "an existing measurement set was overwritten without being told to");
      VH_EXPECT(TableDiff(*before, *cc::Registry::I().Find(out)).empty(), "write-overwrite", "an existing measurement set was changed");
      R().Count("refused");
      return;
    }
    if (threw && j.average && what.find("divide integrally") != std::string::npos) { R().Count("not-divisible"); return; }
    VH_EXPECT(!threw, "write-throws", what);
    if (threw) return;
    Run(*j.reader);
    R().Nontrivial();
    const DPInfo& info = writer->getInfoOut();
    VH_EXPECT(!info.metaChanged(), "write-meta", "the metadata are still marked as changed");
    // Which slots go to which table.
    struct Part { std::string name; size_t from, n; };
    std::vector<Part> parts;
    if (chunk == 0) parts.push_back({out, 0, tee->slots.size()});
    else {
      double start = 0;
      for (size_t k = 0; k < tee->slots.size(); ++k) {
        if (k == 0 || tee->slots[k].time - start >= chunk) {
          std::string nr = std::to_string(parts.size()); while (nr.size() < 3) nr = "0" + nr;
          const size_t dot = out.find_last_of('.');
          parts.push_back({dot == std::string::npos ? out + "-" + nr : out.substr(0, dot) + "-" + nr + out.substr(dot), k, 0});
          start = tee->slots[k].time;
        }
        ++parts.back().n;
      }
      if (parts.empty()) parts.push_back({dp3::steps::MSWriter::InsertNumberInFilename(out, 0), 0, 0});
      R().Count("chunks", parts.size());
    }
    std::vector<size_t> first;
    for (auto& p : parts) {
      VH_EXPECT(cc::Table::isReadable(p.name), "write-missing", "no measurement set ", p.name);
      if (!cc::Table::isReadable(p.name)) return;
      CheckRows(p.name, tee->slots, p.from, p.n, info, "write", dysco);
      CheckSubs(p.name, j, info, "write", ps);
    }
    size_t outputs = 0;
    { std::lock_guard<std::mutex> l(cc::Registry::I().m); for (auto& [n, t] : cc::Registry::I().t) outputs += t->Col("DATA") && n != cc::AbsName(name); }
    VH_EXPECT(outputs == parts.size(), "write-tables", outputs, " measurement sets were written, not ", parts.size());
    const std::string d = TableDiff(*before, *cc::Registry::I().Find(name));
    VH_EXPECT(d.empty(), "write-input", "the input was changed: ", d);
    // What the next step gets.
    if (!thread) {
      VH_EXPECT(sink->bufs.size() == tee->slots.size() && sink->finished == 1, "write-next", "the next step got ", sink->bufs.size(), " slots");
      for (auto& p : parts)
        for (size_t k = p.from; k < p.from + p.n && k < sink->bufs.size(); ++k) {
          Slot s = Snap(*sink->bufs[k]);
          if (!dysco) VH_EXPECT(Diff(s, tee->slots[k]).empty(), "write-next", "slot ", k, " was changed: ", Diff(s, tee->slots[k]));
          const auto& rows = sink->bufs[k]->GetRowNumbers();
          VH_EXPECT(rows.size() == info.nbaselines() && rows[0] == (k - p.from) * info.nbaselines() && rows[rows.size() - 1] == (k - p.from + 1) * info.nbaselines() - 1, "write-rownrs", "slot ", k, " has other row numbers");
        }
    }
    // Reading it back.
    if (!parts.empty() && parts[0].n && !dysco) {
      const Part& p = parts[0];
      MsReader back(cc::MeasurementSet(p.name), Parset({}), "msin.", false);
      back.setFieldsToRead(kAll);
      auto again = std::make_shared<Sink>();
      back.setNextStep(again);
      back.setInfo(DPInfo());
      Run(back);
      VH_EXPECT(again->bufs.size() == p.n, "write-readback", again->bufs.size(), " slots were read back, not ", p.n);
      for (size_t k = 0; k < again->bufs.size() && k < p.n; ++k) {
        const Slot s = Snap(*again->bufs[k]); const Slot& e = tee->slots[p.from + k];
        VH_EXPECT(std::abs(s.time - e.time) < 1e-3 && s.exposure == e.exposure && SameData(s.data, e.data) && s.uvw == e.uvw, "write-readback", "slot ", k, " is read back with another time, data or uvw");
      }
      const DPInfo& i2 = back.getInfoOut();
      VH_EXPECT(i2.chanFreqs() == info.chanFreqs() && i2.getAnt1() == info.getAnt1() && i2.timeInterval() == info.timeInterval() && i2.GetFieldName() == j.m.field_name && i2.antennaSet() == j.m.antenna_set, "write-readback", "metadata are read back differently");
    }
  });
  R().Cases("names", 2000, [](Rng& r, size_t) {
    // A number goes before the extension.
    std::string s = r.chance(0.5) ? "/x/" : "";
    for (size_t i = r.range(1, 6); i; --i) s += char('a' + r.below(26));
    std::string ext;
    if (r.chance(0.7)) { ext = "."; for (size_t i = r.range(0, 3); i; --i) ext += char('A' + r.below(26)); }
    const size_t n = r.pick(std::vector<size_t>{r.below(10), r.below(100), r.below(1000), r.below(100000)});
    std::string nr = std::to_string(n); while (nr.size() < 3) nr = "0" + nr;
    R().Nontrivial();
    VH_EXPECT(MSWriter::InsertNumberInFilename(s + ext, n) == s + "-" + nr + ext, "write-number", MSWriter::InsertNumberInFilename(s + ext, n), " for ", s + ext, " and ", n);
  });
}

// ---- C59 -----------------------------------------------------------------------
// Changes data, flags and weights.
class Change : public Step {
 public:
  explicit Change(uint64_t seed) : r_(seed) {}
  bool process(std::unique_ptr<DPBuffer> b) override {
    auto& d = b->GetData(); auto& f = b->GetFlags(); auto& w = b->GetWeights();
    const int mode = int(r_.range(0, 2));
    for (size_t i = 0; i < d.size(); ++i) d.data()[i] = cf(r_.gauss(), r_.gauss());
    for (size_t i = 0; i < f.size(); ++i) f.data()[i] = mode == 0 ? true : r_.chance(0.5);
    for (size_t i = 0; i < w.size(); ++i) w.data()[i] = float(r_.real(0, 5));
    getNextStep()->process(std::move(b));
    return true;
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
  Rng r_;
};
void Updater() {
  R().Cases("update", R().n(2500, 40000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 8; mo.obs.max_time = 8; mo.obs.max_ant = 5; mo.max_spw = r.chance(0.3) ? 2 : 1;
    mo.extra = r.chance(0.3) ? 1 : 0;
    mo.weights = r.chance(0.7) ? 0 : 2; mo.fixed = true;
    const std::string name = R().scratch + "/in.MS";
    Job j = Make(r, name, false, mo);
    const Obs& o = j.m.o;
    KV kv;
    Fields f;
    std::string dcol = "DATA", fcol = "FLAG", wcol = "WEIGHT_SPECTRUM";
    if (r.chance(0.3)) { dcol = r.pick(std::vector<std::string>{"NEWDATA", "DATA2", "DATA"}); kv.emplace_back("out.datacolumn", dcol); f |= kD; }
    if (r.chance(0.2)) { fcol = r.pick(std::vector<std::string>{"NEWFLAG", "FLAG"}); kv.emplace_back("out.flagcolumn", fcol); f |= kF; }
    if (r.chance(0.2)) { wcol = r.pick(std::vector<std::string>{"NEWWEIGHT", "WEIGHT_SPECTRUM"}); kv.emplace_back("out.weightcolumn", wcol); f |= kW; }
    Fields given;
    if (r.chance(0.6)) given |= kD;
    if (r.chance(0.6)) given |= kF;
    if (r.chance(0.6)) given |= kW;
    const bool history = r.chance(0.5);
    const bool dysco = r.chance(0.15);
    if (dysco) kv.emplace_back("out.storagemanager", "dysco");
    if (r.chance(0.3)) kv.emplace_back("out.flush", "1");
    R().Describe(j.text + " -> " + Text(kv) + " given " + (given.Data() ? "d" : "") + (given.Flags() ? "f" : "") + (given.Weights() ? "w" : "") + " weights=" + std::to_string(j.m.weights));
    const ParameterSet ps = Parset(kv);
    auto up = std::make_shared<MSUpdater>(name, ps, "out.", history);
    VH_EXPECT(up->GetFieldsToWrite() == f && up->getRequiredFields() == f, "update-fields", "columns that are named are not all written");
    up->SetFieldsToWrite(given);
    f |= given;
    VH_EXPECT(up->GetFieldsToWrite() == f && up->getRequiredFields() == f, "update-fields", "fields to write are not those asked for");
    auto change = std::make_shared<Change>(r.u64());
    auto tee = std::make_shared<Tee>();
    auto sink = std::make_shared<Sink>();
    std::vector<std::shared_ptr<Step>> all{j.reader};
    all.insert(all.end(), j.steps.begin(), j.steps.end());
    for (std::shared_ptr<Step> s : std::initializer_list<std::shared_ptr<Step>>{change, tee, up, sink}) all.push_back(s);
    Chain(all);
    // As the pipeline does: what is needed is read; what flags need is data.
    j.reader->setFieldsToRead(f | kD | kF);
    const auto before = Copy(name);
    std::map<std::string, std::shared_ptr<cc::TableRep>> subs;
    for (auto& s : kSubs) subs[s] = Copy(name + "/" + s);
    bool threw = false;
    std::string what;
    try { j.reader->setInfo(DPInfo()); } catch (std::exception& e) { threw = true; what = e.what(); }
    VH_EXPECT(!threw, "update-throws", what);
    if (threw) return;
    Run(*j.reader);
    R().Nontrivial();
    const DPInfo& info = up->getInfoOut();
    // The next step gets the same.
    VH_EXPECT(sink->bufs.size() == tee->slots.size() && sink->finished == 1, "update-next", "the next step got ", sink->bufs.size(), " slots");
    for (size_t k = 0; k < sink->bufs.size() && k < tee->slots.size(); ++k) VH_EXPECT(Diff(Snap(*sink->bufs[k]), tee->slots[k]).empty(), "update-next", "slot ", k, " was changed: ", Diff(Snap(*sink->bufs[k]), tee->slots[k]));
    // Where rows went.
    std::map<size_t, std::pair<size_t, size_t>> where;  // row -> slot, baseline
    for (size_t k = 0; k < tee->rows.size(); ++k) for (size_t b = 0; b < tee->rows[k].size(); ++b) where[tee->rows[k][b]] = {k, b};
    R().Count("rows", where.size());
    const auto after = cc::Registry::I().Find(name);
    std::set<std::string> cols;
    for (auto& c : before->cols) cols.insert(c->desc.name());
    if (f.Data()) cols.insert(dcol);
    if (f.Flags()) cols.insert(fcol);
    if (f.Weights()) cols.insert(wcol);
    std::set<std::string> got;
    for (auto& c : after->cols) got.insert(c->desc.name());
    VH_EXPECT(got == cols, "update-columns", "columns are not those expected");
    if (got != cols) return;
    VH_EXPECT(before->nrow == after->nrow, "update-rows", "the number of rows changed");
    const size_t c0 = info.startchan(), nc = info.nchan();
    for (auto& c : after->cols) {
      const std::string n = c->desc.name();
      const bool is_d = f.Data() && n == dcol, is_f = f.Flags() && n == fcol, is_w = f.Weights() && n == wcol;
      auto old = before->Col(n);
      for (size_t row = 0; row < after->nrow; ++row) {
        auto it = where.find(row);
        if (n == "FLAG_ROW") {
          bool want = dynamic_cast<cc::ScaCol<bool>*>(old.get())->v[row];
          if (f.Flags() && it != where.end()) {
            const Slot& s = tee->slots[it->second.first];
            for (size_t x = 0; x < nc * 4; ++x) if (!s.flags[it->second.second * nc * 4 + x]) want = false;
          }
          VH_EXPECT((dynamic_cast<cc::ScaCol<bool>*>(c.get())->v[row]) == want, "update-flagrow", "FLAG_ROW of row ", row, " is not ", want);
          continue;
        }
        if (it == where.end() || !(is_d || is_f || is_w)) {
          if (old) VH_EXPECT(Cell(*c, row) == Cell(*old, row), "update-untouched", "column ", n, " of row ", row, " was changed");
          continue;
        }
        const Slot& s = tee->slots[it->second.first];
        const size_t b = it->second.second;
        if (is_d) {
          const auto& a = dynamic_cast<cc::ArrCol<cc::Complex>*>(c.get())->v[row];
          if (a.size() != o.nchan * 4) { VH_EXPECT(false, "update-data", "data of row ", row, " have size ", a.size()); return; }
          for (size_t x = 0; x < a.size(); ++x) {
            const size_t ch = x / 4;
            if (ch >= c0 && ch < c0 + nc) {
              const size_t q = (b * nc + ch - c0) * 4 + x % 4;
              VH_EXPECT(dysco && s.flags[q] ? std::isnan(a.At(x).real()) : SameC(a.At(x), s.data[q]), "update-data", "data of row ", row, " channel ", ch, " are not those of the buffer");
            } else if (old) VH_EXPECT(SameC(a.At(x), dynamic_cast<cc::ArrCol<cc::Complex>*>(old.get())->v[row].At(x)), "update-other", "data of row ", row, " channel ", ch, " outside the selection were changed");
          }
        } else if (is_f) {
          const auto& a = dynamic_cast<cc::ArrCol<bool>*>(c.get())->v[row];
          if (a.size() != o.nchan * 4) { VH_EXPECT(false, "update-flags", "flags of row ", row, " have size ", a.size()); return; }
          for (size_t x = 0; x < a.size(); ++x) {
            const size_t ch = x / 4;
            if (ch >= c0 && ch < c0 + nc) VH_EXPECT(a.At(x) == bool(s.flags[(b * nc + ch - c0) * 4 + x % 4]), "update-flags", "flags of row ", row, " channel ", ch, " are not those of the buffer");
            else if (old) VH_EXPECT(a.At(x) == dynamic_cast<cc::ArrCol<bool>*>(old.get())->v[row].At(x), "update-other", "flags of row ", row, " channel ", ch, " outside the selection were changed");
          }
        } else {
          const auto& a = dynamic_cast<cc::ArrCol<float>*>(c.get())->v[row];
          if (a.size() != o.nchan * 4) { VH_EXPECT(false, "update-weights", "weights of row ", row, " have size ", a.size()); return; }
          for (size_t x = 0; x < a.size(); ++x) {
            const size_t ch = x / 4;
            if (ch >= c0 && ch < c0 + nc) {
              const size_t q = (b * nc + ch - c0) * 4 + x % 4;
              VH_EXPECT(a.At(x) == (dysco && s.flags[q] ? 0.0f : s.weights[q]), "update-weights", "weights of row ", row, " channel ", ch, " are not those of the buffer");
            } else if (old) VH_EXPECT(a.At(x) == dynamic_cast<cc::ArrCol<float>*>(old.get())->v[row].At(x), "update-other", "weights of row ", row, " channel ", ch, " outside the selection were changed");
          }
        }
      }
    }
    for (auto& s : kSubs) {
      if (s == "HISTORY") { VH_EXPECT(cc::Registry::I().Find(name + "/" + s)->nrow == subs[s]->nrow + history, "update-history", "history"); continue; }
      VH_EXPECT(TableDiff(*subs[s], *cc::Registry::I().Find(name + "/" + s)).empty(), "update-subtable", "subtable ", s, " was changed");
    }
    // The beam is noted with the data column.
    if (cols.count(dcol)) {
      cc::ArrayColumn<cc::Complex> data(cc::Table(name), dcol);
      if (info.beamCorrectionMode()) VH_EXPECT(data.keywordSet().isDefined("LOFAR_APPLIED_BEAM_MODE") && data.keywordSet().asString("LOFAR_APPLIED_BEAM_MODE") == everybeam::ToString(everybeam::BeamMode(info.beamCorrectionMode())), "update-beam", "the beam is not noted");
    }
  });
  // Not possible when the metadata changed; weights from the WEIGHT column.
  R().Cases("refuse", R().n(400, 4000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 4; mo.obs.max_time = 4; mo.obs.max_ant = 4; mo.weights = int(r.pick(std::vector<int>{0, 2})); mo.gaps = false; mo.fixed = true;
    const std::string name = R().scratch + "/in.MS";
    const Ms m = RandomMs(r, name, mo);
    R().Nontrivial();
    const int kind = r.range(0, 2);
    R().Describe(m.o.Str() + " kind " + std::to_string(kind) + " weights " + std::to_string(m.weights));
    auto up = std::make_shared<MSUpdater>(name, Parset({}), "out.", false);
    auto sink = std::make_shared<Sink>();
    if (kind == 0) {
      auto reader = std::make_shared<MsReader>(cc::MeasurementSet(name), Parset({}), "msin.", false);
      up->SetFieldsToWrite(kD);
      std::shared_ptr<Step> s;
      if (r.chance(0.5)) s = std::make_shared<dp3::steps::Averager>(Parset({{"a.timestep", "2"}}), "a.");
      else s = std::make_shared<dp3::steps::PhaseShift>(Parset({{"a.phasecenter", "[1rad,0.5rad]"}}), "a.");
      Chain({reader, s, up, sink});
      const auto before = Copy(name);
      VH_EXPECT(vh::Throws([&] { reader->setInfo(DPInfo()); }), "update-changed", "updating was accepted after the metadata changed");
      VH_EXPECT(TableDiff(*before, *cc::Registry::I().Find(name)).empty(), "update-changed", "a refused update changed the table");
    } else if (kind == 1) {
      // The reader takes its weights from WEIGHT; only data are to be written.
      auto reader = std::make_shared<MsReader>(cc::MeasurementSet(name), Parset({{"msin.weightcolumn", "WEIGHT"}}), "msin.", false);
      const Fields f = r.chance(0.5) ? kD : kD | kW;
      up->SetFieldsToWrite(f);
      Chain({reader, up, sink});
      reader->setFieldsToRead(f | kF);
      const auto before = Copy(name);
      reader->setInfo(DPInfo());
      VH_EXPECT(up->getRequiredFields() == f, "update-weight", "fields to write change after the fields to read were set");
      if (up->getRequiredFields() != f) return;
      Run(*reader);
      const auto after = cc::Registry::I().Find(name);
      for (auto& c : before->cols) if (c->desc.name() != "WEIGHT_SPECTRUM" && c->desc.name() != "FLAG_ROW" && c->desc.name() != "DATA") for (size_t i = 0; i < after->nrow; ++i) VH_EXPECT(Cell(*c, i) == Cell(*after->Col(c->desc.name()), i), "update-weight", "column ", c->desc.name(), " was changed");
      if (f.Weights()) for (size_t i = 0; i < m.rows.size(); ++i) {
        const auto& a = dynamic_cast<cc::ArrCol<float>*>(after->Col("WEIGHT_SPECTRUM").get())->v[i];
        for (size_t x = 0; x < a.size(); ++x) VH_EXPECT(a.At(x) == (m.rows[i].weight[x % 4] == 0 ? 1.0f : m.rows[i].weight[x % 4]), "update-weight", "WEIGHT_SPECTRUM of row ", i, " is not WEIGHT");
      }
    } else {
      // After writing a selection, the new measurement set can be updated.
      const std::string out = R().scratch + "/out.MS";
      const size_t start = r.range(0, m.o.nchan - 1);
      auto reader = std::make_shared<MsReader>(cc::MeasurementSet(name), Parset({{"msin.startchan", std::to_string(start)}}), "msin.", false);
      auto writer = std::make_shared<MSWriter>(out, Parset({}), "msout.");
      writer->SetFieldsToWrite(kAll);
      auto change = std::make_shared<Change>(r.u64());
      auto tee = std::make_shared<Tee>();
      auto up2 = std::make_shared<MSUpdater>(out, Parset({}), "out.", false);
      up2->SetFieldsToWrite(kD | kF | kW);
      Chain({reader, writer, change, tee, up2, sink});
      reader->setFieldsToRead(kAll);
      reader->setInfo(DPInfo());
      bool threw = false; std::string what;
      try { Run(*reader); } catch (std::exception& e) { threw = true; what = e.what(); }
      VH_EXPECT(!threw, "update-written", "updating a measurement set that was just written failed: ", what);
      if (threw) return;
      cc::Table t(out);
      cc::ArrayColumn<cc::Complex> d(t, "DATA");
      for (size_t k = 0; k < tee->slots.size(); ++k) for (size_t b = 0; b < m.o.nbl; ++b) {
        const auto a = d(k * m.o.nbl + b);
        for (size_t x = 0; x < a.size(); ++x) VH_EXPECT(SameC(a.At(x), tee->slots[k].data[b * a.size() + x]), "update-written", "data of the written measurement set were not updated");
      }
    }
  });
}

// ---- C60 -----------------------------------------------------------------------
void Subtables() {
  R().Cases("subtables", R().n(2500, 40000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 4; mo.obs.max_time = 4; mo.obs.max_ant = 8; mo.gaps = false;
    const std::string name = R().scratch + "/in.MS", out = R().scratch + "/out.MS";
    Ms m = RandomMs(r, name, mo);
    for (size_t i = 0; i < m.o.nant; ++i) m.o.names[i] = (r.chance(0.5) ? "CS" : "RS") + std::string("0") + std::to_string(i) + "HBA";
    Store(m);
    const Obs& o = m.o;
    // More subtables that refer to antennas.
    cc::Table main(name);
    struct Ref { std::string tab, col; };
    std::vector<Ref> refs{{"FEED", "ANTENNA_ID"}};
    auto add = [&](const std::string& tab, std::vector<std::string> cols, size_t n) {
      cc::TableDesc d; for (auto& c : cols) d.addColumn(cc::ScalarColumnDesc<int>(c));
      d.addColumn(cc::ScalarColumnDesc<int>("TAG"));
      cc::Table t = Sub(main, tab, d); t.addRow(n);
      for (size_t i = 0; i < n; ++i) { for (auto& c : cols) Sca<int>(t, c, i, int(r.below(o.nant))); Sca<int>(t, "TAG", i, int(i)); }
      for (auto& c : cols) refs.push_back({tab, c});
    };
    if (r.chance(0.5)) add("POINTING", {"ANTENNA_ID"}, r.range(0, 10));
    if (r.chance(0.5)) add("SYSCAL", {"ANTENNA_ID"}, r.range(0, 10));
    if (r.chance(0.5)) add("QUALITY_BASELINE_STATISTIC", {"ANTENNA1", "ANTENNA2"}, r.range(0, 12));
    const bool beam = r.chance(0.6), failures = beam && r.chance(0.7);
    size_t nfield = 0;
    std::vector<int> station(o.nant), clock;
    if (beam) {
      nfield = r.range(1, 10);
      add("LOFAR_ANTENNA_FIELD", {"ANTENNA_ID"}, nfield);
      const size_t nst = r.range(1, o.nant);
      cc::TableDesc d; AddS<cc::String>(d, {"NAME"}); AddS<int>(d, {"CLOCK_ID"}); AddS<bool>(d, {"FLAG_ROW"});
      cc::Table t = Sub(main, "LOFAR_STATION", d); t.addRow(nst);
      for (size_t i = 0; i < nst; ++i) { clock.push_back(int(r.below(3))); Sca<cc::String>(t, "NAME", i, "ST" + std::to_string(i)); Sca<int>(t, "CLOCK_ID", i, clock[i]); Sca<bool>(t, "FLAG_ROW", i, false); }
      cc::Table a(name + "/ANTENNA");
      for (size_t i = 0; i < o.nant; ++i) { station[i] = int(r.below(nst)); Sca<int>(a, "LOFAR_STATION_ID", i, station[i]); }
    }
    if (failures) {
      cc::TableDesc d; AddS<int>(d, {"ANTENNA_FIELD_ID", "TAG"});
      const size_t n = r.range(0, 8);
      cc::Table t = Sub(main, "LOFAR_ELEMENT_FAILURE", d); t.addRow(n);
      for (size_t i = 0; i < n; ++i) { Sca<int>(t, "ANTENNA_FIELD_ID", i, int(r.below(nfield))); Sca<int>(t, "TAG", i, int(i)); }
    }
    // Steps: filter with remove, adding stations, or both in either order.
    const int kind = r.range(0, 3);
    auto reader = std::make_shared<MsReader>(cc::MeasurementSet(name), Parset({}), "msin.", false);
    std::vector<std::shared_ptr<Step>> all{reader};
    std::string text;
    std::vector<std::string> gone;
    auto filter = [&](bool remove) {
      size_t keep = r.below(o.nant);
      std::string expr = r.pick(std::vector<std::string>{"CS*&&CS*", "RS*&&*", o.names[keep] + "&&*", "*&CS*", "CS*&&&"});
      KV kv{{"f.baseline", expr}, {"f.remove", remove ? "true" : "false"}};
      all.push_back(std::make_shared<dp3::steps::Filter>(Parset(kv), "f.")); text += "filter " + Text(kv);
    };
    auto adder = [&] {
      KV kv{{"a.stations", r.pick(std::vector<std::string>{"{SC:'CS*'}", "{SR:[RS00*,RS01*,RS02*]}", "{SC:'CS*',SR:'RS*'}", "{S0:[" + o.names[0] + "," + o.names[o.nant - 1] + "]}", "{SX:'NOSUCH*',SC:'CS*'}"})}, {"a.minpoints", "1"}};
      all.push_back(std::make_shared<dp3::steps::StationAdder>(Parset(kv), "a.")); text += "stationadder " + Text(kv);
    };
    const bool remove = r.chance(0.85);
    if (kind == 0) filter(remove); else if (kind == 1) adder(); else if (kind == 2) { filter(remove); adder(); } else { adder(); filter(remove); }
    R().Describe(o.Str() + " | " + text);
    auto writer = std::make_shared<MSWriter>(out, Parset({}), "msout.");
    writer->SetFieldsToWrite(kAll);
    all.push_back(writer); all.push_back(std::make_shared<Sink>());
    Chain(all);
    reader->setFieldsToRead(kAll);
    bool threw = false;
    std::string what;
    try { reader->setInfo(DPInfo()); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (threw) { R().Count("refused"); return; }
    Run(*reader);
    R().Nontrivial();
    const DPInfo& info = writer->getInfoOut();
    // The antenna table is what the rows refer to. Without removal it keeps
    // the stations of the input.
    cc::Table ant(out + "/ANTENNA");
    VH_EXPECT(ant.nrow() == info.nantenna(), "subtables-antenna", ant.nrow(), " antennas were written, not ", info.nantenna());
    if (ant.nrow() != info.nantenna()) return;
    std::map<std::string, int> id;
    for (size_t i = 0; i < info.nantenna(); ++i) {
      const std::string n = cc::ScalarColumn<cc::String>(ant, "NAME")(i);
      id[n] = int(i);
      VH_EXPECT(n == info.antennaNames()[i], "subtables-antenna", "antenna ", i, " is ", n, " not ", info.antennaNames()[i]);
      const auto p = cc::ArrayColumn<double>(ant, "POSITION")(i);
      for (int c = 0; c < 3; ++c) VH_EXPECT(std::abs(p.At(c) - info.antennaPos()[i].getValue()(c)) < 1e-6, "subtables-antenna", "antenna ", n, " has another position");
      VH_EXPECT((cc::ScalarColumn<double>(ant, "DISH_DIAMETER")(i)) == info.antennaDiam()[i], "subtables-antenna", "antenna ", n, " has another diameter");
      auto old = std::find(o.names.begin(), o.names.end(), n);
      if (old != o.names.end()) VH_EXPECT(std::string(cc::ScalarColumn<cc::String>(ant, "STATION")(i)) == "ST" + std::to_string(old - o.names.begin()), "subtables-antenna", "antenna ", n, " has another station");
      else R().Count("added");
    }
    R().Count("removed", o.nant > id.size() ? o.nant - id.size() : 0);
    // Which input antennas went where.
    std::vector<int> map(o.nant, -1);
    for (size_t i = 0; i < o.nant; ++i) { auto it = id.find(o.names[i]); if (it != id.end()) map[i] = it->second; }
    auto ints = [](const cc::TableRep& t, const std::string& c) { auto* p = dynamic_cast<cc::ScaCol<int>*>(t.Col(c).get()); return std::vector<int>(p->v.begin(), p->v.end()); };
    auto in = [&](const std::string& s) -> const cc::TableRep& { return *cc::Registry::I().Find(name + "/" + s); };
    auto outt = [&](const std::string& s) -> const cc::TableRep& { return *cc::Registry::I().Find(out + "/" + s); };
    // Rows of removed antennas go, the others keep their order and refer to the same station.
    for (std::string tab : {"FEED", "POINTING", "SYSCAL", "QUALITY_BASELINE_STATISTIC", "LOFAR_ANTENNA_FIELD"}) {
      std::vector<std::string> cols;
      for (auto& q : refs) if (q.tab == tab) cols.push_back(q.col);
      if (cols.empty()) continue;
      const std::string tag = tab == "FEED" ? "FEED_ID" : "TAG";
      std::vector<std::vector<int>> want, got;
      for (size_t i = 0; i < in(tab).nrow; ++i) {
        std::vector<int> row{ints(in(tab), tag)[i]};
        bool ok = true;
        for (auto& c : cols) { row.push_back(map[ints(in(tab), c)[i]]); ok = ok && row.back() >= 0; }
        if (ok) want.push_back(row);
      }
      for (size_t i = 0; i < outt(tab).nrow; ++i) {
        std::vector<int> row{ints(outt(tab), tag)[i]};
        bool old = true;
        for (auto& c : cols) { row.push_back(ints(outt(tab), c)[i]); VH_EXPECT(row.back() >= 0 && size_t(row.back()) < info.nantenna(), "subtables-range", tab, " refers to antenna ", row.back()); if (row.back() < 0 || size_t(row.back()) >= info.nantenna()) return; old = old && std::count(o.names.begin(), o.names.end(), info.antennaNames()[row.back()]); }
        if (old) got.push_back(row);
      }
      VH_EXPECT(got == want, "subtables-renumber", tab, " has ", got.size(), " rows of old stations, not the ", want.size(), " expected, or they refer elsewhere");
    }
    // Every added station has a feed, as the first one.
    for (auto& [n, i] : id) if (!std::count(o.names.begin(), o.names.end(), n)) {
      const auto a = ints(outt("FEED"), "ANTENNA_ID");
      VH_EXPECT(std::count(a.begin(), a.end(), i) == 1, "subtables-feed", "new station ", n, " has ", std::count(a.begin(), a.end(), i), " feeds");
      if (beam) {
        const auto s = ints(outt("ANTENNA"), "LOFAR_STATION_ID");
        auto* names = dynamic_cast<cc::ScaCol<cc::String>*>(outt("LOFAR_STATION").Col("NAME").get());
        VH_EXPECT(s[i] >= 0 && size_t(s[i]) < outt("LOFAR_STATION").nrow && std::string(names->v.at(s[i])) == n, "subtables-station", "new station ", n, " has no row in LOFAR_STATION");
      }
    }
    // Failures refer to the same antenna fields.
    if (failures) {
      const auto f_in = ints(in("LOFAR_ELEMENT_FAILURE"), "ANTENNA_FIELD_ID"), t_in = ints(in("LOFAR_ELEMENT_FAILURE"), "TAG");
      const auto f_out = ints(outt("LOFAR_ELEMENT_FAILURE"), "ANTENNA_FIELD_ID"), t_out = ints(outt("LOFAR_ELEMENT_FAILURE"), "TAG");
      const auto field_ant = ints(in("LOFAR_ANTENNA_FIELD"), "ANTENNA_ID");
      const auto tag_out = ints(outt("LOFAR_ANTENNA_FIELD"), "TAG");
      std::vector<std::pair<int, int>> want, got;
      for (size_t i = 0; i < f_in.size(); ++i) if (map[field_ant[f_in[i]]] >= 0) want.emplace_back(t_in[i], f_in[i]);
      for (size_t i = 0; i < f_out.size(); ++i) { if (size_t(f_out[i]) >= tag_out.size()) { VH_EXPECT(false, "subtables-failure", "a failure refers to no field"); return; } got.emplace_back(t_out[i], tag_out[f_out[i]]); }
      VH_EXPECT(got == want, "subtables-failure", "element failures refer to other antenna fields");
    }
    // Main table: rows refer to the same pairs of stations.
    cc::Table t(out);
    cc::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2");
    for (size_t i = 0; i < t.nrow(); ++i) VH_EXPECT(size_t(a1(i)) < ant.nrow() && size_t(a2(i)) < ant.nrow(), "subtables-main", "row ", i, " refers to an antenna that is not there");
  });
}

void C58() { Writer(); }
void C59() { Updater(); }
void C60() { Subtables(); }
}  // namespace

VH_MAIN({"C58", C58}, {"C59", C59}, {"C60", C60})
