// Monitor of writing and reading baseline-dependent averaged sets (C63).
#include "ms.h"

#include "common/VdsMaker.h"
#include "steps/BDAAverager.h"
#include "steps/InputStep.h"
#include "steps/MSBDAReader.h"
#include "steps/MSBDAWriter.h"
#include "steps/MsReader.h"

namespace dp3::common {
void VdsMaker::create(const std::string&, const std::string&, const std::string&, const std::string&, bool) {}
}  // namespace dp3::common

namespace {
using namespace msx;
using dp3::common::Fields;
using dp3::steps::MsReader;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
const Fields kAll = Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw);

class Tee : public Step {
 public:
  std::vector<BdaRow> rows;
  bool process(std::unique_ptr<BdaBuffer> b) override { for (auto& q : Rows(*b)) rows.push_back(q); getNextStep()->process(std::move(b)); return true; }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
  bool accepts(MsType t) const override { return t == MsType::kBda; }
};

void Bda() {
  R().Cases("bda", R().n(1500, 25000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 12; mo.obs.max_time = 10; mo.obs.max_ant = 6; mo.max_spw = r.chance(0.2) ? 2 : 1;
    Ms m = RandomMs(r, R().scratch + "/in.MS", mo);
    const Obs& o = m.o;
    // Positions decide the factors; the UVW of a real array follow from them.
    const std::string out = R().scratch + "/out.MS";
    KV kv;
    size_t spw = 0;
    if (m.nspw > 1) { spw = r.range(0, m.nspw - 1); kv.emplace_back("msin.band", std::to_string(spw)); }
    if (r.chance(0.8)) kv.emplace_back("bda.timebase", Fmt(std::pow(10.0, r.real(1, 6))));
    if (r.chance(0.8)) kv.emplace_back("bda.frequencybase", Fmt(std::pow(10.0, r.real(1, 6))));
    if (r.chance(0.5)) kv.emplace_back("bda.maxinterval", Fmt(o.dt * r.range(1, 6)));
    if (r.chance(0.5)) kv.emplace_back("bda.minchannels", std::to_string(r.range(1, o.nchan)));
    if (r.chance(0.3)) kv.emplace_back("msin.starttimeslot", std::to_string(r.range(0, o.ntime - 1)));
    if (r.chance(0.3)) {
      const size_t a = r.range(0, o.nant - 1);
      bool any = false;
      for (size_t b = 0; b < o.nbl; ++b) any = any || o.names[o.ant1[b]] == o.names[a] || o.names[o.ant2[b]] == o.names[a];
      if (any) kv.emplace_back("msin.baseline", o.names[a] + "&&*");
    }
    const bool exists = r.chance(0.15), overwrite = r.chance(0.5);
    if (exists) cc::Table(m.name).deepCopy(out, cc::Table::New);
    if (overwrite) kv.emplace_back("msout.overwrite", "true");
    R().Describe(o.Str() + " nspw=" + std::to_string(m.nspw) + " present=" + std::to_string(m.slots.size()) + (exists ? " exists " : " ") + Text(kv));
    const ParameterSet ps = Parset(kv);
    auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), ps, "msin.", false);
    auto avg = std::make_shared<dp3::steps::BdaAverager>(ps, "bda.");
    auto tee = std::make_shared<Tee>();
    auto writer = std::make_shared<dp3::steps::MSBDAWriter>(out, ps, "msout.");
    auto end = std::make_shared<Sink>();
    reader->setNextStep(avg); avg->setNextStep(tee); tee->setNextStep(writer); writer->setNextStep(end);
    reader->setFieldsToRead(kAll);
    bool threw = false; std::string what;
    try { reader->setInfo(DPInfo()); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (exists && !overwrite) { VH_EXPECT(threw, "bda-overwrite", "an existing set was replaced without being told to"); R().Count("refused"); return; }
    VH_EXPECT(!threw, "bda-throws", what);
    if (threw) return;
    for (size_t n = 0; n < 100 && reader->process(std::make_unique<DPBuffer>()); ++n) {}
    reader->finish();
    VH_EXPECT(end->finished == 1, "bda-finish", "finish was passed on ", end->finished, " times");
    R().Count("rows", tee->rows.size());
    const DPInfo& info = writer->getInfoOut();
    const size_t nbl = info.nbaselines();
    bool averaged = false;
    // The rows.
    cc::Table t(out);
    VH_EXPECT(t.nrow() == tee->rows.size(), "bda-rows", t.nrow(), " rows were written, not ", tee->rows.size());
    if (t.nrow() != tee->rows.size()) return;
    cc::Table sp(t.keywordSet().asTable("SPECTRAL_WINDOW")), dd(t.keywordSet().asTable("DATA_DESCRIPTION"));
    std::set<size_t> sizes;
    for (size_t b = 0; b < nbl; ++b) sizes.insert(info.chanFreqs(b).size());
    VH_EXPECT(sp.nrow() == sizes.size() && dd.nrow() == sizes.size(), "bda-spw", sp.nrow(), " bands for ", sizes.size(), " numbers of channels");
    if (sp.nrow() != sizes.size() || dd.nrow() != sizes.size()) return;
    for (size_t i = 0; i < sp.nrow(); ++i) {
      VH_EXPECT((cc::ScalarColumn<int>(dd, "SPECTRAL_WINDOW_ID")(i)) == int(i), "bda-spw", "data description ", i, " has another band");
      VH_EXPECT(std::string(cc::ScalarColumn<cc::String>(sp, "NAME")(i)) == m.spw_name[spw] && (cc::ScalarColumn<int>(sp, "MEAS_FREQ_REF")(i)) == m.meas_freq_ref[spw], "bda-spw-name", "name or frame of band ", i, " differs: ", std::string(cc::ScalarColumn<cc::String>(sp, "NAME")(i)), " ", (cc::ScalarColumn<int>(sp, "MEAS_FREQ_REF")(i)));
      VH_EXPECT((cc::ScalarColumn<double>(sp, "REF_FREQUENCY")(i)) == info.refFreq() && (cc::ScalarColumn<double>(sp, "TOTAL_BANDWIDTH")(i)) == info.totalBW(), "bda-spw", "reference frequency or bandwidth differs");
    }
    auto vec = [](const cc::Table& tab, const char* c, size_t i) { return cc::ArrayColumn<double>(tab, c)(i).tovector(); };
    cc::Table fac(t.keywordSet().asTable("BDA_FACTORS")), axis(t.keywordSet().asTable("BDA_TIME_AXIS"));
    VH_EXPECT(fac.nrow() == nbl && axis.nrow() == 1, "bda-factors", fac.nrow(), " factors for ", nbl, " baselines");
    if (fac.nrow() != nbl || axis.nrow() != 1) return;
    unsigned lo = 1 << 30, hi = 0;
    for (size_t b = 0; b < nbl; ++b) {
      const unsigned f = info.ntimeAvg(b);
      lo = std::min(lo, f); hi = std::max(hi, f);
      averaged = averaged || f > 1 || info.chanFreqs(b).size() < o.nchan;
      const int id = cc::ScalarColumn<int>(fac, "SPECTRAL_WINDOW_ID")(b);
      VH_EXPECT((cc::ScalarColumn<int>(fac, "FACTOR")(b)) == int(f) && (cc::ScalarColumn<int>(fac, "ANTENNA1")(b)) == info.getAnt1()[b] && (cc::ScalarColumn<int>(fac, "ANTENNA2")(b)) == info.getAnt2()[b], "bda-factors", "factor or antennas of baseline ", b, " differ");
      VH_EXPECT(id >= 0 && size_t(id) < sp.nrow(), "bda-factors", "baseline ", b, " has band ", id);
      if (id < 0 || size_t(id) >= sp.nrow()) return;
      VH_EXPECT(vec(sp, "CHAN_FREQ", id) == info.chanFreqs(b) && vec(sp, "CHAN_WIDTH", id) == info.chanWidths(b) && vec(sp, "RESOLUTION", id) == info.resolutions(b) && vec(sp, "EFFECTIVE_BW", id) == info.effectiveBW(b) && (cc::ScalarColumn<int>(sp, "NUM_CHAN")(id)) == int(info.chanFreqs(b).size()), "bda-spw", "channels of baseline ", b, " differ from those of its band");
    }
    if (averaged) R().Nontrivial();
    auto ax = [&](const char* c) { return cc::ScalarColumn<double>(axis, c)(0); };
    VH_EXPECT(ax("UNIT_TIME_INTERVAL") == info.timeInterval() && (lo > 65535 || std::abs(ax("MIN_TIME_INTERVAL") - lo * info.timeInterval()) < 1e-9) && std::abs(ax("MAX_TIME_INTERVAL") - hi * info.timeInterval()) < 1e-9, "bda-axis", "time axis: ", ax("MIN_TIME_INTERVAL"), " ", ax("MAX_TIME_INTERVAL"));
    cc::ScalarColumn<double> time(t, "TIME"), cent(t, "TIME_CENTROID"), expo(t, "EXPOSURE"), inter(t, "INTERVAL");
    cc::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), id(t, "DATA_DESC_ID");
    cc::ScalarColumn<bool> frow(t, "FLAG_ROW");
    cc::ArrayColumn<cc::Complex> data(t, "DATA");
    cc::ArrayColumn<bool> flag(t, "FLAG");
    cc::ArrayColumn<float> ws(t, "WEIGHT_SPECTRUM"), w(t, "WEIGHT"), sig(t, "SIGMA");
    cc::ArrayColumn<double> uvw(t, "UVW");
    for (size_t i = 0; i < t.nrow(); ++i) {
      const BdaRow& q = tee->rows[i];
      VH_EXPECT(time(i) == q.time && cent(i) == q.time && inter(i) == q.interval && expo(i) == q.exposure, "bda-time", "row ", i, " has another time, interval or exposure");
      VH_EXPECT(a1(i) == info.getAnt1()[q.bl] && a2(i) == info.getAnt2()[q.bl], "bda-antenna", "row ", i, " has other antennas");
      VH_EXPECT(id(i) == (cc::ScalarColumn<int>(fac, "SPECTRAL_WINDOW_ID")(q.bl)), "bda-id", "row ", i, " has another band than its baseline");
      const auto d = data(i); const auto f = flag(i); const auto x = ws(i); const auto u = uvw(i);
      const cc::IPosition shape(2, q.ncorr, q.nchan);
      VH_EXPECT(d.shape() == shape && f.shape() == shape && x.shape() == shape, "bda-shape", "row ", i, " has another shape");
      if (!(d.shape() == shape && f.shape() == shape && x.shape() == shape)) return;
      bool all = true;
      for (size_t k = 0; k < d.size(); ++k) {
        all = all && q.flags[k];
        VH_EXPECT(SameC(d.At(k), q.data.at("")[k]), "bda-data", "data of row ", i, " differ");
        VH_EXPECT(bool(f.At(k)) == bool(q.flags[k]), "bda-flags", "flags of row ", i, " differ");
        VH_EXPECT(x.At(k) == q.weights[k] || (std::isnan(x.At(k)) && std::isnan(q.weights[k])), "bda-weights", "weights of row ", i, " differ");
      }
      VH_EXPECT(frow(i) == all, "bda-flagrow", "FLAG_ROW of row ", i, " is ", frow(i));
      for (int k = 0; k < 3; ++k) VH_EXPECT(u.At(k) == q.uvw[k] || std::isnan(q.uvw[k]), "bda-uvw", "uvw of row ", i, " differ");
      for (size_t p = 0; p < 4; ++p) VH_EXPECT(w(i).At(p) == 1 && sig(i).At(p) == 1, "bda-weight", "WEIGHT or SIGMA is not 1");
    }
    if (tee->rows.empty()) return;
    // Reading it back.
    auto back = dp3::steps::InputStep::CreateReader(Parset({{"msin", out}}));
    VH_EXPECT(dynamic_cast<dp3::steps::MSBDAReader*>(back.get()) != nullptr, "bda-reader", "the set is not seen as averaged");
    auto sink = std::make_shared<Sink>();
    back->setNextStep(sink);
    back->setFieldsToRead(kAll);
    back->setInfo(DPInfo());
    for (size_t n = 0; n < 10000 && back->process(std::make_unique<DPBuffer>()); ++n) {}
    back->finish();
    const DPInfo& bi = back->getInfoOut();
    VH_EXPECT(sink->finished == 1, "bda-back-finish", "finish was passed on ", sink->finished, " times");
    VH_EXPECT(bi.nbaselines() == nbl && bi.getAnt1() == info.getAnt1() && bi.getAnt2() == info.getAnt2() && bi.antennaNames() == info.antennaNames() && bi.antennaDiam() == info.antennaDiam() && bi.ncorr() == 4, "bda-back-info", "antennas or baselines differ");
    if (bi.nbaselines() != nbl) return;
    size_t most = 0;
    for (size_t b = 0; b < nbl; ++b) {
      VH_EXPECT(bi.chanFreqs(b) == info.chanFreqs(b) && bi.chanWidths(b) == info.chanWidths(b) && bi.ntimeAvg(b) == info.ntimeAvg(b), "bda-back-info", "channels or factor of baseline ", b, " differ");
      most = std::max(most, info.chanFreqs(b).size());
    }
    VH_EXPECT(bi.nchan() == most && bi.timeInterval() == info.timeInterval(), "bda-back-info", "number of channels or interval differs");
    VH_EXPECT(std::abs(bi.phaseCenter().getValue().separation(info.phaseCenter().getValue())) < 1e-9 && std::abs(bi.delayCenter().getValue().separation(info.delayCenter().getValue())) < 1e-9 && bi.GetTelescopeName() == m.telescope && bi.GetObserver() == m.observer && bi.GetFieldName() == m.field_name, "bda-back-info", "directions or names differ");
    double t1 = INFINITY, t2 = -INFINITY;
    for (auto& q : tee->rows) { t1 = std::min(t1, q.time); t2 = std::max(t2, q.time); }
    VH_EXPECT(bi.firstTime() == t1 && bi.lastTime() == t2, "bda-back-times", "first or last time differs");
    std::vector<BdaRow> got;
    for (auto& b : sink->bdas) for (auto& q : Rows(*b)) got.push_back(q);
    VH_EXPECT(got.size() == tee->rows.size(), "bda-back-rows", got.size(), " rows were read, not ", tee->rows.size());
    if (got.size() != tee->rows.size()) return;
    for (size_t i = 0; i < got.size(); ++i) {
      const BdaRow &a = got[i], &q = tee->rows[i];
      VH_EXPECT(a.time == q.time && a.interval == q.interval && a.exposure == q.exposure && a.bl == q.bl && a.nchan == q.nchan && a.ncorr == q.ncorr && a.row_nr == i, "bda-back-row", "row ", i, " has another time, baseline or shape");
      if (a.nchan != q.nchan) return;
      for (int k = 0; k < 3; ++k) VH_EXPECT(a.uvw[k] == q.uvw[k] || std::isnan(q.uvw[k]), "bda-back-uvw", "uvw of row ", i, " differ");
      for (size_t k = 0; k < q.weights.size(); ++k) VH_EXPECT(SameC(a.data.at("")[k], q.data.at("")[k]) && (a.weights[k] == q.weights[k] || std::isnan(q.weights[k])), "bda-back-data", "data or weights of row ", i, " differ");
    }
  });
}
}  // namespace

VH_MAIN({"C63", Bda})
