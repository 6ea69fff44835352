// Monitors of joining measurement sets along frequency (C61), and of taking
// model data, visibilities or flags from another column or set (C62).
#include "ms.h"

#include "steps/FlagTransfer.h"
#include "steps/InputStep.h"
#include "steps/MsColumnReader.h"
#include "steps/MsReader.h"
#include "steps/MultiMsReader.h"
#include "steps/Transfer.h"

namespace {
using namespace msx;
using dp3::common::Fields;
using dp3::steps::MsReader;
using dp3::steps::MultiMsReader;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
const Fields kD(Fields::Single::kData), kF(Fields::Single::kFlags), kW(Fields::Single::kWeights), kU(Fields::Single::kUvw);
const Fields kAll = kD | kF | kW | kU;

void Run(dp3::steps::InputStep& reader) {
  size_t n = 0;
  while (n++ < 200 && reader.process(std::make_unique<DPBuffer>())) {}
  reader.finish();
}
// Other values in the same structure, for another band.
void Refill(Rng& r, Ms& m, size_t nchan, double f0) {
  Obs& o = m.o;
  o.nchan = nchan;
  const double w = o.widths[0];
  o.freqs.clear(); o.widths.assign(nchan, w);
  for (size_t c = 0; c < nchan; ++c) o.freqs.push_back(f0 + (c + 0.5) * w);
  m.freqs = {o.freqs}; m.widths = {o.widths}; m.resol = {o.widths}; m.effbw = {o.widths};
  for (auto& x : m.resol[0]) x *= r.real(0.8, 1.2);
  for (auto& x : m.effbw[0]) x *= r.real(0.8, 1.2);
  double bw = 0; for (double x : m.effbw[0]) bw += x;
  m.bandwidth = {bw}; m.ref_freq = {o.freqs[nchan / 2]};
  for (Row& q : m.rows) {
    q.data.clear(); q.flags.clear(); q.wspec.clear();
    for (auto& [n, v] : q.extra) v.clear();
    for (size_t i = 0; i < nchan * 4; ++i) {
      cf v(r.gauss() * 3 + 1, r.gauss() * 3);
      if (r.chance(0.01)) v = cf(NAN, 0);
      q.data.push_back(v); q.flags.push_back(r.chance(0.1)); q.wspec.push_back(float(r.real(0.01, 10)));
      for (auto& e : m.extra) q.extra[e].push_back(cf(r.gauss(), r.gauss()));
    }
    q.flag_row = r.chance(0.05);
  }
}

// ---- C61 -----------------------------------------------------------------------
void Multi() {
  R().Cases("multi", R().n(1600, 25000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 6; mo.obs.max_time = 6; mo.obs.max_ant = 5; mo.gaps = false; mo.extra = r.chance(0.3) ? 1 : 0;
    Ms base = RandomMs(r, R().scratch + "/b0.MS", mo);
    const size_t n = r.range(1, 5);
    const double w = base.o.widths[0];
    const bool missing_mode = n > 1 && r.chance(0.3);
    const bool equal = missing_mode || r.chance(0.5);
    std::vector<Ms> ms;
    std::vector<bool> there(n, true);
    double f = base.o.freqs[0] - w / 2;
    for (size_t i = 0; i < n; ++i) {
      ms.push_back(base);
      ms[i].name = R().scratch + "/b" + std::to_string(i) + ".MS";
      const size_t nc = equal ? base.o.nchan : size_t(r.range(1, 6));
      Refill(r, ms[i], nc, f);
      f += nc * w;
      if (!missing_mode && r.chance(0.2)) f += w * r.range(1, 4);
    }
    if (missing_mode) { for (size_t i = 0; i < n; ++i) there[i] = r.chance(0.6); there[r.range(0, n - 1)] = true; }
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i) order[i] = i;
    const bool sort = missing_mode ? r.chance(0.1) : r.chance(0.6);
    if (!missing_mode && r.chance(0.6)) r.shuffle(order);
    bool any_missing = false;
    cc::Registry::I().Clear();
    for (size_t i = 0; i < n; ++i) { if (there[i]) Store(ms[i]); else any_missing = true; }
    KV kv;
    if (!sort) kv.emplace_back("msin.orderms", "false"); else if (r.chance(0.5)) kv.emplace_back("msin.orderms", "true");
    if (!base.extra.empty()) kv.emplace_back("msin.extradatacolumns", "[DATA2]");
    if (r.chance(0.3)) {
      const size_t a = r.range(0, base.o.nant - 1);
      bool any = false;
      for (size_t b = 0; b < base.o.nbl; ++b) any = any || base.o.names[base.o.ant1[b]] == base.o.names[a] || base.o.names[base.o.ant2[b]] == base.o.names[a];
      if (any) kv.emplace_back("msin.baseline", base.o.names[a] + "&&*");
    }
    size_t start = 0;
    if (r.chance(0.3)) { start = r.range(0, base.o.ntime - 1); kv.emplace_back("msin.starttimeslot", std::to_string(start)); }
    if (r.chance(0.3)) kv.emplace_back("msin.ntimes", std::to_string(r.range(1, base.o.ntime - start)));
    if (r.chance(0.2)) kv.emplace_back("msin.weightcolumn", "WEIGHT");
    std::vector<std::string> names;
    for (size_t i : order) names.push_back(ms[i].name);
    Fields fields = kAll;
    if (r.chance(0.4)) { fields = Fields(); if (r.chance(0.7)) fields |= kD; if (r.chance(0.6)) fields |= kF; if (r.chance(0.6)) fields |= kW; if (r.chance(0.6)) fields |= kU; }
    std::string miss; for (bool b : there) miss += b ? '1' : '0';
    R().Describe(base.o.Str() + " n=" + std::to_string(n) + " there=" + miss + " order=" + vh::Join(order) + " " + Text(kv));
    const ParameterSet ps = Parset(kv);
    auto multi = std::make_shared<MultiMsReader>(names, ps, "msin.");
    auto sink = std::make_shared<Sink>();
    multi->setNextStep(sink);
    multi->setFieldsToRead(fields);
    bool threw = false; std::string what;
    try { multi->setInfo(DPInfo()); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (sort && any_missing) { VH_EXPECT(threw, "multi-order-missing", "sets were ordered although some are missing"); R().Count("refused"); return; }
    VH_EXPECT(!threw, "multi-throws", what);
    if (threw) return;
    Run(*multi);
    // One by one.
    if (sort) std::sort(order.begin(), order.end());
    std::vector<std::shared_ptr<Sink>> single(n);
    std::vector<std::shared_ptr<MsReader>> readers(n);
    size_t first = n, total = 0;
    std::vector<double> fr, wi, re, eb;
    double next = 0;
    for (size_t k = 0; k < n; ++k) {
      const size_t i = order[k];
      if (!there[i]) continue;
      if (first == n) { first = k; next = ms[i].o.freqs[0] - k * base.o.nchan * w; }
    }
    for (size_t k = 0; k < n; ++k) {
      const size_t i = order[k];
      if (!there[i]) {
        for (size_t c = 0; c < base.o.nchan; ++c) { fr.push_back(next); wi.push_back(w); next += w; }
        total += base.o.nchan;
        continue;
      }
      readers[k] = std::make_shared<MsReader>(cc::MeasurementSet(ms[i].name), ps, "msin.", false);
      single[k] = std::make_shared<Sink>();
      readers[k]->setNextStep(single[k]);
      readers[k]->setFieldsToRead(fields);
      readers[k]->setInfo(DPInfo());
      Run(*readers[k]);
      fr.insert(fr.end(), ms[i].o.freqs.begin(), ms[i].o.freqs.end()); wi.insert(wi.end(), ms[i].o.widths.begin(), ms[i].o.widths.end());
      re.insert(re.end(), ms[i].resol[0].begin(), ms[i].resol[0].end()); eb.insert(eb.end(), ms[i].effbw[0].begin(), ms[i].effbw[0].end());
      next = ms[i].o.freqs.back() + w;
      total += ms[i].o.nchan;
    }
    const DPInfo& info = multi->getInfoOut();
    const DPInfo& one = readers[first]->getInfoOut();
    VH_EXPECT(info.nchan() == total && info.chanFreqs().size() == total, "multi-nchan", info.nchan(), " channels, not ", total);
    if (info.nchan() != total) return;
    for (size_t c = 0; c < total; ++c) VH_EXPECT(std::abs(info.chanFreqs()[c] - fr[c]) < 1 && info.chanWidths()[c] == wi[c], "multi-freq", "channel ", c, " is at ", info.chanFreqs()[c], ", not at ", fr[c]);
    if (!any_missing) {
      VH_EXPECT(info.resolutions() == re && info.effectiveBW() == eb, "multi-freq", "resolutions or bandwidths differ");
      double bw = 0; for (double x : eb) bw += x;
      VH_EXPECT(std::abs(info.totalBW() - bw) < 1e-6 * bw, "multi-bandwidth", "the total bandwidth is ", info.totalBW(), ", not ", bw);
    }
    VH_EXPECT(info.nbaselines() == one.nbaselines() && info.getAnt1() == one.getAnt1() && info.getAnt2() == one.getAnt2() && info.ncorr() == one.ncorr() && info.ntime() == one.ntime() && info.firstTime() == one.firstTime() && info.lastTime() == one.lastTime() && info.timeInterval() == one.timeInterval() && info.antennaNames() == one.antennaNames(), "multi-info", "times, antennas or baselines differ");
    VH_EXPECT(sink->finished == 1, "multi-finish", "finish was called ", sink->finished, " times");
    VH_EXPECT(sink->bufs.size() == single[first]->bufs.size(), "multi-slots", sink->bufs.size(), " slots, not ", single[first]->bufs.size());
    if (sink->bufs.size() != single[first]->bufs.size()) return;
    R().Nontrivial();
    const size_t nbl = info.nbaselines();
    for (size_t s = 0; s < sink->bufs.size(); ++s) {
      R().Count("slots");
      const DPBuffer& b = *sink->bufs[s];
      const DPBuffer& b1 = *single[first]->bufs[s];
      VH_EXPECT(b.GetTime() == b1.GetTime() && b.GetExposure() == b1.GetExposure(), "multi-time", "slot ", s, " has another time");
      if (fields.Uvw()) { VH_EXPECT(b.GetUvw().size() == nbl * 3 && std::equal(b.GetUvw().begin(), b.GetUvw().end(), b1.GetUvw().begin()), "multi-uvw", "slot ", s, " has other uvw"); }
      const std::array<size_t, 3> shape{nbl, total, 4};
      if (fields.Data()) VH_EXPECT(b.GetData().shape() == shape, "multi-shape", "data have another shape");
      if (fields.Flags()) VH_EXPECT(b.GetFlags().shape() == shape, "multi-shape", "flags have another shape");
      if (fields.Weights()) VH_EXPECT(b.GetWeights().shape() == shape, "multi-shape", "weights have another shape");
      if ((fields.Data() && b.GetData().shape() != shape) || (fields.Flags() && b.GetFlags().shape() != shape) || (fields.Weights() && b.GetWeights().shape() != shape)) return;
      if (fields.Data()) for (auto& e : base.extra) VH_EXPECT(b.HasData(e), "multi-extra", "no extra data ", e);
      size_t c0 = 0;
      for (size_t k = 0; k < n; ++k) {
        const size_t i = order[k];
        const size_t nc = there[i] ? ms[i].o.nchan : base.o.nchan;
        for (size_t bl = 0; bl < nbl; ++bl) for (size_t c = 0; c < nc; ++c) for (size_t p = 0; p < 4; ++p) {
          const DPBuffer* q = there[i] ? single[k]->bufs[s].get() : nullptr;
          if (fields.Data()) {
            VH_EXPECT(SameC(b.GetData()(bl, c0 + c, p), q ? q->GetData()(bl, c, p) : cf(0, 0)), "multi-data", "data of band ", k, " differ");
            for (auto& e : base.extra) if (b.HasData(e)) VH_EXPECT(SameC(b.GetData(e)(bl, c0 + c, p), q ? q->GetData(e)(bl, c, p) : cf(0, 0)), "multi-extra", "extra data of band ", k, " differ");
          }
          if (fields.Flags()) VH_EXPECT(b.GetFlags()(bl, c0 + c, p) == (q ? bool(q->GetFlags()(bl, c, p)) : true), "multi-flags", "flags of band ", k, " differ");
          if (fields.Weights()) VH_EXPECT(b.GetWeights()(bl, c0 + c, p) == (q ? q->GetWeights()(bl, c, p) : 0.0f), "multi-weights", "weights of band ", k, " differ");
        }
        c0 += nc;
      }
    }
  });
  // Sets that do not belong together.
  R().Cases("unfit", R().n(500, 5000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 3; mo.obs.max_time = 6; mo.obs.max_ant = 4; mo.gaps = false;
    Ms a = RandomMs(r, R().scratch + "/a.MS", mo);
    const int kind = r.range(0, 7);
    Ms b = a;
    b.name = R().scratch + "/b.MS";
    Refill(r, b, a.o.nchan, a.o.freqs.back() + a.o.widths[0] / 2);
    KV kv;
    bool at_run = false, apply = true;
    switch (kind) {
      case 0: for (auto& q : b.rows) q.time += a.o.dt; for (auto& t : b.times) t += a.o.dt; b.o.t0 += a.o.dt; break;
      case 1: {
        if (a.o.ntime < 2) { apply = false; break; }
        const size_t last = a.o.ntime - 1;
        b.rows.erase(std::remove_if(b.rows.begin(), b.rows.end(), [&](const Row& q) { return q.slot == last; }), b.rows.end());
        b.slots.pop_back(); b.times.pop_back(); --b.o.ntime;
        break;
      }
      case 2: b.antenna_set = a.antenna_set + "X"; break;
      case 3: {
        if (a.o.nbl < 2) { apply = false; break; }
        b.rows.erase(std::remove_if(b.rows.begin(), b.rows.end(), [&](const Row& q) { return q.bl == a.o.nbl - 1; }), b.rows.end());
        break;
      }
      case 4: {
        // Two baselines in another order.
        if (a.o.nbl < 2) { apply = false; break; }
        std::swap(b.o.ant1[0], b.o.ant1[1]); std::swap(b.o.ant2[0], b.o.ant2[1]);
        if (b.o.ant1 == a.o.ant1 && b.o.ant2 == a.o.ant2) apply = false;
        kv.emplace_back("msin.sort", "false");
        break;
      }
      case 5: {
        // A slot is missing.
        if (a.o.ntime < 3) { apply = false; break; }
        at_run = true;
        b.rows.erase(std::remove_if(b.rows.begin(), b.rows.end(), [&](const Row& q) { return q.slot == 1; }), b.rows.end());
        break;
      }
      case 6: kv.emplace_back(r.chance(0.5) ? "msin.startchan" : "msin.nchan", "1"); break;
      default: break;
    }
    R().Describe(a.o.Str() + " kind " + std::to_string(kind) + " " + Text(kv));
    if (!apply) return;
    R().Nontrivial();
    Store(b);
    std::vector<std::string> names{a.name, b.name};
    if (kind == 7) names = {R().scratch + "/x.MS", R().scratch + "/y.MS"};
    auto sink = std::make_shared<Sink>();
    std::shared_ptr<MultiMsReader> multi;
    bool threw = vh::Throws([&] {
      multi = std::make_shared<MultiMsReader>(names, Parset(kv), "msin.");
      multi->setNextStep(sink);
      multi->setFieldsToRead(kAll);
      multi->setInfo(DPInfo());
    });
    if (!at_run) { VH_EXPECT(threw, "multi-unfit", "sets that do not fit were joined, kind ", kind); return; }
    VH_EXPECT(!threw, "multi-unfit-early", "refused");
    if (threw) return;
    VH_EXPECT(vh::Throws([&] { Run(*multi); }), "multi-unfit", "sets of which one lacks a time slot were joined");
    VH_EXPECT(sink->bufs.size() == 1, "multi-unfit", sink->bufs.size(), " slots were passed on before the missing one");
  });
}

// ---- C62 -----------------------------------------------------------------------
void Transferring() {
  R().Cases("transfer", R().n(2500, 40000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 12; mo.obs.max_time = 10; mo.obs.max_ant = 5;
    mo.obs.irregular = r.chance(0.3); mo.weights = 0;
    Ms t = RandomMs(r, R().scratch + "/t.MS", mo);
    const Obs& o = t.o;
    auto around = [&](size_t a) { std::vector<size_t> v; for (size_t b = 0; b < o.nbl; ++b) if (o.names[o.ant1[b]] == o.names[a] || o.names[o.ant2[b]] == o.names[a]) v.push_back(b); return v; };
    // What the reader selects, and what of that the source has.
    std::vector<size_t> target;
    for (size_t b = 0; b < o.nbl; ++b) target.push_back(b);
    KV kv;
    if (r.chance(0.3)) { const size_t a = r.range(0, o.nant - 1); auto v = around(a); if (!v.empty()) { target = v; kv.emplace_back("msin.baseline", o.names[a] + "&&*"); } }
    std::vector<size_t> covered = target;   // baselines in the source
    const bool old = r.chance(0.3);          // FlagTransfer
    const std::string pre = "tr.";
    if (r.chance(0.5)) {
      const size_t a = r.range(0, o.nant - 1);
      std::vector<size_t> v;
      for (size_t b : around(a)) if (std::find(target.begin(), target.end(), b) != target.end()) v.push_back(b);
      if (!v.empty()) { covered = v; kv.emplace_back(pre + "baseline", o.names[a] + "&&*"); }
    }
    if (old && mo.obs.irregular) { /* one width for all channels */ }
    std::vector<size_t> divs;
    for (size_t d = 1; d <= o.nchan; ++d) if (o.nchan % d == 0) divs.push_back(d);
    const size_t ff = (old && mo.obs.irregular) ? 1 : r.pick(divs), tf = r.range(1, 4);
    Ms s = t;
    s.name = R().scratch + "/s.MS";
    s.extra = r.chance(0.3) && !old ? std::vector<std::string>{"OTHER"} : std::vector<std::string>{};
    s.o.nchan = o.nchan / ff; s.o.ntime = (o.ntime + tf - 1) / tf; s.o.dt = o.dt * tf; s.o.t0 = o.t0 + (tf - 1) * o.dt / 2;
    s.o.freqs.clear(); s.o.widths.clear();
    for (size_t c = 0; c < s.o.nchan; ++c) {
      const double lo = o.freqs[c * ff] - o.widths[c * ff] / 2, hi = o.freqs[c * ff + ff - 1] + o.widths[c * ff + ff - 1] / 2;
      s.o.freqs.push_back((lo + hi) / 2); s.o.widths.push_back(hi - lo);
    }
    s.freqs = {s.o.freqs}; s.widths = s.resol = s.effbw = {s.o.widths}; s.bandwidth = {1}; s.ref_freq = {s.o.freqs[0]};
    s.rows.clear(); s.slots.clear(); s.times.clear();
    for (size_t k = 0; k < s.o.ntime; ++k) {
      s.slots.push_back(k); s.times.push_back(s.GridTime(k));
      for (size_t b : covered) {
        Row q;
        q.slot = k; q.bl = b; q.time = s.times.back(); q.exposure = q.interval = s.o.dt;
        for (size_t i = 0; i < s.o.nchan * 4; ++i) {
          q.data.push_back(cf(r.gauss(), r.gauss())); q.flags.push_back(r.chance(0.4)); q.wspec.push_back(1);
          for (auto& e : s.extra) q.extra[e].push_back(cf(r.gauss(), r.gauss()));
        }
        q.weight.assign(4, 1); q.sigma.assign(4, 1);
        s.rows.push_back(q);
      }
    }
    Store(s);
    const bool data = !old && r.chance(0.7), flags = old || !data || r.chance(0.5);
    const bool named = !old && data && r.chance(0.3);
    kv.emplace_back(pre + "source_ms", s.name);
    if (!old) {
      if (data) kv.emplace_back(pre + "data", "true");
      if (flags) kv.emplace_back(pre + "flags", "true");
      if (named) kv.emplace_back(pre + "outputbuffername", "extra");
      if (!s.extra.empty()) kv.emplace_back(pre + "datacolumn", "OTHER");
    }
    R().Describe(o.Str() + " present=" + std::to_string(t.slots.size()) + " ff=" + std::to_string(ff) + " tf=" + std::to_string(tf) + (old ? " flagtransfer " : " transfer ") + Text(kv));
    const ParameterSet ps = Parset(kv);
    auto run = [&](std::shared_ptr<Step> step) {
      auto reader = std::make_shared<MsReader>(cc::MeasurementSet(t.name), ps, "msin.", false);
      auto sink = std::make_shared<Sink>();
      if (step) { reader->setNextStep(step); step->setNextStep(sink); } else reader->setNextStep(sink);
      reader->setFieldsToRead(kAll);
      reader->setInfo(DPInfo());
      Run(*reader);
      return sink;
    };
    auto plain = run(nullptr);
    std::shared_ptr<Step> step;
    if (old) step = std::make_shared<dp3::steps::FlagTransfer>(ps, pre); else step = std::make_shared<dp3::steps::Transfer>(ps, pre);
    const Fields prov = step->getProvidedFields();
    VH_EXPECT(prov.Flags() == flags && prov.Data() == (data && !named) && !prov.Weights() && !prov.Uvw(), "transfer-fields", "other fields are provided");
    auto got = run(step);
    VH_EXPECT(got->bufs.size() == plain->bufs.size() && got->finished == 1, "transfer-slots", got->bufs.size(), " slots, not ", plain->bufs.size());
    if (got->bufs.size() != plain->bufs.size()) return;
    if (covered.size() < target.size() || ff > 1 || tf > 1) R().Nontrivial();
    for (size_t k = 0; k < got->bufs.size(); ++k) {
      Slot want = Snap(*plain->bufs[k]);
      std::vector<cf> ex(want.data.size(), cf(0, 0));
      for (size_t x = 0; x < covered.size(); ++x) {
        const size_t tb = std::find(target.begin(), target.end(), covered[x]) - target.begin();
        const Row& q = s.rows[(k / tf) * covered.size() + x];
        const auto& src = s.extra.empty() ? q.data : q.extra.at("OTHER");
        for (size_t c = 0; c < o.nchan; ++c) for (size_t p = 0; p < 4; ++p) {
          const size_t i = (tb * o.nchan + c) * 4 + p, j = c / ff * 4 + p;
          if (data) { if (named) ex[i] = src[j]; else want.data[i] = src[j]; }
          if (flags) want.flags[i] = q.flags[j];
        }
      }
      Slot have = Snap(*got->bufs[k]);
      have.extra.clear();
      const std::string d = Diff(have, want);
      VH_EXPECT(d.empty(), "transfer", "slot ", k, ": ", d);
      if (named) {
        VH_EXPECT(got->bufs[k]->HasData("extra"), "transfer-named", "no named buffer");
        if (got->bufs[k]->HasData("extra")) { const auto& e = got->bufs[k]->GetData("extra"); for (size_t i = 0; i < ex.size(); ++i) VH_EXPECT(i < e.size() && SameC(e.data()[i], ex[i]), "transfer-named", "slot ", k, " sample ", i, " of the named buffer differs"); }
      }
      R().Count("slots");
    }
  });
  // Sets that are no averaged version.
  R().Cases("transfer-unfit", R().n(300, 3000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 4; mo.obs.max_time = 4; mo.obs.max_ant = 4; mo.gaps = false; mo.weights = 0;
    Ms t = RandomMs(r, R().scratch + "/t.MS", mo), s = t;
    s.name = R().scratch + "/s.MS";
    const int kind = r.range(0, 4);
    bool apply = true;
    KV kv{{"tr.source_ms", s.name}};
    if (r.chance(0.5)) kv.emplace_back("tr.flags", "true"); else kv.emplace_back("tr.data", "true");
    const bool old = kind != 3 && r.chance(0.4);
    switch (kind) {
      case 0: for (auto& q : s.rows) { q.interval *= 1.5; } break;
      case 1: for (auto& q : s.rows) q.time += r.chance(0.5) ? 0.01 : t.o.dt; break;
      case 2: if (t.o.nbl < 2) { apply = false; break; } s.rows.erase(std::remove_if(s.rows.begin(), s.rows.end(), [&](const Row& q) { return q.bl == 0; }), s.rows.end()); break;
      case 3: kv.pop_back(); break;
      default: s.rows.clear(); apply = false; break;
    }
    R().Describe(t.o.Str() + " kind " + std::to_string(kind) + (old ? " flagtransfer" : " transfer"));
    if (!apply) return;
    R().Nontrivial();
    Store(s);
    VH_EXPECT(vh::Throws([&] {
      std::shared_ptr<Step> step;
      if (old) step = std::make_shared<dp3::steps::FlagTransfer>(Parset(kv), "tr."); else step = std::make_shared<dp3::steps::Transfer>(Parset(kv), "tr.");
      auto reader = std::make_shared<MsReader>(cc::MeasurementSet(t.name), Parset({}), "msin.", false);
      auto sink = std::make_shared<Sink>();
      reader->setNextStep(step); step->setNextStep(sink);
      reader->setFieldsToRead(kAll);
      reader->setInfo(DPInfo());
      Run(*reader);
    }), "transfer-unfit", "a source that does not fit was accepted, kind ", kind);
  });
  // A model column.
  R().Cases("column", R().n(1200, 15000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 6; mo.obs.max_time = 8; mo.obs.max_ant = 5; mo.extra = 2;
    Ms m = RandomMs(r, R().scratch + "/m.MS", mo);
    const Obs& o = m.o;
    KV kv;
    std::string col = "DATA2";
    if (r.chance(0.5)) { col = "DATA3"; kv.emplace_back("col.column", "DATA3"); }
    std::vector<size_t> bls;
    for (size_t b = 0; b < o.nbl; ++b) bls.push_back(b);
    if (r.chance(0.4)) {
      const size_t a = r.range(0, o.nant - 1);
      std::vector<size_t> v;
      for (size_t b = 0; b < o.nbl; ++b) if (o.names[o.ant1[b]] == o.names[a] || o.names[o.ant2[b]] == o.names[a]) v.push_back(b);
      if (!v.empty()) { bls = v; kv.emplace_back("msin.baseline", o.names[a] + "&&*"); }
    }
    const bool channels = o.nchan > 1 && r.chance(0.1);
    if (channels) kv.emplace_back("msin.nchan", std::to_string(r.range(1, o.nchan - 1)));
    R().Describe(o.Str() + " present=" + std::to_string(m.slots.size()) + " " + Text(kv));
    const ParameterSet ps = Parset(kv);
    auto reader = std::make_shared<MsReader>(cc::MeasurementSet(m.name), ps, "msin.", false);
    auto step = std::make_shared<dp3::steps::MsColumnReader>(ps, "col.", Step::MsType::kRegular, "DATA2");
    auto sink = std::make_shared<Sink>();
    reader->setNextStep(step); step->setNextStep(sink);
    reader->setFieldsToRead(kAll);
    bool threw = vh::Throws([&] { reader->setInfo(DPInfo()); });
    VH_EXPECT(threw == channels, "column-channels", "a column with another number of channels was ", threw ? "refused" : "accepted");
    if (threw) return;
    Run(*reader);
    R().Nontrivial();
    VH_EXPECT(sink->bufs.size() == o.ntime && sink->finished == 1, "column-slots", sink->bufs.size(), " slots");
    for (size_t k = 0; k < sink->bufs.size(); ++k) {
      const auto rows = m.Rows(k, 0);
      const auto& d = sink->bufs[k]->GetData();
      VH_EXPECT(d.shape(0) == bls.size(), "column-shape", "shape");
      if (d.shape(0) != bls.size()) return;
      for (size_t x = 0; x < bls.size(); ++x) for (size_t i = 0; i < o.nchan * 4; ++i) {
        const cf want = rows.empty() ? cf(0, 0) : m.rows[rows[bls[x]]].extra.at(col)[i];
        VH_EXPECT(SameC(d.data()[x * o.nchan * 4 + i], want), "column-data", "slot ", k, " baseline ", x, " differs from the column");
      }
    }
  });
}
}  // namespace

VH_MAIN({"C61", Multi}, {"C62", Transferring})
