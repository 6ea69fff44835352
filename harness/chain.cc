// Monitors of whole steps: doing nothing (C54), declared fields (C55) and
// superstations (C56).
#include "pipe.h"
#include "glob.h"

#include <schaapcommon/threading/threadpool.h>

#include "steps/Averager.h"
#include "steps/BDAAverager.h"
#include "steps/Combine.h"
#include "steps/Counter.h"
#include "steps/Filter.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/MultiResultStep.h"
#include "steps/NullStokes.h"
#include "steps/NullStep.h"
#include "steps/PhaseShift.h"
#include "steps/PreFlagger.h"
#include "steps/ScaleData.h"
#include "steps/SetBeam.h"
#include "steps/StationAdder.h"
#include "steps/UVWFlagger.h"
#include "steps/Upsample.h"

#include "base/UVWCalculator.h"


namespace {
using namespace ppl;
using dp3::common::Fields;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
void Threads(Rng& r) { schaapcommon::ThreadPool::GetInstance().Force(r.range(1, 5)); }

struct Made {
  std::string kind;
  KV kv;
  std::function<std::shared_ptr<Step>(const ParameterSet&, const std::string&)> make;
  bool same_shape = true;
  std::string Str() const { return kind + " " + Text(kv); }
  std::shared_ptr<Step> Make(const std::string& pre) const {
    KV all; for (auto& [k, v] : kv) all.emplace_back(pre + k, v);
    return make(Parset(all), pre);
  }
};
template <class T> Made Of(const std::string& kind, const KV& kv, bool same = true) { return {kind, kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<T>(p, n); }, same}; }
Made Scale(const KV& kv) { return {"scaledata", kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<dp3::steps::ScaleData>(p, n, Step::MsType::kRegular); }}; }
Made Comb(const KV& kv) { return {"combine", kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<dp3::steps::Combine>(p, n, Step::MsType::kRegular); }}; }
Made Pre(const KV& kv) { return {"preflag", kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<dp3::steps::PreFlagger>(p, n); }}; }
Made Uvw(const KV& kv) { return {"uvwflag", kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<dp3::steps::UVWFlagger>(p, n, Step::MsType::kRegular); }}; }

// A step set up such that it changes nothing.
Made Nothing(Rng& r, const Obs& o) {
  using namespace dp3::steps;
  switch (r.range(0, 13)) {
    case 0: return Of<Counter>("counter", {{"showfullyflagged", "false"}});
    case 1: {
      KV kv;
      if (r.chance(0.5)) kv.emplace_back("beammode", r.pick(std::vector<std::string>{"none", "full", "array_factor", "element", "default"}));
      if (r.chance(0.5)) kv.emplace_back("direction", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1.5, 1.5)) + "rad]");
      return Of<SetBeam>("setbeam", kv);
    }
    case 2: if (o.ncorr == 4) return Of<NullStokes>("nullstokes", {{"modify_q", "false"}}); [[fallthrough]];
    case 3: return Scale({{"stations", "*"}, {"coeffs", "1"}, {"scalesize", "false"}});
    case 4: return Pre(r.pick(std::vector<KV>{{{"amplmax", "1e30"}}, {{"amplmin", "-1"}}, {{"timeslot", "[100000]"}}, {{"uvmmax", "1e30"}, {"baseline", "NOSUCH&&NOSUCH2"}}, {{"chan", "[100000..100002]"}}, {{"mode", "clear"}, {"amplmax", "1e30"}}, {{"elevation", "[91deg..95deg]"}}}));
    case 5: return Uvw({});
    case 6: return Uvw(r.pick(std::vector<KV>{{{"uvmmin", "-1"}}, {{"uvmrange", "[1e29..1e30]"}}, {{"umrange", "[1e29..1e30]"}}, {{"uvlambdamax", "1e30"}}, {{"wlambdarange", "[1e28..1e29]"}, {"phasecenter", "[0.3rad,0.2rad]"}}}));
    case 7: { KV kv; if (r.chance(0.5)) kv.emplace_back("freqstep", "1"); if (r.chance(0.5)) kv.emplace_back("timestep", "1"); if (r.chance(0.3)) kv.emplace_back("minpoints", "0"); return Of<Averager>("averager", kv); }
    case 8: return Of<Counter>("counter", {});
    case 9: return {"filter", r.pick(std::vector<KV>{{}, {{"startchan", "0"}, {"nchan", "0"}}, {{"nchan", std::to_string(o.nchan)}}, {{"nchan", std::to_string(o.nchan + 7)}}, {{"baseline", "*&&*"}}, {{"blrange", "[-1,1e30]"}}, {{"remove", "true"}}}),
                    [](const ParameterSet& p, const std::string& n) { return std::make_shared<Filter>(p, n); }};
    case 10: return Of<StationAdder>("stationadder", r.pick(std::vector<KV>{{{"stations", "{}"}}, {{"stations", "{S1:[NOSUCH*]}"}}}));
    case 11: return {"multiresult", {}, [](const ParameterSet&, const std::string&) { return std::make_shared<MultiResultStep>(64); }};
    case 12: return Comb({{"buffername", "zero"}, {"operation", r.chance(0.5) ? "add" : "subtract"}});
    default: return {"phaseshift", {{"phasecenter", "[]"}}, [](const ParameterSet& p, const std::string& n) { return std::make_shared<PhaseShift>(p, n); }};
  }
}

// ---- C54 ---------------------------------------------------------------------
void C54() {
  R().Cases("nothing", R().n(4000, 60000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 8; oo.max_time = 8;
    const Obs o = RandomObs(r, oo);
    Threads(r);
    std::vector<Made> made;
    const size_t n = r.range(1, 4);
    while (made.size() < n) {
      Made m = Nothing(r, o);
      // Combining consumes its buffer.
      if (m.kind == "combine") { bool used = false; for (auto& q : made) used = used || q.kind == "combine"; if (used) continue; }
      made.push_back(std::move(m));
    }
    std::string text;
    bool combine = false, shift = false, station = false;
    std::vector<std::shared_ptr<Step>> steps;
    for (size_t i = 0; i < made.size(); ++i) { text += made[i].Str() + "| "; combine = combine || made[i].kind == "combine"; shift = shift || made[i].kind == "phaseshift"; station = station || made[i].kind == "stationadder" || made[i].kind == "averager" || made[i].kind == "filter"; steps.push_back(made[i].Make("s" + std::to_string(i) + ".")); }
    R().Describe(o.Str() + " | " + text);
    R().Nontrivial();
    const DPInfo info_in = o.Info();  // outlives the steps, as an input step does
    auto sink = Connect(steps, info_in);
    std::vector<Slot> in;
    for (size_t t = 0; t < o.ntime; ++t) {
      auto b = RandomBuffer(r, o, t);
      Slot s = Snap(*b);
      if (combine) { b->AddData("zero"); std::fill_n(b->GetData("zero").data(), b->GetData("zero").size(), cf(0, 0)); }
      in.push_back(std::move(s));
      steps.front()->process(std::move(b));
    }
    steps.front()->finish();
    VH_EXPECT(sink->Protocol().empty(), "protocol", sink->Protocol());
    VH_EXPECT(sink->bufs.size() == in.size(), "slots", in.size(), " slots in, ", sink->bufs.size(), " out");
    for (size_t t = 0; t < in.size(); ++t) {
      Slot got = Snap(*sink->bufs[t]);
      R().Count("slots", 1);
      if (shift) {
        // A shift of zero may round.
        for (size_t i = 0; i < got.data.size(); ++i) VH_EXPECT(std::abs(got.data[i] - in[t].data[i]) <= 1e-5f * std::abs(in[t].data[i]), "changed", "data of slot ", t);
        for (size_t i = 0; i < got.uvw.size(); ++i) VH_EXPECT(std::fabs(got.uvw[i] - in[t].uvw[i]) <= 1e-7, "changed", "uvw of slot ", t);
        got.data = in[t].data; got.uvw = in[t].uvw;
      }
      VH_EXPECT(Diff(in[t], got).empty(), "changed", Diff(in[t], got), " of slot ", t);
    }
    // The metadata.
    const DPInfo &a = steps.front()->getInfoIn(), &z = sink->getInfoOut();
    const DPInfo ref = o.Info();
    VH_EXPECT(z.nbaselines() == ref.nbaselines() && z.nchan() == ref.nchan() && z.ncorr() == ref.ncorr(), "info-shape", "dimensions changed");
    VH_EXPECT(z.firstTime() == ref.firstTime() && z.lastTime() == ref.lastTime() && z.ntime() == ref.ntime() && z.timeInterval() == ref.timeInterval(), "info-times", "times changed");
    VH_EXPECT(z.chanFreqs() == ref.chanFreqs() && z.chanWidths() == ref.chanWidths(), "info-channels", "channels changed");
    VH_EXPECT(z.getAnt1().size() == ref.getAnt1().size(), "info-baselines", "baselines changed");
    bool remove = false;
    for (auto& m : made) for (auto& [k, v] : m.kv) remove = remove || k == "remove";
    if (!remove) VH_EXPECT(z.antennaNames() == ref.antennaNames() && z.getAnt1() == ref.getAnt1() && z.getAnt2() == ref.getAnt2(), "info-antennas", "antennas changed");
    else for (size_t b = 0; b < o.nbl; ++b) VH_EXPECT(z.antennaNames()[z.getAnt1()[b]] == o.names[o.ant1[b]] && z.antennaNames()[z.getAnt2()[b]] == o.names[o.ant2[b]], "info-antennas", "baseline ", b);
    (void)a;
    // What SetBeam states.
    int mode = 0; std::array<double, 2> dir{}; bool set = false;
    for (auto& m : made)
      if (m.kind == "setbeam") {
        set = true; mode = 1; dir = {o.ra, o.dec};
        for (auto& [k, v] : m.kv) {
          if (k == "beammode") mode = v == "none" ? 0 : v == "array_factor" ? 2 : v == "element" ? 3 : 1;
          else std::sscanf(v.c_str(), "[%lfrad,%lfrad]", &dir[0], &dir[1]);
        }
      }
    VH_EXPECT(z.beamCorrectionMode() == (set ? mode : 0), "beam-mode", "mode ", z.beamCorrectionMode(), " expected ", mode);
    if (set) {
      const auto v = z.beamCorrectionDir().getValue().get();
      VH_EXPECT(std::fabs(std::sin((v[0] - dir[0]) / 2)) < 1e-9 && std::fabs(v[1] - dir[1]) < 1e-9, "beam-direction", v[0], " ", v[1], " expected ", dir[0], " ", dir[1]);
    }
  });
}

// ---- C55 ---------------------------------------------------------------------
std::string OneOf(Rng& r, std::vector<std::string> v) { return r.pick(v); }
Made Any(Rng& r, const Obs& o) {
  using namespace dp3::steps;
  const auto range = [&](double lo, double hi) { double a = r.real(lo, hi), b = r.real(lo, hi); if (a > b) std::swap(a, b); return "[" + Fmt(a) + ".." + Fmt(b) + "]"; };
  switch (r.range(0, 14)) {
    case 0: return Of<Counter>("counter", {});
    case 1: return Of<SetBeam>("setbeam", {});
    case 2: if (o.ncorr == 4) return Of<NullStokes>("nullstokes", {{"modify_" + OneOf(r, {"i", "q", "u", "v"}), "true"}}); [[fallthrough]];
    case 3: return Scale({{"stations", "*"}, {"coeffs", Fmt(r.real(0.1, 5))}, {"scalesize", "false"}});
    case 4: case 5: {
      KV kv;
      if (r.chance(0.7)) kv.emplace_back("mode", OneOf(r, {"set", "clear", "setcomplement", "clearcomplement"}));
      const size_t n = r.range(1, 3);
      auto criterion = [&](const std::string& pre) {
        switch (r.range(0, 9)) {
          case 0: return std::pair(pre + "amplmin", Fmt(r.real(0, 4)));
          case 1: return std::pair(pre + "amplmax", Fmt(r.real(0, 4)));
          case 2: return std::pair(pre + "phasemin", Fmt(r.real(-3, 3)));
          case 3: return std::pair(pre + "realmax", Fmt(r.real(-3, 3)));
          case 4: return std::pair(pre + "imagmin", Fmt(r.real(-3, 3)));
          case 5: return std::pair(pre + "uvmmin", Fmt(r.real(0, 5e3)));
          case 6: return std::pair(pre + "uvmmax", Fmt(r.real(5.1e3, 1e4)));
          case 7: return std::pair(pre + "chan", "[" + std::to_string(r.below(o.nchan)) + "]");
          case 8: return std::pair(pre + "timeslot", "[" + std::to_string(r.below(o.ntime)) + "]");
          default: return std::pair(pre + "baseline", o.names[r.below(o.nant)] + "&&*");
        }
      };
      std::set<std::string> used;
      for (size_t i = 0; i < n; ++i) { auto c = criterion(""); if (used.insert(c.first).second) kv.push_back(c); }
      if (r.chance(0.3)) {
        kv.emplace_back("expr", OneOf(r, {"a & b", "a | b", "!a", "a & !b", "(a | b) & a"}));
        kv.push_back(criterion("a.")); kv.push_back(criterion("b."));
      }
      return Pre(kv);
    }
    case 6: {
      KV kv;
      if (r.chance(0.9)) kv.emplace_back(OneOf(r, {"uvmrange", "umrange", "vmrange", "wmrange", "uvlambdarange", "ulambdarange", "vlambdarange", "wlambdarange"}), range(0, 1e4));
      if (r.chance(0.4)) kv.emplace_back("phasecenter", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1, 1)) + "rad]");
      return Uvw(kv);
    }
    case 7: { size_t f = r.range(1, o.nchan); while (o.nchan % f) --f; const size_t t = r.range(1, 3); return Of<Averager>("averager", {{"freqstep", std::to_string(f)}, {"timestep", std::to_string(t)}}, f == 1 && t == 1); }
    case 8: return Of<MadFlagger>("madflagger", {{"threshold", Fmt(r.real(0.5, 3))}, {"timewindow", std::to_string(2 * r.range(0, 2) + 1)}, {"freqwindow", std::to_string(2 * r.range(0, 2) + 1)}});
    case 9: {
      KV kv;
      if (r.chance(0.5)) kv.emplace_back("startchan", std::to_string(r.below(o.nchan)));
      if (r.chance(0.4)) kv.emplace_back("baseline", o.names[o.ant1[0]] + "&&*");
      if (r.chance(0.3)) kv.emplace_back("remove", "true");
      return {"filter", kv, [](const ParameterSet& p, const std::string& n) { return std::make_shared<Filter>(p, n); }, kv.empty()};
    }
    case 10: return Of<StationAdder>("stationadder", {{"stations", "{SUPER:[" + o.names[0] + "," + o.names[1] + "]}"}, {"autocorr", OneOf(r, {"true", "false"})}, {"average", OneOf(r, {"true", "false"})}, {"useweights", OneOf(r, {"true", "false"})}}, false);
    case 11: { const size_t t = r.range(2, 4); return Of<Upsample>("upsample", {{"timestep", std::to_string(t)}, {"updateuvw", OneOf(r, {"true", "false"})}}, false); }
    case 12: return Comb({{"buffername", "extra0"}, {"operation", OneOf(r, {"add", "subtract"})}});
    case 13: return Of<Interpolate>("interpolate", {{"windowsize", std::to_string(2 * r.range(0, 3) + 1)}});
    default: return {"phaseshift", {{"phasecenter", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1, 1)) + "rad]"}}, [](const ParameterSet& p, const std::string& n) { return std::make_shared<PhaseShift>(p, n); }};
  }
}

void C55() {
  R().Cases("fields", R().n(5000, 80000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_chan = 8; oo.max_time = 6;
    const Obs o = RandomObs(r, oo);
    Threads(r);
    const Made m = Any(r, o);
    R().Describe(o.Str() + " | " + m.Str());
    auto full = m.Make("s."), bare = m.Make("s.");
    const Fields need = full->getRequiredFields(), give = full->getProvidedFields();
    const DPInfo info_in = o.Info();
    std::shared_ptr<Sink> sf = Connect({full}, info_in), sb = Connect({bare}, info_in);
    // Whether they are asked before or after the metadata is known.
    VH_EXPECT(full->getRequiredFields() == need && full->getProvidedFields() == give, "fields-vary", "declared fields changed when the metadata was set");
    R().Nontrivial();
    R().Count("fields-left-out", !need.Data() + !need.Flags() + !need.Weights() + !need.Uvw());
    std::vector<Slot> in;
    for (size_t t = 0; t < o.ntime; ++t) {
      BufOpt bo; bo.extra = m.kind == "combine" ? 1 : 0;
      auto b = RandomBuffer(r, o, t, bo);
      auto c = std::make_unique<DPBuffer>(*b);
      in.push_back(Snap(*b));
      if (!need.Data()) c->GetData().resize({0, 0, 0});
      if (!need.Flags()) c->GetFlags().resize({0, 0, 0});
      if (!need.Weights()) c->GetWeights().resize({0, 0, 0});
      if (!need.Uvw()) c->GetUvw().resize({0, 0});
      sb->check_shape = false;
      full->process(std::move(b));
      bare->process(std::move(c));
    }
    full->finish(); bare->finish();
    VH_EXPECT(sf->Protocol().empty() && sb->Protocol().empty(), "protocol", sf->Protocol(), " / ", sb->Protocol());
    VH_EXPECT(sf->bufs.size() == sb->bufs.size(), "slots", sf->bufs.size(), " slots with all fields, ", sb->bufs.size(), " with the required ones");
    for (size_t t = 0; t < sf->bufs.size(); ++t) {
      const DPBuffer &a = *sf->bufs[t], &b = *sb->bufs[t];
      VH_EXPECT(a.GetTime() == b.GetTime() && a.GetExposure() == b.GetExposure(), "needs-more", "time or exposure of slot ", t, " differs");
      const Fields f = Fields(need) |= give;
      if (f.Data()) VH_EXPECT(SameData(Vec<cf>(a.GetData()), Vec<cf>(b.GetData())), "needs-more", "data of slot ", t, " depend on fields that are not required");
      if (f.Flags()) VH_EXPECT(Vec<char>(a.GetFlags()) == Vec<char>(b.GetFlags()), "needs-more", "flags of slot ", t, " depend on fields that are not required");
      if (f.Weights()) VH_EXPECT(Vec<float>(a.GetWeights()) == Vec<float>(b.GetWeights()), "needs-more", "weights of slot ", t, " depend on fields that are not required");
      if (f.Uvw()) VH_EXPECT(Vec<double>(a.GetUvw()) == Vec<double>(b.GetUvw()), "needs-more", "uvw of slot ", t, " depend on fields that are not required");
      if (m.same_shape && t < in.size()) {
        if (!give.Data()) VH_EXPECT(SameData(Vec<cf>(a.GetData()), in[t].data), "changes-more", "data of slot ", t, " changed but not declared");
        if (!give.Flags()) VH_EXPECT(Vec<char>(a.GetFlags()) == in[t].flags, "changes-more", "flags of slot ", t, " changed but not declared");
        if (!give.Weights()) VH_EXPECT(Vec<float>(a.GetWeights()) == in[t].weights, "changes-more", "weights of slot ", t, " changed but not declared");
        if (!give.Uvw()) VH_EXPECT(Vec<double>(a.GetUvw()) == in[t].uvw, "changes-more", "uvw of slot ", t, " changed but not declared");
      }
    }
  });
}

// ---- C56 ---------------------------------------------------------------------
void C56() {
  R().Cases("superstations", R().n(3000, 50000), [](Rng& r, size_t) {
    ObsOpt oo;
    oo.max_ant = 8; oo.max_chan = 6; oo.max_time = 3;
    const Obs o = RandomObs(r, oo);
    const bool make_auto = r.chance(0.5), sum_auto = r.chance(0.6), average = r.chance(0.6), use_weights = r.chance(0.6);
    const size_t min_points = r.pick(std::vector<size_t>{1, 1, 2, 3});
    // Disjoint groups of stations, given by name, pattern and exclusion.
    const size_t n_super = r.range(1, 3);
    std::vector<int> group(o.nant, -1);
    std::vector<std::string> pats(n_super);
    std::vector<std::set<int>> parts(n_super);
    for (size_t i = 0; i < o.nant; ++i) if (r.chance(0.7)) group[i] = r.below(n_super);
    for (size_t s = 0; s < n_super; ++s) {
      std::vector<std::string> l;
      std::set<int> sel;
      auto add = [&](const std::string& p, bool neg) {
        l.push_back((neg ? std::string(r.chance(0.5) ? "!" : "^") : std::string()) + p);
        for (size_t i = 0; i < o.nant; ++i) if (GlobMatch(p, o.names[i])) { if (neg) sel.erase(i); else sel.insert(i); }
      };
      if (r.chance(0.3)) {
        // All of them, and then without those of other groups.
        add("*", false);
        for (size_t i = 0; i < o.nant; ++i) if (group[i] != int(s)) add(o.names[i], true);
      } else {
        for (size_t i = 0; i < o.nant; ++i) if (group[i] == int(s)) add(r.chance(0.3) ? o.names[i].substr(0, 2) + "?" + o.names[i].substr(3, 2) + "*" : o.names[i], false);
      }
      parts[s] = sel;
      pats[s] = "[" + vh::Join(l, ",") + "]";
    }
    KV kv;
    std::string rec = "{";
    for (size_t s = 0; s < n_super; ++s) rec += (s ? ", " : "") + ("SUP" + std::to_string(s)) + ":" + pats[s];
    rec += "}";
    kv = {{"a.stations", rec}, {"a.autocorr", make_auto ? "true" : "false"}, {"a.sumauto", sum_auto ? "true" : "false"}, {"a.average", average ? "true" : "false"}, {"a.useweights", use_weights ? "true" : "false"}, {"a.minpoints", std::to_string(min_points)}};
    R().Describe(o.Str() + " | " + Text(kv));
    // Overlapping groups are refused.
    bool overlap = false;
    for (size_t s = 0; s < n_super; ++s) for (size_t q = 0; q < s; ++q) for (int i : parts[s]) overlap = overlap || parts[q].count(i);
    auto step = std::make_shared<dp3::steps::StationAdder>(Parset(kv), "a.");
    if (overlap) { auto sink = std::make_shared<Sink>(); step->setNextStep(sink); VH_EXPECT(vh::Throws([&] { step->setInfo(o.Info()); }), "overlap-accepted", "a station in two superstations was accepted"); R().Nontrivial(); return; }
    auto sink = Connect({step}, o.Info());
    const DPInfo& info = sink->getInfoOut();
    // Expected new antennas and baselines.
    struct Bl { int a1, a2; std::vector<std::pair<int, bool>> from; };  // from: baseline, conjugated
    std::vector<Bl> bls;
    for (size_t b = 0; b < o.nbl; ++b) bls.push_back({o.ant1[b], o.ant2[b], {}});
    int next = int(o.nant);
    std::vector<std::string> names = o.names;
    std::vector<std::array<double, 3>> pos;
    for (size_t i = 0; i < o.nant; ++i) pos.push_back({o.x[i], o.y[i], o.z[i]});
    std::vector<double> diam = o.diam;
    std::vector<int> id(n_super, -1);
    for (size_t s = 0; s < n_super; ++s) {
      if (parts[s].empty()) continue;
      id[s] = next++;
      names.push_back("SUP" + std::to_string(s));
      std::array<double, 3> p{};
      for (int i : parts[s]) { p[0] += o.x[i]; p[1] += o.y[i]; p[2] += o.z[i]; }
      for (double& v : p) v /= parts[s].size();
      double d = 0;
      for (int i : parts[s]) d = std::max(d, std::sqrt(std::pow(o.x[i] - p[0], 2) + std::pow(o.y[i] - p[1], 2) + std::pow(o.z[i] - p[2], 2)) + o.diam[i] / 2);
      pos.push_back(p); diam.push_back(2 * d);
    }
    size_t n_new = 0;
    for (size_t s = 0; s < n_super; ++s) {
      if (id[s] < 0) continue;
      std::map<int, Bl> add;  // by the other station
      const size_t have = bls.size();
      for (size_t b = 0; b < have; ++b) {
        const bool in1 = parts[s].count(bls[b].a1), in2 = parts[s].count(bls[b].a2);
        if (in1 && in2) {
          if (make_auto && (bls[b].a1 == bls[b].a2) == sum_auto) { auto& q = add[id[s]]; q.a1 = q.a2 = id[s]; q.from.push_back({int(b), false}); }
        } else if (in1 || in2) {
          const int other = in1 ? bls[b].a2 : bls[b].a1;
          auto& q = add[other]; q.a1 = other; q.a2 = id[s]; q.from.push_back({int(b), in1});
        }
      }
      // Their order: by the first baseline contributing.
      std::vector<Bl> sorted;
      for (auto& [k, q] : add) sorted.push_back(q);
      std::sort(sorted.begin(), sorted.end(), [](const Bl& a, const Bl& b) { return a.from[0].first < b.from[0].first; });
      for (auto& q : sorted) { bls.push_back(q); ++n_new; }
    }
    R().Count("new-baselines", n_new);
    if (n_new) R().Nontrivial();
    VH_EXPECT(info.antennaNames() == names, "names", "antenna names differ: ", info.antennaNames().size(), " expected ", names.size());
    for (size_t i = 0; i < names.size(); ++i) {
      const auto v = info.antennaPos()[i].getValue();
      for (int k = 0; k < 3; ++k) VH_EXPECT(std::fabs(v(k) - pos[i][k]) < 1e-5, "position", "position of ", names[i]);
      VH_EXPECT(std::fabs(info.antennaDiam()[i] - diam[i]) < 1e-5 * (1 + diam[i]), "diameter", "diameter of ", names[i], ": ", info.antennaDiam()[i], " expected ", diam[i]);
    }
    VH_EXPECT(info.nbaselines() == bls.size(), "baselines", info.nbaselines(), " baselines, expected ", bls.size());
    for (size_t b = 0; b < bls.size(); ++b) VH_EXPECT(info.getAnt1()[b] == bls[b].a1 && info.getAnt2()[b] == bls[b].a2, "baselines", "baseline ", b, " is ", info.getAnt1()[b], "-", info.getAnt2()[b], " expected ", bls[b].a1, "-", bls[b].a2);
    VH_EXPECT(info.metaChanged(), "meta-changed", "not marked as changed");
    std::vector<casacore::MPosition> mpos;
    for (auto& p : pos) mpos.push_back(casacore::MPosition(casacore::MVPosition(p[0], p[1], p[2]), casacore::MPosition::ITRF));
    dp3::base::UVWCalculator calc(o.Dir(), o.Pos(0), mpos);
    for (size_t t = 0; t < o.ntime; ++t) {
      BufOpt bo; bo.flag_prob = r.pick(std::vector<double>{0, 0.2, 0.7});
      auto b = RandomBuffer(r, o, t, bo);
      const Slot in = Snap(*b);
      step->process(std::move(b));
      VH_EXPECT(sink->bufs.size() == t + 1, "slot-lost", "no output for slot ", t);
      const Slot got = Snap(*sink->bufs.back());
      VH_EXPECT(got.time == in.time && got.exposure == in.exposure, "time", "time or exposure changed");
      const size_t nc = o.nchan * o.ncorr;
      VH_EXPECT(got.data.size() == bls.size() * nc && got.flags.size() == got.data.size() && got.weights.size() == got.data.size() && got.uvw.size() == 3 * bls.size(), "shape", "shape of slot");
      for (size_t i = 0; i < in.data.size(); ++i) VH_EXPECT(SameC(in.data[i], got.data[i]) && in.flags[i] == got.flags[i] && in.weights[i] == got.weights[i], "old-changed", "sample ", i, " of an existing baseline changed");
      for (size_t i = 0; i < in.uvw.size(); ++i) VH_EXPECT(in.uvw[i] == got.uvw[i], "old-changed", "uvw of an existing baseline changed");
      for (size_t q = o.nbl; q < bls.size(); ++q) {
        // Sources may themselves be new baselines: use what came out for them.
        std::array<double, 3> uvw{}; double uw = 0;
        for (size_t k = 0; k < nc; ++k) {
          cd good = 0, bad = 0; double wg = 0, wb = 0; size_t n = 0; double mag = 0;
          for (auto& [f, conj] : bls[q].from) {
            const size_t i = size_t(f) * nc + k;
            cd v = cd(got.data[i]); if (conj) v = std::conj(v);
            const double w = use_weights ? got.weights[i] : 1;
            mag += std::abs(v) * w;
            if (got.flags[i]) { bad += v * w; wb += w; }
            else { good += v * w; wg += w; ++n; uw += w; for (int x = 0; x < 3; ++x) uvw[x] += (conj ? -1 : 1) * w * got.uvw[3 * f + x]; }
          }
          const bool flag = wg == 0 || n < min_points;
          const cd sum = flag ? good + bad : good;
          const double w = flag ? wg + wb : wg;
          const size_t i = q * nc + k;
          VH_EXPECT(bool(got.flags[i]) == flag, "flag", "baseline ", q, " sample ", k, " flag ", int(got.flags[i]), " expected ", flag);
          VH_EXPECT(std::fabs(got.weights[i] - w) <= 1e-5 * w, "weight", "baseline ", q, " sample ", k, " weight ", got.weights[i], " expected ", w);
          if (std::isnan(mag)) continue;  // flagged means of nothing
          if (!average) VH_EXPECT(std::abs(cd(got.data[i]) - sum) <= 1e-5 * mag + 1e-30, "sum", "baseline ", q, " sample ", k, ": ", got.data[i], " expected ", sum);
          else if (w > 0) VH_EXPECT(std::abs(cd(got.data[i]) - sum / w) <= 1e-5 * mag / w + 1e-30, "mean", "baseline ", q, " sample ", k, ": ", got.data[i], " expected ", sum / w);
          R().Count("samples", 1);
        }
        if (average && uw != 0) {
          for (int x = 0; x < 3; ++x) VH_EXPECT(std::fabs(got.uvw[3 * q + x] - uvw[x] / uw) < 1e-6 * (1 + 1e4), "uvw-mean", "baseline ", q, " axis ", x, ": ", got.uvw[3 * q + x], " expected ", uvw[x] / uw);
        } else {
          const auto want = calc.getUVW(bls[q].a1, bls[q].a2, in.time);
          for (int x = 0; x < 3; ++x) VH_EXPECT(std::fabs(got.uvw[3 * q + x] - want[x]) < 1e-5, "uvw-computed", "baseline ", q, " axis ", x, ": ", got.uvw[3 * q + x], " expected ", want[x]);
        }
      }
    }
    step->finish();
    VH_EXPECT(sink->finished == 1, "protocol", "finish");
  });
}
}  // namespace
VH_MAIN({"C54", C54}, {"C55", C55}, {"C56", C56})
