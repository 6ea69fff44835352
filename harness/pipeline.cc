// Monitors of the pipeline as a whole (C64): a parameter set is turned into
// steps that are run; what ends up in the output measurement sets is compared
// with what the same steps, connected by hand and given everything there is to
// read, deliver at that point.
#include "ms.h"

#include "base/DP3.h"
#include "common/VdsMaker.h"
#include "steps/Averager.h"
#include "steps/Combine.h"
#include "steps/Counter.h"
#include "steps/Filter.h"
#include "steps/InputStep.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/NullStep.h"
#include "steps/NullStokes.h"
#include "steps/OutputStep.h"
#include "steps/PhaseShift.h"
#include "steps/PreFlagger.h"
#include "steps/ScaleData.h"
#include "steps/SetBeam.h"
#include "steps/StationAdder.h"
#include "steps/UVWFlagger.h"
#include "steps/Upsample.h"

#include <fstream>

namespace dp3::common { void VdsMaker::create(const std::string&, const std::string&, const std::string&, const std::string&, bool) {} }

namespace {
using namespace msx;
using dp3::common::Fields;
using KV = std::vector<std::pair<std::string, std::string>>;
std::string Fmt(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string Text(const KV& kv) { std::string s; for (auto& [k, v] : kv) s += k + "=" + v + "; "; return s; }
const Fields kAll = Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw);

class Tee : public Step {
 public:
  std::vector<Slot> slots;
  std::vector<std::vector<size_t>> rows;
  DPInfo info;
  bool process(std::unique_ptr<DPBuffer> b) override {
    slots.push_back(Snap(*b));
    rows.emplace_back(); for (auto x : b->GetRowNumbers()) rows.back().push_back(x);
    return getNextStep()->process(std::move(b));
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
};

enum class Meta { kSame, kMaybe, kChanged };
struct Kind {
  std::vector<std::string> types;
  KV kv;
  Meta meta = Meta::kSame;
  std::function<std::shared_ptr<Step>(const ParameterSet&, const std::string&)> make;
};
template <class T> std::function<std::shared_ptr<Step>(const ParameterSet&, const std::string&)> F1() { return [](const ParameterSet& p, const std::string& n) { return std::make_shared<T>(p, n); }; }
template <class T> std::function<std::shared_ptr<Step>(const ParameterSet&, const std::string&)> F2() { return [](const ParameterSet& p, const std::string& n) { return std::make_shared<T>(p, n, Step::MsType::kRegular); }; }

std::string OneOf(Rng& r, std::vector<std::string> v) { return r.pick(v); }
Kind Any(Rng& r, const Obs& o, bool same) {
  using namespace dp3::steps;
  const auto range = [&](double lo, double hi) { double a = r.real(lo, hi), b = r.real(lo, hi); if (a > b) std::swap(a, b); return "[" + Fmt(a) + ".." + Fmt(b) + "]"; };
  switch (r.range(0, same ? 10 : 16)) {
    case 0: return {{"counter", "count"}, {}, Meta::kSame, F1<Counter>()};
    case 1: return {{"setbeam"}, {{"beammode", OneOf(r, {"none", "full", "element"})}}, Meta::kSame, F1<SetBeam>()};
    case 2: if (o.ncorr == 4) return {{"nullstokes"}, {{"modify_" + OneOf(r, {"q", "u"}), "true"}}, Meta::kSame, F1<NullStokes>()}; [[fallthrough]];
    case 3: return {{"scaledata"}, {{"stations", "*"}, {"coeffs", Fmt(r.real(0.1, 5))}, {"scalesize", "false"}}, Meta::kSame, F2<ScaleData>()};
    case 4: case 5: {
      KV kv{{"mode", OneOf(r, {"set", "clear", "setcomplement"})}};
      switch (r.range(0, 3)) {
        case 0: kv.emplace_back("amplmax", Fmt(r.real(0, 4))); break;
        case 1: kv.emplace_back("uvmmin", Fmt(r.real(0, 5e3))); break;
        case 2: kv.emplace_back("chan", "[" + std::to_string(r.below(o.nchan)) + "]"); break;
        default: kv.emplace_back("baseline", o.names[r.below(o.nant)] + "&&*");
      }
      return {{"preflagger", "preflag"}, kv, Meta::kSame, F1<PreFlagger>()};
    }
    case 6: return {{"uvwflagger", "uvwflag"}, {{OneOf(r, {"uvmrange", "wmrange", "uvlambdarange"}), range(0, 1e4)}}, Meta::kSame, F2<UVWFlagger>()};
    case 7: return {{"madflagger", "madflag"}, {{"threshold", Fmt(r.real(0.5, 3))}, {"timewindow", "3"}, {"freqwindow", "1"}}, Meta::kSame, F1<MadFlagger>()};
    case 8: return {{"interpolate"}, {{"windowsize", std::to_string(2 * r.range(0, 3) + 1)}}, Meta::kSame, F1<Interpolate>()};
    case 9: return {{"counter", "count"}, {{"showfullyflagged", "false"}}, Meta::kSame, F1<Counter>()};
    case 10: return {{"scaledata"}, {{"stations", "*"}, {"coeffs", Fmt(r.real(0.1, 5))}, {"scalesize", "false"}}, Meta::kSame, F2<ScaleData>()};
    case 11: case 12: { size_t f = r.range(1, o.nchan); while (o.nchan % f) --f; const size_t t = r.range(1, 3); return {{"averager", "average", "squash"}, {{"freqstep", std::to_string(f)}, {"timestep", std::to_string(t)}}, f == 1 && t == 1 ? Meta::kMaybe : Meta::kChanged, F1<Averager>()}; }
    case 13: return {{"filter"}, {{"baseline", o.names[o.ant1[0]] + "&&*"}, {"remove", "true"}}, Meta::kMaybe, F1<Filter>()};
    case 14: return {{"stationadder", "stationadd"}, {{"stations", "{SUPER" + std::to_string(r.below(1000)) + ":[" + o.names[0] + "," + o.names[1] + "]}"}, {"autocorr", OneOf(r, {"true", "false"})}, {"minpoints", "1"}}, Meta::kMaybe, F1<StationAdder>()};
    case 15: return {{"upsample"}, {{"timestep", std::to_string(r.range(2, 3))}, {"updateuvw", "true"}}, Meta::kChanged, F1<Upsample>()};
    default: return {{"phaseshifter", "phaseshift"}, {{"phasecenter", "[" + Fmt(r.real(0, 6)) + "rad," + Fmt(r.real(-1, 1)) + "rad]"}}, Meta::kChanged, F1<PhaseShift>()};
  }
}
std::string Case(Rng& r, std::string s) { for (char& c : s) if (r.chance(0.3)) c = std::toupper(c); return s; }

std::shared_ptr<cc::TableRep> Copy(const std::string& name) {
  auto t = cc::Registry::I().Find(name);
  auto c = std::make_shared<cc::TableRep>();
  c->name = t->name; c->nrow = t->nrow; c->kw = t->kw;
  for (auto& x : t->cols) c->cols.push_back(x->Copy());
  return c;
}
template <class T> bool SameV(const T& a, const T& b) { return a == b || (a != a && b != b); }
// 1: the same, 0: not, -1: of another type.
template <class T> int SameAs(const cc::ColBase& a, const cc::ColBase& b, size_t row) {
  if (auto x = dynamic_cast<const cc::ScaCol<T>*>(&a)) { auto y = dynamic_cast<const cc::ScaCol<T>*>(&b); return y && SameV(T(x->v[row]), T(y->v[row])); }
  if (auto x = dynamic_cast<const cc::ArrCol<T>*>(&a)) {
    auto y = dynamic_cast<const cc::ArrCol<T>*>(&b);
    if (!y || x->v[row].size() != y->v[row].size()) return 0;
    for (size_t i = 0; i < x->v[row].size(); ++i) {
      const T p = const_cast<cc::Array<T>&>(x->v[row]).At(i), q = const_cast<cc::Array<T>&>(y->v[row]).At(i);
      if constexpr (std::is_same_v<T, cc::Complex>) { if (!SameC(p, q)) return 0; } else if (!SameV(p, q)) return 0;
    }
    return 1;
  }
  return -1;
}
bool SameCell(const cc::ColBase& a, const cc::ColBase& b, size_t row) {
  for (int k : {SameAs<double>(a, b, row), SameAs<float>(a, b, row), SameAs<int>(a, b, row), SameAs<bool>(a, b, row), SameAs<cc::Complex>(a, b, row), SameAs<cc::String>(a, b, row)}) if (k >= 0) return k;
  return true;
}
template <class T> std::vector<T> Cell(cc::Table& t, const std::string& col, size_t row) {
  cc::Array<T> a = cc::ArrayColumn<T>(t, col).get(row);
  std::vector<T> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(a.At(i));
  return v;
}

void Clean(Ms& m) {
  for (Row& q : m.rows) {
    q.flag_row = false;
    const size_t nc = q.flags.size() / m.o.ncorr;
    for (size_t c = 0; c < nc; ++c)
      for (size_t p = 0; p < m.o.ncorr; ++p) {
        cf& v = q.data[c * m.o.ncorr + p];
        if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) v = cf(1, 0);
        q.flags[c * m.o.ncorr + p] = q.flags[c * m.o.ncorr];
      }
  }
}

struct Out { std::string name; bool update; std::shared_ptr<Tee> tee; };

void Pipeline() {
  R().Cases("run", R().n(1200, 25000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 6; mo.obs.max_time = 6; mo.obs.max_ant = 5; mo.weights = r.chance(0.8) ? 0 : 2; mo.fixed = true;
    const std::string name = R().scratch + "/in.MS";
    Ms m = RandomMs(r, name, mo);
    Clean(m);
    Store(m);
    const Obs& o = m.o;
    KV kv;
    kv.emplace_back(r.chance(0.5) ? "msin" : "msin.name", r.chance(0.3) ? R().scratch + "/./in.MS" : name);
    const int final_mode = r.range(0, 3);  // 0: new, 1: update by "", 2: by ".", 3: by name
    const bool last_is_out = r.chance(0.2);
    std::string names;
    std::vector<std::pair<std::string, Kind>> list;   // no types: an output
    std::vector<std::pair<size_t, Out>> outs;         // after how many steps
    std::string current = name;
    const size_t n = r.range(0, 4);
    bool changed = false, maybe = false, throws = false, may_throw = false, any_new = false;
    Obs cur = o;
    std::set<std::string> used_names;
    auto add_out = [&](const std::string& pre, const std::string& key, int mode) {
      Out t{current, mode != 0, std::make_shared<Tee>()};
      std::string v = mode == 1 ? "" : ".";
      if (mode == 0) { t.name = R().scratch + "/" + pre + ".MS"; v = t.name; any_new = true; }
      if (mode == 3) v = r.chance(0.5) ? current : R().scratch + "/../" + R().scratch.substr(R().scratch.rfind('/') + 1) + current.substr(current.rfind('/'));
      kv.emplace_back(key, v);
      if (mode != 0) { throws = throws || changed; may_throw = may_throw || maybe; }
      current = t.name;
      changed = maybe = false;
      outs.emplace_back(list.size(), t);
    };
    for (size_t i = 0; i < n; ++i) {
      const bool want_out = r.chance(0.2);
      std::string sn;
      if (want_out) {
        const std::string base = OneOf(r, {"out", "output", "msout"});
        if (base == "msout") sn = "o" + std::to_string(i), kv.emplace_back(sn + ".type", Case(r, "msout"));
        else sn = base + std::to_string(i);
        // Later steps have the row numbers of the last new set.
        add_out(sn, sn + ".name", any_new ? (r.chance(0.5) ? 0 : 2) : int(r.pick(std::vector<int>{0, 0, 1, 2, 3})));
        if (outs.back().second.update) kv.emplace_back(sn + ".overwrite", "false");
      } else {
        Kind k = Any(r, o, final_mode != 0 && r.chance(0.85));
        const std::string type = r.pick(k.types);
        if (r.chance(0.5)) sn = Case(r, type) + std::to_string(i);
        else { sn = "step" + std::string(1, char('a' + i)); kv.emplace_back(sn + ".type", Case(r, type)); }
        for (auto& [key, v] : k.kv) kv.emplace_back(sn + "." + key, v);
        changed = changed || k.meta == Meta::kChanged;
        maybe = maybe || k.meta == Meta::kMaybe;
        list.emplace_back(sn, k);
      }
      names += (names.empty() ? "" : ",") + sn;
    }
    kv.emplace_back("steps", "[" + names + "]");
    const bool ends_out = !outs.empty() && outs.back().first == list.size() && n > 0 && names.size() && kv.size();
    // The pipeline adds a last output when the last step is none.
    const bool really_ends_out = ends_out && !names.empty() && [&] { size_t steps_after = list.size() - outs.back().first; return steps_after == 0; }();
    if (!really_ends_out) {
      // With "." the input is meant; the rows are those of the last new set.
      if (any_new) { if (r.chance(0.5)) add_out("final", r.chance(0.5) ? "msout" : "msout.name", 0); else add_out("final2", "msout", 0); }
      else add_out("final", r.chance(0.5) ? "msout" : "msout.name", final_mode);
    } else if (r.chance(0.5)) {
      kv.emplace_back("msout", "");
    }
    (void)last_is_out;
    if (r.chance(0.5)) kv.emplace_back("numthreads", std::to_string(r.range(1, 4)));
    if (r.chance(0.3)) kv.emplace_back("showprogress", "false");
    if (r.chance(0.3)) kv.emplace_back("showcounts", "false");
    if (r.chance(0.3)) kv.emplace_back("showtimings", "false");
    R().Describe("weights=" + std::to_string(m.weights) + " " + o.Str() + " | " + Text(kv));
    const auto before = Copy(name);

    // The reference: everything is read; what an output gets is recorded.
    const ParameterSet ps = Parset(kv);
    bool ref_threw = false;
    try {
      std::shared_ptr<dp3::steps::InputStep> reader = dp3::steps::InputStep::CreateReader(ps);
      reader->setFieldsToRead(kAll);
      std::vector<std::shared_ptr<Step>> all{reader};
      size_t k = 0;
      for (size_t i = 0; i <= list.size(); ++i) {
        for (; k < outs.size() && outs[k].first == i; ++k) all.push_back(outs[k].second.tee);
        if (i < list.size()) all.push_back(list[i].second.make(ps, list[i].first + "."));
      }
      all.push_back(std::make_shared<dp3::steps::NullStep>());
      for (size_t i = 0; i + 1 < all.size(); ++i) all[i]->setNextStep(all[i + 1]);
      reader->setInfo(DPInfo());
      size_t guard = 0;
      while (guard++ < 200 && reader->process(std::make_unique<DPBuffer>())) {}
      reader->finish();
      for (auto& [i, t] : outs) t.tee->info = t.tee->getInfoOut();
    } catch (std::exception& e) { ref_threw = true; }
    if (ref_threw) { R().Count("reference refuses", 1); return; }

    // The real thing, with the parameters divided over a file and arguments.
    std::vector<std::string> args{"DP3"};
    std::string file;
    if (r.chance(0.6)) {
      file = R().scratch + "/run.parset";
      std::ofstream f(file);
      args.push_back(file);
      for (auto& [key, v] : kv) {
        const bool arg = r.chance(0.4);
        if (!arg) f << key << " = " << (v.empty() ? "''" : v) << "\n";
        else {
          // An argument overrides the file.
          if (r.chance(0.5) && key != "steps") f << key << " = nonsense\n";
          args.push_back(key + "=" + v);
        }
      }
    } else {
      for (auto& [key, v] : kv) args.push_back(key + "=" + v);
    }
    bool threw = false; std::string what;
    try { dp3::base::ExecuteFromCommandLine(args); } catch (std::exception& e) { threw = true; what = e.what(); }
    if (throws) {
      R().Nontrivial();
      VH_EXPECT(threw, "update-changed", "the measurement set is updated although its structure changed");
      return;
    }
    if (may_throw && threw) return;
    VH_EXPECT(!threw, "pipeline-throws", what);
    if (threw) return;
    R().Nontrivial();

    // Of several writes to the same set the last one stays.
    for (size_t k = 0; k < outs.size(); ++k) {
      const Out& t = outs[k].second;
      bool later = false;
      for (size_t l = k + 1; l < outs.size(); ++l) later = later || outs[l].second.name == t.name;
      if (later) continue;
      bool made_here = false;  // the set is new
      for (size_t l = 0; l <= k; ++l) made_here = made_here || (outs[l].second.name == t.name && !outs[l].second.update);
      VH_EXPECT(cc::Registry::I().Find(t.name) != nullptr, "no-output", t.name, " was not written");
      if (!cc::Registry::I().Find(t.name)) continue;
      cc::Table tab(t.name);
      const DPInfo& info = t.tee->info;
      const size_t nbl = info.nbaselines(), per = info.nchan() * info.ncorr();
      if (made_here) VH_EXPECT(tab.nrow() == t.tee->slots.size() * nbl, "rows", t.name, " has ", tab.nrow(), " rows for ", t.tee->slots.size(), " slots of ", nbl);
      if (made_here && tab.nrow() != t.tee->slots.size() * nbl) continue;
      for (size_t s = 0; s < t.tee->slots.size(); ++s) {
        const Slot& want = t.tee->slots[s];
        if (!made_here && t.tee->rows[s].empty()) continue;  // was not in the set
        for (size_t b = 0; b < nbl; ++b) {
          const size_t row = made_here ? s * nbl + b : t.tee->rows[s][b];
          R().Count("rows", 1);
          const auto d = Cell<cc::Complex>(tab, "DATA", row);
          const auto f = Cell<bool>(tab, "FLAG", row);
          VH_EXPECT(d.size() == per && f.size() == per, "shape", t.name, " row ", row);
          if (d.size() != per || f.size() != per) return;
          size_t bad_d = per, bad_f = per, bad_w = per;
          for (size_t x = 0; x < per; ++x) {
            if (!SameC(d[x], want.data[b * per + x])) bad_d = x;
            if (bool(f[x]) != bool(want.flags[b * per + x])) bad_f = x;
          }
          const bool has_w = tab.tableDesc().isColumn("WEIGHT_SPECTRUM");
          if (made_here) VH_EXPECT(has_w, "weights", t.name, " has no weights");
          if (has_w) { const auto w = Cell<float>(tab, "WEIGHT_SPECTRUM", row); for (size_t x = 0; x < per; ++x) if (w.size() != per || w[x] != want.weights[b * per + x]) bad_w = x; }
          const std::string at = t.name.substr(t.name.rfind('/') + 1) + (t.update ? " (updated)" : " (new)") + " slot " + std::to_string(s) + " baseline " + std::to_string(b);
          VH_EXPECT(bad_d == per, "data", at, " value ", bad_d, ": ", d[bad_d % per], " expected ", want.data[b * per + bad_d % per]);
          VH_EXPECT(bad_f == per, "flags", at, " value ", bad_f);
          VH_EXPECT(bad_w == per, "weights", at, " value ", bad_w);
          if (bad_d != per || bad_f != per || bad_w != per) return;
          const auto u = Cell<double>(tab, "UVW", row);
          for (size_t q = 0; q < 3; ++q) VH_EXPECT(u.size() == 3 && u[q] == want.uvw[b * 3 + q], "uvw", at);
          if (made_here) {
            VH_EXPECT(cc::ScalarColumn<double>(tab, "TIME").get(row) == want.time, "time", at);
            VH_EXPECT(size_t(cc::ScalarColumn<int>(tab, "ANTENNA1").get(row)) == info.getAnt1()[b] && size_t(cc::ScalarColumn<int>(tab, "ANTENNA2").get(row)) == info.getAnt2()[b], "antennas", at);
          }
        }
      }
    }
    // The input is left alone, unless it is to be updated.
    bool updated = false;
    for (auto& [i, t] : outs) updated = updated || t.name == name;
    cc::Table in(name);
    VH_EXPECT(in.nrow() == before->nrow, "input-rows", "the input has another number of rows");
    for (auto& c : before->cols) {
      const std::string cn = c->desc.name();
      if (updated && (cn == "DATA" || cn == "FLAG" || cn == "WEIGHT_SPECTRUM" || cn == "FLAG_ROW")) continue;
      auto now = cc::Registry::I().Find(name)->Col(cn);
      VH_EXPECT(now != nullptr, "input-column", cn, " is gone");
      for (size_t row = 0; now && row < before->nrow; ++row)
        VH_EXPECT(SameCell(*now, *c, row), "input-changed", "column ", cn, " of the input changed in row ", row);
    }
  });
}

bool Execute(const KV& kv, std::string* what = nullptr) {
  std::vector<std::string> args{"DP3"};
  for (auto& [key, v] : kv) args.push_back(key + "=" + v);
  try { dp3::base::ExecuteFromCommandLine(args); return true; } catch (std::exception& e) { if (what) *what = e.what(); return false; }
}
std::string CompareTables(const std::string& a, const std::string& b) {
  auto x = cc::Registry::I().Find(a), y = cc::Registry::I().Find(b);
  if (!x || !y) return "not written";
  if (x->nrow != y->nrow) return "rows";
  for (auto& c : x->cols) {
    auto d = y->Col(c->desc.name());
    if (!d) return "column " + c->desc.name();
    for (size_t row = 0; row < x->nrow; ++row) if (!SameCell(*c, *d, row)) return c->desc.name() + " in row " + std::to_string(row);
  }
  return x->cols.size() == y->cols.size() ? "" : "columns";
}

// Each branch of a split gives what it would give as a pipeline of its own.
void Splits() {
  R().Cases("split", R().n(400, 8000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 6; mo.obs.max_time = 6; mo.obs.max_ant = 5; mo.weights = r.chance(0.8) ? 0 : 2; mo.fixed = true;
    const std::string name = R().scratch + "/in.MS";
    Ms m = RandomMs(r, name, mo);
    Clean(m);
    Store(m);
    const Obs& o = m.o;
    const size_t n = r.range(1, 4);
    KV common{{"msin", name}};
    std::string head;
    for (size_t k = r.range(0, 2); k; --k) {
      Kind q = Any(r, o, true);
      const std::string sn = "h" + std::to_string(k);
      common.emplace_back(sn + ".type", q.types[0]);
      for (auto& [a, v] : q.kv) common.emplace_back(sn + "." + a, v);
      head += sn + ",";
    }
    // The steps of the branches, and the parameters that differ.
    KV fixed;
    std::vector<std::pair<std::string, std::vector<std::string>>> vary;
    std::string sub;
    auto per = [&](const std::string& key, auto make) { std::vector<std::string> v; for (size_t i = 0; i < n; ++i) v.push_back(make()); vary.emplace_back(key, v); };
    for (size_t k = r.range(0, 2); k; --k) {
      const std::string sn = "s" + std::to_string(k);
      switch (r.range(0, 3)) {
        case 0: fixed.emplace_back(sn + ".type", "scaledata"); fixed.emplace_back(sn + ".stations", "*"); fixed.emplace_back(sn + ".scalesize", "false"); per(sn + ".coeffs", [&] { return Fmt(r.real(0.1, 4)); }); break;
        case 1: fixed.emplace_back(sn + ".type", "averager"); per(sn + ".timestep", [&] { return std::to_string(r.range(1, 4)); }); if (r.chance(0.5)) per(sn + ".freqstep", [&] { return std::to_string(r.chance(0.5) ? 1 : o.nchan); }); break;
        case 2: fixed.emplace_back(sn + ".type", "preflagger"); per(sn + ".amplmax", [&] { return Fmt(r.real(0.1, 4)); }); break;
        default: fixed.emplace_back(sn + ".type", "phaseshift"); fixed.emplace_back(sn + ".phasecenter", "[0.5rad, 0.2rad]");
      }
      sub += sn + ",";
    }
    std::vector<std::string> names;
    for (size_t i = 0; i < n; ++i) names.push_back(R().scratch + "/split" + std::to_string(i) + ".MS");
    vary.emplace_back("out.name", names);
    KV kv = common;
    kv.insert(kv.end(), fixed.begin(), fixed.end());
    kv.emplace_back("steps", "[" + head + "split]");
    kv.emplace_back("split.steps", "[" + sub + "out]");
    std::string rep;
    for (auto& [k, v] : vary) { rep += (rep.empty() ? "" : ",") + k; std::string t; for (auto& x : v) t += (t.empty() ? "" : ",") + x; kv.emplace_back(k, "[" + t + "]"); }
    kv.emplace_back("split.replaceparms", "[" + rep + "]");
    if (r.chance(0.5)) kv.emplace_back("msout", "");
    R().Describe(o.Str() + " | " + Text(kv));
    const auto before = Copy(name);
    std::string what;
    const bool ok = Execute(kv, &what);
    bool msout = false; for (auto& [k, v] : kv) msout = msout || k == "msout";
    (void)msout;
    VH_EXPECT(ok, "split-throws", what);
    if (!ok) return;
    R().Nontrivial();
    for (size_t i = 0; i < n; ++i) {
      KV one = common;
      one.insert(one.end(), fixed.begin(), fixed.end());
      std::string st = head + sub; if (!st.empty()) st.pop_back();
      one.emplace_back("steps", "[" + st + "]");
      for (size_t p = 0; p + 1 < vary.size(); ++p) one.emplace_back(vary[p].first, vary[p].second[i]);
      const std::string alone = R().scratch + "/alone" + std::to_string(i) + ".MS";
      one.emplace_back("msout", alone);
      one.back().second = alone;
      VH_EXPECT(Execute(one, &what), "alone-throws", what);
      const std::string d = CompareTables(names[i], alone);
      VH_EXPECT(d.empty(), "split-differs", "branch ", i, " of ", n, " differs from the same steps alone: ", d);
      R().Count("branches", 1);
    }
    for (auto& c : before->cols) for (size_t row = 0; row < before->nrow; ++row) VH_EXPECT(SameCell(*c, *cc::Registry::I().Find(name)->Col(c->desc.name()), row), "input-changed", "column ", c->desc.name());
  });
}

// What cannot be done is refused, not done differently.
void Refuse() {
  R().Cases("refuse", R().n(300, 4000), [](Rng& r, size_t) {
    cc::Registry::I().Clear();
    MsOpt mo;
    mo.obs.max_chan = 4; mo.obs.max_time = 4; mo.obs.max_ant = 4; mo.weights = 0; mo.fixed = true;
    const std::string name = R().scratch + "/in.MS", out = R().scratch + "/out.MS";
    Ms m = RandomMs(r, name, mo);
    Clean(m);
    Store(m);
    const int what = r.range(0, 9);
    const auto before = Copy(name);
    const std::string bda = "bda.type=bdaaverager";
    KV kv{{"msin", name}, {"msout", out}, {"steps", "[count]"}};
    bool ok = false;
    switch (what) {
      case 0: kv[0].first = "msinn"; break;
      case 1: { std::string t = "count"; t[r.below(t.size())] = char('a' + r.below(5)); if (t == "count") t = "xcount"; kv.emplace_back("count.type", t); break; }
      case 2: kv.erase(kv.begin() + 1); break;
      case 3: kv.emplace_back("count.unknown", "3"); kv.emplace_back("checkparset", OneOf(r, {"1", "2", "true"})); break;
      case 4: kv.emplace_back("count.unknown", "3"); if (r.chance(0.7)) kv.emplace_back("checkparset", OneOf(r, {"0", "-1", "false"})); ok = true; break;
      case 5: kv.emplace_back("checkparset", "1"); ok = true; break;
      case 6: kv[2].second = "[bda,next]"; kv.emplace_back("bda.type", "bdaaverager"); kv.emplace_back("next.type", OneOf(r, {"averager", "preflagger", "madflagger", "filter", "phaseshift", "stationadder", "nullstokes", "interpolate", "setbeam", "counter", "upsample"})); break;
      case 7: kv[1].second = OneOf(r, {"", ".", name}); kv[2].second = "[bda]"; kv.emplace_back("bda.type", "bdaaverager"); break;
      case 8: kv[2].second = "[bda]"; kv.emplace_back("bda.type", "bdaaverager"); ok = true; break;
      default: kv[0].second = R().scratch + "/nosuch.MS";
    }
    R().Describe(Text(kv));
    std::string why;
    const bool did = Execute(kv, &why);
    R().Nontrivial();
    VH_EXPECT(did == ok, ok ? "refused" : "accepted", "case ", what, ": ", did ? "accepted" : why);
    for (auto& c : before->cols) for (size_t row = 0; row < before->nrow; ++row) VH_EXPECT(SameCell(*c, *cc::Registry::I().Find(name)->Col(c->desc.name()), row), "input-changed", "column ", c->desc.name());
  });
}
void All() { Pipeline(); Splits(); Refuse(); }
}  // namespace
VH_MAIN({"C64", All})
