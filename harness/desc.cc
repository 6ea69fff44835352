// Monitors for the descriptions of clusters, nodes and distributed data sets,
// and for the names of calibration types and data types.
#include "vh.h"

#include <cmath>
#include <complex>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "base/CalType.h"
#include "common/ClusterDesc.h"
#include "common/NodeDesc.h"
#include "common/ParameterSet.h"
#include "common/StreamUtil.h"
#include "common/StringTools.h"
#include "common/TypeNames.h"
#include "common/VdsDesc.h"

using vh::R;
using vh::Rng;
using vh::S;
using namespace dp3::common;
using Strings = std::vector<std::string>;

namespace {

std::string Word(Rng& r, const char* first = "abcdKLM", const char* more = "abcxyz019_-+") {
  const std::string f(first), m(more);
  std::string s(1, f[r.below(f.size())]);
  for (size_t n = r.below(7); n > 0; --n) s += m[r.below(m.size())];
  return s;
}

std::string Dir(Rng& r) {
  static const Strings kParts{"data", "data1", "dat", "d", "lofar", "auto", "scratch", "L1.MS", "x"};
  return "/" + r.pick(kParts);
}

struct NodeModel {
  std::string name;
  NodeDesc::NodeType type = NodeDesc::Any;
  Strings mounts, fs;
};

// The file system of a file is the one whose mount point is the longest
// directory the file is in; a single slash holds everything.
std::string Find(const NodeModel& n, const std::string& file) {
  size_t best = 0;
  std::string got;
  bool found = false, root = false;
  for (size_t i = 0; i < n.mounts.size(); ++i) {
    const std::string& m = n.mounts[i];
    if (m.size() == 1) continue;
    if (file.size() > m.size() && file.compare(0, m.size(), m) == 0 && file[m.size()] == '/' && m.size() > best) {
      best = m.size();
      got = n.fs[i];
      found = true;
    }
  }
  if (found) return got;
  for (size_t i = 0; i < n.mounts.size(); ++i)
    if (n.mounts[i] == "/") { got = n.fs[i]; root = true; }
  return root ? got : "";
}

NodeModel RandomNode(Rng& r, const std::string& name) {
  NodeModel n;
  n.name = name;
  n.type = NodeDesc::NodeType(r.below(4));
  const size_t k = r.below(5);
  for (size_t i = 0; i < k; ++i) {
    std::string m;
    for (size_t d = 1 + r.below(4); d > 0; --d) m += Dir(r);
    if (m.size() > 5 && m.substr(0, 5) == "/auto") m = "/x" + m;
    if (r.chance(0.15)) m = "/";
    bool seen = false;
    for (const std::string& o : n.mounts) seen = seen || o == m;
    if (seen) continue;
    n.mounts.push_back(m);
    n.fs.push_back(Word(r) + (r.chance(0.3) ? ":" + m : ""));
  }
  return n;
}

void ExpectNode(const NodeDesc& d, const NodeModel& m, const char* where) {
  VH_EXPECT(d.getName() == m.name && d.getType() == m.type && d.getMountPoints() == m.mounts && d.getFileSys() == m.fs, "node", where, ": node ", m.name, " became ", d.getName(), " type ", int(d.getType()), " with ",
            vh::Join(d.getMountPoints()), " on ", vh::Join(d.getFileSys()));
}

NodeDesc Make(Rng& r, const NodeModel& m) {
  NodeDesc d;
  d.setName(m.name);
  d.setType(m.type);
  for (size_t i = 0; i < m.mounts.size(); ++i) d.addFileSys(m.fs[i], m.mounts[i].size() > 1 && r.chance(0.3) ? "/auto" + m.mounts[i] : m.mounts[i]);
  return d;
}

template <class F>
ParameterSet Reparse(F write) {
  std::ostringstream os;
  write(os);
  ParameterSet ps;
  ps.adoptBuffer(os.str());
  return ps;
}

void ExpectCluster(const ClusterDesc& c, const std::string& name, const std::vector<NodeModel>& nodes, const char* where) {
  VH_EXPECT(c.getName() == name && c.getNodes().size() == nodes.size(), "cluster", where, ": cluster ", c.getName(), " has ", c.getNodes().size(), " nodes, not ", nodes.size());
  if (c.getNodes().size() != nodes.size()) return;
  std::map<std::string, std::vector<int>> fs;
  for (size_t i = 0; i < nodes.size(); ++i) {
    ExpectNode(c.getNodes()[i], nodes[i], where);
    ExpectNode(c.getNode(nodes[i].name), nodes[i], where);
    for (const std::string& f : nodes[i].fs) fs[f].push_back(int(i));
  }
  VH_EXPECT(c.getMap() == fs, "cluster-map", where, ": the map from file systems to nodes differs");
  VH_EXPECT(vh::Throws([&] { c.getNode("no-such-node"); }), "cluster-unknown", "an unknown node is found");
}

std::string List(Rng& r, const Strings& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? (r.chance(0.5) ? "," : ", ") : "") + v[i];
  return s + "]";
}

// Everything below is about one random description per case.
void Nodes(Rng& r) {
  const NodeModel m = RandomNode(r, Word(r));
  R().Describe(S(m.name, " ", int(m.type), " ", vh::Join(m.mounts), " ", vh::Join(m.fs)));
  const NodeDesc d = Make(r, m);
  ExpectNode(d, m, "made");
  const std::string prefix = r.chance(0.5) ? "" : "Node3.";
  const NodeDesc back(Reparse([&](std::ostream& o) { d.write(o, prefix); }).makeSubset(prefix));
  ExpectNode(back, m, "written and read");
  for (int i = 0; i < 20; ++i) {
    std::string f;
    if (!m.mounts.empty() && r.chance(0.7)) {
      f = r.pick(m.mounts);
      if (f == "/") f = "";
      if (r.chance(0.3)) f += r.pick(Strings{"1", "x", "_"});
    }
    for (size_t n = r.below(4); n > 0; --n) f += Dir(r);
    f += "/" + Word(r);
    R().Count("lookups");
    if (!Find(m, f).empty()) R().Nontrivial();
    VH_EXPECT(d.findFileSys(f) == Find(m, f), "find-file-system", "the file system of ", f, " is '", d.findFileSys(f), "', not '", Find(m, f), "'");
  }
  // Defaults and refusals.
  ParameterSet ps;
  ps.add("NodeName", m.name);
  if (!m.mounts.empty()) {
    ps.add("NodeMountPoints", List(r, m.mounts));
    NodeModel same = m;
    same.type = NodeDesc::Compute;
    same.fs = m.mounts;
    ExpectNode(NodeDesc(ps), same, "defaults");
    ps.add("NodeFileSys", List(r, Strings(m.mounts.size() + 1, "fs")));
    VH_EXPECT(vh::Throws([&] { NodeDesc x(ps); }), "node-sizes", "different numbers of mount points and file systems are accepted");
    ps.replace("NodeFileSys", List(r, m.fs));
    Strings bad = m.mounts;
    bad[r.below(bad.size())] = "relative/dir";
    ps.replace("NodeMountPoints", List(r, bad));
    VH_EXPECT(vh::Throws([&] { NodeDesc x(ps); }), "node-relative", "a relative mount point is accepted");
  } else {
    VH_EXPECT(vh::Throws([&] { NodeDesc x(ps); }), "node-missing", "missing mount points are accepted");
  }
  const std::string odd = r.pick(Strings{"COMPUTE", "storage", "HeAd", "any", "other"});
  ParameterSet pt;
  pt.add("NodeName", "n");
  pt.add("NodeType", odd);
  pt.add("NodeMountPoints", "[]");
  const NodeDesc::NodeType want = odd == "COMPUTE" ? NodeDesc::Compute : odd == "storage" ? NodeDesc::Storage : odd == "HeAd" ? NodeDesc::Head : NodeDesc::Any;
  VH_EXPECT(NodeDesc(pt).getType() == want, "node-type", "type ", odd, " is read as ", int(NodeDesc(pt).getType()));
}

void Clusters(Rng& r, size_t) {
  const std::string dir = R().scratch + "/cl";
  std::filesystem::create_directories(dir + "/sub");
  const int kind = int(r.below(3));
  const std::string name = Word(r);
  std::vector<NodeModel> nodes;
  if (kind == 0) {
    // Every node described.
    const size_t n = 1 + r.below(12);
    std::ofstream f(dir + "/a.desc");
    f << "ClusterName = " << name << "\n";
    ClusterDesc made;
    made.setName(name);
    for (size_t i = 0; i < n; ++i) {
      nodes.push_back(RandomNode(r, Word(r) + "n" + std::to_string(i)));
      const NodeDesc d = Make(r, nodes.back());
      made.addNode(d);
      d.write(f, S("Node", i, "."));
      if (r.chance(0.1)) VH_EXPECT(vh::Throws([&] { made.addNode(d); }), "cluster-twice", "a node is added twice");
      if (r.chance(0.1)) made.addNode(d, true);
    }
    f.close();
    R().Describe(S("described nodes=", n));
    ExpectCluster(made, name, nodes, "made");
    ExpectCluster(ClusterDesc(dir + "/a.desc"), name, nodes, "read");
    std::ofstream g(dir + "/b.desc");
    made.write(g);
    g.close();
    ExpectCluster(ClusterDesc(dir + "/b.desc"), name, nodes, "written and read");
    R().Nontrivial();
  } else if (kind == 1) {
    // Concise: kinds of nodes with the same disks, some with their own.
    std::ofstream f(dir + "/c.desc");
    f << "ClusterName = " << name << "\n";
    struct Part { const char* prefix; NodeDesc::NodeType type; };
    for (const Part& p : {Part{"Compute.", NodeDesc::Compute}, Part{"Storage.", NodeDesc::Storage}, Part{"Head.", NodeDesc::Head}, Part{"", NodeDesc::Any}}) {
      if (r.chance(0.3)) continue;
      const size_t n = 1 + r.below(4);
      Strings names, local, remote, rfs;
      const long from = r.range(0, 20);
      for (size_t i = 0; i < n; ++i) names.push_back(S(p.prefix[0] ? char(std::tolower(p.prefix[0])) : 'z', "node", from + long(i) < 10 ? "0" : "", from + long(i)));
      auto disks = [&] { Strings d; for (size_t k = r.below(3); k > 0; --k) { std::string m = Dir(r) + std::to_string(k); if (m.substr(0, 5) == "/auto") m = "/y" + m; d.push_back(m); } return d; };
      local = disks();
      remote = disks();
      if (r.chance(0.5)) for (const std::string& m : remote) rfs.push_back("fs" + m.substr(1));
      f << p.prefix << "Nodes = " << (r.chance(0.5) && n > 1 ? S("[", names.front(), "..", names.back().substr(names.back().size() - 2), "]") : List(r, names)) << "\n";
      if (!local.empty() || r.chance(0.5)) f << p.prefix << "LocalDisks = " << List(r, local) << "\n";
      if (!remote.empty() || r.chance(0.5)) f << p.prefix << "RemoteDisks = " << List(r, remote) << "\n";
      if (!rfs.empty()) f << p.prefix << "RemoteFileSys = " << List(r, rfs) << "\n";
      for (const std::string& nm : names) {
        Strings l = local, rem = remote, rf = rfs.empty() ? remote : rfs;
        if (r.chance(0.3)) { l = disks(); f << p.prefix << "LocalDisks." << nm << " = " << List(r, l) << "\n"; }
        if (r.chance(0.3)) {
          rem = disks();
          rf = rem;
          f << p.prefix << "RemoteDisks." << nm << " = " << List(r, rem) << "\n";
          if (!rem.empty() && r.chance(0.5)) { for (std::string& x : rf) x = "own" + x.substr(1); f << p.prefix << "RemoteFileSys." << nm << " = " << List(r, rf) << "\n"; }
        }
        NodeModel m;
        m.name = nm;
        m.type = p.type;
        m.fs = rf;
        m.mounts = rem;
        for (const std::string& x : l) { m.fs.push_back(nm + ":" + x); m.mounts.push_back(x); }
        nodes.push_back(m);
        R().Nontrivial();
      }
    }
    f.close();
    std::ifstream in(dir + "/c.desc");
    R().Describe(std::string(std::istreambuf_iterator<char>(in), {}));
    ExpectCluster(ClusterDesc(dir + "/c.desc"), name, nodes, "concise");
  } else {
    // Clusters of clusters; a node in several of them counts once.
    const size_t n = 1 + r.below(3);
    Strings names;
    size_t id = 0;
    std::vector<NodeModel> all;
    for (size_t c = 0; c < n; ++c) {
      const std::string sub = S(r.chance(0.3) ? dir + "/" : "", r.chance(0.5) ? "sub/" : "", "s", c, ".desc");
      names.push_back(sub);
      std::ofstream f(sub[0] == '/' ? sub : dir + "/" + sub);
      f << "ClusterName = sub" << c << "\n";
      const size_t k = 1 + r.below(4);
      std::vector<size_t> used;
      for (size_t i = 0; i < k; ++i) {
        NodeModel m;
        if (!all.empty() && r.chance(0.3)) {
          const size_t w = r.below(all.size());
          bool dup = false;
          for (size_t u : used) dup = dup || u == w;
          if (dup) { m = RandomNode(r, S("node", id++)); used.push_back(all.size()); all.push_back(m); nodes.push_back(m); }
          else { m = all[w]; used.push_back(w); m.type = NodeDesc::Any; m.mounts.clear(); m.fs.clear(); }
        } else {
          m = RandomNode(r, S("node", id++));
          used.push_back(all.size());
          all.push_back(m);
          nodes.push_back(m);
        }
        Make(r, m).write(f, S("Node", i, "."));
      }
    }
    std::ofstream f(dir + "/top.desc");
    f << "ClusterName = " << name << "\nSubClusters = " << List(r, names) << "\n";
    f.close();
    R().Describe(S("sub clusters ", vh::Join(names), " nodes=", nodes.size()));
    R().Nontrivial();
    ExpectCluster(ClusterDesc(dir + "/top.desc"), name, nodes, "sub clusters");
  }
  std::filesystem::remove_all(dir);
}

VdsPartDesc RandomPart(Rng& r, bool irregular) {
  VdsPartDesc d;
  d.setName(r.chance(0.5) ? "/data/" + Word(r) + ".MS" : Word(r), Word(r));
  if (r.chance(0.5)) d.setFileName("/x/" + Word(r));
  if (r.chance(0.5)) d.setClusterDescName("/cl/" + Word(r) + ".desc");
  const double step = double(r.range(1, 200000)) / 10000.0;
  // Kept to a millisecond.
  const double start = double(r.range(4000000000LL, 5200000000LL)) + double(r.below(1000)) / 1000.0;
  const size_t n = r.below(30);
  std::vector<double> st, en;
  if (irregular)
    for (size_t i = 0; i < n; ++i) {
      st.push_back(start + step * double(i) + (r.chance(0.3) ? 0.001 * double(r.below(500)) : 0));
      en.push_back(start + step * double(i + 1) - (r.chance(0.3) ? 0.001 * double(r.below(500)) : 0));
    }
  d.setTimes(start, start + std::ceil(step * double(n ? n : 7)), step, st, en);
  for (size_t b = r.below(4); b > 0; --b) {
    const int nc = int(r.range(1, 9));
    const double f0 = 1e6 * double(r.range(10, 250));
    if (r.chance(0.6)) d.addBand(nc, f0, f0 + 1000.0 * nc * double(r.range(1, 50)));
    else {
      std::vector<double> a, z;
      const int entries = r.chance(0.3) ? 1 : nc;
      for (int i = 0; i < entries; ++i) { a.push_back(f0 + 3000.0 * i); z.push_back(f0 + 3000.0 * i + 2000); }
      d.addBand(nc, a, z);
    }
  }
  for (size_t k = r.below(4); k > 0; --k) d.addParm(S("key", k, r.chance(0.3) ? ".sub" : ""), r.chance(0.5) ? Word(r) : "[1,2,3]");
  return d;
}

bool Near(const std::vector<double>& a, const std::vector<double>& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol)) return false;
  return true;
}

void ExpectPart(const VdsPartDesc& a, const VdsPartDesc& b, const std::string& where) {
  VH_EXPECT(a.getName() == b.getName() && a.getFileName() == b.getFileName() && a.getFileSys() == b.getFileSys() && a.getClusterDescName() == b.getClusterDescName(), "vds-names", where, ": names differ: ", a.getName(), " ", a.getFileName(), " ", a.getFileSys(), " ",
            a.getClusterDescName());
  VH_EXPECT(std::abs(a.getStartTime() - b.getStartTime()) < 0.00051 && std::abs(a.getEndTime() - b.getEndTime()) < 0.00051 && std::abs(a.getStepTime() - b.getStepTime()) <= 1e-5 * b.getStepTime(), "vds-times", where, ": times ", S(a.getStartTime() - b.getStartTime()), " ",
            S(a.getEndTime() - b.getEndTime()), " ", a.getStepTime());
  const double tol = 0.001 + 2e-5 * b.getStepTime() * double(1 + b.getStartTimes().size());
  VH_EXPECT(Near(a.getStartTimes(), b.getStartTimes(), tol) && Near(a.getEndTimes(), b.getEndTimes(), tol), "vds-slots", where, ": the times of the slots differ");
  VH_EXPECT(a.getNChan() == b.getNChan() && a.getNBand() == b.getNBand() && Near(a.getStartFreqs(), b.getStartFreqs(), 0.01) && Near(a.getEndFreqs(), b.getEndFreqs(), 0.01), "vds-bands", where, ": bands differ");
  const ParameterSet &p = a.getParms(), &q = b.getParms();
  std::map<std::string, std::string> x, y;
  for (auto it = p.begin(); it != p.end(); ++it) x[it->first] = it->second.get();
  for (auto it = q.begin(); it != q.end(); ++it) y[it->first] = it->second.get();
  VH_EXPECT(x == y, "vds-extra", where, ": extra parameters differ: ", x.size(), " ", y.size());
}

void Vds(Rng& r) {
  const bool irregular = r.chance(0.5);
  VdsPartDesc whole = RandomPart(r, irregular);
  VdsDesc d(whole);
  const size_t n = r.below(13);
  std::vector<VdsPartDesc> parts;
  for (size_t i = 0; i < n; ++i) {
    parts.push_back(RandomPart(r, r.chance(0.5)));
    if (r.chance(0.3)) {
      const std::string old = parts.back().getName(), base = Word(r);
      const size_t p = old.rfind('/');
      parts.back().changeBaseName(base);
      VH_EXPECT(parts.back().getName() == (p == std::string::npos ? base : old.substr(0, p + 1) + base), "vds-base-name", old, " became ", parts.back().getName());
    }
    if (r.chance(0.1)) { parts.back().clearParms(); VH_EXPECT(parts.back().getParms().size() == 0, "vds-extra", "extra parameters remain"); }
    d.addPart(parts.back());
  }
  R().Describe(S("parts=", n, irregular ? " irregular" : ""));
  if (n) R().Nontrivial();
  auto check = [&](const VdsDesc& x, const char* where) {
    ExpectPart(x.getDesc(), whole, where);
    VH_EXPECT(x.getParts().size() == n, "vds-parts", where, ": ", x.getParts().size(), " parts, not ", n);
    for (size_t i = 0; i < n && i < x.getParts().size(); ++i) ExpectPart(x.getParts()[i], parts[i], S(where, " part ", i));
  };
  check(d, "made");
  std::ostringstream os;
  d.write(os);
  ParameterSet ps;
  ps.adoptBuffer(os.str());
  check(VdsDesc(ps), "written and read");
  const std::string f = R().scratch + "/x.vds";
  { std::ofstream o(f); d.write(o); }
  check(VdsDesc(f), "written to a file and read");
  std::filesystem::remove(f);
}

void Names(Rng& r) {
  using namespace dp3::base;
  const CalType t = CalType(r.below(17));
  R().Describe(S("calibration type ", int(t)));
  R().Nontrivial();
  VH_EXPECT(StringToCalType(ToString(t)) == t, "cal-type", "type ", int(t), " is called ", ToString(t), " which means ", int(StringToCalType(ToString(t))));
  struct Old { const char* n; CalType t; size_t np; };
  static const std::vector<Old> kAll{{"diagonal", CalType::kDiagonal, 2}, {"complexgain", CalType::kDiagonal, 2}, {"diagonalphase", CalType::kDiagonalPhase, 2}, {"phaseonly", CalType::kDiagonalPhase, 2},
      {"diagonalamplitude", CalType::kDiagonalAmplitude, 2}, {"amplitudeonly", CalType::kDiagonalAmplitude, 2}, {"scalar", CalType::kScalar, 1}, {"scalarcomplexgain", CalType::kScalar, 1}, {"scalarcomplex", CalType::kScalar, 1},
      {"scalaramplitude", CalType::kScalarAmplitude, 1}, {"scalarphase", CalType::kScalarPhase, 1}, {"tec", CalType::kTec, 1}, {"tec+delay", CalType::kTecAndDelay, 1}, {"tec+phase", CalType::kTecAndPhase, 1}, {"tecandphase", CalType::kTecAndPhase, 1},
      {"tec+phase+delay", CalType::kTecPhaseAndDelay, 1}, {"tecscreen", CalType::kTecScreen, 1}, {"fulljones", CalType::kFullJones, 4}, {"rotation+diagonal", CalType::kRotationAndDiagonal, 4}, {"rotation", CalType::kRotation, 4},
      {"faradayrotation", CalType::kFaradayRotation, 4}, {"leakage", CalType::kLeakage, 4}, {"leakageamplitude", CalType::kLeakageAmplitude, 4}};
  const Old& o = r.pick(kAll);
  VH_EXPECT(StringToCalType(o.n) == o.t && GetNPolarizations(o.t) == o.np, "cal-type", o.n, " means ", int(StringToCalType(o.n)), " with ", GetNPolarizations(o.t), " polarizations");
  std::string bad(o.n);
  switch (r.below(3)) { case 0: bad += Word(r, "_!#"); break; case 1: bad.pop_back(); break; default: bad[0] = char(std::toupper(bad[0])); }
  bool known = false;
  for (const Old& k : kAll) known = known || bad == k.n;
  if (!known) VH_EXPECT(vh::Throws([&] { StringToCalType(bad); }), "cal-type-unknown", "the unknown mode ", bad, " is accepted");
  VH_EXPECT(vh::Throws([&] { ToString(CalType(17 + r.below(100))); }), "cal-type-unknown", "an unknown type has a name");
}

template <class T> std::string Tn() { return typeName(static_cast<const T*>(nullptr)); }

void Tokens(Rng& r) {
  const std::string delims = r.pick(Strings{" \t", ",", ",;", "/", " "});
  std::string text;
  Strings want;
  std::string cur;
  for (size_t n = r.below(30); n > 0; --n) {
    if (r.chance(0.35)) {
      text += delims[r.below(delims.size())];
      if (!cur.empty()) want.push_back(cur);
      cur.clear();
    } else {
      const char c = "abcXYZ0.:"[r.below(9)];
      text += c;
      cur += c;
    }
  }
  if (!cur.empty()) want.push_back(cur);
  R().Describe("'" + text + "' by '" + delims + "'");
  if (want.size() > 1) R().Nontrivial();
  const Strings got = dp3::common::stringtools::tokenize(text, delims);
  VH_EXPECT(got == want, "tokens", "split in ", vh::Join(got));
  // Lists are printed the way they are read.
  std::ostringstream os;
  os << want;
  VH_EXPECT(os.str() == "[" + vh::Join(want) + "]", "printed-list", "printed as ", os.str());
  ParameterSet ps;
  ps.add("k", os.str());
  VH_EXPECT(ps.getStringVector("k") == want, "printed-list", "a printed list is read as ", vh::Join(ps.getStringVector("k")));
  std::map<std::string, int> mp;
  std::set<int> st;
  std::string ms = "{", ss = "[";
  for (const std::string& w : want) { mp[w] = int(w.size()); st.insert(int(w.size())); }
  for (auto& [k, v] : mp) ms += S(ms.size() > 1 ? ", " : "", "<", k, ",", v, ">");
  for (int v : st) ss += S(ss.size() > 1 ? "," : "", v);
  std::ostringstream om, oz;
  om << mp;
  oz << st;
  VH_EXPECT(om.str() == ms + "}" && oz.str() == ss + "]", "printed-map", om.str(), " ", oz.str());
}

void C15() {
  R().Cases("nodes", R().n(4000, 60000), [](Rng& r, size_t) { Nodes(r); });
  R().Cases("clusters", R().n(1500, 15000), Clusters);
  R().Cases("vds", R().n(1500, 15000), [](Rng& r, size_t) { Vds(r); });
  R().Cases("names", R().n(3000, 30000), [](Rng& r, size_t) { Names(r); });
  R().Cases("tokens", R().n(6000, 100000), [](Rng& r, size_t) { Tokens(r); });
  R().Cases("types", 1, [](Rng&, size_t) {
    R().Nontrivial();
    const Strings got{Tn<bool>(), Tn<char>(), Tn<int8_t>(), Tn<uint8_t>(), Tn<int16_t>(), Tn<uint16_t>(), Tn<int32_t>(), Tn<uint32_t>(), Tn<int64_t>(), Tn<uint64_t>(), Tn<float>(), Tn<double>(), Tn<std::complex<float>>(), Tn<std::complex<double>>(), Tn<void>(), Tn<const double*>(), Tn<const float* const*>()};
    const Strings want{"bool", "char", "char", "uchar", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "fcomplex", "dcomplex", "unknown", "array<double>", "array<array<float>>"};
    VH_EXPECT(got == want, "type-names", vh::Join(got));
  });
}

}  // namespace

VH_MAIN({"C15", C15})
