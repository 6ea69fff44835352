// Monitors for the gain solvers and the buffers they work on.
#include "vh.h"

#include <cmath>
#include <complex>
#include <set>

#include <aocommon/matrix2x2.h>
#include <schaapcommon/threading/threadpool.h>

#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "ddecal/gain_solvers/BdaSolverBuffer.h"
#include "ddecal/gain_solvers/DiagonalAntennaSolver.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/ScalarSolver.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"

using vh::R;
using vh::Rng;
using vh::S;
using namespace dp3::ddecal;
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using cd = std::complex<double>;
using cf = std::complex<float>;

namespace {

const float kNan = std::numeric_limits<float>::quiet_NaN();

cd G(Rng& r) { return {r.gauss(), r.gauss()}; }
bool Fin(cd x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }

enum Kind { kScalar, kDiag, kFull, kIterScalar, kIterScalarDuo, kIterScalarUni, kIterDiag, kIterDiagDuo, kIterFull, kAntenna, kKinds };
const char* kNames[] = {"scalar", "diagonal", "fulljones", "iterative scalar", "iterative scalar duo", "iterative scalar uni", "iterative diagonal", "iterative diagonal duo", "iterative fulljones", "antenna"};
const size_t kPols[] = {1, 2, 4, 1, 1, 1, 2, 2, 4, 2};
bool DdIntervals(int k) { return k >= kIterScalar && k != kAntenna; }

std::unique_ptr<SolverBase> MakeSolver(int k) {
  switch (k) {
    case kScalar: return std::make_unique<ScalarSolver>();
    case kDiag: return std::make_unique<DiagonalSolver>();
    case kFull: return std::make_unique<FullJonesSolver>();
    case kIterScalar: return std::make_unique<IterativeScalarSolver<aocommon::MC2x2F>>();
    case kIterScalarDuo: return std::make_unique<IterativeScalarSolver<aocommon::MC2x2FDiag>>();
    case kIterScalarUni: return std::make_unique<IterativeScalarSolver<cf>>();
    case kIterDiag: return std::make_unique<IterativeDiagonalSolver<aocommon::MC2x2F>>();
    case kIterDiagDuo: return std::make_unique<IterativeDiagonalSolver<aocommon::MC2x2FDiag>>();
    case kIterFull: return std::make_unique<IterativeFullJonesSolver>();
    default: return std::make_unique<DiagonalAntennaSolver>();
  }
}
int DataKind(int k) { return k == kIterScalarDuo || k == kIterDiagDuo ? 2 : k == kIterScalarUni ? 1 : 4; }

using Solutions = std::vector<std::vector<cd>>;

struct Problem {
  size_t nant = 6, nch = 4, ncb = 2, nt = 4;
  std::vector<size_t> nsol;  // per direction
  std::vector<int> a1, a2;
  std::vector<std::string> dirs;
  size_t pol = 1;
  size_t nsub() const { size_t n = 0; for (size_t x : nsol) n += x; return n; }
  size_t sub(size_t dir, size_t t) const { size_t o = 0; for (size_t d = 0; d < dir; ++d) o += nsol[d]; return o + t * nsol[dir] / nt; }
  size_t block(size_t ch) const { for (size_t b = 0; b < ncb; ++b) if (ch < (b + 1) * nch / ncb) return b; return ncb - 1; }
  // [time][bl][ch][corr]
  std::vector<cf> data, garbage;
  std::vector<std::vector<cf>> model;  // per direction
  std::vector<float> weight;
  std::vector<char> flag;
  Solutions truth;
  size_t at(size_t t, size_t b, size_t c, size_t p) const { return ((t * a1.size() + b) * nch + c) * 4 + p; }
  std::string Str() const { return S("nant=", nant, " nbl=", a1.size(), " nchan=", nch, " blocks=", ncb, " ntime=", nt, " sols=", vh::Join(nsol)); }
};

aocommon::MC2x2 Jones(const std::vector<cd>& s, size_t index, size_t pol) {
  if (pol == 1) return {s[index], 0, 0, s[index]};
  if (pol == 2) return {s[index * 2], 0, 0, s[index * 2 + 1]};
  return {s[index * 4], s[index * 4 + 1], s[index * 4 + 2], s[index * 4 + 3]};
}

// What the given solutions make of the model at one sample.
void Predict(const Problem& p, const Solutions& s, size_t t, size_t b, size_t c, cd out[4]) {
  for (int i = 0; i < 4; ++i) out[i] = 0;
  const size_t n = p.nsub();
  for (size_t d = 0; d < p.nsol.size(); ++d) {
    const size_t sub = p.sub(d, t);
    const aocommon::MC2x2 ja = Jones(s[p.block(c)], p.a1[b] * n + sub, p.pol), jb = Jones(s[p.block(c)], p.a2[b] * n + sub, p.pol);
    cd m[4], x[4];
    for (int i = 0; i < 4; ++i) m[i] = cd(p.model[d][p.at(t, b, c, i)]);
    const cd a[4] = {ja.Get(0), ja.Get(1), ja.Get(2), ja.Get(3)}, bb[4] = {jb.Get(0), jb.Get(1), jb.Get(2), jb.Get(3)};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) x[i * 2 + j] = a[i * 2] * m[j] + a[i * 2 + 1] * m[2 + j];
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) out[i * 2 + j] += x[i * 2] * std::conj(bb[j * 2]) + x[i * 2 + 1] * std::conj(bb[j * 2 + 1]);
  }
}

Problem RandomProblem(Rng& r, int kind, size_t max_dir = 3) {
  Problem p;
  p.pol = kPols[kind];
  p.nant = r.range(5, 9);
  p.ncb = r.range(1, 4);
  p.nch = p.ncb + r.range(0, 5);
  const size_t ndir = r.range(1, max_dir);
  p.nt = r.range(4, 8);
  for (size_t d = 0; d < ndir; ++d) { p.nsol.push_back(DdIntervals(kind) && r.chance(0.5) ? r.range(1, 2) : 1); p.dirs.push_back("dir" + std::to_string(d)); }
  for (size_t i = 0; i < p.nant; ++i)
    for (size_t j = i; j < p.nant; ++j) {
      if (i == j && r.chance(0.5)) continue;
      const bool swap = r.chance(0.2);
      p.a1.push_back(int(swap ? j : i));
      p.a2.push_back(int(swap ? i : j));
    }
  // Many more visibilities than unknowns: the solvers need not find the
  // solution of a problem that hardly determines it.
  size_t cross = 0;
  for (size_t b = 0; b < p.a1.size(); ++b) cross += p.a1[b] != p.a2[b];
  while (p.nt * cross * (p.nch / p.ncb) < 5 * p.nant * p.nsub()) ++p.nt;
  const size_t n = p.nt * p.a1.size() * p.nch * 4;
  p.data.resize(n); p.weight.resize(n); p.flag.assign(n, 0);
  p.model.assign(ndir, std::vector<cf>(n));
  for (auto& m : p.model) { const double scale = std::pow(10.0, r.real(-0.5, 0.5)); for (cf& x : m) x = cf(G(r) * scale); }
  for (size_t i = 0; i < n; i += 4) {
    const float w = float(std::pow(10.0, r.real(-1, 1)));
    for (int k = 0; k < 4; ++k) p.weight[i + k] = p.pol == 4 ? w : float(w * r.real(0.5, 2));
  }
  const double sp = r.real(0.02, 0.25);
  p.truth.resize(p.ncb);
  for (auto& s : p.truth) {
    s.resize(p.nant * p.nsub() * p.pol);
    for (size_t i = 0; i < s.size(); ++i) s[i] = (p.pol == 4 && (i % 4 == 1 || i % 4 == 2) ? cd(0) : cd(1)) + sp * G(r);
  }
  for (size_t t = 0; t < p.nt; ++t)
    for (size_t b = 0; b < p.a1.size(); ++b)
      for (size_t c = 0; c < p.nch; ++c) {
        cd v[4];
        Predict(p, p.truth, t, b, c, v);
        for (int i = 0; i < 4; ++i) p.data[p.at(t, b, c, i)] = cf(v[i]);
      }
  return p;
}

std::vector<DPBuffer> Weighted(const Problem& p, bool keep = false, std::vector<std::unique_ptr<DPBuffer>>* out = nullptr, bool linear = false) {
  std::vector<std::unique_ptr<DPBuffer>> in;
  const std::array<size_t, 3> shape{p.a1.size(), p.nch, 4};
  const size_t n = p.a1.size() * p.nch * 4;
  for (size_t t = 0; t < p.nt; ++t) {
    in.push_back(std::make_unique<DPBuffer>(double(t), 1.0));
    DPBuffer& b = *in.back();
    b.GetData().resize(shape); b.GetWeights().resize(shape); b.GetFlags().resize(shape);
    for (size_t i = 0; i < n; ++i) { b.GetData().data()[i] = p.data[t * n + i]; b.GetWeights().data()[i] = p.weight[t * n + i]; b.GetFlags().data()[i] = p.flag[t * n + i]; }
    for (size_t d = 0; d < p.dirs.size(); ++d) { b.AddData(p.dirs[d]); for (size_t i = 0; i < n; ++i) b.GetData(p.dirs[d]).data()[i] = p.model[d][t * n + i]; }
  }
  std::vector<DPBuffer> w(p.nt);
  AssignAndWeight(in, p.dirs, w, keep, linear);
  if (out) *out = std::move(in);
  return w;
}

// Every sample that is used counts once, with the square root of its weight.
bool Used(const Problem& p, size_t t, size_t b, size_t c) {
  for (int i = 0; i < 4; ++i) {
    const size_t k = p.at(t, b, c, i);
    if (p.flag[k] || !Fin(cd(p.data[k]))) return false;
    for (const auto& m : p.model) if (!Fin(cd(m[k]))) return false;
  }
  return true;
}

template <class M> cd El(const M& m, int i) { return cd(m.Get(i)); }

struct Opt { size_t maxit = 200, minit = 0; double acc = 1e-6, step = 0.2; bool phase = false; };

SolverBase::SolveResult Run(SolverBase& solver, int kind, const Problem& p, Solutions& s, const Opt& o) {
  solver.SetMaxIterations(o.maxit);
  solver.SetMinIterations(o.minit);
  solver.SetAccuracy(o.acc);
  solver.SetConstraintAccuracy(o.acc * 10);
  solver.SetStepSize(o.step);
  solver.SetPhaseOnly(o.phase);
  solver.Initialize(p.nant, p.nsol, p.ncb);
  if (DataKind(kind) == 4) return solver.Solve(FullSolveData(Weighted(p), p.dirs, p.ncb, p.nant, p.nsol, p.a1, p.a2), s, 0.0);
  if (DataKind(kind) == 2) return solver.Solve(DuoSolveData(Weighted(p), p.dirs, p.ncb, p.nant, p.nsol, p.a1, p.a2), s, 0.0);
  return solver.Solve(UniSolveData(Weighted(p), p.dirs, p.ncb, p.nant, p.nsol, p.a1, p.a2), s, 0.0);
}
SolverBase::SolveResult Run(int kind, const Problem& p, Solutions& s, const Opt& o) { return Run(*MakeSolver(kind), kind, p, s, o); }

Solutions Unit(const Problem& p) {
  Solutions s(p.ncb, std::vector<cd>(p.nant * p.nsub() * p.pol, 1.0));
  if (p.pol == 4) for (auto& v : s) for (size_t i = 0; i < v.size(); ++i) if (i % 4 == 1 || i % 4 == 2) v[i] = 0;
  return s;
}

// Relative difference between the data and what the solutions predict, over
// the samples and correlations the solver looks at.
double Residual(const Problem& p, const Solutions& s, int kind) {
  double num = 0, den = 0;
  const int dk = DataKind(kind);
  for (size_t t = 0; t < p.nt; ++t)
    for (size_t b = 0; b < p.a1.size(); ++b) {
      if (p.a1[b] == p.a2[b]) continue;
      for (size_t c = 0; c < p.nch; ++c) {
        if (!Used(p, t, b, c)) continue;
        cd v[4];
        Predict(p, s, t, b, c, v);
        cd dsum = 0, vsum = 0;
        for (int i = 0; i < 4; ++i) {
          if (dk < 4 && (i == 1 || i == 2)) continue;
          const double w = std::sqrt(double(p.weight[p.at(t, b, c, i)]));
          const cd d = cd(p.data[p.at(t, b, c, i)]) * w, e = v[i] * w;
          dsum += d; vsum += e;
          if (dk != 1) { num += std::norm(d - e); den += std::norm(d); }
        }
        if (dk == 1) { num += std::norm(dsum - vsum); den += std::norm(dsum); }
      }
    }
  return den > 0 ? std::sqrt(num / den) : 0;
}

void Flag(Rng& r, Problem& p, double frac) {
  for (size_t t = 0; t < p.nt; ++t) for (size_t b = 0; b < p.a1.size(); ++b) for (size_t c = 0; c < p.nch; ++c) if (r.chance(frac)) {
    const size_t k = p.at(t, b, c, r.below(4));
    switch (r.below(4)) {
      case 0: p.data[k] = {kNan, 1}; break;
      case 1: p.model[r.below(p.model.size())][k] = {1, std::numeric_limits<float>::infinity()}; break;
      default: p.flag[k] = 1; for (int i = 0; i < 4; ++i) p.data[p.at(t, b, c, i)] = cf(G(r) * 1e4); break;
    }
  }
}

size_t Threads(Rng& r) { const size_t n = r.pick(std::vector<size_t>{1, 2, 3, 5, 8}); schaapcommon::ThreadPool::GetInstance().SetNThreads(n); return n; }
void Threads(size_t n) { schaapcommon::ThreadPool::GetInstance().SetNThreads(n); }

double MaxDiff(const Solutions& a, const Solutions& b) {
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) {
    if (Fin(a[i][j]) != Fin(b[i][j])) return 1e99;
    if (Fin(a[i][j])) m = std::max(m, std::abs(a[i][j] - b[i][j]));
  }
  return m;
}

// ---- C28 -----------------------------------------------------------------------
void C28() {
  R().Cases("recover", R().n(500, 8000), [](Rng& r, size_t i) {
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    if (r.chance(0.5)) Flag(r, p, r.real(0, 0.15));
    const size_t nth = Threads(r);
    Opt o;
    o.step = r.pick(std::vector<double>{0.2, 0.3, 0.5});
    R().Describe(S(kNames[kind], " ", p.Str(), " step=", o.step, " threads=", nth));
    R().Nontrivial();
    Solutions s = Unit(p);
    const double before = Residual(p, s, kind);
    const auto res = Run(kind, p, s, o);
    const double after = Residual(p, s, kind);
    const bool conv = res.iterations <= o.maxit;
    R().Count(S("solved by ", kNames[kind]));
    R().Count(S(conv ? "converged " : "not converged ", kNames[kind]));
    VH_EXPECT(after < 2e-3, "recover", "residual ", after, " (from ", before, ") after ", res.iterations, " iterations");
  });

  R().Cases("truth", R().n(200, 3000), [](Rng& r, size_t i) {
    // Starting from the gains that made the data changes nothing.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    Threads(r);
    Solutions s = p.truth;
    Opt o; o.acc = 1e-4;
    R().Describe(S(kNames[kind], " ", p.Str()));
    R().Nontrivial();
    const auto res = Run(kind, p, s, o);
    VH_EXPECT(res.iterations <= 2 && MaxDiff(s, p.truth) < 1e-3, "truth", "after ", res.iterations, " iterations the solutions are off by ", MaxDiff(s, p.truth));
  });
  R().Cases("garbage", R().n(200, 3000), [](Rng& r, size_t i) {
    // What is in flagged samples does not matter at all; a sample with a
    // flag, a non-finite value or a non-finite model counts as flagged.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    Flag(r, p, r.real(0.02, 0.3));
    Problem q = p;
    for (size_t t = 0; t < p.nt; ++t) for (size_t b = 0; b < p.a1.size(); ++b) for (size_t c = 0; c < p.nch; ++c) {
      if (p.a1[b] != p.a2[b] && Used(p, t, b, c)) continue;
      for (int k = 0; k < 4; ++k) {
        const size_t j = p.at(t, b, c, k);
        q.data[j] = r.chance(0.2) ? cf(kNan, kNan) : cf(G(r));
        for (auto& m : q.model) m[j] = cf(G(r));
        q.weight[j] = float(r.real(0, 5));
        q.flag[j] = 1;
      }
    }
    Threads(1);
    Opt o; o.maxit = o.minit = r.range(1, 12); o.acc = 0;
    R().Describe(S(kNames[kind], " ", p.Str(), " iterations=", o.maxit));
    R().Nontrivial();
    Solutions s = Unit(p), u = Unit(p);
    Run(kind, p, s, o);
    Run(kind, q, u, o);
    VH_EXPECT(MaxDiff(s, u) == 0, "garbage", "the contents of flagged samples change the solutions by ", MaxDiff(s, u));
  });
  R().Cases("blocks", R().n(200, 3000), [](Rng& r, size_t i) {
    // Channel blocks are independent, whatever the number of threads.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    Opt o; o.maxit = o.minit = r.range(1, 12); o.acc = 0; o.phase = r.chance(0.2);
    if (r.chance(0.5)) Flag(r, p, 0.1);
    Solutions start = Unit(p);
    if (r.chance(0.5)) for (auto& v : start) for (cd& x : v) x += 0.1 * G(r);
    R().Describe(S(kNames[kind], " ", p.Str(), " iterations=", o.maxit, o.phase ? " phase only" : ""));
    R().Nontrivial();
    Threads(1);
    Solutions all = start, many = start;
    const auto res = Run(kind, p, all, o);
    VH_EXPECT(res.iterations == o.maxit + 1, "iterations", "unconverged solve of ", o.maxit, " iterations reports ", res.iterations);
    for (size_t b = 0; b < p.ncb; ++b) {
      const size_t c0 = b * p.nch / p.ncb, c1 = (b + 1) * p.nch / p.ncb;
      Problem q = p;
      q.ncb = 1; q.nch = c1 - c0;
      const size_t n = p.nt * p.a1.size() * q.nch * 4;
      q.data.resize(n); q.weight.resize(n); q.flag.resize(n);
      for (auto& m : q.model) m.resize(n);
      for (size_t t = 0; t < p.nt; ++t) for (size_t bl = 0; bl < p.a1.size(); ++bl) for (size_t c = 0; c < q.nch; ++c) for (int k = 0; k < 4; ++k) {
        const size_t to = q.at(t, bl, c, k), from = p.at(t, bl, c0 + c, k);
        q.data[to] = p.data[from]; q.weight[to] = p.weight[from]; q.flag[to] = p.flag[from];
        for (size_t d = 0; d < q.model.size(); ++d) q.model[d][to] = p.model[d][from];
      }
      Solutions one{start[b]};
      Run(kind, q, one, o);
      VH_EXPECT(MaxDiff(one, Solutions{all[b]}) == 0, "blocks", "block ", b, " alone gives other solutions, by ", MaxDiff(one, Solutions{all[b]}));
    }
    const size_t nth = r.range(2, 8);
    Threads(nth);
    Run(kind, p, many, o);
    VH_EXPECT(MaxDiff(all, many) < 1e-3, "threads", nth, " threads change the solutions by ", MaxDiff(all, many));
    if (o.phase) for (auto& v : all) for (const cd& x : v) VH_EXPECT(!Fin(x) || std::abs(std::abs(x) - 1) < 1e-9, "phase-only", "amplitude ", std::abs(x), " while only phases are solved");
  });
  R().Cases("intervals", R().n(150, 2000), [](Rng& r, size_t i) {
    // With one direction, its sub intervals are solved as if each were alone.
    const int kind = kIterScalar + int(i % (kAntenna - kIterScalar));
    Problem p = RandomProblem(r, kind, 1);
    p.nsol[0] = r.range(2, 4);
    p.truth = Unit(p);
    Opt o; o.maxit = o.minit = r.range(1, 8); o.acc = 0;
    R().Describe(S(kNames[kind], " ", p.Str(), " iterations=", o.maxit));
    R().Nontrivial();
    Threads(1);
    Solutions all = Unit(p);
    Run(kind, p, all, o);
    const size_t n = p.nsol[0];
    for (size_t k = 0; k < n; ++k) {
      std::vector<size_t> times;
      for (size_t t = 0; t < p.nt; ++t) if (p.sub(0, t) == k) times.push_back(t);
      if (times.empty()) continue;
      Problem q = p;
      q.nsol[0] = 1; q.nt = times.size();
      const size_t sz = p.a1.size() * p.nch * 4;
      q.data.clear(); q.weight.clear(); q.flag.clear(); q.model[0].clear();
      for (size_t t : times) {
        q.data.insert(q.data.end(), p.data.begin() + t * sz, p.data.begin() + (t + 1) * sz);
        q.weight.insert(q.weight.end(), p.weight.begin() + t * sz, p.weight.begin() + (t + 1) * sz);
        q.flag.insert(q.flag.end(), p.flag.begin() + t * sz, p.flag.begin() + (t + 1) * sz);
        q.model[0].insert(q.model[0].end(), p.model[0].begin() + t * sz, p.model[0].begin() + (t + 1) * sz);
      }
      Solutions one = Unit(q);
      Run(kind, q, one, o);
      double m = 0;
      for (size_t b = 0; b < p.ncb; ++b) for (size_t a = 0; a < p.nant; ++a) for (size_t e = 0; e < p.pol; ++e) m = std::max(m, std::abs(one[b][a * p.pol + e] - all[b][(a * n + k) * p.pol + e]));
      VH_EXPECT(m == 0, "intervals", "sub interval ", k, " alone gives other solutions, by ", m);
    }
  });
  R().Cases("short", R().n(150, 2000), [](Rng& r, size_t i) {
    // An interval at the end can have fewer time slots than sub intervals.
    const int kind = kIterScalar + int(i % (kAntenna - kIterScalar));
    Problem p = RandomProblem(r, kind, 3);
    p.nt = r.range(1, 3);
    for (size_t& n : p.nsol) n = r.range(1, 5);
    const size_t sz = p.nt * p.a1.size() * p.nch * 4;
    p.data.resize(sz); p.weight.resize(sz); p.flag.resize(sz);
    for (auto& m : p.model) m.resize(sz);
    const size_t n = p.nsub();
    for (auto& v : p.truth) {
      v.assign(p.nant * n * p.pol, 0);
      for (size_t j = 0; j < v.size(); ++j) v[j] = (p.pol == 4 && (j % 4 == 1 || j % 4 == 2) ? cd(0) : cd(1)) + 0.1 * G(r);
    }
    for (size_t t = 0; t < p.nt; ++t) for (size_t b = 0; b < p.a1.size(); ++b) for (size_t c = 0; c < p.nch; ++c) {
      cd v[4];
      Predict(p, p.truth, t, b, c, v);
      for (int k = 0; k < 4; ++k) p.data[p.at(t, b, c, k)] = cf(v[k]);
    }
    R().Describe(S(kNames[kind], " ", p.Str()));
    R().Nontrivial();
    Threads(r);
    Solutions s = Unit(p);
    Opt o;
    const auto res = Run(kind, p, s, o);
    const double after = Residual(p, s, kind);
    VH_EXPECT(after < 0.05, "short", "residual ", after, " after ", res.iterations, " iterations");
    std::set<size_t> used;
    for (size_t d = 0; d < p.nsol.size(); ++d) for (size_t t = 0; t < p.nt; ++t) used.insert(p.sub(d, t));
    for (size_t b = 0; b < p.ncb; ++b) for (size_t a = 0; a < p.nant; ++a) for (size_t k = 0; k < n; ++k) for (size_t e = 0; e < p.pol; ++e)
      VH_EXPECT(Fin(s[b][(a * n + k) * p.pol + e]) == (used.count(k) > 0), "short-finite", "solution of antenna ", a, " sub interval ", k, used.count(k) ? " is not finite" : " is finite without data", ": ", s[b][(a * n + k) * p.pol + e]);
  });
  R().Cases("missing", R().n(200, 3000), [](Rng& r, size_t i) {
    // An antenna without data has no finite solution and disturbs no other;
    // starting values that are not finite are harmless.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    const size_t gone = r.below(p.nant + 1);
    for (size_t t = 0; t < p.nt; ++t) for (size_t b = 0; b < p.a1.size(); ++b) if (size_t(p.a1[b]) == gone || size_t(p.a2[b]) == gone) for (size_t c = 0; c < p.nch; ++c) p.flag[p.at(t, b, c, r.below(4))] = 1;
    Solutions s = Unit(p);
    if (r.chance(0.5)) for (auto& v : s) for (cd& x : v) if (r.chance(0.1)) x = {r.chance(0.5) ? 0.0 : INFINITY, kNan};
    Threads(r);
    R().Describe(S(kNames[kind], " ", p.Str(), " without ", gone));
    R().Nontrivial();
    Opt o; o.maxit = 300; o.acc = 1e-7;
    const auto res = Run(kind, p, s, o);
    const double after = Residual(p, s, kind);
    VH_EXPECT(after < 5e-3, "missing", "residual ", after, " after ", res.iterations, " iterations");
    const size_t n = p.nsub() * p.pol;
    for (size_t b = 0; b < p.ncb; ++b) for (size_t a = 0; a < p.nant; ++a) for (size_t e = 0; e < n; ++e) VH_EXPECT(Fin(s[b][a * n + e]) == (a != gone), "missing-finite", "solution of antenna ", a, " is ", s[b][a * n + e]);
  });
  R().Cases("scaling", R().n(150, 2000), [](Rng& r, size_t i) {
    // Multiplying all weights, or data and model, by the same number changes nothing.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind), q = p;
    const float f = std::pow(2.0f, float(r.range(-4, 4))) * (r.chance(0.5) ? 1 : 4);
    const bool weights = r.chance(0.5);
    if (weights) for (float& w : q.weight) w *= f * f;
    else { for (cf& x : q.data) x *= f; for (auto& m : q.model) for (cf& x : m) x *= f; }
    Threads(1);
    Opt o; o.maxit = o.minit = r.range(1, 10); o.acc = 0;
    Solutions s = Unit(p), u = Unit(p);
    R().Describe(S(kNames[kind], " ", p.Str(), weights ? " weights" : " data", " times ", f));
    R().Nontrivial();
    Run(kind, p, s, o);
    Run(kind, q, u, o);
    VH_EXPECT(MaxDiff(s, u) < 1e-4, "scaling", "the solutions change by ", MaxDiff(s, u));
  });
  R().Cases("loop", R().n(400, 5000), [](Rng& r, size_t i) {
    // How the solvers treat constraints, their result and stopping.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind, 2);
    Opt o;
    o.maxit = r.range(1, 25);
    o.minit = r.chance(0.3) ? r.range(0, 30) : 0;
    o.acc = std::pow(10.0, r.real(-5, -1));
    struct Log { std::vector<std::string> bad; size_t applied = 0, prepared = 0, satisfied_from = 0; bool converged_seen = false; };
    auto log = std::make_shared<Log>();
    struct Spy : Constraint {
      Spy(std::shared_ptr<Log> l, const Problem& q, const Opt& opt, double tm) : log(l), p(q), o(opt), time(tm) {}
      std::shared_ptr<Log> log; const Problem& p; const Opt& o; double time;
      bool Satisfied() const override { return log->applied >= log->satisfied_from; }
      void PrepareIteration(bool reached, size_t it, bool last) override {
        ++log->prepared;
        if (log->prepared == 1) { if (reached || it != 0 || last) log->bad.push_back("start"); return; }
        if (it != log->applied) log->bad.push_back(S("iteration ", it, " after ", log->applied));
        if (last != (it + 1 >= o.maxit)) log->bad.push_back(S("last=", last, " at ", it));
        if (log->converged_seen && !reached) log->bad.push_back("forgot that it had converged");
        log->converged_seen = reached;
      }
      void Apply(SolutionSpan& s, double t) override {
        ++log->applied;
        if (log->prepared != log->applied + 1) log->bad.push_back("not prepared");
        if (t != time) log->bad.push_back("time");
        if (s.shape(0) != p.ncb || s.shape(1) != p.nant || s.shape(2) != p.nsub() || s.shape(3) != p.pol) log->bad.push_back("shape");
        for (size_t k = 0; k < s.size(); ++k) if (!Fin(s.data()[k])) log->bad.push_back("not finite");
      }
      std::vector<ConstraintResult> GetResult() const override { ConstraintResult x; x.name = "spy"; return {x}; }
    };
    log->satisfied_from = r.chance(0.5) ? 0 : r.range(0, 30);
    auto solver = MakeSolver(kind);
    solver->AddConstraint(std::make_unique<Spy>(log, p, o, 0.0));
    Threads(r);
    R().Describe(S(kNames[kind], " ", p.Str(), " max=", o.maxit, " min=", o.minit, " accuracy=", o.acc, " satisfied after ", log->satisfied_from));
    Solutions s = Unit(p);
    const auto res = Run(*solver, kind, p, s, o);
    VH_EXPECT(log->bad.empty(), "constraint-calls", vh::Join(log->bad));
    const size_t n = log->applied;
    const bool sat = n > log->satisfied_from || log->satisfied_from == 0, conv = res.iterations == n && sat;
    if (sat) R().Nontrivial();
    VH_EXPECT(res.iterations == n || res.iterations == n + 1, "iterations", n, " iterations are reported as ", res.iterations);
    VH_EXPECT(n >= o.minit, "iterations", "stopped after ", n, " iterations, at least ", o.minit, " were asked");
    VH_EXPECT(n <= std::max(o.maxit, o.minit), "iterations", "stopped after ", n, " iterations, at most ", o.maxit, " are allowed");
    VH_EXPECT(conv || n >= o.maxit, "iterations", "gave up after ", n, " of ", o.maxit, " iterations");
    VH_EXPECT(sat || (res.iterations == n + 1 && res.constraint_iterations == n + 1), "iterations", "the constraint is not satisfied but ", res.iterations, " iterations are reported");
    VH_EXPECT(res.results.size() == 1 && res.results[0].size() == 1 && res.results[0][0].name == "spy", "constraint-result", "the result of the constraint is lost");
  });
  R().Cases("hybrid", R().n(150, 2000), [](Rng& r, size_t) {
    // Solvers after one another; the total number of iterations is bounded.
    const std::vector<std::vector<int>> groups{{kScalar, kIterScalar}, {kDiag, kIterDiag}, {kFull, kIterFull}};
    const auto& g = r.pick(groups);
    const bool loose = r.chance(0.6);
    const size_t n = loose ? r.range(3, 5) : r.range(1, 4);
    std::vector<int> kinds;
    for (size_t k = 0; k < n; ++k) kinds.push_back(r.pick(g));
    Problem p = RandomProblem(r, g[0]);  // without sub intervals
    HybridSolver h;
    const size_t total = loose ? r.range(1, 12) : r.range(1, 60);
    std::vector<size_t> maxit;
    struct Count : Constraint { std::shared_ptr<size_t> n; void Apply(SolutionSpan&, double) override { ++*n; } };
    std::vector<std::shared_ptr<size_t>> counts;
    const double acc = loose ? r.real(0.1, 1.0) : std::pow(10.0, r.real(-5, -1));
    const bool stop = r.chance(loose ? 0.2 : 0.5);
    for (int k : kinds) {
      auto s = MakeSolver(k);
      maxit.push_back(r.range(1, 40));
      s->SetMaxIterations(maxit.back());
      s->SetAccuracy(acc); s->SetConstraintAccuracy(acc); s->SetStepSize(0.2); s->SetPhaseOnly(false);
      auto c = std::make_unique<Count>();
      c->n = std::make_shared<size_t>(0);
      counts.push_back(c->n);
      s->AddConstraint(std::move(c));
      h.AddSolver(std::move(s));
    }
    h.SetStopOnConvergence(stop);
    Threads(r);
    std::string names;
    for (size_t k = 0; k < n; ++k) names += S(kNames[kinds[k]], "(", maxit[k], ") ");
    R().Describe(S(names, p.Str(), " total=", total, stop ? " stop" : ""));
    R().Nontrivial();
    h.SetMaxIterations(total);
    h.Initialize(p.nant, p.nsol, p.ncb);
    VH_EXPECT(h.ConstraintSolvers().size() == n && h.NSolutionPolarizations() == p.pol, "hybrid", "solvers are missing");
    Solutions s = Unit(p);
    const auto res = h.Solve(FullSolveData(Weighted(p), p.dirs, p.ncb, p.nant, p.nsol, p.a1, p.a2), s, 0.0);
    size_t done = 0;
    for (auto& c : counts) done += *c;
    // A solver that is out of iterations still makes one step.
    VH_EXPECT(done <= total + n, "hybrid-total", done, " iterations were made, ", total, " are allowed");
    for (size_t k = 0; k < n; ++k) VH_EXPECT(*counts[k] <= maxit[k], "hybrid-total", "solver ", k, " made ", *counts[k], " iterations, not at most ", maxit[k]);
    // The same by hand.
    Solutions u = Unit(p);
    size_t left = total;
    bool conv = false;
    size_t stages = 0, early = 0, expected = 0;
    for (size_t k = 0; k < n && !(conv && stop); ++k) {
      auto one = MakeSolver(kinds[k]);
      Opt o; o.maxit = std::min(left, maxit[k]); o.acc = acc;
      one->SetConstraintAccuracy(acc);
      const auto x = Run(*one, kinds[k], p, u, o);
      conv = x.iterations <= o.maxit;
      left -= conv ? x.iterations : o.maxit;
      ++stages;
      early += conv;
      expected += conv ? x.iterations : std::max<size_t>(o.maxit, 1);
    }
    R().Count(S("hybrid stages ", stages, " converged ", early, left == 0 ? " out of iterations" : ""));
    VH_EXPECT(done == expected, "hybrid-count", done, " iterations, not ", expected);
    VH_EXPECT(MaxDiff(s, u) < 1e-3, "hybrid", "the solvers after one another differ from the hybrid one by ", MaxDiff(s, u));
    VH_EXPECT((res.iterations <= total) == conv || (conv && stop == false), "hybrid-result", "reports ", res.iterations, " iterations of ", total, conv ? " (converged)" : "");
    VH_EXPECT(vh::Throws([&] { h.AddSolver(MakeSolver(p.pol == 1 ? kDiag : kScalar)); }), "hybrid-mixed", "solvers with other solutions can be combined");
  });
  R().Cases("undefined", R().n(300, 4000), [](Rng& r, size_t i) {
    // Solutions that the previous interval left undefined start from the
    // average amplitude of the others.
    const int kind = int(i % kAntenna);
    Problem p = RandomProblem(r, kind);
    Threads(r);
    Solutions s = Unit(p);
    for (auto& b : s) for (cd& x : b) x = (x + 0.5 * G(r)) * std::pow(10.0, r.real(-0.5, 0.5));
    Solutions u = s;
    const double part = r.pick(std::vector<double>{0.1, 0.5, 1});
    size_t holes = 0;
    for (size_t b = 0; b < p.ncb; ++b) {
      std::vector<double> sum(p.pol, 0.0);
      std::vector<size_t> bad;
      size_t good = 0;
      for (size_t j = 0; j < s[b].size(); j += p.pol) {
        if (r.chance(part)) {
          bad.push_back(j);
          const bool all = r.chance(0.5);
          const size_t which = r.below(p.pol);
          for (size_t e = 0; e < p.pol; ++e) if (all || e == which) s[b][j + e] = r.chance(0.5) ? cd(kNan, kNan) : cd(std::numeric_limits<double>::infinity(), 0);
        } else {
          ++good;
          for (size_t e = 0; e < p.pol; ++e) sum[e] += std::abs(s[b][j + e]);
        }
      }
      for (size_t j : bad) for (size_t e = 0; e < p.pol; ++e) u[b][j + e] = good ? sum[e] / double(good) : (p.pol == 4 && (e == 1 || e == 2) ? 0.0 : 1.0);
      holes += bad.size();
    }
    Opt o; o.maxit = o.minit = r.range(1, 3); o.acc = 0;
    R().Describe(S(kNames[kind], " ", p.Str(), " iterations=", o.maxit, " undefined=", holes));
    if (holes) R().Nontrivial();
    Run(kind, p, s, o);
    Run(kind, p, u, o);
    VH_EXPECT(MaxDiff(s, u) < 1e-6, "undefined", "undefined solutions are not replaced by the average amplitude: ", MaxDiff(s, u));
  });
  R().Cases("refused", 30, [](Rng& r, size_t) {
    const int kind = int(r.below(3));
    auto s = MakeSolver(kind);
    R().Nontrivial();
    VH_EXPECT(!s->SupportsDdSolutionIntervals() && vh::Throws([&] { s->Initialize(5, {1, 2}, 1); }), "dd-intervals", "a solver without sub intervals accepts them");
  });
  R().Cases("antenna", 1, [](Rng&, size_t) {
    // Recorded: see KNOWN_FINDINGS.txt. One fixed input.
    Rng r(20);
    Problem p = RandomProblem(r, kAntenna, 1);
    Threads(1);
    Solutions s = Unit(p);
    Opt o;
    R().Describe(S("antenna ", p.Str()));
    Run(kAntenna, p, s, o);
    const double after = Residual(p, s, kAntenna);
    VH_EXPECT(after < 2e-3, "antenna-solver-fixed-input", "residual ", after);
  });
}

}  // namespace

VH_MAIN({"C28", C28})
