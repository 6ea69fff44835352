// Monitors for the calibration building blocks: linear least squares, solution
// resampling, applying gains to and subtracting models from visibilities.
#include "vh.h"

#include <algorithm>
#include <complex>

#include "base/Apply.h"
#include "base/SubtractMixed.h"
#include "ddecal/SolutionResampler.h"
#include "ddecal/linear_solvers/LLSSolver.h"

using vh::R;
using vh::Rng;
using vh::S;
using namespace dp3::ddecal;
using cd = std::complex<double>;
using cf = std::complex<float>;

namespace {

cd Gauss(Rng& r) { return {r.gauss(), r.gauss()}; }

// Reference: solve (A^H A) X = A^H B in long double with pivoting.
using cl = std::complex<long double>;
std::vector<cl> Reference(const std::vector<cf>& a, const std::vector<cf>& b, int m, int n, int nrhs, int ldb) {
  std::vector<cl> g(n * n), h(n * nrhs);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < m; ++k) g[i * n + j] += std::conj(cl(a[k + i * m])) * cl(a[k + j * m]);
    for (int p = 0; p < nrhs; ++p)
      for (int k = 0; k < m; ++k) h[i * nrhs + p] += std::conj(cl(a[k + i * m])) * cl(b[k + p * ldb]);
  }
  for (int c = 0; c < n; ++c) {
    int piv = c;
    for (int i = c; i < n; ++i)
      if (std::abs(g[i * n + c]) > std::abs(g[piv * n + c])) piv = i;
    for (int j = 0; j < n; ++j) std::swap(g[c * n + j], g[piv * n + j]);
    for (int p = 0; p < nrhs; ++p) std::swap(h[c * nrhs + p], h[piv * nrhs + p]);
    for (int i = 0; i < n; ++i) {
      if (i == c) continue;
      const cl f = g[i * n + c] / g[c * n + c];
      for (int j = c; j < n; ++j) g[i * n + j] -= f * g[c * n + j];
      for (int p = 0; p < nrhs; ++p) h[i * nrhs + p] -= f * h[c * nrhs + p];
    }
  }
  std::vector<cl> x(n * nrhs);
  for (int i = 0; i < n; ++i)
    for (int p = 0; p < nrhs; ++p) x[i + p * n] = h[i * nrhs + p] / g[i * n + i];
  return x;
}

// A well-conditioned m x n matrix (m >= n): random, columns pushed apart.
std::vector<cf> GoodMatrix(Rng& r, int m, int n, double scale) {
  std::vector<cf> a(size_t(m) * n);
  for (cf& v : a) v = cf(Gauss(r) * 0.5 * scale);
  for (int i = 0; i < n; ++i) a[i + i * m] += cf(float(scale * (2.0 + std::sqrt(double(m)))), 0);
  return a;
}

const char* kSolverNames[] = {"qr", "svd", "normalequations"};

void C20() {
  R().Cases("overdetermined", R().n(2500, 50000), [](Rng& r, size_t) {
    const size_t type_index = r.below(3);
    const int n = 1 + int(r.below(r.chance(0.1) ? 20 : 7));
    const int m = n + int(r.below(r.chance(0.1) ? 60 : 9));
    const int nrhs = 1 + int(r.below(4));
    const int ldb = std::max(m, n);
    std::string name = kSolverNames[type_index];
    for (char& c : name)
      if (r.chance(0.3)) c = char(std::toupper(c));
    auto solver = LLSSolver::Make(LLSSolver::ParseType(name), m, n, nrhs);
    const size_t uses = 1 + r.below(3);
    for (size_t use = 0; use < uses; ++use) {
      const double scale = std::pow(10.0, r.real(-3, 3));
      std::vector<cf> a = GoodMatrix(r, m, n, scale), b(size_t(ldb) * nrhs);
      // Unknowns of very different magnitude: singular values span up to three decades.
      const bool spread = r.chance(0.3);
      std::vector<double> column(n, 1.0);
      if (spread)
        for (int j = 0; j < n; ++j) {
          column[j] = std::pow(10.0, r.real(-1.4, 1.4));
          for (int i = 0; i < m; ++i) a[i + j * m] *= float(column[j]);
        }
      for (cf& v : b) v = cf(Gauss(r));
      if (r.chance(0.1)) std::fill(b.begin(), b.end(), cf(0));
      R().Describe(S(name, " ", m, "x", n, " rhs ", nrhs, " use ", use, " scale ", scale));
      if (m > n && n > 1) R().Nontrivial(S(name, m, ",", n, ",", nrhs, ",", scale));
      const auto want = Reference(a, b, m, n, nrhs, ldb);
      std::vector<cf> x0(size_t(ldb) * nrhs, cf(3, 1));
      const bool ok = r.chance(0.5) ? solver->Solve(a.data(), b.data()) : solver->Solve(a.data(), b.data(), x0.data());
      VH_EXPECT(ok, "lls-refused", "a full-rank system was reported as unsolvable");
      if (!ok) continue;
      double worst = 0, norm = 0;
      for (int p = 0; p < nrhs; ++p)
        for (int i = 0; i < n; ++i) {
          worst = std::max(worst, column[i] * double(std::abs(cl(b[i + p * ldb]) - want[i + p * n])));
          norm = std::max(norm, column[i] * double(std::abs(want[i + p * n])));
        }
      R().Count("solutions compared", size_t(n) * nrhs);
      const double tolerance = !spread ? 3e-4 : type_index == 2 ? 0.1 : 3e-2;
      VH_EXPECT(worst <= tolerance * norm + 1e-30, S("lls-", kSolverNames[type_index]), "deviates ", worst, " of ", norm, " from the least-squares solution");
    }
  });
  R().Cases("underdetermined", R().n(500, 8000), [](Rng& r, size_t) {
    // Fewer equations than unknowns: the QR solver refuses; SVD gives an exact, shortest solution.
    const int m = 1 + int(r.below(5)), n = m + 1 + int(r.below(4)), nrhs = 1 + int(r.below(3)), ldb = n;
    std::vector<cf> at = GoodMatrix(r, n, m, 1.0);  // A^H, n x m
    std::vector<cf> a(size_t(m) * n), b(size_t(ldb) * nrhs);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) a[i + j * m] = std::conj(at[j + i * n]);
    for (cf& v : b) v = cf(Gauss(r));
    const std::vector<cf> a0 = a, b0 = b;
    R().Describe(S("underdetermined ", m, "x", n, " rhs ", nrhs));
    R().Nontrivial(S("under ", m, "x", n, "x", nrhs, " ", b[0].real()));
    {
      std::vector<cf> a1 = a, b1 = b;
      VH_EXPECT(!LLSSolver::Make(LLSSolverType::QR, m, n, nrhs)->Solve(a1.data(), b1.data()), "lls-qr-under", "QR solved an underdetermined system");
    }
    const bool ok = LLSSolver::Make(LLSSolverType::SVD, m, n, nrhs)->Solve(a.data(), b.data());
    VH_EXPECT(ok, "lls-svd-under", "SVD refused");
    // Shortest solution: x = A^H z, with (A A^H) z = b, where z solves least squares on A^H exactly.
    for (int p = 0; p < nrhs; ++p) {
      double res = 0;
      for (int i = 0; i < m; ++i) {
        cl s = -cl(b0[i + p * ldb]);
        for (int j = 0; j < n; ++j) s += cl(a0[i + j * m]) * cl(b[j + p * ldb]);
        res = std::max(res, double(std::abs(s)));
      }
      VH_EXPECT(res < 1e-3, "lls-svd-residual", "residual ", res);
      // Component outside the row space: x - A^H (projection) must vanish.
      std::vector<cf> x(n);
      for (int j = 0; j < n; ++j) x[j] = b[j + p * ldb];
      const auto z = Reference(at, x, n, m, 1, n);
      double off = 0;
      for (int j = 0; j < n; ++j) {
        cl s = -cl(x[j]);
        for (int i = 0; i < m; ++i) s += cl(at[j + i * n]) * z[i];
        off = std::max(off, double(std::abs(s)));
      }
      VH_EXPECT(off < 1e-3, "lls-svd-shortest", "component outside the row space: ", off);
    }
  });
  R().Cases("singular", R().n(300, 3000), [](Rng& r, size_t) {
    // A zero column: no solver may claim success with a non-finite answer.
    const int n = 2 + int(r.below(4)), m = n + int(r.below(4));
    std::vector<cf> a = GoodMatrix(r, m, n, 1.0), b(m);
    for (cf& v : b) v = cf(Gauss(r));
    const int col = int(r.below(n));
    for (int i = 0; i < m; ++i) a[i + col * m] = 0;
    const size_t t = r.below(3);
    R().Describe(S(kSolverNames[t], " singular ", m, "x", n, " column ", col));
    R().Nontrivial(S(kSolverNames[t], " singular ", m, "x", n, " column ", col));
    const bool ok = LLSSolver::Make(LLSSolver::ParseType(kSolverNames[t]), m, n, 1)->Solve(a.data(), b.data());
    if (t != 1) VH_EXPECT(!ok, "lls-singular", "an unsolvable system was reported as solved");
  });
  R().Cases("names", R().n(500, 4000), [](Rng& r, size_t) {
    std::string name = kSolverNames[r.below(3)];
    const size_t at = r.below(name.size());
    if (r.chance(0.5)) name.erase(at, 1); else name[at] = char('a' + r.below(26));
    R().Describe("solver name " + name);
    bool known = false;
    for (const char* k : kSolverNames) known |= name == k;
    R().Nontrivial(name);
    VH_EXPECT(known || vh::Throws([&] { LLSSolver::ParseType(name); }), "lls-name", "unknown solver '", name, "' accepted");
    VH_EXPECT(LLSSolver::ParseType("qr") == LLSSolverType::QR && LLSSolver::ParseType("Svd") == LLSSolverType::SVD &&
                  LLSSolver::ParseType("normalEquations") == LLSSolverType::NORMAL_EQUATIONS,
              "lls-name", "name selects another solver");
  });
}

void C21() {
  R().Cases("upsample", R().n(3000, 60000), [](Rng& r, size_t) {
    const size_t interval = r.pick(std::vector<size_t>{1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 18, 20, 24, 30});
    std::vector<size_t> divisors;
    for (size_t d = 1; d <= interval; ++d)
      if (interval % d == 0) divisors.push_back(d);
    const size_t n_dir = 1 + r.below(6), n_ant = 1 + r.below(4), n_pol = r.pick(std::vector<size_t>{1, 2, 4}), n_time = 1 + r.below(4), n_ch = 1 + r.below(3);
    std::vector<size_t> per_dir(n_dir);
    for (size_t& d : per_dir) d = r.pick(divisors);
    size_t n_sub = 0;
    std::vector<size_t> first(n_dir);
    for (size_t d = 0; d < n_dir; ++d) first[d] = n_sub, n_sub += per_dir[d];
    SolutionResampler rs(per_dir, n_ant, interval);
    const size_t steps = rs.GetNrSubSteps();
    R().Describe(S("solint ", interval, " per direction ", vh::Join(per_dir), " antennas ", n_ant, " pol ", n_pol, " times ", n_time));
    if (n_dir > 1 && n_sub > n_dir) R().Nontrivial(S(interval, ":", vh::Join(per_dir), ":", n_ant, ":", n_pol, ":", n_time));
    VH_EXPECT(steps >= *std::max_element(per_dir.begin(), per_dir.end()) && steps <= interval, "substeps", steps, " sub-steps");
    for (size_t d : per_dir) VH_EXPECT(steps % d == 0, "substeps-divide", steps, " sub-steps for ", d, " solutions");
    if (!steps) return;
    const bool all_divide = std::all_of(per_dir.begin(), per_dir.end(), [&](size_t d) { return *std::max_element(per_dir.begin(), per_dir.end()) % d == 0; });
    if (all_divide) VH_EXPECT(steps == *std::max_element(per_dir.begin(), per_dir.end()), "substeps-minimal", steps, " sub-steps while fewer suffice");

    std::vector<std::vector<std::vector<cd>>> in(n_time, std::vector<std::vector<cd>>(n_ch, std::vector<cd>(n_ant * n_sub * n_pol)));
    double id = 0;
    for (auto& t : in)
      for (auto& c : t)
        for (cd& v : c) v = cd(id += 1, -id);
    const auto out = rs.Upsample(in, n_pol);
    VH_EXPECT(out.size() == n_time * steps, "upsample-times", out.size(), " times");
    for (size_t t = 0; t < out.size(); ++t) {
      VH_EXPECT(out[t].size() == n_ch, "upsample-channels", out[t].size());
      for (size_t c = 0; c < out[t].size(); ++c) {
        VH_EXPECT(out[t][c].size() == n_ant * n_dir * n_pol, "upsample-size", out[t][c].size());
        if (out[t][c].size() != n_ant * n_dir * n_pol) return;
        for (size_t a = 0; a < n_ant; ++a)
          for (size_t d = 0; d < n_dir; ++d)
            for (size_t p = 0; p < n_pol; ++p) {
              // The solution that covers this moment of the interval.
              const size_t sub = first[d] + (t % steps) * per_dir[d] / steps;
              const cd want = in[t / steps][c][(a * n_sub + sub) * n_pol + p];
              VH_EXPECT(out[t][c][(a * n_dir + d) * n_pol + p] == want, "upsample-value", "time ", t, " antenna ", a, " direction ", d, " pol ", p);
              const auto m = rs.MapResampledToOriginal(t, a, d, p, n_pol);
              VH_EXPECT(m.first == t / steps && m.second == (a * n_sub + sub) * n_pol + p, "upsample-map", "time ", t, " direction ", d, " maps to ", m.first, ",", m.second);
              R().Count("values mapped");
            }
      }
    }
    // Constraint results (antenna x sub-solution x ...), with weights.
    const size_t rest = 1 + r.below(3), n_con = r.below(3), n_type = 1 + r.below(2);
    std::vector<std::vector<std::vector<ConstraintResult>>> cin(n_time, std::vector<std::vector<ConstraintResult>>(n_con, std::vector<ConstraintResult>(n_type)));
    for (auto& t : cin)
      for (auto& c : t)
        for (size_t k = 0; k < n_type; ++k) {
          c[k].name = S("n", k);
          c[k].axes = "ant,dir,freq";
          c[k].dims = {n_ant, n_sub, rest};
          for (size_t i = 0; i < n_ant * n_sub * rest; ++i) c[k].vals.push_back(id += 1), c[k].weights.push_back(-(id += 1));
        }
    const auto cout = rs.Upsample(cin);
    VH_EXPECT(cout.size() == n_time * steps, "upsample-constraint-times", cout.size());
    for (size_t t = 0; t < cout.size(); ++t) {
      VH_EXPECT(cout[t].size() == n_con, "upsample-constraint-count", cout[t].size());
      for (size_t c = 0; c < cout[t].size(); ++c)
        for (size_t k = 0; k < n_type; ++k) {
          const ConstraintResult& o = cout[t][c][k];
          const ConstraintResult& i0 = cin[t / steps][c][k];
          VH_EXPECT(o.name == i0.name && o.axes == i0.axes && o.dims == (std::vector<size_t>{n_ant, n_dir, rest}), "upsample-constraint-meta", vh::Join(o.dims));
          VH_EXPECT(o.vals.size() == n_ant * n_dir * rest && o.weights.size() == o.vals.size(), "upsample-constraint-size", o.vals.size());
          if (o.vals.size() != n_ant * n_dir * rest || o.weights.size() != o.vals.size()) return;
          for (size_t a = 0; a < n_ant; ++a)
            for (size_t d = 0; d < n_dir; ++d)
              for (size_t q = 0; q < rest; ++q) {
                const size_t sub = first[d] + (t % steps) * per_dir[d] / steps;
                const size_t oi = (a * n_dir + d) * rest + q, ii = (a * n_sub + sub) * rest + q;
                VH_EXPECT(o.vals[oi] == i0.vals[ii] && o.weights[oi] == i0.weights[ii], "upsample-constraint-value", "time ", t, " antenna ", a, " direction ", d);
              }
        }
    }
  });
}

// A visibility buffer with the given strides and a guard pattern in the gaps.
struct Layout {
  size_t stride[3];
  size_t size;
};
Layout RandomLayout(Rng& r, size_t n_bl, size_t n_ch) {
  Layout l;
  const size_t gap0 = r.chance(0.3) ? 1 + r.below(2) : 1;
  l.stride[0] = gap0;
  if (r.chance(0.8)) {
    l.stride[1] = l.stride[0] * 4 + (r.chance(0.3) ? r.below(3) : 0);
    l.stride[2] = l.stride[1] * n_ch + (r.chance(0.3) ? r.below(3) : 0);
  } else {  // baseline before channel
    l.stride[2] = l.stride[0] * 4 + (r.chance(0.3) ? r.below(3) : 0);
    l.stride[1] = l.stride[2] * n_bl + (r.chance(0.3) ? r.below(3) : 0);
  }
  l.size = l.stride[0] * 3 + l.stride[1] * (n_ch - 1) + l.stride[2] * (n_bl - 1) + 1;
  return l;
}

void C22() {
  R().Cases("apply", R().n(6000, 120000), [](Rng& r, size_t) {
    const size_t n_bl = 1 + r.below(7), n_ch = 1 + r.below(6), n_st = 1 + r.below(5);
    const Layout l = RandomLayout(r, n_bl, n_ch);
    std::vector<dp3::base::Baseline> bls(n_bl);
    size_t cross = 0;
    for (auto& b : bls) b = {r.below(n_st), r.below(n_st)}, cross += b.first != b.second;
    const size_t cst = 8 + r.below(3), cinner = 1;
    std::vector<double> coeff(cst * (n_st - 1) + 8);
    for (double& c : coeff) c = r.chance(0.1) ? 0 : r.gauss();
    std::vector<cd> data(l.size);
    for (cd& v : data) v = Gauss(r);
    std::vector<cd> want = data;
    const bool with_nan = r.chance(0.1);
    if (with_nan) data[r.below(data.size())] = cd(std::nan(""), 0), want = data;
    R().Describe(S("apply ", n_bl, " baselines ", n_ch, " channels strides ", l.stride[0], ",", l.stride[1], ",", l.stride[2], with_nan ? " nan" : ""));
    if (cross) R().Nontrivial(S(n_bl, n_ch, l.stride[1], l.stride[2], data[0].real()));
    for (size_t b = 0; b < n_bl; ++b) {
      const size_t p = bls[b].first, q = bls[b].second;
      if (p == q) continue;
      auto J = [&](size_t s, int i, int j) { return cd(coeff[s * cst + 2 * (2 * i + j)], coeff[s * cst + 2 * (2 * i + j) + 1]); };
      for (size_t c = 0; c < n_ch; ++c) {
        auto at = [&](int i, int j) { return b * l.stride[2] + c * l.stride[1] + (2 * i + j) * l.stride[0]; };
        for (int i = 0; i < 2; ++i)
          for (int j = 0; j < 2; ++j) {
            cd s = 0;  // sum_kl Jp_ik V_kl conj(Jq_jl)
            for (int k = 0; k < 2; ++k)
              for (int m = 0; m < 2; ++m) s += J(p, i, k) * data[at(k, m)] * std::conj(J(q, j, m));
            want[at(i, j)] = s;
          }
      }
      R().Count("visibilities corrected", n_ch);
    }
    const std::vector<dp3::base::Baseline> bls0 = bls;
    const std::vector<double> coeff0 = coeff;
    const size_t cstride[2] = {cinner, cst};
    dp3::base::apply(n_bl, n_ch, dp3::base::const_cursor<dp3::base::Baseline>(bls.data()),
                     dp3::base::const_cursor<double>(coeff.data(), 2, cstride), dp3::base::cursor<cd>(data.data(), 3, l.stride));
    VH_EXPECT(coeff == coeff0 && bls == bls0, "apply-inputs", "inputs were modified");
    for (size_t i = 0; i < data.size(); ++i) {
      const bool nan_w = std::isnan(want[i].real()) || std::isnan(want[i].imag()), nan_g = std::isnan(data[i].real()) || std::isnan(data[i].imag());
      VH_EXPECT(nan_w == nan_g && (nan_w || std::abs(data[i] - want[i]) <= 1e-11 * (1 + std::abs(want[i]))), "apply-value", "element ", i, " is ", data[i].real(), ",", data[i].imag(), " expected ", want[i].real(), ",", want[i].imag());
    }
  });
  R().Cases("subtract", R().n(6000, 120000), [](Rng& r, size_t) {
    const size_t n_bl = 1 + r.below(7), n_ch = 1 + r.below(6), n_st = 1 + r.below(5);
    const Layout ld = RandomLayout(r, n_bl, n_ch), lm = RandomLayout(r, n_bl, n_ch), lw = RandomLayout(r, n_bl, n_ch);
    std::vector<dp3::base::Baseline> bls(n_bl);
    size_t cross = 0;
    for (auto& b : bls) b = {r.below(n_st), r.below(n_st)}, cross += b.first != b.second;
    std::vector<cf> data(ld.size);
    std::vector<cd> model(lm.size), weight(lw.size);
    for (cf& v : data) v = cf(Gauss(r));
    for (cd& v : model) v = Gauss(r);
    for (cd& v : weight) v = Gauss(r);
    const bool with_nan = r.chance(0.2);
    if (with_nan) {
      data[r.below(data.size())] = cf(std::nanf(""), 1);
      if (r.chance(0.5)) model[r.below(model.size())] = cd(0, std::nan(""));
    }
    std::vector<cf> want = data;
    double before = 0, after = 0;
    for (size_t b = 0; b < n_bl; ++b) {
      if (bls[b].first == bls[b].second) continue;
      for (size_t c = 0; c < n_ch; ++c)
        for (size_t k = 0; k < 4; ++k) {
          const size_t di = b * ld.stride[2] + c * ld.stride[1] + k * ld.stride[0];
          const cd w = weight[b * lw.stride[2] + c * lw.stride[1] + k * lw.stride[0]], m = model[b * lm.stride[2] + c * lm.stride[1] + k * lm.stride[0]];
          const cd res = cd(data[di]) - w * m;
          want[di] = cf(res);
          if (k == 0 || k == 3) {
            const double x = std::norm(cd(data[di])), y = std::norm(res);
            if (!std::isnan(x)) before += x;
            if (!std::isnan(y)) after += y;
          }
        }
    }
    R().Describe(S("subtract ", n_bl, " baselines ", n_ch, " channels data strides ", ld.stride[0], ",", ld.stride[1], ",", ld.stride[2], with_nan ? " nan" : ""));
    if (cross) R().Nontrivial(S(n_bl, n_ch, ld.stride[1], data[0].real()));
    const std::vector<cd> model0 = model;
    float vb = -1, va = -1;
    dp3::base::subtract(n_bl, n_ch, dp3::base::const_cursor<dp3::base::Baseline>(bls.data()), dp3::base::cursor<cf>(data.data(), 3, ld.stride),
                        dp3::base::const_cursor<cd>(model.data(), 3, lm.stride), dp3::base::const_cursor<cd>(weight.data(), 3, lw.stride), vb, va);
    for (size_t i = 0; i < data.size(); ++i) {
      const bool nw = std::isnan(std::abs(want[i])), ng = std::isnan(std::abs(data[i]));
      VH_EXPECT(nw == ng && (nw || std::abs(data[i] - want[i]) <= 3e-6f * (1 + std::abs(want[i])) * 4), "subtract-value", "element ", i, " is ", data[i].real(), " expected ", want[i].real());
    }
    VH_EXPECT(std::fabs(vb - before) <= 1e-4 * (1e-3 + before) && std::fabs(va - after) <= 1e-4 * (1e-3 + after), "subtract-variance", "reported ", vb, " -> ", va, " expected ", before, " -> ", after);
    R().Count("visibilities subtracted", cross * n_ch * 4);
  });
}

}  // namespace

VH_MAIN({"C20", C20}, {"C21", C21}, {"C22", C22})
