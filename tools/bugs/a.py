PS = ["common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc", "common/ParameterRecord.cc", "common/StringTools.cc"]
BUGS = {
"range-padding-down": dict(property="C02", needs="a zero-padded descending range whose end is written with fewer digits", breaks="the padding of the first number is lost",
  edits=[("common/StringTools.cc", """            for (; num >= endnum; --num) {
              ostr << prefix << std::setfill('0') << std::setw(lennum) << num""", """            const int width = std::min(lennum, int(stsuf) - stnum);
            for (; num >= endnum; --num) {
              ostr << prefix << std::setfill('0') << std::setw(width) << num""")],
  sources=["common/StringTools.cc"], demo='''#include "common/StringTools.h"
#include <iostream>
int main() { std::string s = dp3::common::expandArrayString("[a010..8]"); std::cout << s << "\\n"; return s != "[a010,a009,a008]"; }
'''),
"subtract-exact-key": dict(property="C05", needs="a key that is exactly the removed prefix, followed by longer keys", breaks="removing a group stops at a key equal to the prefix and leaves the rest",
  edits=[("common/ParameterSetImpl.cc", """    // We can stop scanning once a match becomes false, since keys are sorted.
    if (!match) {
      return;""", """    // We can stop scanning once a match becomes false, since keys are sorted.
    if (!match || iter->first.size() == prefix.size()) {
      return;""")],
  sources=PS, shim=["aocommon"], demo='''#include "common/ParameterSet.h"
int main() { dp3::common::ParameterSet p; p.add("a", "1"); p.add("a.b", "2"); p.add("b", "3"); p.subtractSubset("a"); return p.isDefined("a.b") || p.isDefined("a") || !p.isDefined("b"); }
'''),
"subset-unlocked": dict(property="C07", needs="a thread that takes a subset while another adds keys", breaks="taking a subset races with concurrent queries and additions", flags="-O1 -g -fsanitize=thread",
  edits=[("common/ParameterSetImpl.cc", """    const std::string& baseKey, const std::string& prefix) const {
  // Thread-safety.
  std::lock_guard<std::mutex> locker(itsMutex);
""", """    const std::string& baseKey, const std::string& prefix) const {
""")],
  sources=PS, shim=["aocommon"], libs="-lpthread", demo='''#include "common/ParameterSet.h"
#include <thread>
int main() { dp3::common::ParameterSet p; for (int i = 0; i < 50; ++i) p.add("s.k" + std::to_string(i), "1");
  std::thread t([&] { for (int i = 0; i < 300; ++i) p.add("s.n" + std::to_string(i), "2"); });
  size_t n = 0; for (int i = 0; i < 300; ++i) n += p.makeSubset("s.").size();
  t.join(); return n < 50 * 300; }
'''),
"svd-rcond": dict(property="C20", needs="a system whose singular values span more than two orders of magnitude", breaks="small singular values are dropped, the answer is no longer the least-squares solution",
  edits=[("ddecal/linear_solvers/SVDSolver.h", "float rcond = 0.0;", "float rcond = 0.01;")],
  sources=["ddecal/linear_solvers/LLSSolver.cc"], libs="-llapack -lblas", demo='''#include "ddecal/linear_solvers/LLSSolver.h"
#include <cmath>
using namespace dp3::ddecal;
int main() { std::complex<float> a[6] = {1, 0, 0, 0, 0.005f, 0}, b[3] = {1, 1, 0};
  auto s = LLSSolver::Make(LLSSolverType::SVD, 3, 2, 1); if (!s->Solve(a, b)) return 1; return std::abs(b[1] - 200.0f) > 1; }
'''),
"apply-ordered-only": dict(property="C22", needs="a baseline whose first station number is above the second", breaks="gains are not applied to baselines stored in reversed station order",
  edits=[("base/Apply.cc", "    if (p != q) {", "    if (p < q) {")],
  sources=["base/Apply.cc"], demo='''#include "base/Apply.h"
using namespace dp3::base;
int main() { Baseline bl[1] = {{1, 0}}; double c[16] = {2,0,0,0,0,0,2,0, 3,0,0,0,0,0,3,0}; std::complex<double> d[4] = {1,1,1,1};
  size_t cs[2] = {1, 8}, ds[3] = {1, 4, 4}; apply(1, 1, const_cursor<Baseline>(bl), const_cursor<double>(c, 2, cs), cursor<std::complex<double>>(d, 3, ds)); return std::abs(d[0] - 6.0) > 1e-9; }
'''),
"vonmises-weights": dict(property="C24", needs="the Von Mises method with unequal weights and noisy data", breaks="the gradient of the cost ignores the weights, so the minimiser stops at another point",
  edits=[("ddecal/constraints/TecOffsetDelayFitting.cc", "const double s = -std::sin(r) * data.weights[i];", "const double s = -std::sin(r);")],
  sources=["ddecal/constraints/TecOffsetDelayFitting.cc"], libs="-lgsl -lgslcblas", demo='''#include "ddecal/constraints/TecOffsetDelayFitting.h"
#include <cmath>
#include <cstdio>
#include <vector>
int main() { std::vector<double> x, y, w; for (int i = 0; i < 20; ++i) { x.push_back(1 + i * 0.1); double m = 0.3 / x[i] + 0.2 + 0.1 * x[i]; bool bad = i % 3 == 0; y.push_back(m + (bad ? 1.2 * ((i % 2) ? 1 : -0.3) : 0)); w.push_back(bad ? 0.02 : 1.0); }
  auto f = GradientTecOffsetDelaySolve(x, y, w); if (!f) return 1;
  double g[3] = {0,0,0}; for (int i = 0; i < 20; ++i) { double s = std::sin(y[i] - f->a / x[i] - f->b - f->c * x[i]) * w[i]; g[0] += s / x[i]; g[1] += s; g[2] += s * x[i]; }
  std::printf("%g %g %g\\n", g[0], g[1], g[2]); return std::fabs(g[0]) + std::fabs(g[1]) + std::fabs(g[2]) > 1e-3; }
'''),
"resample-weights": dict(property="C21", needs="constraint results whose weights differ between sub-solutions of a direction", breaks="weights are taken from the first sub-solution instead of the covering one",
  edits=[("ddecal/SolutionResampler.cc", "              std::copy_n(input_result.weights.begin() + in_index,", "              std::copy_n(input_result.weights.begin() +\n                              (i * n_sub_solutions_ + old_sub_offset) *\n                                  residual_dims,")],
  sources=["ddecal/SolutionResampler.cc"], demo='''#include "ddecal/SolutionResampler.h"
using namespace dp3::ddecal;
int main() { SolutionResampler r({1, 2}, 1, 2); ConstraintResult c; c.dims = {1, 3}; c.axes = "ant,dir"; c.vals = {1, 2, 3}; c.weights = {4, 5, 6};
  auto u = r.Upsample(std::vector<std::vector<std::vector<ConstraintResult>>>{{{c}}}); return u[1][0][0].weights != std::vector<double>{4, 6}; }
'''),
"station-exclude-caret": dict(property="C08", needs="an item that excludes a one-letter station or pattern with a caret", breaks="exclusion with a two-character pattern is treated as a name",
  edits=[("common/ValuePerStationParsing.h", "if (pattern.size() > 1 && (pattern[0] == '!' || pattern[0] == '^')) {", "if (pattern.size() > 2 && (pattern[0] == '!' || pattern[0] == '^')) {")],
  sources=PS, shim=["aocommon"], demo='''#include <cassert>
#include "common/ValuePerStationParsing.h"
int main() { std::vector<std::string> st{"A", "B"}, list{"[*,!A]:3"}; std::vector<double> v{1, 1};
  dp3::common::ParseValuePerStation(std::span<double>(v), std::span<const std::string>(list), std::span<const std::string>(st)); return v != std::vector<double>{1, 3}; }
'''),
"sliding-right-edge": dict(property="C27", needs="an odd window size in a sliding fit", breaks="the channels near the right edge are not all filled from the last window",
  edits=[("ddecal/constraints/PieceWisePhaseFitter.h", """      PieceWisePhaseFitter::fitSlope(&data[n - chunkSize], &nu[n - chunkSize],
                                     &weights[n - chunkSize], chunkSize, a, b);
      for (size_t ch = rightEdge; ch != n; ++ch)""", """      PieceWisePhaseFitter::fitSlope(&data[n - chunkSize], &nu[n - chunkSize],
                                     &weights[n - chunkSize], chunkSize, a, b);
      for (size_t ch = n - chunkSize / 2; ch != n; ++ch)""")],
  demo='''#include <vector>
#include <cstddef>
#include "ddecal/constraints/PieceWisePhaseFitter.h"
int main() { std::vector<double> nu, d, w(9, 1.0), f(9, -7); for (int i = 0; i < 9; ++i) nu.push_back(1e8 + i * 1e5), d.push_back(1 + 0.01 * i);
  dp3::ddecal::PieceWisePhaseFitter p(5); p.SlidingFit(nu.data(), d.data(), w.data(), f.data(), 9); for (int i = 0; i < 9; ++i) if (std::abs(f[i] - d[i]) > 1e-3) return 1; return 0; }
'''),
}
