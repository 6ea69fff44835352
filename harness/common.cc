// Monitors for the small shared building blocks: baseline numbering, byte
// order and flag packing, medians, data-field requirements, unit printing.
#include "vh.h"

#include "common/baseline_indices.h"
#include "common/DataConvert.h"
#include "common/Fields.h"
#include "common/Median.h"
#include "common/PrettyUnits.h"

using namespace dp3::common;
using vh::R;
using vh::Rng;
using vh::S;

namespace {

// Reference enumeration of all antenna pairs in storage order.
std::vector<std::pair<size_t, size_t>> AllPairs(size_t n, BaselineOrder order) {
  std::vector<std::pair<size_t, size_t>> p;
  if (order == BaselineOrder::kRowMajor) {
    for (size_t a = 0; a < n; ++a)
      for (size_t b = a; b < n; ++b) p.emplace_back(a, b);
  } else {
    for (size_t b = 0; b < n; ++b)
      for (size_t a = 0; a <= b; ++a) p.emplace_back(a, b);
  }
  return p;
}

void C10() {
  R().Cases("exhaustive", R().n(90, 260), [](Rng&, size_t i) {
    const size_t n = i + 1;
    for (BaselineOrder order : {BaselineOrder::kColumnMajor, BaselineOrder::kRowMajor}) {
      const auto pairs = AllPairs(n, order);
      const char* on = order == BaselineOrder::kRowMajor ? "row" : "col";
      R().Describe(S(n, " antennas, ", on));
      R().Nontrivial(S(n, " antennas, ", on, "-major: ", pairs.size(), " baselines"));
      R().Count("baselines", pairs.size());
      VH_EXPECT(ComputeNBaselines(n) == pairs.size(), "count", ComputeNBaselines(n), " baselines for ", n, " antennas");
      size_t bad_pair = 0, bad_index = 0;
      std::vector<std::vector<size_t>> lists(n, std::vector<size_t>(n));
      for (size_t k = 0; k < pairs.size(); ++k) {
        const auto [a, b] = pairs[k];
        lists[a][b] = lists[b][a] = k;
        if (ComputeBaseline(k, n, order) != pairs[k]) ++bad_pair;
        if (ComputeBaselineIndex(a, b, n, order) != k || ComputeBaselineIndex(b, a, n, order) != k) ++bad_index;
      }
      VH_EXPECT(bad_pair == 0, S("index-to-pair-", on), bad_pair, " of ", pairs.size(), " wrong");
      VH_EXPECT(bad_index == 0, S("pair-to-index-", on), bad_index, " of ", pairs.size(), " wrong");
      for (size_t a = 0; a < n; ++a)
        VH_EXPECT(ComputeBaselineList(a, n, order) == lists[a], S("list-", on), "baselines of antenna ", a, " differ");
    }
  });
  R().Cases("large", R().n(4000, 100000), [](Rng& r, size_t) {
    const size_t n = size_t(r.range(200, r.chance(0.5) ? 4000 : 40000));
    size_t a = r.below(n), b = r.below(n);
    if (r.chance(0.3)) b = a;
    if (r.chance(0.2)) a = 0;
    if (r.chance(0.2)) b = n - 1;
    const size_t lo = std::min(a, b), hi = std::max(a, b);
    R().Describe(S("n=", n, " (", a, ",", b, ")"));
    R().Nontrivial(S("n=", n, " (", a, ",", b, ")"));
    // Column-major index: pairs (x,y) with y < hi, then x < lo.
    size_t col = 0;
    for (size_t y = 0; y < hi; ++y) col += y + 1;
    col += lo;
    size_t row = 0;
    for (size_t x = 0; x < lo; ++x) row += n - x;
    row += hi - lo;
    VH_EXPECT(ComputeBaselineIndex(a, b, n, BaselineOrder::kColumnMajor) == col, "large-index-col", "wrong index");
    VH_EXPECT(ComputeBaselineIndex(a, b, n, BaselineOrder::kRowMajor) == row, "large-index-row", "wrong index");
    const std::pair<size_t, size_t> p(lo, hi);
    VH_EXPECT(ComputeBaseline(col, n, BaselineOrder::kColumnMajor) == p, "large-pair-col", "wrong pair for ", col);
    VH_EXPECT(ComputeBaseline(row, n, BaselineOrder::kRowMajor) == p, "large-pair-row", "wrong pair for ", row);
  });
}

std::vector<unsigned char> Bytes(Rng& r, size_t n) {
  std::vector<unsigned char> v(n);
  for (auto& b : v) b = static_cast<unsigned char>(r.u64());
  return v;
}
std::vector<unsigned char> RefSwap(std::vector<unsigned char> v, size_t size) {
  for (size_t i = 0; i + size <= v.size(); i += size) std::reverse(v.begin() + i, v.begin() + i + size);
  return v;
}

template <class T>
T Reinterpret(const std::vector<unsigned char>& v, size_t i) {
  T t;
  std::memcpy(&t, v.data() + i * sizeof(T), sizeof(T));
  return t;
}

template <class T>
void ScalarSwap(const std::vector<unsigned char>& in, const std::vector<unsigned char>& ref, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    const T a = Reinterpret<T>(in, i);
    T s = byteSwap(a);
    VH_EXPECT(std::memcmp(&s, ref.data() + i * sizeof(T), sizeof(T)) == 0, S("swap-scalar-", sizeof(T)), "wrong bytes");
    s = dataConvert(BigEndian, a);
    VH_EXPECT(std::memcmp(&s, ref.data() + i * sizeof(T), sizeof(T)) == 0, S("convert-scalar-", sizeof(T)), "wrong bytes");
  }
}

void C11() {
  R().Cases("bytes", R().n(1500, 30000), [](Rng& r, size_t) {
    const size_t n = r.below(20);
    const size_t size = size_t(2) << r.below(3);
    const std::vector<unsigned char> in = Bytes(r, n * size);
    const std::vector<unsigned char> ref = RefSwap(in, size);
    R().Describe(S(n, " values of ", size, " bytes"));
    if (n) R().Nontrivial(S(n, "x", size, ":", vh::HashString(std::string(in.begin(), in.end()))));
    using V = std::vector<unsigned char>;
    V io = in, out(in.size(), 0xAA);
    auto same = [&](const char* k, const V& got, const V& want) { VH_EXPECT(got == want, S(k, size), "wrong bytes"); };
    if (size == 2) {
      byteSwap16(io.data(), n); same("swap-inplace-", io, ref);
      byteSwap16(out.data(), in.data(), n); same("swap-copy-", out, ref);
      if (n) { io = in; byteSwap16(io.data()); V w = in; std::copy(ref.begin(), ref.begin() + 2, w.begin()); same("swap-one-", io, w); io = V(2); byteSwap16(io.data(), in.data()); same("swap-one-copy-", io, V(ref.begin(), ref.begin() + 2)); }
      io = in; dataConvert16(BigEndian, io.data(), n); same("convert-inplace-", io, ref);
      dataConvert16(BigEndian, out.data(), in.data(), n); same("convert-copy-", out, ref);
      ScalarSwap<int16_t>(in, ref, n); ScalarSwap<uint16_t>(in, ref, n);
      if (n) { io = in; std::vector<int16_t> t(n); std::memcpy(t.data(), in.data(), in.size()); dataConvert(BigEndian, t.data(), n); std::memcpy(io.data(), t.data(), in.size()); same("convert-typed-", io, ref); }
    } else if (size == 4) {
      byteSwap32(io.data(), n); same("swap-inplace-", io, ref);
      byteSwap32(out.data(), in.data(), n); same("swap-copy-", out, ref);
      if (n) { io = in; byteSwap32(io.data()); V w = in; std::copy(ref.begin(), ref.begin() + 4, w.begin()); same("swap-one-", io, w); io = V(4); byteSwap32(io.data(), in.data()); same("swap-one-copy-", io, V(ref.begin(), ref.begin() + 4)); }
      io = in; dataConvert32(BigEndian, io.data(), n); same("convert-inplace-", io, ref);
      dataConvert32(BigEndian, out.data(), in.data(), n); same("convert-copy-", out, ref);
      io = in; dataConvertFloat(BigEndian, io.data(), n); same("convert-float-", io, ref);
      dataConvertFloat(BigEndian, out.data(), in.data(), n); same("convert-float-copy-", out, ref);
      ScalarSwap<int32_t>(in, ref, n); ScalarSwap<uint32_t>(in, ref, n);
      if (n) { io = in; std::vector<float> t(n); std::memcpy(t.data(), in.data(), in.size()); dataConvert(BigEndian, t.data(), n); std::memcpy(io.data(), t.data(), in.size()); same("convert-typed-", io, ref); }
      if (n % 2 == 0 && n) { io = in; std::vector<std::complex<float>> t(n / 2); std::memcpy(static_cast<void*>(t.data()), in.data(), in.size()); dataConvert(BigEndian, t.data(), n / 2); std::memcpy(io.data(), t.data(), in.size()); same("convert-complex-", io, ref); }
    } else if (size == 8) {
      byteSwap64(io.data(), n); same("swap-inplace-", io, ref);
      byteSwap64(out.data(), in.data(), n); same("swap-copy-", out, ref);
      if (n) { io = in; byteSwap64(io.data()); V w = in; std::copy(ref.begin(), ref.begin() + 8, w.begin()); same("swap-one-", io, w); io = V(8); byteSwap64(io.data(), in.data()); same("swap-one-copy-", io, V(ref.begin(), ref.begin() + 8)); }
      io = in; dataConvert64(BigEndian, io.data(), n); same("convert-inplace-", io, ref);
      dataConvert64(BigEndian, out.data(), in.data(), n); same("convert-copy-", out, ref);
      io = in; dataConvertDouble(BigEndian, io.data(), n); same("convert-double-", io, ref);
      dataConvertDouble(BigEndian, out.data(), in.data(), n); same("convert-double-copy-", out, ref);
      ScalarSwap<int64_t>(in, ref, n); ScalarSwap<uint64_t>(in, ref, n);
      if (n) { io = in; std::vector<double> t(n); std::memcpy(t.data(), in.data(), in.size()); dataConvert(BigEndian, t.data(), n); std::memcpy(io.data(), t.data(), in.size()); same("convert-typed-", io, ref); }
      if (n % 2 == 0 && n) { io = in; std::vector<std::complex<double>> t(n / 2); std::memcpy(static_cast<void*>(t.data()), in.data(), in.size()); dataConvert(BigEndian, t.data(), n / 2); std::memcpy(io.data(), t.data(), in.size()); same("convert-complex-", io, ref); }
    }
  });
  R().Cases("flags", R().n(8000, 200000), [](Rng& r, size_t) {
    const unsigned n = unsigned(r.below(r.chance(0.5) ? 20 : 200));
    const unsigned start = unsigned(r.chance(0.3) ? 0 : r.below(30));
    const size_t first_byte = start / 8;
    const size_t used = n == 0 ? 0 : (start % 8 + n + 7) / 8;
    // Exactly as many bytes as needed: one more access is an overflow.
    std::vector<unsigned char> bits = Bytes(r, first_byte + used), before = bits;
    const double density = r.unit();
    std::unique_ptr<bool[]> flags(new bool[n]), back(new bool[n]);
    std::string show;
    for (unsigned i = 0; i < n; ++i) {
      flags[i] = r.chance(density);
      back[i] = !flags[i];
      show += flags[i] ? '1' : '0';
    }
    R().Describe(S("start ", start, " flags ", show));
    if (n) R().Nontrivial(S("start ", start, " flags ", show));
    const unsigned a = boolToBit(bits.data(), flags.get(), n, start);
    VH_EXPECT(a == used, "pack-bytes-used", a, " bytes reported, ", used, " used");
    size_t wrong = 0, disturbed = 0;
    for (unsigned i = 0; i < n; ++i) wrong += ((bits[(start + i) / 8] >> ((start + i) % 8)) & 1) != flags[i];
    for (unsigned i = 0; i < start && i / 8 < bits.size(); ++i) disturbed += ((bits[i / 8] ^ before[i / 8]) >> (i % 8)) & 1;
    VH_EXPECT(wrong == 0, "pack-bits", wrong, " bits wrong");
    VH_EXPECT(disturbed == 0, "pack-disturbs", disturbed, " earlier bits changed");
    const std::vector<unsigned char> packed = bits;
    const unsigned b = bitToBool(back.get(), bits.data(), n, start);
    if (n) VH_EXPECT(b == used, "unpack-bytes-used", b, " bytes reported, ", used, " used");
    VH_EXPECT(std::equal(flags.get(), flags.get() + n, back.get()), "pack-unpack", "flags differ after packing and unpacking");
    VH_EXPECT(bits == packed, "unpack-changes-input", "packed flags changed by reading");
    // Packing consecutive blocks one after another equals packing at once.
    if (n > 1) {
      std::vector<unsigned char> two(first_byte + used, 0), one(first_byte + used, 0);
      const unsigned cut = 1 + unsigned(r.below(n - 1));
      boolToBit(two.data(), flags.get(), cut, start);
      boolToBit(two.data(), flags.get() + cut, n - cut, start + cut);
      boolToBit(one.data(), flags.get(), n, start);
      VH_EXPECT(one == two, "pack-in-parts", "packing in two parts differs");
    }
  });
}

template <class T>
void MedianCase(Rng& r, const char* name) {
  std::vector<T> v;
  const size_t n = r.below(r.chance(0.7) ? 12 : 300);
  const int style = int(r.below(4));
  for (size_t i = 0; i < n; ++i) {
    double x = style == 0 ? double(r.range(-3, 3)) : style == 1 ? r.gauss() * 1e3 : style == 2 ? double(i) : -double(i);
    v.push_back(T(x));
  }
  if (style >= 2 && r.chance(0.5)) {
    // Organ-pipe and nearly sorted orders.
    for (size_t k = r.below(4); k > 0 && n > 1; --k) std::swap(v[r.below(n)], v[r.below(n)]);
  }
  R().Describe(S(name, ": ", vh::Join(v)));
  if (n > 2) R().Nontrivial(S(name, ": ", vh::Join(v)));
  std::vector<T> sorted = v, work = v;
  std::sort(sorted.begin(), sorted.end());
  const T want = n == 0 ? T(0) : n % 2 ? sorted[n / 2] : T((sorted[n / 2] + sorted[n / 2 - 1]) / T(2));
  const T got = Median(work);
  VH_EXPECT(got == want, S("median-", n % 2 ? "odd" : "even"), name, " median is ", got, " expected ", want);
  std::sort(work.begin(), work.end());
  VH_EXPECT(work == sorted, "median-multiset", "the values themselves changed");
}

void C12() {
  R().Cases("float", R().n(15000, 400000), [](Rng& r, size_t) { MedianCase<float>(r, "float"); });
  R().Cases("double", R().n(15000, 400000), [](Rng& r, size_t) { MedianCase<double>(r, "double"); });
  R().Cases("int", R().n(5000, 100000), [](Rng& r, size_t) { MedianCase<int>(r, "int"); });
}

// A step requires and provides sets of fields; bit i is field i.
Fields FromBits(unsigned b) {
  static const Fields::Single kAll[4] = {Fields::Single::kData, Fields::Single::kFlags, Fields::Single::kWeights, Fields::Single::kUvw};
  Fields f;
  for (int i = 0; i < 4; ++i)
    if (b >> i & 1) f |= Fields(kAll[i]);
  return f;
}
unsigned ToBits(const Fields& f) {
  return unsigned(f.Data()) | unsigned(f.Flags()) << 1 | unsigned(f.Weights()) << 2 | unsigned(f.Uvw()) << 3;
}

void C13() {
  R().Cases("algebra", 256, [](Rng&, size_t i) {
    const unsigned a = unsigned(i & 15), b = unsigned(i >> 4);
    R().Describe(S(a, " ", b));
    R().Nontrivial(S("fields ", a, " and ", b));
    const Fields fa = FromBits(a), fb = FromBits(b);
    VH_EXPECT(ToBits(fa) == a, "construct", "fields ", ToBits(fa), " for ", a);
    VH_EXPECT(ToBits(fa | fb) == (a | b), "union", "got ", ToBits(fa | fb));
    VH_EXPECT((fa == fb) == (a == b) && (fa != fb) == (a != b), "equality", "wrong");
    Fields c = fa;
    c |= fb;
    VH_EXPECT(ToBits(c) == (a | b) && ToBits(fb) == b, "union-assign", "got ", ToBits(c));
    std::ostringstream o;
    o << fa;
    std::string want = "[";
    static const char* kNames[4] = {"data", "flags", "weights", "uvw"};
    for (int k = 0; k < 4; ++k)
      if (a >> k & 1) want += (want.size() > 1 ? std::string(", ") : std::string()) + kNames[k];
    want += "]";
    VH_EXPECT(o.str() == want, "print", "printed '", o.str(), "' expected '", want, "'");
  });
  R().Cases("chains", R().n(20000, 400000), [](Rng& r, size_t) {
    // Walk a random chain of steps backwards, like the program does, and
    // compare with a forward reading of the same chain.
    const size_t n = 1 + r.below(8);
    std::vector<unsigned> req(n), prov(n);
    std::string show;
    for (size_t i = 0; i < n; ++i) {
      req[i] = unsigned(r.below(16));
      prov[i] = unsigned(r.below(16));
      show += S("(", req[i], ",", prov[i], ")");
    }
    R().Describe(show);
    R().Nontrivial(show);
    Fields f;
    for (size_t i = n; i-- > 0;) f.UpdateRequirements(FromBits(req[i]), FromBits(prov[i]));
    unsigned want = 0;
    for (int b = 0; b < 4; ++b)
      for (size_t i = 0; i < n; ++i) {
        if (req[i] >> b & 1) {
          want |= 1u << b;
          break;
        }
        if (prov[i] >> b & 1) break;  // produced before anyone needed it
      }
    VH_EXPECT(ToBits(f) == want, "chain", "input fields ", ToBits(f), " expected ", want);
  });
}

void C14() {
  R().Cases("units", R().n(20000, 300000), [](Rng& r, size_t) {
    double v = r.gauss() * std::pow(10.0, r.real(-22, 24));
    if (r.chance(0.2)) v = std::pow(1000.0, double(r.range(-7, 8))) * r.pick(std::vector<double>{1, 0.9999, 0.9995, 1.0001, 999, 999.5, 0.999, 1.5});
    if (r.chance(0.05)) v = r.gauss() * std::pow(10.0, r.chance(0.5) ? r.real(24, 250) : r.real(-250, -22));
    if (r.chance(0.02)) v = 0;
    const unsigned precision = 3 + unsigned(r.below(6));
    const bool time = r.chance(0.5);
    const std::string s = time ? std::string(PrettyTime(v, precision)) : std::string(PrettyFrequency(v, precision));
    R().Describe(S(v, " precision ", precision, " -> '", s, "'"));
    R().Nontrivial(s);
    const std::string unit = time ? "s" : "Hz";
    VH_EXPECT(s.size() > unit.size() + 2 && s.compare(s.size() - unit.size(), unit.size(), unit) == 0, "unit", "unit missing");
    const char prefix = s[s.size() - unit.size() - 1];
    static const std::string kPrefixes = "yzafpnum kMGTPEZY";
    const size_t idx = kPrefixes.find(prefix);
    VH_EXPECT(idx != std::string::npos && s[s.size() - unit.size() - 2] == ' ', "prefix", "unknown prefix");
    if (idx == std::string::npos) return;
    const double mantissa = std::atof(s.c_str());
    const double back = mantissa * std::pow(10.0, 3.0 * (double(idx) - 8));
    if (v == 0) {
      VH_EXPECT(mantissa == 0 && prefix == ' ', "zero", "zero is printed wrongly");
      return;
    }
    VH_EXPECT(std::fabs(back - v) <= std::fabs(v) * 0.51 * std::pow(10.0, 1.0 - precision) * 1.01, "value", "reads back as ", back);
    if (std::fabs(v) > 1.1e27) VH_EXPECT(prefix == 'Y', "prefix", "not the largest prefix");
    if (std::fabs(v) < 0.9e-24) VH_EXPECT(prefix == 'y', "prefix", "not the smallest prefix");
    if (std::fabs(v) > 1e-23 && std::fabs(v) < 9e26)
      VH_EXPECT(std::fabs(mantissa) >= 0.999 && std::fabs(mantissa) < 1000, "mantissa", "mantissa ", mantissa);
  });
}

}  // namespace

VH_MAIN({"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14})
