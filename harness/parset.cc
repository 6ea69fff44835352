// Monitors for the parameter-set language: numbers, arrays, nesting, text
// files, selection/merging, unused keys, per-station values.
#include "vh.h"

#include <cassert>
#include <charconv>
#include <fstream>
#include <optional>

#include "common/ParameterRecord.h"
#include "common/ParameterSet.h"
#include "common/ParameterValue.h"
#include "common/StringTools.h"
#include "common/ValuePerStationParsing.h"

using namespace dp3::common;
using vh::R;
using vh::Rng;
using vh::S;

namespace {

// ----------------------------------------------------------------- C01 ----
using I128 = __int128;

std::string I128ToString(I128 v) {
  if (v == 0) return "0";
  const bool neg = v < 0;
  std::string s;
  while (v != 0) {
    int d = int(v % 10);
    s += char('0' + (d < 0 ? -d : d));
    v /= 10;
  }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

std::string Trim(const std::string& s) {
  size_t a = 0, b = s.size();
  auto sp = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (a < b && sp(s[a])) ++a;
  while (b > a && sp(s[b - 1])) --b;
  return s.substr(a, b - a);
}

// Reference reading of an integer; nullopt when the text is not an integer.
// A value beyond 128 bits is saturated.
std::optional<I128> RefInteger(const std::string& raw) {
  const std::string s = Trim(raw);
  if (s.empty()) return std::nullopt;
  size_t i = 0;
  I128 v = 0;
  const I128 cap = I128(1) << 100;
  if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
    for (i = 2; i < s.size(); ++i) {
      const char c = s[i];
      int d;
      if (c >= '0' && c <= '9') d = c - '0';
      else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
      else return std::nullopt;
      v = std::min(cap, v * 16 + d);
    }
    return v;
  }
  bool neg = false;
  if (s[0] == '+' || s[0] == '-') {
    neg = s[0] == '-';
    i = 1;
  }
  if (i == s.size()) return std::nullopt;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return std::nullopt;
    v = std::min(cap, v * 10 + (s[i] - '0'));
  }
  return neg ? -v : v;
}

template <class T>
std::optional<T> RefTyped(const std::string& s) {
  const std::optional<I128> v = RefInteger(s);
  if (!v) return std::nullopt;
  const I128 lo = I128(std::numeric_limits<T>::min());
  const I128 hi = I128(std::numeric_limits<T>::max());
  if (*v < lo || *v > hi) return std::nullopt;
  // "-0" for an unsigned setting: a minus sign is refused.
  if (!std::numeric_limits<T>::is_signed && Trim(s)[0] == '-') return std::nullopt;
  return T(*v);
}

template <class F>
auto Try(F&& f) -> std::optional<decltype(f())> {
  try {
    return f();
  } catch (std::exception&) {
    return std::nullopt;
  }
}

std::string RandomBlank(Rng& r) {
  static const std::vector<std::string> kBlanks{"", "", "", " ", "  ", "\t", " \t "};
  return r.pick(kBlanks);
}

std::string RandomIntegerText(Rng& r) {
  static const std::vector<I128> kEdges{
      0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648ll,
      4294967295ll, 4294967296ll, I128(INT64_MAX), I128(INT64_MAX) + 1,
      I128(UINT64_MAX), I128(UINT64_MAX) + 1, (I128(1) << 70)};
  I128 v;
  switch (r.below(4)) {
    case 0: v = r.pick(kEdges) + r.range(-2, 2); break;
    case 1: v = -r.pick(kEdges) + r.range(-2, 2); break;
    case 2: v = I128(r.u64() >> r.below(64)); break;
    default: v = r.range(-40000, 70000);
  }
  std::string t;
  const int style = int(r.below(10));
  if (style == 0 && v >= 0) {
    static const char* kDig[2] = {"0123456789abcdef", "0123456789ABCDEF"};
    std::string h;
    I128 w = v;
    do {
      h += kDig[r.below(2)][int(w % 16)];
      w /= 16;
    } while (w);
    std::reverse(h.begin(), h.end());
    t = (r.chance(0.5) ? "0x" : "0X") + std::string(r.below(3), '0') + h;
  } else {
    t = I128ToString(v);
    if (style == 1 && v >= 0) t = "+" + t;
    if (style == 2) t.insert(v < 0 ? 1 : 0, std::string(1 + r.below(3), '0'));
  }
  // Mutations that usually stop it from being a number.
  if (r.chance(0.25)) {
    static const std::vector<std::string> kJunk{
        "x", "e", ".", ",", "-", "+", "0x", "l", "u", "f", " 1", "\t7", ".0", "e3", "#", "]", std::string(1, '\0')};
    const std::string j = r.pick(kJunk);
    switch (r.below(3)) {
      case 0: t += j; break;
      case 1: t = j + t; break;
      default: t.insert(r.below(t.size() + 1), j);
    }
  }
  if (r.chance(0.03)) t = "";
  if (r.chance(0.02)) t = r.pick(std::vector<std::string>{"-", "+", "0x", "0X", "abc", "--1", "+-1", "- 1", "nan"});
  return RandomBlank(r) + t + RandomBlank(r);
}

template <class T, class FS, class FP>
void CheckInteger(const char* name, const std::string& text, const std::string& value_text, FS from_string,
                  FP from_value) {
  const std::optional<T> want = RefTyped<T>(text);
  const std::optional<T> got1 = Try([&] { return T(from_string(text)); });
  VH_EXPECT(got1 == want, S("number:", name), "text reads as ", got1 ? std::to_string(*got1) : "refused",
            " expected ", want ? std::to_string(*want) : "refused");
  const auto got2 = Try([&] { return from_value(ParameterValue(value_text)); });
  const bool same = got2.has_value() == want.has_value() && (!got2 || I128(*got2) == I128(*want));
  VH_EXPECT(same, S("setting:", name), "setting reads as ", got2 ? I128ToString(I128(*got2)) : "refused", " expected ",
            want ? std::to_string(*want) : "refused");
}

std::string RandomRealText(Rng& r) {
  std::string t;
  char buf[64];
  switch (r.below(5)) {
    case 0: std::snprintf(buf, sizeof buf, "%.17g", r.gauss() * std::pow(10.0, double(r.range(-30, 30)))); t = buf; break;
    case 1: std::snprintf(buf, sizeof buf, "%.9g", r.gauss()); t = buf; break;
    case 2: std::snprintf(buf, sizeof buf, "%ld.", long(r.range(-1000, 1000))); t = buf; break;
    case 3: std::snprintf(buf, sizeof buf, ".%ld", long(r.range(0, 100000))); t = buf; break;
    default: std::snprintf(buf, sizeof buf, "%ld.%lde%ld", long(r.range(-999, 999)), long(r.range(0, 999)), long(r.range(-30, 40))); t = buf;
  }
  if (r.chance(0.1)) t = r.pick(std::vector<std::string>{"1e400", "-1e400", "1e39", "-3.5e38", "3.4e38", "1e308", "9e999"});
  if (r.chance(0.2)) {
    const std::string j = r.pick(std::vector<std::string>{"x", "e", ",", " 1", "..", "MHz", "f", "#", "1.5.", "--"});
    if (r.chance(0.7)) t += j; else t = j + t;
  }
  if (r.chance(0.03)) t = r.pick(std::vector<std::string>{"", "-", ".", "e5", "+", "one", "1,5", "1;2"});
  return RandomBlank(r) + t + RandomBlank(r);
}

// Reference reading of a decimal real number, through from_chars.
template <class T>
std::optional<T> RefReal(const std::string& raw, bool* skip) {
  *skip = false;
  std::string s = Trim(raw);
  const bool plus = !s.empty() && s[0] == '+';
  if (plus) s = s.substr(1);
  size_t i = (!plus && !s.empty() && s[0] == '-') ? 1 : 0;
  size_t digits = 0;
  bool nonzero = false;
  auto dig = [&] {
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      nonzero |= s[i] != '0';
      ++i, ++digits;
    }
  };
  dig();
  if (i < s.size() && s[i] == '.') {
    ++i;
    dig();
  }
  if (digits == 0) return std::nullopt;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    const size_t b = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
    if (b == i) return std::nullopt;
  }
  if (i != s.size()) return std::nullopt;
  T v{};
  const auto res = std::from_chars(s.data(), s.data() + s.size(), v);
  if (res.ec == std::errc::result_out_of_range) {
    // Underflow is not part of the property; overflow is.
    long double big = std::strtold(s.c_str(), nullptr);
    if (std::fabs(big) < 1) *skip = true;
    return std::nullopt;
  }
  if (nonzero && std::fabs(v) < std::numeric_limits<T>::min() * 2) *skip = true;
  return v;
}

template <class T, class FS, class FP>
void CheckReal(const char* name, const std::string& text, FS from_string, FP from_value) {
  bool skip;
  const std::optional<T> want = RefReal<T>(text, &skip);
  if (skip) return;
  const std::optional<T> a = Try([&] { return T(from_string(text)); });
  const std::optional<T> b = Try([&] { return T(from_value(ParameterValue(text))); });
  VH_EXPECT(a == want, S("number:", name), "text reads as ", a ? S(*a) : "refused", " expected ", want ? S(*want) : "refused");
  VH_EXPECT(b == want, S("setting:", name), "setting reads as ", b ? S(*b) : "refused", " expected ", want ? S(*want) : "refused");
}

template <class T, class G, class GD>
void CheckKeyed(const char* name, const ParameterSet& ps, const std::string& text, G get, GD get_default) {
  const std::optional<T> want = RefTyped<T>(text);
  const std::optional<T> a = Try([&] { return T(get(ps, "k")); });
  VH_EXPECT(a == want, S("keyed:", name), "got ", a ? std::to_string(*a) : "refused", " expected ", want ? std::to_string(*want) : "refused");
  const std::optional<T> b = Try([&] { return T(get_default(ps, "k", T(77))); });
  VH_EXPECT(b == want, S("keyed-default-present:", name), "got ", b ? std::to_string(*b) : "refused", " expected ", want ? std::to_string(*want) : "refused");
  const std::optional<T> c = Try([&] { return T(get_default(ps, "absent", T(77))); });
  VH_EXPECT(c && *c == T(77), S("keyed-default-absent:", name), "default not returned for absent key");
  VH_EXPECT(vh::Throws([&] { get(ps, "absent"); }), S("keyed-absent:", name), "no error for an absent key");
}

template <class T, class G>
void CheckVector(const char* name, const std::vector<std::string>& texts, const std::string& text, G get) {
  std::vector<T> want;
  bool ok = true;
  for (const std::string& t : texts) {
    std::optional<T> v = RefTyped<T>(t);
    if (!v) ok = false; else want.push_back(*v);
  }
  std::optional<std::vector<T>> got = Try([&] { return get(ParameterValue(text)); });
  VH_EXPECT(got.has_value() == ok && (!ok || *got == want), S("vector:", name), "got ",
            got ? vh::Join(*got) : "refused", " expected ", ok ? vh::Join(want) : "refused");
}

#define KEYED(T, N)                                                                  \
  CheckKeyed<T>(#N, ps, text, [](const ParameterSet& p, const char* k) { return p.get##N(k); }, \
                [](const ParameterSet& p, const char* k, T d) { return p.get##N(k, d); })
#define VEC(T, N) CheckVector<T>(#N, items, vec, [](const ParameterValue& v) { return v.get##N##Vector(); })

void C01() {
  R().Cases("integers", R().n(20000, 400000), [](Rng& r, size_t) {
    const std::string text = RandomIntegerText(r);
    R().Describe(text);
    if (RefInteger(text)) R().Nontrivial(Trim(text)); else R().Count("not-an-integer texts");
    CheckInteger<int>("Int", text, text, strToInt, [](const ParameterValue& v) { return v.getInt(); });
    CheckInteger<unsigned int>("Uint", text, text, strToUint, [](const ParameterValue& v) { return v.getUint(); });
    CheckInteger<int16_t>("Int16", text, text, strToInt16, [](const ParameterValue& v) { return v.getInt16(); });
    CheckInteger<uint16_t>("Uint16", text, text, strToUint16, [](const ParameterValue& v) { return v.getUint16(); });
    CheckInteger<int32_t>("Int32", text, text, strToInt32, [](const ParameterValue& v) { return v.getInt32(); });
    CheckInteger<uint32_t>("Uint32", text, text, strToUint32, [](const ParameterValue& v) { return v.getUint32(); });
    CheckInteger<int64_t>("Int64", text, text, strToInt64, [](const ParameterValue& v) { return v.getInt64(); });
    CheckInteger<uint64_t>("Uint64", text, text, strToUint64, [](const ParameterValue& v) { return v.getUint64(); });
    CheckInteger<long>("Long", text, text, strToLong, [](const ParameterValue& v) { return v.getInt64(); });
    CheckInteger<unsigned long>("Ulong", text, text, strToUlong, [](const ParameterValue& v) { return v.getUint64(); });
  });
  R().Cases("reals", R().n(20000, 400000), [](Rng& r, size_t) {
    const std::string text = r.chance(0.15) ? RandomIntegerText(r) : RandomRealText(r);
    if (text.find('x') != std::string::npos || text.find('X') != std::string::npos ||
        text.find("nan") != std::string::npos) return;
    R().Describe(text);
    bool skip;
    if (RefReal<double>(text, &skip)) R().Nontrivial(Trim(text));
    CheckReal<double>("Double", text, strToDouble, [](const ParameterValue& v) { return v.getDouble(); });
    CheckReal<float>("Float", text, strToFloat, [](const ParameterValue& v) { return v.getFloat(); });
  });
  R().Cases("keyed", R().n(3000, 40000), [](Rng& r, size_t) {
    std::string text = RandomIntegerText(r);
    R().Describe(text);
    if (RefInteger(text)) R().Nontrivial(text);
    ParameterSet ps;
    ps.add("k", text);
    KEYED(int, Int);
    KEYED(unsigned int, Uint);
    KEYED(int16_t, Int16);
    KEYED(uint16_t, Uint16);
    KEYED(int32_t, Int32);
    KEYED(uint32_t, Uint32);
    KEYED(int64_t, Int64);
    KEYED(uint64_t, Uint64);
    bool skip;
    if (text.find_first_of("xXn") == std::string::npos) {
      const std::optional<double> want = RefReal<double>(text, &skip);
      if (!skip) {
        const auto a = Try([&] { return ps.getDouble("k"); });
        const auto b = Try([&] { return ps.getDouble("k", 0.25); });
        VH_EXPECT(a == want && b == want, "keyed:Double", "wrong value");
        const std::optional<float> wf = RefReal<float>(text, &skip);
        const auto c = Try([&] { return ps.getFloat("k"); });
        const auto d = Try([&] { return ps.getFloat("k", 0.25f); });
        if (!skip) VH_EXPECT(c == wf && d == wf, "keyed:Float", "wrong value");
      }
      VH_EXPECT(ps.getDouble("absent", 0.25) == 0.25 && ps.getFloat("absent", 0.75f) == 0.75f, "keyed-default-absent:real", "default not returned");
    }
  });
  R().Cases("vectors", R().n(4000, 60000), [](Rng& r, size_t) {
    std::vector<std::string> items;
    const size_t n = r.below(6);
    bool valid = r.chance(0.7);
    for (size_t i = 0; i < n; ++i) {
      std::string t = RandomIntegerText(r);
      // Only syntactically neutral junk, and one small element range so that
      // all types accept it often.
      if (t.find_first_of(",]#") != std::string::npos || valid) t = std::to_string(r.range(r.chance(0.5) ? 0 : -30, r.chance(0.5) ? 50 : 70000));
      items.push_back(t);
    }
    // A vector with one all-blank item is an empty vector.
    if (n == 1 && Trim(items[0]).empty()) items.clear();
    const std::string vec = "[" + vh::Join(items) + "]";
    R().Describe(vec);
    if (n > 1) R().Nontrivial(vec);
    VEC(int, Int);
    VEC(unsigned int, Uint);
    VEC(int16_t, Int16);
    VEC(uint16_t, Uint16);
    VEC(int32_t, Int32);
    VEC(uint32_t, Uint32);
    VEC(int64_t, Int64);
    VEC(uint64_t, Uint64);
    ParameterSet ps;
    ps.add("k", vec);
    bool ok = true;
    std::vector<int> want;
    for (auto& t : items) { auto v = RefTyped<int>(t); if (v) want.push_back(*v); else ok = false; }
    auto a = Try([&] { return ps.getIntVector("k"); });
    auto b = Try([&] { return ps.getIntVector("k", std::vector<int>{5}); });
    VH_EXPECT(a.has_value() == ok && b.has_value() == ok && (!ok || (*a == want && *b == want)), "keyed:IntVector", "wrong vector");
    VH_EXPECT((ps.getIntVector("absent", std::vector<int>{5, 6}) == std::vector<int>{5, 6}), "keyed-default-absent:IntVector", "default not returned");
    auto dv = Try([&] { return ps.getDoubleVector("k"); });
    if (ok) {
      bool same = dv && dv->size() == want.size();
      if (same) for (size_t i = 0; i < want.size(); ++i) same &= (items[i].find('x') != std::string::npos || items[i].find('X') != std::string::npos || (*dv)[i] == want[i]);
      VH_EXPECT(same, "keyed:DoubleVector", "wrong vector");
    }
  });
  R().Cases("lists", R().n(4000, 60000), [](Rng& r, size_t) {
    // A list of any type is the list of its elements, however it is asked for.
    const int kind = int(r.below(4));
    const size_t n = r.below(5);
    std::vector<std::string> items, plain;
    for (size_t i = 0; i < n; ++i) {
      std::string t;
      if (kind == 0) t = r.pick(std::vector<std::string>{"true", "false", "T", "F", "1", "0", "yes", "no", "maybe"});
      else if (kind == 1) { do t = RandomRealText(r); while (t.find_first_of("xX,[]#*") != std::string::npos || Trim(t).empty() || t.find("..") != std::string::npos); }
      else if (kind == 2) t = std::to_string(r.range(0, r.chance(0.9) ? 200 : 70000));
      else t = std::to_string(r.range(0, 500)) + r.pick(std::vector<std::string>{"", "s", "m", "h"});
      const size_t times = kind != 1 && r.chance(0.25) ? r.range(1, 3) : 1;
      items.push_back(times > 1 ? std::to_string(times) + "*" + t : t);
      for (size_t k = 0; k < times; ++k) plain.push_back(t);
    }
    const std::string text = "[" + vh::Join(items) + "]", flat = "[" + vh::Join(plain) + "]";
    R().Describe(text);
    if (plain.size() > 1) R().Nontrivial(text);
    ParameterSet ps;
    ps.add("k", text);
    ps.add("f", flat);
#define LIST(T, N, SC)                                                                                              \
    {                                                                                                               \
      std::vector<T> want;                                                                                          \
      bool ok = true;                                                                                               \
      for (const std::string& t : plain) { auto v = Try([&] { return static_cast<T>(ParameterValue(t).SC()); }); if (v) want.push_back(*v); else ok = false; } \
      const std::vector<T> def(r.below(3), static_cast<T>(0));                                                                   \
      const auto a = Try([&] { return ParameterValue(flat).get##N##Vector(); });                                    \
      const auto b = Try([&] { return ps.get##N##Vector("f"); });                                                   \
      const auto c = Try([&] { return ps.get##N##Vector("f", def); });                                              \
      const auto d = Try([&] { return ps.get##N##Vector("k", true); });                                             \
      const auto e = Try([&] { return ps.get##N##Vector("k", def, true); });                                        \
      const auto g = Try([&] { return ps.get##N##Vector("absent", def, true); });                                   \
      VH_EXPECT(a.has_value() == ok && (!ok || *a == want), "list:" #N, a ? "wrong list" : "refused");              \
      VH_EXPECT(a == b && a == c, "list-keyed:" #N, "asking for it by key differs");                                \
      VH_EXPECT(a == d && a == e, "list-expanded:" #N, "the repeated elements differ");                             \
      VH_EXPECT(g && *g == def && vh::Throws([&] { ps.get##N##Vector("absent"); }), "list-default:" #N, "default");  \
    }
    if (kind == 0) LIST(bool, Bool, getBool)
    if (kind == 1) { LIST(double, Double, getDouble) LIST(float, Float, getFloat) }
    if (kind == 2) {
      LIST(int, Int, getInt) LIST(unsigned int, Uint, getUint) LIST(int16_t, Int16, getInt16) LIST(uint16_t, Uint16, getUint16)
      LIST(int32_t, Int32, getInt32) LIST(uint32_t, Uint32, getUint32) LIST(int64_t, Int64, getInt64) LIST(uint64_t, Uint64, getUint64)
      LIST(float, Float, getFloat) LIST(double, Double, getDouble)
    }
    if (kind == 3) LIST(time_t, Time, getTime)
    if (kind == 3 && n > 0) {
      const long want = ParameterValue(plain[0]).getTime();
      ParameterSet q;
      q.add("k", plain[0]);
      VH_EXPECT(q.getTime("k") == want && q.getTime("k", want + 1) == want && q.getTime("absent", 17) == 17 && vh::Throws([&] { q.getTime("absent"); }), "keyed:Time", "wrong duration");
    }
#undef LIST
  });
  R().Cases("booleans", R().n(2000, 20000), [](Rng& r, size_t) {
    static const std::vector<std::string> kTrue{"true", "True", "TRUE", "t", "T", "1", "yes", "Yes", "Y", "y"};
    static const std::vector<std::string> kFalse{"false", "False", "FALSE", "f", "F", "0", "no", "No", "N", "n"};
    static const std::vector<std::string> kNot{"", "maybe", "2", "-1", "x", "+", "[", "on", "?", "'true'"};
    const int kind = int(r.below(3));
    const std::string t = kind == 0 ? r.pick(kTrue) : kind == 1 ? r.pick(kFalse) : r.pick(kNot);
    const std::string text = RandomBlank(r) + t + RandomBlank(r);
    R().Describe(text);
    R().Nontrivial(text);
    std::optional<bool> want;
    if (kind < 2) want = kind == 0;
    const auto a = Try([&] { return ParameterValue(text).getBool(); });
    ParameterSet ps;
    ps.adoptBuffer("k=" + text + "\n");
    const auto b = Try([&] { return ps.getBool("k"); });
    const auto c = Try([&] { return ps.getBool("k", kind != 0); });
    VH_EXPECT(a == want && b == want && c == want, "boolean", "wrong truth value");
    VH_EXPECT(ps.getBool("absent", true) && !ps.getBool("absent", false), "boolean-default", "default not returned");
  });
  R().Cases("durations", R().n(2000, 20000), [](Rng& r, size_t) {
    const long v = long(r.range(-100000, 100000));
    static const std::vector<std::pair<std::string, long>> kUnits{{"", 1}, {"s", 1}, {"S", 1}, {"m", 60}, {"M", 60}, {"h", 3600}, {"H", 3600}};
    const auto& u = r.pick(kUnits);
    std::string unit = u.first;
    if (!unit.empty() && r.chance(0.05)) unit += std::string(r.below(5000), 'e');  // a very long unit word
    const std::string text = RandomBlank(r) + std::to_string(v) + (r.chance(0.3) ? " " : "") + unit;
    R().Describe(text);
    R().Nontrivial(text);
    const auto a = Try([&] { return ParameterValue(text).getTime(); });
    VH_EXPECT(a && *a == v * u.second, "duration", "got ", a ? S(*a) : "refused", " expected ", v * u.second);
    VH_EXPECT(vh::Throws([&] { ParameterValue(S("abc", v)).getTime(); }), "duration-refused", "text without a number accepted");
  });
}

// ----------------------------------------------------------------- C02 ----
struct Text {
  std::string text;                   // as the user writes it
  std::vector<std::string> expanded;  // what it denotes
};

std::string PickWord(Rng& r) {
  static const std::vector<std::string> kWords{"CS", "RS", "lii", "a", "IS_", "beam-", "x_y", "p/q", "/data/L", "st"};
  return r.pick(kWords);
}

std::string Padded(long v, size_t width) {
  std::string s = std::to_string(v);
  if (s.size() < width) s.insert(0, std::string(width - s.size(), '0'));
  return s;
}

Text RangeText(Rng& r) {
  Text t;
  const bool prefixed = r.chance(0.6);
  std::string prefix = prefixed ? PickWord(r) : "";
  const long max = r.chance(0.2) ? 1200 : 30;
  long from = r.range(0, max), to = r.range(0, max);
  if (r.chance(0.15)) to = from;
  if (r.chance(0.01)) {
    to = 2147483647;
    from = to - long(r.below(4));
    if (r.chance(0.5)) std::swap(from, to);
  }
  const size_t width = std::max<size_t>(std::to_string(from).size(), r.below(5));
  const std::string first = Padded(from, width);
  const std::string second = Padded(to, r.chance(0.5) ? width : 1);
  const std::string suffix = r.chance(0.3) ? r.pick(std::vector<std::string>{"HBA", ".MS", "x", "_sub", "/z"}) : "";
  std::vector<std::string> middle;
  const long step = from <= to ? 1 : -1;
  for (long v = from;; v += step) {
    middle.push_back(Padded(v, width));
    if (v == to) break;
  }
  const std::string dots = r.chance(0.2) ? RandomBlank(r) + ".." + RandomBlank(r) : "..";
  if (prefixed && r.chance(0.2)) {
    // Braces around the range; they disappear.
    t.text = prefix + "{" + first + ".." + second + "}" + suffix;
  } else {
    t.text = prefix + first + dots + (r.chance(0.3) ? prefix : "") + second + suffix;
  }
  for (const std::string& m : middle) t.expanded.push_back(prefix + m + suffix);
  return t;
}

Text ElementText(Rng& r, int depth, bool in_mult);

Text ListText(Rng& r, int depth, char sep, size_t min_n) {
  Text t;
  const size_t n = min_n + r.below(4);
  for (size_t i = 0; i < n; ++i) {
    Text e = ElementText(r, depth, sep == ';');
    if (i) t.text += sep;
    t.text += RandomBlank(r) + e.text + RandomBlank(r);
    t.expanded.insert(t.expanded.end(), e.expanded.begin(), e.expanded.end());
  }
  return t;
}

Text ElementText(Rng& r, int depth, bool in_mult) {
  Text t;
  switch (r.below(depth > 0 ? 8 : 5)) {
    case 0: {  // number or word
      t.text = r.chance(0.5) ? std::to_string(r.range(0, 999)) : PickWord(r) + std::to_string(r.range(0, 99));
      t.expanded = {t.text};
      return t;
    }
    case 1: {  // quoted text is never touched
      static const std::vector<std::string> kQuoted{"1..3", "3*0", "a, b", "CS00..09", "x;y", "[2*1]", "it's", "4*(1,2)", ""};
      const std::string q = r.pick(kQuoted);
      const char quote = q.find('\'') != std::string::npos ? '"' : (r.chance(0.5) ? '"' : '\'');
      t.text = quote + q + quote;
      t.expanded = {q};
      return t;
    }
    case 2: {  // wildcard: a star not preceded by a count
      t.text = PickWord(r) + (r.chance(0.5) ? std::to_string(r.below(10)) : "") + "*";
      t.expanded = {t.text};
      return t;
    }
    case 3:
    case 4: return RangeText(r);
    case 5: {  // two ranges in one name: aa00..01bcd00..03
      const long a = r.range(0, 5), b = a + r.range(0, 3), c = r.range(0, 5), d = c + r.range(0, 3);
      const std::string p = PickWord(r), q = "bcd";
      t.text = p + Padded(a, 2) + ".." + Padded(b, 2) + q + Padded(c, 2) + ".." + Padded(d, 2) + "ef";
      for (long i = a; i <= b; ++i)
        for (long j = c; j <= d; ++j) t.expanded.push_back(p + Padded(i, 2) + q + Padded(j, 2) + "ef");
      return t;
    }
    default: {  // repetition
      const size_t n = 1 + r.below(4);
      Text e;
      std::string body;
      if (r.chance(0.6)) {
        e = ListText(r, depth - 1, in_mult || r.chance(0.5) ? ';' : ',', 1);
        body = "(" + e.text + ")";
      } else {
        e = ElementText(r, depth - 1, in_mult);
        body = e.text;
      }
      t.text = std::to_string(n) + (r.chance(0.2) ? RandomBlank(r) : "") + "*" + (r.chance(0.2) ? RandomBlank(r) : "") + body;
      for (size_t i = 0; i < n; ++i) t.expanded.insert(t.expanded.end(), e.expanded.begin(), e.expanded.end());
      return t;
    }
  }
}

void C02() {
  R().Cases("arrays", R().n(12000, 250000), [](Rng& r, size_t) {
    Text t = ListText(r, 3, ',', 1);
    if (t.expanded.size() > 200000) return;
    const std::string text = RandomBlank(r) + "[" + t.text + "]" + RandomBlank(r);
    R().Describe(text);
    R().Nontrivial(text);
    R().Count("elements", t.expanded.size());
    const std::vector<std::string> got = ParameterValue(text).expand().getStringVector();
    if (got != t.expanded) {
      size_t i = 0;
      while (i < got.size() && i < t.expanded.size() && got[i] == t.expanded[i]) ++i;
      R().Violation("array-expansion", S("got ", got.size(), " elements, expected ", t.expanded.size(), "; first difference at ", i, ": '",
                                         i < got.size() ? got[i] : "<none>", "' vs '", i < t.expanded.size() ? t.expanded[i] : "<none>", "'"));
    }
    ParameterSet ps;
    ps.add("k", text);
    VH_EXPECT(ps.getStringVector("k", true) == t.expanded, "array-expansion-keyed", "keyed lookup expands differently");
    VH_EXPECT(ps.getStringVector("k", std::vector<std::string>{"d"}, true) == t.expanded, "array-expansion-default", "lookup with default expands differently");
  });
  R().Cases("numeric-arrays", R().n(4000, 60000), [](Rng& r, size_t) {
    // Arrays of plain numbers, read as integers with and without expansion.
    std::string text;
    std::vector<int> want;
    const size_t n = 1 + r.below(4);
    bool shorthand = false;
    for (size_t i = 0; i < n; ++i) {
      if (i) text += ",";
      const int kind = int(r.below(3));
      const int a = int(r.range(0, 60)), b = int(r.range(0, 60));
      if (kind == 0) {
        text += std::to_string(a);
        want.push_back(a);
      } else if (kind == 1) {
        text += S(a, "..", b);
        for (int v = a;; v += a <= b ? 1 : -1) {
          want.push_back(v);
          if (v == b) break;
        }
        shorthand = true;
      } else {
        const int k = int(r.range(1, 5));
        text += S(k, "*", a);
        want.insert(want.end(), size_t(k), a);
        shorthand = true;
      }
    }
    text = "[" + text + "]";
    R().Describe(text);
    R().Nontrivial(text);
    ParameterSet ps;
    ps.add("k", text);
    VH_EXPECT(ps.getIntVector("k", true) == want, "numeric-array", "got ", vh::Join(ps.getIntVector("k", true)));
    std::vector<double> wd(want.begin(), want.end());
    VH_EXPECT(ps.getDoubleVector("k", true) == wd, "numeric-array-double", "wrong expansion");
    std::vector<unsigned int> wu(want.begin(), want.end());
    VH_EXPECT(ps.getUintVector("k", std::vector<unsigned int>(), true) == wu, "numeric-array-uint", "wrong expansion");
    if (shorthand)
      VH_EXPECT(vh::Throws([&] { ps.getIntVector("k"); }), "numeric-array-unexpanded", "shorthand accepted without expansion");
  });
  R().Cases("not-arrays", R().n(2000, 20000), [](Rng& r, size_t) {
    // Without brackets nothing is expanded.
    Text t = ElementText(r, 2, false);
    R().Describe(t.text);
    R().Nontrivial(t.text);
    VH_EXPECT(expandArrayString(t.text) == t.text, "not-an-array", "text outside brackets was changed to ", expandArrayString(t.text));
    const std::string open = "[" + t.text, close = t.text + "]", blanks(r.below(4), ' ');
    VH_EXPECT(expandArrayString(open) == open && expandArrayString(close) == close, "not-an-array", "text with one bracket was changed: ", expandArrayString(open), " ", expandArrayString(close));
    VH_EXPECT(expandArrayString(blanks) == blanks && expandArrayString("[]") == "[]", "not-an-array", "blank text or an empty list was changed");
  });
  R().Cases("nested", R().n(4000, 60000), [](Rng& r, size_t) {
    // Repeated sets in brackets keep them; braces only disappear in pairs.
    std::string text, want;
    const size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) {
      if (i) { text += ","; want += ","; }
      if (r.chance(0.6)) {
        const Text t = ListText(r, 1, ',', 1);
        const size_t k = 1 + r.below(3);
        std::string set = "[";
        for (size_t j = 0; j < t.expanded.size(); ++j) set += (j ? "," : "") + t.expanded[j];
        set += "]";
        // Quotes and blanks are kept by the expansion itself, so judge the parsed elements.
        text += std::to_string(k) + "*[" + t.text + "]";
        for (size_t j = 0; j < k; ++j) want += (j ? "," : "") + set;
      } else {
        const long a = r.range(0, 9), b = a + r.range(0, 3);
        const bool pair = r.chance(0.5);
        const std::string pre = PickWord(r) + (pair ? "{" : ""), suf = pair ? "}x" : "";
        text += S(pre, a, "..", b, suf);
        for (long v = a; v <= b; ++v) want += S(v > a ? "," : "", pair ? pre.substr(0, pre.size() - 1) : pre, v, pair ? suf.substr(1) : suf);
      }
    }
    text = "[" + text + "]";
    R().Describe(text);
    R().Nontrivial(text);
    std::string got = "";
    std::function<void(const ParameterValue&)> flat = [&](const ParameterValue& v) {
      if (v.isVector()) {
        got += "[";
        bool first = true;
        for (const ParameterValue& e : v.getVector()) { if (!first) got += ","; first = false; flat(e); }
        got += "]";
      } else got += v.getString();
    };
    flat(ParameterValue(text).expand());
    VH_EXPECT(got == "[" + want + "]", "nested-expansion", "got ", got, " expected [", want, "]");
  });
  R().Cases("bare", R().n(3000, 40000), [](Rng& r, size_t) {
    // The two expansion steps on lists without brackets.
    Text t = RangeText(r);
    const std::string tail = r.chance(0.5) ? "" : ", " + PickWord(r);
    R().Describe(t.text + tail);
    R().Nontrivial(t.text);
    VH_EXPECT(expandRangeString(t.text + tail) == vh::Join(t.expanded) + tail, "bare-range", "got ", expandRangeString(t.text + tail));
    {
      // Braces only disappear in pairs.
      const long a = r.range(0, 12), b = r.range(0, 12);
      const std::string pre = r.pick(std::vector<std::string>{"", "q", "CS0x"}) + r.pick(std::vector<std::string>{"{", "", "}", "{{"});
      const std::string suf = r.pick(std::vector<std::string>{"}", "", "{", "}}", "}x", "_"});
      const bool pair = !pre.empty() && pre.back() == '{' && !suf.empty() && suf[0] == '}';
      std::string want;
      for (long v = a;; v += a <= b ? 1 : -1) {
        want += S(v != a ? "," : "", pair ? pre.substr(0, pre.size() - 1) : pre, Padded(v, 2), pair ? suf.substr(1) : suf);
        if (v == b) break;
      }
      const std::string text = pre + Padded(a, 2) + ".." + Padded(b, 2) + suf;
      R().Describe(text + tail);
      VH_EXPECT(expandRangeString(text + tail) == want + tail, "bare-braces", text, " became ", expandRangeString(text + tail));
      R().Describe(t.text + tail);
    }
    const size_t n = 1 + r.below(6);
    const std::string w = PickWord(r) + "7";
    std::vector<std::string> e(n, w);
    VH_EXPECT(expandMultString(S(n, "*", w, tail)) == vh::Join(e) + tail, "bare-repeat", "got ", expandMultString(S(n, "*", w, tail)));
  });
}

// ----------------------------------------------------------------- C03 ----
struct Node {
  int kind = 0;  // 0 text, 1 vector, 2 record
  std::string text;      // what must come out (unquoted) for kind 0
  std::string rendered;  // trimmed source text
  std::vector<Node> children;
  std::vector<std::string> names;
};

std::string PlainWord(Rng& r, const char* extra = "") {
  static const std::string kChars = "abcXYZ019._-/+*!^";
  const std::string chars = kChars + extra;
  std::string s;
  const size_t n = 1 + r.below(6);
  for (size_t i = 0; i < n; ++i) s += chars[r.below(chars.size())];
  return s;
}

std::string QuotedContent(Rng& r, char quote) {
  static const std::string kChars = "ab ,;:[]{}()#='\"\t*.\\";
  std::string s;
  const size_t n = r.below(8);
  for (size_t i = 0; i < n; ++i) {
    const char c = kChars[r.below(kChars.size())];
    if (c != quote) s += c;
  }
  return s;
}

Node TextNode(Rng& r) {
  Node n;
  const size_t parts = 1 + (r.chance(0.3) ? r.below(4) : 0);
  bool last_plain = false;
  for (size_t i = 0; i < parts; ++i) {
    if (!last_plain && r.chance(0.5)) {
      const std::string w = PlainWord(r);
      n.text += w;
      n.rendered += w;
      last_plain = true;
    } else {
      const char q = r.chance(0.5) ? '"' : '\'';
      const std::string c = QuotedContent(r, q);
      n.text += c;
      n.rendered += q + c + q;
      last_plain = false;
    }
  }
  return n;
}

Node ValueNode(Rng& r, int depth) {
  if (depth == 0 || r.chance(0.5)) {
    if (depth > 0 && r.chance(0.15)) {
      // Parenthesised text is one element even if it contains commas.
      Node n;
      n.rendered = PlainWord(r) + "(" + PlainWord(r) + "," + (r.chance(0.3) ? "(" + PlainWord(r) + "," + PlainWord(r) + ")" : PlainWord(r)) + ")";
      n.text = n.rendered;
      return n;
    }
    return TextNode(r);
  }
  Node n;
  n.kind = r.chance(0.6) ? 1 : 2;
  const size_t k = r.below(5);
  n.rendered = n.kind == 1 ? "[" : "{";
  for (size_t i = 0; i < k; ++i) {
    n.children.push_back(ValueNode(r, depth - 1));
    if (i) n.rendered += ",";
    n.rendered += RandomBlank(r);
    if (n.kind == 2) {
      std::string name = "n" + std::to_string(i) + PlainWord(r);
      n.names.push_back(name);
      if (r.chance(0.4)) {
        name += r.chance(0.5) ? ":" : "";
        n.names.back() = name;
        n.rendered += "'" + name + "'";
      } else {
        n.rendered += name;
      }
      n.rendered += RandomBlank(r) + ":" + RandomBlank(r);
    }
    n.rendered += n.children[i].rendered + RandomBlank(r);
  }
  n.rendered += n.kind == 1 ? "]" : "}";
  return n;
}

void CheckNode(const Node& n, const ParameterValue& v) {
  VH_EXPECT(v.get() == n.rendered, "value-text", "element is '", v.get(), "' expected '", n.rendered, "'");
  if (n.kind == 0) {
    VH_EXPECT(v.getString() == n.text, "value-string", "string is '", v.getString(), "' expected '", n.text, "'");
    if (!n.rendered.empty() && n.rendered[0] != '[') {
      const auto vec = v.getVector();
      VH_EXPECT(vec.size() == 1 && vec[0].get() == n.rendered, "value-single", "a single value is not a one-element list");
    }
  } else if (n.kind == 1) {
    VH_EXPECT(v.isVector() && !v.isRecord(), "value-kind", "not seen as a list");
    const std::vector<ParameterValue> vec = v.getVector();
    VH_EXPECT(vec.size() == n.children.size(), "value-size", "list has ", vec.size(), " elements, expected ", n.children.size());
    if (vec.size() == n.children.size())
      for (size_t i = 0; i < vec.size(); ++i) CheckNode(n.children[i], vec[i]);
    bool flat = true;
    std::vector<std::string> strs;
    for (const Node& c : n.children) {
      flat &= c.kind == 0;
      strs.push_back(c.text);
    }
    if (flat) VH_EXPECT(v.getStringVector() == strs, "value-strings", "list of strings differs");
  } else {
    VH_EXPECT(v.isRecord() && !v.isVector(), "value-kind", "not seen as a record");
    const ParameterRecord rec = v.getRecord();
    VH_EXPECT(size_t(rec.size()) == n.children.size(), "record-size", "record has ", rec.size(), " fields, expected ", n.children.size());
    for (size_t i = 0; i < n.children.size(); ++i) {
      VH_EXPECT(rec.isDefined(n.names[i]), "record-name", "field '", n.names[i], "' is missing");
      if (rec.isDefined(n.names[i])) CheckNode(n.children[i], rec.get(n.names[i]));
    }
    // Writing the record and reading it again gives the same record.
    bool writable = true;
    for (const std::string& name : n.names) writable &= name.find('\'') == std::string::npos;
    if (writable) {
      std::ostringstream o;
      o << rec;
      const ParameterRecord again = ParameterValue(o.str()).getRecord();
      bool same = again.size() == rec.size();
      for (size_t i = 0; same && i < n.names.size(); ++i)
        same = again.isDefined(n.names[i]) && again.get(n.names[i]).get() == n.children[i].rendered;
      VH_EXPECT(same, "record-roundtrip", "written record ", o.str(), " reads differently");
    }
  }
}

void C03() {
  R().Cases("nested", R().n(8000, 150000), [](Rng& r, size_t) {
    const Node n = ValueNode(r, int(1 + r.below(4)));
    const std::string text = RandomBlank(r) + n.rendered + RandomBlank(r);
    R().Describe(text);
    if (n.kind) R().Nontrivial(text);
    CheckNode(n, ParameterValue(text));
  });
  R().Cases("unbalanced", R().n(6000, 100000), [](Rng& r, size_t) {
    Node n = ValueNode(r, int(2 + r.below(3)));
    if (n.kind == 0) return;
    std::string t = n.rendered;
    // Remove or insert one bracket or quote strictly inside, outside quotes.
    std::vector<size_t> brackets, gaps;
    char quote = 0;
    for (size_t i = 1; i + 1 < t.size(); ++i) {
      if (quote) {
        if (t[i] == quote) quote = 0;
        continue;
      }
      if (t[i] == '\'' || t[i] == '"') {
        quote = t[i];
        continue;
      }
      if (std::string("[]{}()").find(t[i]) != std::string::npos) brackets.push_back(i);
      gaps.push_back(i);
    }
    if (!brackets.empty() && r.chance(0.5)) {
      t.erase(r.pick(brackets), 1);
    } else if (!gaps.empty()) {
      t.insert(r.pick(gaps), 1, "[]{}()"[r.below(6)]);
    } else {
      return;
    }
    R().Describe(t);
    R().Nontrivial(t);
    const ParameterValue v(t);
    bool threw = n.kind == 1 ? vh::Throws([&] { v.getVector(); }) : vh::Throws([&] { v.getRecord(); });
    VH_EXPECT(threw, "unbalanced-accepted", "unbalanced brackets were accepted");
  });
  R().Cases("open-quote", R().n(2000, 20000), [](Rng& r, size_t) {
    const std::string a = PlainWord(r), b = PlainWord(r);
    const std::string t = a + (r.chance(0.5) ? "'" : "\"") + b;
    R().Describe(t);
    R().Nontrivial(t);
    VH_EXPECT(vh::Throws([&] { ParameterValue(t).getString(); }), "open-quote-string", "an unclosed quote was accepted");
    VH_EXPECT(vh::Throws([&] { ParameterValue("[" + t + "]").getVector(); }), "open-quote-list", "an unclosed quote was accepted");
    VH_EXPECT(vh::Throws([&] { ParameterSet p; p.adoptBuffer("k=" + t + "\n"); }), "open-quote-file", "an unclosed quote was accepted");
  });
  R().Cases("empties", 1, [](Rng&, size_t) {
    R().Nontrivial("empty lists");
    R().Nontrivial("empty items");
    VH_EXPECT(ParameterValue("").getVector().empty(), "empty-value", "an empty value is not an empty list");
    VH_EXPECT(ParameterValue("[]").getVector().empty() && ParameterValue("[  ]").getVector().empty(), "empty-list", "an empty list has elements");
    const auto v = ParameterValue("[1,,2]").getVector();
    VH_EXPECT(v.size() == 3 && v[1].get().empty(), "empty-item", "an empty item was dropped");
    VH_EXPECT(vh::Throws([] { ParameterValue("{a 1}").getRecord(); }), "record-colon", "record field without a colon accepted");
    VH_EXPECT(vh::Throws([] { ParameterValue("{a:1,a:2}").getRecord(); }), "record-double", "record with a double name accepted");
    VH_EXPECT(vh::Throws([] { ParameterValue("[a:1]").getRecord(); }), "record-kind", "a list was read as a record");
  });
}

// ----------------------------------------------------------------- C04 ----
struct Less {
  bool nocase = false;
  bool operator()(const std::string& a, const std::string& b) const {
    if (!nocase) return a < b;
    std::string x = a, y = b;
    for (char& c : x) if (c >= 'a' && c <= 'z') c = char(c - 32);
    for (char& c : y) if (c >= 'a' && c <= 'z') c = char(c - 32);
    return x < y;
  }
};
using Model = std::map<std::string, std::string, Less>;

std::string ShowModel(const Model& m) {
  std::string s;
  for (const auto& e : m) s += e.first + "=" + e.second + "; ";
  return s;
}
std::string ShowSet(const ParameterSet& p) {
  std::string s;
  for (auto it = p.begin(); it != p.end(); ++it) s += it->first + "=" + it->second.get() + "; ";
  return s;
}
void CheckSame(const char* key, const ParameterSet& p, const Model& m) {
  const std::string a = ShowSet(p), b = ShowModel(m);
  VH_EXPECT(a == b && size_t(p.size()) == m.size(), key, "contents are {", a, "} expected {", b, "}");
}

std::string KeyText(Rng& r, bool mixed_case) {
  static const std::vector<std::string> kA{"msin", "msout", "solve", "avg", "av", "avg.sub", "steps", "a", "b_c", "solve.beam"};
  static const std::vector<std::string> kB{"type", "timestep", "freqstep", "name", "x", "maxiter", "sub.value", "name2"};
  std::string k = r.chance(0.8) ? r.pick(kA) + "." + r.pick(kB) : r.pick(kA);
  if (mixed_case)
    for (char& c : k)
      if (r.chance(0.4) && c >= 'a' && c <= 'z') c = char(c - 32);
  return k;
}

// A value as it can appear on one line of a parameter file.
std::string LineValue(Rng& r) {
  for (;;) {
    std::string v;
    if (r.chance(0.1)) return "";
    if (r.chance(0.5)) {
      v = PlainWord(r);
      if (r.chance(0.3)) v += " " + PlainWord(r);
    } else {
      v = ValueNode(r, 2).rendered;
    }
    // A trailing backslash means continuation; keep clear of it.
    if (!v.empty() && v.back() != '\\') return v;
  }
}

void C04() {
  R().Cases("text", R().n(6000, 100000), [](Rng& r, size_t) {
    const bool nocase = r.chance(0.3);
    Model m(Less{nocase});
    std::string text;
    const std::string prefix = r.chance(0.3) ? "pre." : "";
    const std::string eol = r.chance(0.15) ? "\r\n" : "\n";
    const size_t n = r.below(9);
    for (size_t i = 0; i < n; ++i) {
      while (r.chance(0.25))
        text += (r.chance(0.5) ? RandomBlank(r) : RandomBlank(r) + "# some = comment 'with \" quotes") + eol;
      const std::string key = KeyText(r, nocase);
      text += RandomBlank(r) + (r.chance(0.1) ? "'" + key + "'" : key) + RandomBlank(r) + "=" + RandomBlank(r);
      std::string value;
      const size_t pieces = 1 + (r.chance(0.3) ? 1 + r.below(3) : 0);
      for (size_t p = 0; p < pieces; ++p) {
        std::string piece = LineValue(r);
        // A blank piece on a continuation line is just a blank line.
        if (piece.find("''=") != std::string::npos) piece = "z";
        if (p > 0) {
          text += (r.chance(0.4) ? std::string(" \\") : std::string()) + (r.chance(0.2) ? " # note" : "") ;
          // A comment after a backslash hides the backslash: use one or the other.
          const size_t bs = text.rfind(" \\ # note");
          if (bs != std::string::npos && bs + 9 == text.size()) text.erase(bs + 2);
          text += eol;
          if (r.chance(0.15)) text += "  # comment between continuation lines" + eol;
          text += RandomBlank(r);
        }
        text += piece;
        if (!piece.empty()) {
          if (!value.empty() && piece[0] != '"' && piece[0] != '\'') value += ' ';
          value += piece;
        }
      }
      if (r.chance(0.2)) text += " # trailing comment = x";
      if (i + 1 < n || r.chance(0.7)) text += eol;
      m.erase(prefix + key);
      m[prefix + key] = value;
    }
    R().Describe(text);
    if (n > 1) R().Nontrivial(text);
    R().Count("keys read", m.size());
    ParameterSet ps(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
    ps.adoptBuffer(text, prefix);
    CheckSame("text-reading", ps, m);
    // Write and read back, through a buffer and through a file.
    std::string out;
    ps.writeBuffer(out);
    ParameterSet again(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
    again.adoptBuffer(out);
    CheckSame("text-roundtrip", again, m);
    if (r.chance(0.1)) {
      const std::string file = R().scratch + "/parset";
      ps.writeFile(file);
      ParameterSet from_file(file, nocase);
      CheckSame("file-roundtrip", from_file, m);
      ParameterSet extra(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
      Model m2 = m;
      for (int i = 0; i < 3; ++i) {
        const std::string k = KeyText(r, nocase), v = PlainWord(r);
        m2.erase(k);
        m2[k] = v;
        extra.remove(k);
        extra.replace(k, v);
      }
      extra.writeFile(file, true);
      ParameterSet both(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
      both.adoptFile(file);
      CheckSame("file-append", both, m2);
      ps.writeFile(file);
      ParameterSet over(file, nocase);
      CheckSame("file-overwrite", over, m);
      R().Count("files written", 3);
    }
    // Reading a second text over the first replaces and adds.
    if (r.chance(0.3)) {
      Model m2 = m;
      std::string t2;
      for (size_t i = 0; i < r.below(4) + 1; ++i) {
        const std::string k = KeyText(r, nocase), v = PlainWord(r);
        t2 += k + "=" + v + "\n";
        m2.erase(k);
        m2[k] = v;
      }
      ps.adoptBuffer(t2);
      CheckSame("text-merge", ps, m2);
    }
  });
  R().Cases("arguments", R().n(3000, 40000), [](Rng& r, size_t) {
    Model m;
    ParameterSet ps;
    const std::string k0 = KeyText(r, false);
    ps.add(k0, "old");
    m[k0] = "old";
    std::vector<std::string> args;
    for (size_t i = 0; i < r.below(6); ++i) {
      if (r.chance(0.2)) {
        args.push_back(r.pick(std::vector<std::string>{"run.parset", "-v", "", "flag"}));
        continue;
      }
      const std::string k = KeyText(r, false);
      const std::string v = r.chance(0.2) ? PlainWord(r) + "=" + PlainWord(r) : LineValue(r);
      args.push_back(k + "=" + RandomBlank(r) + v + RandomBlank(r));
      m[k] = v;
    }
    R().Describe(vh::Join(args, "|"));
    if (args.size() > 1) R().Nontrivial(vh::Join(args, "|"));
    ps.adoptArguments(args);
    CheckSame("arguments", ps, m);
  });
  R().Cases("bad-text", R().n(1500, 15000), [](Rng& r, size_t) {
    const std::string good = KeyText(r, false) + "=" + PlainWord(r) + "\n";
    static const std::vector<std::string> kBad{"=3", " = 3", "''=3", "\"\" = 3", "k='abc", "k=\"abc", "k=a'b", "=", "'k=3"};
    const std::string bad = r.pick(kBad);
    std::string text;
    for (size_t i = r.below(3); i > 0; --i) text += good;
    text += bad + "\n";
    for (size_t i = r.below(3); i > 0; --i) text += "z=1\n";
    R().Describe(text);
    R().Nontrivial(text);
    VH_EXPECT(vh::Throws([&] { ParameterSet p; p.adoptBuffer(text); }), "bad-text-accepted", "line '", bad, "' was accepted");
    VH_EXPECT(vh::Throws([&] { ParameterSet p(R().scratch + "/no-such-file", false); }), "missing-file-accepted", "a missing file was accepted");
  });
}

// ----------------------------------------------------------------- C05 ----
bool HasPrefix(const std::string& key, const std::string& base, bool nocase) {
  if (key.size() < base.size()) return false;
  Less less{nocase};
  const std::string a = key.substr(0, base.size());
  return !less(a, base) && !less(base, a);
}

void C05() {
  R().Cases("histories", R().n(3000, 50000), [](Rng& r, size_t) {
    const bool nocase = r.chance(0.4);
    const auto mode = nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL;
    ParameterSet ps(mode);
    Model m(Less{nocase});
    std::string trace;
    const size_t ops = 5 + r.below(25);
    for (size_t i = 0; i < ops; ++i) {
      const std::string key = KeyText(r, nocase);
      const std::string value = "v" + std::to_string(i);
      switch (r.below(9)) {
        case 0:
        case 1: {
          trace += "add " + key + ";";
          R().Describe(trace);
          const bool threw = vh::Throws([&] { ps.add(key, value); });
          VH_EXPECT(threw == (m.count(key) > 0), "add", "adding ", key, threw ? " was refused" : " replaced a value");
          m.insert({key, value});
          break;
        }
        case 2:
          trace += "replace " + key + ";";
          R().Describe(trace);
          ps.replace(key, value);
          m[key] = value;
          break;
        case 3:
          trace += "remove " + key + ";";
          R().Describe(trace);
          ps.remove(key);
          m.erase(key);
          break;
        case 4:
        case 5: {
          std::string base = r.chance(0.7) ? key.substr(0, key.find('.')) + (r.chance(0.8) ? "." : "") : key.substr(0, r.below(key.size() + 1));
          const std::string prefix = r.chance(0.4) ? "new." : "";
          trace += "subset " + base + ";";
          R().Describe(trace);
          ParameterSet sub = ps.makeSubset(base, prefix);
          Model ms(Less{nocase});
          for (auto& e : m)
            if (HasPrefix(e.first, base, nocase)) ms[prefix + e.first.substr(base.size())] = e.second;
          CheckSame("subset", sub, ms);
          // The subset is independent of the original.
          sub.replace("only.in.subset", "1");
          CheckSame("subset-independent", ps, m);
          if (r.chance(0.3)) {
            trace += "subtract " + base + ";";
            R().Describe(trace);
            ps.subtractSubset(base);
            for (auto it = m.begin(); it != m.end();)
              if (HasPrefix(it->first, base, nocase)) it = m.erase(it); else ++it;
            R().Count("subtractions");
          }
          R().Count("subset keys", ms.size());
          break;
        }
        case 6: {
          ParameterSet other(mode);
          Model mo(Less{nocase});
          for (size_t j = r.below(4); j > 0; --j) {
            const std::string k = KeyText(r, nocase);
            other.replace(k, value + "o");
            mo[k] = value + "o";
          }
          const std::string prefix = r.chance(0.4) ? "ad." : "";
          trace += "adopt " + prefix + ShowModel(mo);
          R().Describe(trace);
          ps.adoptCollection(other, prefix);
          for (auto& e : mo) m[prefix + e.first] = e.second;
          CheckSame("adopt-source", other, mo);
          break;
        }
        case 7: {
          if (m.size() > 40) break;
          const std::string prefix = r.chance(0.5) ? "self." : "";
          trace += "adopt-self " + prefix + ";";
          R().Describe(trace);
          ps.adoptCollection(ps, prefix);
          if (!prefix.empty()) {
            Model copy = m;
            for (auto& e : copy) m[prefix + e.first] = e.second;
          }
          break;
        }
        default: {
          VH_EXPECT(ps.isDefined(key) == (m.count(key) > 0), "is-defined", key);
          const std::string got = ps.getString(key, "<default>");
          VH_EXPECT(got == (m.count(key) ? m[key] : "<default>"), "lookup", key, " gives ", got);
          // Module look-up: the first key (in order) that has the word as
          // its last-but-one component.
          const std::string word = r.pick(std::vector<std::string>{"solve", "avg", "sub", "beam", "zzz", "msin"});
          std::string want;
          for (auto& e : m) {
            const size_t d = e.first.rfind('.');
            if (d == std::string::npos) continue;
            const std::string mod = e.first.substr(0, d);
            const size_t d2 = mod.rfind('.');
            const std::string leaf = d2 == std::string::npos ? mod : mod.substr(d2 + 1);
            if (leaf == word) {
              want = d2 == std::string::npos ? "" : mod.substr(0, d2) + ".";
              break;
            }
          }
          VH_EXPECT(ps.locateModule(word) == want, "locate-module", word, " found at ", ps.locateModule(word), " expected ", want);
        }
      }
      CheckSame("contents", ps, m);
    }
    // Copies share the same parameters (documented reference semantics).
    ParameterSet alias(ps);
    alias.replace("shared.key", "1");
    m["shared.key"] = "1";
    CheckSame("alias", ps, m);
    R().Nontrivial(trace);
    R().Count("operations", ops);
  });
}

// ----------------------------------------------------------------- C06 ----
void C06() {
  R().Cases("asked", R().n(3000, 50000), [](Rng& r, size_t) {
    const bool nocase = r.chance(0.4);
    ParameterSet ps(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
    Model m(Less{nocase});
    std::set<std::string, Less> asked(Less{nocase});
    std::string trace;
    auto vary = [&](std::string k) {
      if (nocase)
        for (char& c : k) {
          if (c >= 'a' && c <= 'z' && r.chance(0.3)) c = char(c - 32);
          else if (c >= 'A' && c <= 'Z' && r.chance(0.3)) c = char(c + 32);
        }
      return k;
    };
    const size_t n = 2 + r.below(10);
    for (size_t i = 0; i < n; ++i) {
      const std::string k = KeyText(r, nocase);
      const std::string v = r.chance(0.5) ? std::to_string(r.below(100)) : "[1,2]";
      if (!m.count(k)) {
        ps.add(k, v);
        m[k] = v;
      }
    }
    for (size_t i = r.below(20); i > 0; --i) {
      std::string k = vary(KeyText(r, nocase));
      const bool present = m.count(k) > 0;
      bool marks = true;
      switch (r.below(11)) {
        case 0: Try([&] { return ps.getInt(k); }); trace += "int " + k + ";"; break;
        case 1: Try([&] { return ps.getInt(k, 3); }); trace += "intd " + k + ";"; break;
        case 2: ps.getString(k, ""); trace += "strd " + k + ";"; break;
        case 3: Try([&] { return ps.getIntVector(k, std::vector<int>()); }); trace += "ivecd " + k + ";"; break;
        case 4: Try([&] { return ps.getStringVector(k); }); trace += "svec " + k + ";"; break;
        case 5: Try([&] { return ps.get(k).get(); }); trace += "get " + k + ";"; break;
        case 6: Try([&] { return ps.getDouble(k, 1.0); }); trace += "dbl " + k + ";"; break;
        case 7: Try([&] { return ps.getBool(k, true); }); trace += "bool " + k + ";"; break;
        case 8: ps.isDefined(k); marks = false; trace += "def " + k + ";"; break;
        case 9: {
          const std::string base = k.substr(0, k.find('.')) + ".";
          trace += "subset " + base + ";";
          ParameterSet sub = ps.makeSubset(base);
          for (auto& e : m)
            if (HasPrefix(e.first, base, nocase)) asked.insert(e.first);
          // In the subset nothing has been asked yet.
          VH_EXPECT(sub.unusedKeys().size() == size_t(sub.size()), "subset-unused", "a fresh subset has used keys");
          marks = false;
          break;
        }
        default: {
          std::string b;
          ps.writeBuffer(b);
          marks = false;
        }
      }
      if (marks && present) asked.insert(k);
      R().Describe(ShowModel(m) + " | " + trace);
      std::vector<std::string> want;
      for (auto& e : m)
        if (!asked.count(e.first)) want.push_back(e.first);
      VH_EXPECT(ps.unusedKeys() == want, nocase ? "unused-nocase" : "unused", "unused keys are {", vh::Join(ps.unusedKeys()), "} expected {", vh::Join(want), "}");
    }
    if (!asked.empty() && asked.size() < m.size()) R().Nontrivial(ShowModel(m) + trace);
  });
}

// ----------------------------------------------------------------- C08 ----
bool GlobMatch(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return GlobMatch(p + 1, s) || (*s && GlobMatch(p, s + 1));
  return *s && (*p == '?' || *p == *s) && GlobMatch(p + 1, s + 1);
}

std::string StationName(Rng& r) {
  std::string s = r.pick(std::vector<std::string>{"CS", "RS", "DE", "C", "CSS"});
  s += std::to_string(r.below(30));
  s += r.pick(std::vector<std::string>{"", "HBA", "HBA0", "HBA1", "LBA", ".x", "_1"});
  return s;
}

std::string StationPattern(Rng& r) {
  std::string p = StationName(r);
  for (size_t k = r.below(3); k > 0; --k) {
    const size_t i = r.below(p.size());
    switch (r.below(3)) {
      case 0: p[i] = '?'; break;
      case 1: p = p.substr(0, i) + "*" + (r.chance(0.5) ? p.substr(std::min(p.size(), i + 1 + r.below(3))) : ""); break;
      default: p.insert(i, "*");
    }
    if (p.empty()) p = "*";
  }
  return p;
}

void C08() {
  R().Cases("stations", R().n(2500, 40000), [](Rng& r, size_t) {
    std::vector<std::string> stations;
    std::set<std::string> used;
    for (size_t i = 1 + r.below(8); i > 0; --i) {
      std::string s = StationName(r);
      if (used.insert(s).second) stations.push_back(s);
    }
    std::vector<double> result(stations.size()), want;
    for (double& v : result) v = double(r.range(-5, 5));
    want = result;
    std::vector<std::string> list;
    for (size_t i = r.below(4); i > 0; --i) {
      const double value = double(r.range(-1000, 1000)) / 8;
      std::vector<std::string> pats;
      for (size_t j = 1 + r.below(3); j > 0; --j)
        pats.push_back((r.chance(0.25) ? (r.chance(0.5) ? "!" : "^") : "") + (r.chance(0.3) ? r.pick(stations) : StationPattern(r)));
      std::vector<char> sel(stations.size(), 0);
      for (const std::string& p : pats) {
        const bool neg = p[0] == '!' || p[0] == '^';
        for (size_t s = 0; s < stations.size(); ++s)
          if (GlobMatch(p.c_str() + neg, stations[s].c_str())) sel[s] = !neg;
      }
      for (size_t s = 0; s < stations.size(); ++s)
        if (sel[s]) want[s] = value, R().Count("stations assigned");
      std::string item = pats.size() == 1 && r.chance(0.5) ? pats[0] : "[" + vh::Join(pats, r.chance(0.5) ? "," : ", ") + "]";
      list.push_back(item + ":" + (r.chance(0.3) ? " " : "") + S(value));
    }
    R().Describe(vh::Join(list, " ; ") + " | " + vh::Join(stations));
    if (list.size() > 1) R().Nontrivial(vh::Join(list) + vh::Join(stations));
    ParseValuePerStation(std::span<double>(result), std::span<const std::string>(list), std::span<const std::string>(stations));
    VH_EXPECT(result == want, "station-values", "got ", vh::Join(result), " expected ", vh::Join(want));
    std::vector<int> iresult(stations.size(), 7), iwant(stations.size(), 7);
    std::vector<std::string> ilist{stations[0] + ":-12"};
    iwant[0] = -12;
    ParseValuePerStation(std::span<int>(iresult), std::span<const std::string>(ilist), std::span<const std::string>(stations));
    VH_EXPECT(iresult == iwant, "station-values-int", "got ", vh::Join(iresult));
    std::vector<std::string> bad{stations[0] + "=3"};
    VH_EXPECT(vh::Throws([&] { ParseValuePerStation(std::span<double>(result), std::span<const std::string>(bad), std::span<const std::string>(stations)); }),
              "station-values-colon", "an item without a colon was accepted");
    // Wildcards: the regular expression selects exactly what the glob selects.
    const std::string p = StationPattern(r);
    const std::regex re(PatternToRegex(p));
    for (size_t k = 0; k < 4; ++k) {
      std::string name = k == 0 ? r.pick(stations) : StationName(r);
      if (r.chance(0.3)) { name = p; for (char& c : name) if (c == '*' || c == '?') c = 'Q'; }
      VH_EXPECT(std::regex_match(name, re) == GlobMatch(p.c_str(), name.c_str()), "wildcard", p, " against ", name);
    }
  });
  R().Cases("bad-values", R().n(300, 3000), [](Rng& r, size_t) {
    const std::vector<std::string> stations{"CS1"};
    const std::string v = r.pick(std::vector<std::string>{"", "abc", " ", "x1", "--2"});
    std::vector<double> result{4.5};
    std::vector<std::string> list{"CS*:" + v};
    R().Describe(list[0]);
    R().Nontrivial(list[0]);
    VH_EXPECT(vh::Throws([&] { ParseValuePerStation(std::span<double>(result), std::span<const std::string>(list), std::span<const std::string>(stations)); }),
              "station-value-not-a-number", "a text that is not a number was accepted as ", result[0]);
  });
}

}  // namespace

VH_MAIN({"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C08", C08})
