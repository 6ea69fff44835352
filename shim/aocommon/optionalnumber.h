// Stand-in for aocommon's OptionalNumber (library not installed here).
#ifndef SHIM_AOCOMMON_OPTIONALNUMBER_H_
#define SHIM_AOCOMMON_OPTIONALNUMBER_H_
#include <algorithm>
#include <cassert>
#include <cmath>
#include <optional>
namespace aocommon {
template <typename T>
class OptionalNumber : public std::optional<T> {
 public:
  using std::optional<T>::optional;
};
}  // namespace aocommon
#endif
