#ifndef VERIF_AOIMGCOORD
#define VERIF_AOIMGCOORD
#include <cmath>
#include <utility>
#include <vector>
namespace aocommon {
class ImageCoordinates {
 public:
  template <class T> static T AngularDistance(T ra1, T dec1, T ra2, T dec2) {
    const T sd = std::sin((dec2 - dec1) / 2), sr = std::sin((ra2 - ra1) / 2);
    const T h = sd * sd + std::cos(dec1) * std::cos(dec2) * sr * sr;
    return 2 * std::asin(std::sqrt(h > 1 ? T(1) : h));
  }
  template <class T> static std::pair<T, T> MeanPosition(const std::vector<std::pair<T, T>>& l) {
    T x = 0, y = 0, z = 0;
    for (auto& p : l) { x += std::cos(p.first) * std::cos(p.second); y += std::sin(p.first) * std::cos(p.second); z += std::sin(p.second); }
    return {std::atan2(y, x), std::atan2(z, std::hypot(x, y))};
  }
};
}
#endif
