#ifndef VERIF_BEAMMODE
#define VERIF_BEAMMODE
#include <algorithm>
#include <stdexcept>
#include <string>
namespace everybeam {
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
enum class CorrectionMode { kNone, kFull, kArrayFactor, kElement };
inline BeamMode ParseBeamMode(const std::string& s) {
  std::string l(s); std::transform(l.begin(), l.end(), l.begin(), [](unsigned char c) { return std::tolower(c); });
  if (l == "none") return BeamMode::kNone; if (l == "default" || l == "full") return BeamMode::kFull;
  if (l == "array_factor" || l == "arrayfactor") return BeamMode::kArrayFactor; if (l == "element") return BeamMode::kElement;
  throw std::runtime_error("Invalid beam mode '" + s + "'");
}
inline std::string ToString(BeamMode m) { static const char* n[] = {"None", "Full", "ArrayFactor", "Element"}; return n[int(m)]; }
}
#endif
