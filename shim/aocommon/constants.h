#ifndef VERIF_AOCONST
#define VERIF_AOCONST
namespace aocommon { inline constexpr double kSpeedOfLight = 299792458.0; constexpr double c() { return kSpeedOfLight; } }
#endif
