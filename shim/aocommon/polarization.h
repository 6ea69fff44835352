#ifndef VERIF_AOPOL
#define VERIF_AOPOL
#include <set>
#include <stdexcept>
#include <string>
namespace aocommon {
class Polarization {
 public:
  enum PolarizationEnum { StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
  static PolarizationEnum AipsIndexToEnum(int i) {
    static const PolarizationEnum t[] = {StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY};
    if (i < 1 || i > 12) throw std::runtime_error("unknown polarization index");
    return t[i - 1];
  }
};
using PolarizationEnum = Polarization::PolarizationEnum;
}
#endif
