#ifndef VERIF_AOCOMMON_UTENSOR
#define VERIF_AOCOMMON_UTENSOR
#include <xtensor/xtensor.hpp>
namespace aocommon::xt { template <typename T, size_t N> using UTensor = ::xt::xtensor<T, N>; }
#endif
