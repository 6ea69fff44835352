#ifndef VERIF_AOCOMMON_SPAN
#define VERIF_AOCOMMON_SPAN
#include <xtensor/xtensor.hpp>
namespace aocommon::xt {
template <typename T, size_t N> using Span = ::xt::xadaptor<T>;
template <typename T, size_t N> auto CreateSpan(T* p, const std::array<size_t, N>& s) { return ::xt::adapt(p, s); }
template <typename T, size_t N> auto CreateSpan(::xt::xtensor<T, N>& t) { return ::xt::adapt(t.data(), t.shape()); }
}
#endif
