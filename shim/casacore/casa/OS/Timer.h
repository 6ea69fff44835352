#ifndef VERIF_OS_TIMER_H
#define VERIF_OS_TIMER_H
#include <ostream>
#include <string>
namespace casacore {
class Timer { public: void show(std::ostream& o, const std::string& s) const { o << s; } };
}
#endif
