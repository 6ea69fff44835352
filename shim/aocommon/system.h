#ifndef VERIF_AOSYSTEM
#define VERIF_AOSYSTEM
#include <cstddef>
namespace aocommon::system { inline size_t ProcessorCount() { return 3; } inline long TotalMemory() { return 1L << 30; } }
#endif
