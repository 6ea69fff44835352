#include "casacore/mini.h"
