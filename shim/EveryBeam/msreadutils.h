#include "EveryBeam/load.h"
