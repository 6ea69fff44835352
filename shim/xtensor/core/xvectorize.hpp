#include "xtensor/xtensor.hpp"
