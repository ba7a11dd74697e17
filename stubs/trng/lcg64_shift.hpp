#include "trng/uniform01_dist.hpp"
