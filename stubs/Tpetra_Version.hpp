#include "vc_trilinos.hpp"
