#include "spdlog/spdlog.h"
