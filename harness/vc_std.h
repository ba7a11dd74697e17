#ifndef VC_STD_H
#define VC_STD_H
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <iosfwd>
#include <typeinfo>
#include <bitset>
#include <mutex>
#include <thread>
#include <cstdint>
#include <cstddef>
#include <climits>
#include <cctype>
#include <Eigen/Cholesky>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#endif
