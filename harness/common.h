// Helpers shared by the harnesses.
#pragma once
#include "sim.h"
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <vector>

namespace sim {
template<typename T>
const T& pick_from(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
} // namespace sim
