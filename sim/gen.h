#pragma once
#include "exec.h"
namespace sim {
Plan genBase(const std::string& prop, uint64_t seed, bool thorough);
// puts faults inside operations that really made the calls they hit; false: nothing to place
bool placeFaults(Plan& p, const RunObs& base, uint64_t seed);
extern const char* const allProps[17];
}
