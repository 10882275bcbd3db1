#pragma once
#include "exec.h"
namespace sim {
struct Viol { std::set<std::string> tags; std::string cls, msg; int step = -1; };
struct Judge {
  std::vector<Viol> all;          // every violation seen, whatever property it belongs to
  std::map<std::string, uint64_t> cover;
  std::set<uint64_t> states;      // abstract states reached
  const Viol* of(const std::string& prop) const { for (auto& v : all) if (v.tags.count(prop)) return &v; return nullptr; }
};
// decides one run against the reference model
void checkRun(const Plan& p, const RunObs& r, bool baseClean, Judge& out);
// executes the plan (as often as its property needs) and decides it
Judge judge(const Plan& p, RunObs* obsOut = nullptr, uint64_t* hashOut = nullptr, uint64_t* execs = nullptr);
Plan stripFaults(const Plan& p);
bool hasFaults(const Plan& p);
}
