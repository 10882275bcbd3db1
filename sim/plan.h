// A plan is one exactly repeatable execution: operations with all their arguments and faults.
#pragma once
#include "sim.h"
#include <map>

namespace sim {

struct Step {
  uint64_t uid = 0;
  std::string op;
  int64_t a[6] = {0, 0, 0, 0, 0, 0};
  std::vector<double> d;
  std::string s, s2;
  std::vector<Fault> faults;
};

struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::string driver = "D";     // driver of the first lifetime: D objects, A api, C command line, T time series
  uint64_t chunkSeed = 0, heapSeed = 0, clockSeed = 0; int clockMode = 0;
  int snapEvery = 1;            // 1: snapshot after every step, 0: only at explicit snap steps
  int cycles = 0;               // >0: repeat the whole plan this many times in one process (C13)
  std::vector<Step> steps;
};

std::string enc(const std::string& s);
std::string dec(const std::string& s);
// index of the next lifetime's first step after step i, or -1
int nextLife(const Plan& p, int i);
std::string planToText(const Plan& p);
bool planFromText(const std::string& t, Plan& p, std::string& err);

}  // namespace sim
