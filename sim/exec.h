#pragma once
#include "plan.h"
#include "ref.h"
#include <map>
#include <set>

namespace sim {

struct DsSnap {
  int id = -1; std::string name; bool loaded = false, norm = false, grouped = false, valsOk = true;
  int rows = 0, cols = 0; std::vector<double> v; std::string groups;
  bool operator==(const DsSnap& o) const;
};
struct Snap { bool present = false; int64_t n = 0, count = 0; std::vector<DsSnap> ds; const DsSnap* find(int id) const { for (auto& d : ds) if (d.id == id) return &d; return nullptr; } };
struct Result { bool has = false, ok = true; std::string kind, msg; std::vector<int64_t> i; std::vector<double> d; };
struct FileObs { std::string path; bool exists = false; std::string bytes; };
struct TsObj { bool present = false, dead = false; int64_t index = 0, start = 0, end = 0, length = 0; std::vector<double> v; };
struct StepObs {
  int step = -1, life = 0; bool begun = false, done = false;
  Result res; bool hasCounts = false; Counts cnt; uint32_t fired = 0;
  std::vector<FileObs> files; Snap snap; std::vector<std::pair<std::string, char>> disk;   // disk: files changed by the step, also when it died
  bool hasText = false; std::string text; int ended = 0; int64_t code = 0;
  bool hasTs = false; std::vector<TsObj> ts; std::vector<double> bufs;
};
struct LiveObs { int64_t cycle, n, bytes, fds; };
struct Life {
  char driver = 'D'; int from = 0, last = -1; bool clean = false, simCrash = false, failed = false;
  std::string how;          // description of an abnormal end
  std::vector<StepObs> steps;
  int finalText = 0; int64_t finalCode = 0;
};
struct RunObs {
  std::vector<Life> lives; std::vector<LiveObs> live;
  uint64_t hash = 0, events = 0, fired[F_NKINDS]; int64_t clockSpan = 0; uint64_t clockReads = 0; bool overflow = false;
};
RunObs execPlan(const Plan& p);
int zygoteMain();
void zygoteStart(const char* self);

}  // namespace sim
