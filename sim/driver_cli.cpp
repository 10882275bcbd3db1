// The terminal of the command line program: readline() hands out the next line of the plan.
#include "drivers.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

int onex_cli_main(int argc, char* argv[]);

namespace sim {

static const Plan* P; static size_t K; static bool stepOpen; static int stepIdx;
static std::vector<std::string> replies; static bool confirming;
static int outFd = -1; static off_t outPos;
enum Phase { RUN, LIST, SAVE, SAVEG }; static Phase phase = RUN;
struct Ds { int id; std::string name; bool norm, grouped; std::string data, groups; bool ok; };
static std::vector<Ds> snapDs; static size_t snapI; static int listCount;
static bool afterSnap;
static std::vector<std::string> paths;

static std::string takeOutput() {
  std::cout.flush(); fflush(stdout);
  std::string o; char b[4096]; ssize_t n;
  while ((n = syscall(SYS_pread64, outFd, b, sizeof b, outPos)) > 0) { o.append(b, (size_t)n); outPos += n; }
  return o;
}
static void closeStep(bool ended, int code) {
  if (!stepOpen) return;
  endStep(); stepOpen = false; auto changed = diskDiff();
  ObsW::u8(O_TEXT); ObsW::str(takeOutput()); ObsW::u8(ended); ObsW::i64(code);
  ObsW::u8(O_COUNTS); const Counts& c = shm->cnt;
  ObsW::i64(c.opens); ObsW::i64(c.reads); ObsW::i64(c.seeks); ObsW::i64(c.writes); ObsW::i64(c.closes); ObsW::i64(c.ios); ObsW::i64(c.allocs);
  ObsW::i64(shm->firedMask);
  ObsW::disk(changed);
  for (auto& p : paths) logFile(p);
}
static void emitSnap() {
  ObsW::u8(O_SNAP); ObsW::i64((int64_t)snapDs.size()); ObsW::i64(listCount);
  for (auto& d : snapDs) {
    std::vector<double> v; int rows = 0; bool ok = d.ok;
    std::istringstream in(d.data); std::string l; size_t cols = 0;
    while (std::getline(in, l)) {
      size_t c = 0; const char* p = l.c_str(); char* e; for (;;) { double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; c++; }
      if (rows == 0) cols = c; else if (c != cols) ok = false;
      rows++;
    }
    ObsW::i64(d.id); ObsW::str(d.name); ObsW::u8(1); ObsW::u8(d.norm); ObsW::u8(d.grouped); ObsW::i64(rows); ObsW::i64((int64_t)cols);
    ObsW::u8(ok); ObsW::i64((int64_t)v.size()); for (double x : v) ObsW::f64(x); ObsW::str(d.groups);
  }
}
static void parseList(const std::string& o) {
  snapDs.clear(); listCount = -1;
  std::istringstream in(o); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 10, "There are ") == 0) { listCount = atoi(l.c_str() + 10); continue; }
    if (listCount < 0 || l.size() < 4 || l[0] != ' ') continue;
    Ds d; d.ok = true; char* e; d.id = (int)strtol(l.c_str(), &e, 10); if (e == l.c_str()) continue;
    std::string rest(e); size_t p = 0; while (p < rest.size() && rest[p] == ' ') p++;
    size_t t = rest.find('\t'); if (t == std::string::npos) t = rest.size();
    d.name = t > p ? rest.substr(p, t - p) : ""; std::string flags = rest.substr(t);
    d.norm = flags.find("Normalized") != std::string::npos; d.grouped = flags.find("Grouped") != std::string::npos;
    snapDs.push_back(d);
  }
}
static char* give(const std::string& s) { return strdup(s.c_str()); }

static char* nextLine(const char*) {
  if (confirming) {
    if (replies.empty()) { confirming = false; shm->fired[F_EOFTERM]++; return nullptr; }
    std::string r = replies.front(); replies.erase(replies.begin());
    if (r == "n" || r == "y" || r == "") confirming = false;
    return give(r);
  }
  // a prompt: what was running is over
  if (phase == RUN) {
    if (stepOpen) { closeStep(false, 0); afterSnap = P->snapEvery != 0; }
    if (afterSnap) { afterSnap = false; takeOutput(); phase = LIST; return give("list dataset"); }
  } else if (phase == LIST) {
    parseList(takeOutput()); snapI = 0;
    if (snapDs.empty()) { emitSnap(); phase = RUN; }
    else { phase = SAVE; return give("save " + std::to_string(snapDs[0].id) + " /sim/.obs"); }
  } else if (phase == SAVE) {
    std::string o = takeOutput(); Ds& d = snapDs[snapI];
    if (o.find("Error!") != std::string::npos) d.ok = false;
    vget("/sim/.obs", d.data); vdrop("/sim/.obs");
    if (d.grouped) { phase = SAVEG; return give("saveGroup " + std::to_string(d.id) + " /sim/.obs"); }
    snapI++; if (snapI < snapDs.size()) return give("save " + std::to_string(snapDs[snapI].id) + " /sim/.obs");
    emitSnap(); phase = RUN;
  } else {
    std::string o = takeOutput(); Ds& d = snapDs[snapI];
    if (!vget("/sim/.obs", d.groups) || o.find("Error!") != std::string::npos) d.groups = "!error";
    vdrop("/sim/.obs");
    snapI++; if (snapI < snapDs.size()) { phase = SAVE; return give("save " + std::to_string(snapDs[snapI].id) + " /sim/.obs"); }
    emitSnap(); phase = RUN;
  }
  for (; K < P->steps.size(); K++) {
    const Step& s = P->steps[K]; shm->curStep = (int)K;
    ObsW::u8(O_STEP); ObsW::i64((int64_t)K);
    if (s.op == "restart") { if (s.a[0] != 0) { ObsW::u8(O_LIFE_END); _exit(0); } return give("exit"); }
    if (isDiskStep(s.op)) { scheduler(s); continue; }
    if (s.op != "line" && s.op != "eof") continue;
    paths.clear();
    if (s.op == "line") { std::istringstream in(s.s); std::string w; while (in >> w) if (w.compare(0, 5, "/sim/") == 0) paths.push_back(w); }
    for (auto& p : paths) logFile(p);
    stepOpen = true; stepIdx = (int)K; K++;
    takeOutput();
    beginStep(stepIdx, s.uid, s.faults);
    if (s.op == "eof") {
      confirming = true; replies.clear(); shm->fired[F_EOFTERM]++;
      if (s.a[0] > 0) { std::istringstream in(s.s); std::string r; while (std::getline(in, r)) replies.push_back(r); }
      return nullptr;
    }
    return give(s.s);
  }
  return give("exit");
}

void runCli(const Plan& p, int from) {
  P = &p; K = (size_t)from; stepOpen = false; phase = RUN; confirming = false; afterSnap = false;
  outFd = memfd_create("out", 0); dup2(outFd, 1); outPos = 0;
  char a0[] = "onex"; char* av[] = { a0, nullptr };
  paintStack();
  shm->inCall = 1; int rc = onex_cli_main(1, av); shm->inCall = 0;
  bool ended = stepOpen;
  closeStep(true, rc);
  if (!ended) { ObsW::u8(O_TEXT); ObsW::str(takeOutput()); ObsW::u8(2); ObsW::i64(rc); }   // ended by the closing "exit"
  exit(0);   // static destructors run as in a real exit; the clean end is the exit status
}

}  // namespace sim

extern "C" char* readline(const char* prompt) {
  sim::shm->inCall = 0;
  char* r = sim::nextLine(prompt);
  sim::paintStack();
  sim::shm->inCall = 1;
  return r;
}
extern "C" void add_history(const char*) {}
