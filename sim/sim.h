// Core of the deterministic simulator: shared memory, virtual disk, faults, PRNG.
// Nothing here includes a header of the code under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG (splitmix / xorshift)
inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s = s + 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_OPEN = 0,   // the n-th open of the step fails with errno a
  F_READ,       // the n-th read of the step fails once with errno a
  F_READS,      // every read from the n-th on fails
  F_SEEK,       // the n-th seek fails (ESPIPE)
  F_WRITE,      // the n-th write fails once with errno a
  F_WRITES,     // every write from the n-th on fails (disk full); the n-th writes a bytes first
  F_CLOSE,      // the n-th close of a written file reports EIO and loses its last a+1 bytes
  F_ALLOC,      // the n-th allocation of the step fails once
  F_ALLOCS,     // every allocation from the n-th on fails
  F_CRASH,      // process dies at the n-th I/O call (a: 0 before, 1 after, 2 torn)
  F_ACRASH,     // process dies at the n-th allocation
  F_EXT,        // another process changes the file being read at the n-th read (a: new size)
  F_EOFERR,     // the n-th read returns 0 (premature end of file) once
  // counted but not placed per call
  F_SHORT, F_EINTR, F_QUOTA, F_DAMAGE, F_CLOCK, F_GARBAGE, F_EOFTERM,
  F_NKINDS
};
extern const char* const faultName[F_NKINDS];
struct Fault { int kind; uint32_t n; int64_t a; };

// ---------------------------------------------------------------- shared state
enum { MAXFILES = 40, MAXFSZ = 4 * 1024 * 1024, MAXNAME = 128, MAXFAULTS = 16 };
struct VFile {
  char name[MAXNAME];
  uint8_t exists, isdir;
  uint32_t size;
  uint8_t data[MAXFSZ];
};
struct Counts { uint32_t opens, reads, seeks, writes, closes, ios, allocs; };

enum { OBSMAX = 48 * 1024 * 1024, PLANMAX = 8 * 1024 * 1024 };
struct Shm {
  // disk
  VFile file[MAXFILES];
  int64_t quota;                 // bytes that may still be written, -1: unlimited
  // armed faults of the current step
  Fault faults[MAXFAULTS]; int nfaults;
  Counts cnt;                    // calls of the current step
  uint32_t firedMask;            // hard faults fired in the current step
  uint64_t fired[F_NKINDS];      // totals over the run
  // environment
  uint64_t chunkSeed, heapSeed, clockSeed; int clockMode;
  uint64_t chunkRng, heapRng, clockRng;
  int64_t nowNs; uint64_t clockReads; int64_t clockSpan;
  // progress
  int32_t curStep; uint8_t inCall; uint8_t crashed;
  uint64_t traceHash, events;
  uint64_t callsLimit; uint8_t observing;
  int32_t openFds;
  // the disk as it was when the current step began
  uint8_t stepOpen; struct { char name[MAXNAME]; uint8_t exists, isdir; uint64_t hash; } before[MAXFILES];
  char note[512];
  // observations
  uint64_t obsLen; uint8_t obs[OBSMAX];
  // the plan being executed, for the zygote
  uint64_t planLen; char plan[PLANMAX];
};
extern Shm* shm;
void initShm(int fd);             // fd < 0: make it
extern int shmFd;
void resetRun();                 // fresh disk, counters, trace
void ev(uint32_t kind, uint64_t a, uint64_t b);   // extend the trace hash

// disk, used by drivers and by the scheduler (not by the code under test)
VFile* vfind(const std::string& name, bool create = false);
void vput(const std::string& name, const std::string& bytes);
bool vget(const std::string& name, std::string& out);
void vdrop(const std::string& name);

// step control (called by the drivers inside the simulated process)
void beginStep(int step, uint64_t uid, const std::vector<Fault>& faults);
void endStep();
struct InCall { InCall() { shm->inCall = 1; } ~InCall() { shm->inCall = 0; } };

// live allocation accounting of the simulated process
void liveReset();
void liveGet(uint64_t& n, uint64_t& bytes);

// what the current step has changed on the disk since it began: path and 'n' new, 'c' changed, 'g' gone
std::vector<std::pair<std::string, char>> diskDiff();

// ---------------------------------------------------------------- observation log
enum ObsKind : uint8_t {
  O_STEP = 1,   // i64 step
  O_FILE,       // str path, u8 exists, str bytes
  O_RES,        // u8 ok, str error kind, str message, n ints, n doubles
  O_SNAP,       // snapshot of all datasets
  O_TEXT,       // str CLI output of one line, u8 session over, i64 code
  O_COUNTS,     // counters of the step, fired mask
  O_LIVE,       // i64 cycle, i64 live allocations, i64 live bytes, i64 open fds
  O_TS,         // snapshot of time series objects
  O_DISK,       // files changed by the step: n times (str path, u8 how)
  O_LIFE_END    // clean end of the lifetime
};
struct ObsW {
  static void raw(const void* p, size_t n);
  static void u8(uint8_t v) { raw(&v, 1); }
  static void i64(int64_t v) { raw(&v, 8); }
  static void f64(double v) { raw(&v, 8); }
  static void str(const std::string& s) { i64((int64_t)s.size()); raw(s.data(), s.size()); }
  static void disk(const std::vector<std::pair<std::string, char>>& d);
};
inline void ObsW::disk(const std::vector<std::pair<std::string, char>>& d) { u8(O_DISK); i64((int64_t)d.size()); for (auto& x : d) { str(x.first); u8((uint8_t)x.second); } }
struct ObsR {
  size_t pos = 0; bool bad = false;
  bool more() const { return !bad && pos < shm->obsLen; }
  void raw(void* p, size_t n) {
    if (bad || pos + n > shm->obsLen) { bad = true; memset(p, 0, n); return; }
    memcpy(p, shm->obs + pos, n); pos += n;
  }
  uint8_t u8() { uint8_t v; raw(&v, 1); return v; }
  int64_t i64() { int64_t v; raw(&v, 8); return v; }
  double f64() { double v; raw(&v, 8); return v; }
  std::string str() {
    int64_t n = i64(); if (bad || n < 0 || pos + (size_t)n > shm->obsLen) { bad = true; return ""; }
    std::string s((const char*)shm->obs + pos, (size_t)n); pos += (size_t)n; return s;
  }
};


}  // namespace sim
