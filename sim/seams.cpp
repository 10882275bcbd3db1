// The seams: every libc / runtime entry point through which the code under test meets disk, clock and memory.
// All of them are decided by the plan (shared memory); nothing here reads a real clock or a real file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);

namespace sim {

Shm* shm = nullptr;
static bool stepActive = false;

int shmFd = -1;
void initShm(int fd) {
  if (fd < 0) { fd = memfd_create("onexsim", 0); if (fd < 0 || syscall(SYS_ftruncate, fd, (off_t)sizeof(Shm)) != 0) { perror("memfd"); _exit(3); } }
  shmFd = fd;
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  shm = (Shm*)p;
}

void ev(uint32_t kind, uint64_t a, uint64_t b) {
  shm->traceHash = mix64(shm->traceHash ^ mix64(((uint64_t)kind << 48) ^ (a * 0x9e3779b97f4a7c15ull) ^ mix64(b)));
  shm->events++;
}

void resetRun() {
  for (int i = 0; i < MAXFILES; i++) { shm->file[i].exists = 0; shm->file[i].isdir = 0; shm->file[i].size = 0; shm->file[i].name[0] = 0; }
  shm->quota = -1; shm->nfaults = 0; memset(&shm->cnt, 0, sizeof shm->cnt); shm->firedMask = 0;
  memset(shm->fired, 0, sizeof shm->fired);
  shm->curStep = -1; shm->inCall = 0; shm->crashed = 0; shm->traceHash = 1; shm->events = 0; shm->obsLen = 0; shm->openFds = 0;
  shm->clockReads = 0; shm->clockSpan = 0; shm->note[0] = 0; shm->callsLimit = 4000000;
  // the virtual disk always has one directory
  VFile* d = vfind("/sim/dir", true); d->isdir = 1; d->exists = 1;
}

VFile* vfind(const std::string& name, bool create) {
  VFile* freef = nullptr;
  for (int i = 0; i < MAXFILES; i++) {
    VFile* f = &shm->file[i];
    if (f->exists && name == f->name) return f;
    if (!f->exists && !freef) freef = f;
  }
  if (!create || !freef || name.size() >= MAXNAME) return nullptr;
  memcpy(freef->name, name.c_str(), name.size() + 1);
  freef->exists = 1; freef->isdir = 0; freef->size = 0;
  return freef;
}
void vput(const std::string& name, const std::string& bytes) {
  VFile* f = vfind(name, true); if (!f) return;
  f->size = (uint32_t)(bytes.size() < MAXFSZ ? bytes.size() : MAXFSZ); memcpy(f->data, bytes.data(), f->size);
}
bool vget(const std::string& name, std::string& out) {
  VFile* f = vfind(name); if (!f || f->isdir) return false;
  out.assign((const char*)f->data, f->size); return true;
}
void vdrop(const std::string& name) { VFile* f = vfind(name); if (f && !f->isdir) f->exists = 0; }

static uint64_t fileHash(const VFile& f) {
  uint64_t h = 0x9e3779b97f4a7c15ull + f.size; uint32_t i = 0;
  for (; i + 8 <= f.size; i += 8) { uint64_t w; memcpy(&w, f.data + i, 8); h = (h ^ w) * 0x2545f4914f6cdd1dull; h ^= h >> 29; }
  for (; i < f.size; i++) h = (h ^ f.data[i]) * 1099511628211ull;
  return h;
}
static void rememberDisk(int i) {
  VFile& f = shm->file[i]; auto& b = shm->before[i]; b.exists = f.exists; if (!f.exists) return;
  b.isdir = f.isdir; memcpy(b.name, f.name, MAXNAME); b.hash = f.isdir ? 0 : fileHash(f);
}
std::vector<std::pair<std::string, char>> diskDiff() {
  std::vector<std::pair<std::string, char>> d;
  for (int i = 0; i < MAXFILES; i++) if (shm->before[i].exists) {
    VFile* f = vfind(shm->before[i].name); if (!f || f->isdir != shm->before[i].isdir) d.push_back({ shm->before[i].name, 'g' });
    else if (!f->isdir && fileHash(*f) != shm->before[i].hash) d.push_back({ shm->before[i].name, 'c' });
  }
  for (int i = 0; i < MAXFILES; i++) if (shm->file[i].exists) {
    bool was = false; for (int j = 0; j < MAXFILES; j++) if (shm->before[j].exists && !strcmp(shm->before[j].name, shm->file[i].name)) was = true;
    if (!was) d.push_back({ shm->file[i].name, 'n' });
  }
  return d;
}

void beginStep(int step, uint64_t uid, const std::vector<Fault>& faults) {
  shm->curStep = step; memset(&shm->cnt, 0, sizeof shm->cnt); shm->firedMask = 0;
  shm->nfaults = 0;
  for (const Fault& f : faults) if (shm->nfaults < MAXFAULTS) shm->faults[shm->nfaults++] = f;
  shm->chunkRng = shm->chunkSeed ? mix64(shm->chunkSeed ^ mix64(uid)) : 0;
  shm->heapRng = mix64(shm->heapSeed ^ mix64(uid * 3 + 1));
  shm->clockRng = mix64(shm->clockSeed ^ mix64(uid * 5 + 2));
  for (int i = 0; i < MAXFILES; i++) rememberDisk(i);
  shm->stepOpen = 1;
  stepActive = true;
  ev(1, uid, 0);
}
void endStep() { stepActive = false; shm->nfaults = 0; shm->stepOpen = 0; }

void ObsW::raw(const void* p, size_t n) {
  if (shm->obsLen + n > OBSMAX) { _exit(44); }
  memcpy(shm->obs + shm->obsLen, p, n); shm->obsLen += n;
}

static void fire(int kind) { shm->firedMask |= 1u << kind; shm->fired[kind]++; ev(2, kind, shm->cnt.ios); }
static void die(int kind) { shm->fired[kind]++; ev(3, kind, shm->cnt.ios); shm->crashed = 1; _exit(42); }
static void budget() {
  if ((uint64_t)shm->cnt.ios + shm->cnt.allocs > shm->callsLimit) _exit(43);
}

// crash decision of the I/O call being made: -1 none, else mode
static int crashMode() {
  shm->cnt.ios++; budget();
  for (int i = 0; i < shm->nfaults; i++)
    if (shm->faults[i].kind == F_CRASH && shm->faults[i].n == shm->cnt.ios) return (int)shm->faults[i].a;
  return -1;
}
static Fault* hit(int kind, uint32_t n) {
  for (int i = 0; i < shm->nfaults; i++) if (shm->faults[i].kind == kind && shm->faults[i].n == n) return &shm->faults[i];
  return nullptr;
}
static Fault* hitFrom(int kind, uint32_t n) {
  for (int i = 0; i < shm->nfaults; i++) if (shm->faults[i].kind == kind && n >= shm->faults[i].n) return &shm->faults[i];
  return nullptr;
}
static uint64_t crnd() { shm->chunkRng += 0x9e3779b97f4a7c15ull; return mix64(shm->chunkRng); }

// ---------------------------------------------------------------- virtual descriptors
enum { FDBASE = 5000, NFD = 64 };
struct Ofd { bool used; int vf; uint64_t pos; bool rd, wr, app; };
static Ofd ofd[NFD];
static bool isSimFd(int fd) { return fd >= FDBASE && fd < FDBASE + NFD; }
static bool isSimPath(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }

static int vopen(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
  int cm = crashMode(); shm->cnt.opens++;
  if (cm == 0) die(F_CRASH);
  if (Fault* f = hit(F_OPEN, shm->cnt.opens)) { fire(F_OPEN); errno = (int)(f->a ? f->a : EACCES); ev(10, 0, 1); return -1; }
  VFile* v = vfind(path);
  if (!v) {
    if (!creat || strlen(path) <= 5 || strchr(path + 5, '/') == path + 5) { errno = ENOENT; ev(10, 0, 2); return -1; }
    // files may be created in /sim and /sim/.obs only; unknown directories do not exist
    const char* sl = strrchr(path, '/'); std::string dir(path, sl - path);
    if (dir != "/sim" && dir != "/sim/dir") { errno = ENOENT; ev(10, 0, 3); return -1; }
    v = vfind(path, true);
    if (!v) { errno = ENOSPC; return -1; }
  } else {
    if (excl && creat) { errno = EEXIST; return -1; }
    if (v->isdir && wr) { errno = EISDIR; return -1; }
    if (trunc && wr) v->size = 0;
  }
  int k = -1; for (int i = 0; i < NFD; i++) if (!ofd[i].used) { k = i; break; }
  if (k < 0) { errno = EMFILE; return -1; }
  ofd[k] = Ofd(); ofd[k].used = true; ofd[k].vf = (int)(v - shm->file); ofd[k].rd = rd; ofd[k].wr = wr; ofd[k].app = app;
  shm->openFds++;
  ev(10, k, v->size);
  if (cm > 0) die(F_CRASH);
  return FDBASE + k;
}
static ssize_t vread(int fd, void* buf, size_t n) {
  Ofd& o = ofd[fd - FDBASE]; if (!o.used || !o.rd) { errno = EBADF; return -1; }
  int cm = crashMode(); shm->cnt.reads++;
  if (cm == 0) die(F_CRASH);
  VFile* v = &shm->file[o.vf];
  if (v->isdir) { errno = EISDIR; return -1; }
  if (Fault* f = hit(F_EXT, shm->cnt.reads)) {
    fire(F_EXT);
    if (f->a >= 0) { if ((uint64_t)f->a < v->size) v->size = (uint32_t)f->a; }
    else { std::string add = "1 2 3\n"; for (char c : add) if (v->size < MAXFSZ) v->data[v->size++] = (uint8_t)c; }
    rememberDisk(o.vf);   // not a change made by the code under test
  }
  if (Fault* f = hit(F_READ, shm->cnt.reads)) { fire(F_READ); errno = (int)(f->a ? f->a : EIO); if (errno == EINTR) shm->fired[F_EINTR]++; ev(11, fd, 999); return -1; }
  if (Fault* f = hitFrom(F_READS, shm->cnt.reads)) { fire(F_READS); errno = (int)(f->a ? f->a : EIO); ev(11, fd, 998); return -1; }
  if (hit(F_EOFERR, shm->cnt.reads)) { fire(F_EOFERR); return 0; }
  if (stepActive && shm->chunkRng && n > 0) {
    uint64_t r = crnd();
    if (r % 8 < 5) {
      size_t lim = (r >> 8) % 3 == 0 ? 1 + (r >> 16) % 7 : 1 + (r >> 16) % 400;
      if (lim < n) { n = lim; shm->fired[F_SHORT]++; }
    }
  }
  size_t left = o.pos < v->size ? v->size - o.pos : 0; if (n > left) n = left;
  memcpy(buf, v->data + o.pos, n); o.pos += n;
  ev(11, fd, n);
  if (cm > 0) die(F_CRASH);
  return (ssize_t)n;
}
static ssize_t vwrite(int fd, const void* buf, size_t n) {
  Ofd& o = ofd[fd - FDBASE]; if (!o.used || !o.wr) { errno = EBADF; return -1; }
  int cm = crashMode(); shm->cnt.writes++;
  if (cm == 0) die(F_CRASH);
  VFile* v = &shm->file[o.vf];
  if (Fault* f = hit(F_WRITE, shm->cnt.writes)) { fire(F_WRITE); errno = (int)(f->a ? f->a : EIO); if (errno == EINTR) shm->fired[F_EINTR]++; ev(12, fd, 999); return -1; }
  bool full = false;
  if (Fault* f = hitFrom(F_WRITES, shm->cnt.writes)) {
    size_t part = shm->cnt.writes == f->n ? (size_t)f->a : 0;
    if (part == 0 || part >= n) { fire(F_WRITES); errno = ENOSPC; ev(12, fd, 998); return -1; }
    fire(F_WRITES); n = part; full = true;
  }
  if (shm->quota >= 0 && stepActive) {
    if (shm->quota == 0 && n > 0) { fire(F_QUOTA); errno = ENOSPC; ev(12, fd, 996); return -1; }
    if ((int64_t)n > shm->quota) { n = (size_t)shm->quota; fire(F_QUOTA); }
  }
  if (stepActive && shm->chunkRng && n > 0 && !full) {
    uint64_t r = crnd();
    if (r % 8 < 4) { size_t lim = 1 + (r >> 16) % 60; if (lim < n) { n = lim; shm->fired[F_SHORT]++; } }
  }
  if (cm == 2) n = n / 2;
  if (o.app) o.pos = v->size;
  if (o.pos + n > MAXFSZ) { errno = EFBIG; snprintf(shm->note, sizeof shm->note, "virtual file limit"); return -1; }
  if (o.pos > v->size) memset(v->data + v->size, 0, o.pos - v->size);
  memcpy(v->data + o.pos, buf, n); o.pos += n; if (o.pos > v->size) v->size = (uint32_t)o.pos;
  if (shm->quota >= 0 && stepActive) shm->quota -= (int64_t)n;
  uint64_t h = 0; for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + ((const uint8_t*)buf)[i];
  ev(12, n, h);
  if (cm > 0) die(F_CRASH);
  return (ssize_t)n;
}
static off_t vseek(int fd, off_t off, int wh) {
  Ofd& o = ofd[fd - FDBASE]; if (!o.used) { errno = EBADF; return -1; }
  int cm = crashMode(); shm->cnt.seeks++;
  if (cm == 0) die(F_CRASH);
  if (hit(F_SEEK, shm->cnt.seeks)) { fire(F_SEEK); errno = ESPIPE; return -1; }
  VFile* v = &shm->file[o.vf];
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o.pos : (int64_t)v->size;
  if (base + off < 0) { errno = EINVAL; return -1; }
  o.pos = (uint64_t)(base + off); ev(13, fd, o.pos);
  if (cm > 0) die(F_CRASH);
  return (off_t)o.pos;
}
static int vclose(int fd) {
  Ofd& o = ofd[fd - FDBASE]; if (!o.used) { errno = EBADF; return -1; }
  int cm = crashMode();
  if (cm == 0) die(F_CRASH);
  bool wr = o.wr; VFile* v = &shm->file[o.vf];
  o.used = false; shm->openFds--;
  ev(14, fd, 0);
  if (wr) {
    shm->cnt.closes++;
    if (Fault* f = hit(F_CLOSE, shm->cnt.closes)) {
      fire(F_CLOSE);
      uint32_t cut = (uint32_t)(f->a + 1); v->size = v->size > cut ? v->size - cut : 0;
      errno = EIO; return -1;
    }
  }
  if (cm > 0) die(F_CRASH);
  return 0;
}

// ---------------------------------------------------------------- stdio on top of the virtual disk
struct FMap { FILE* f; int fd; };
static FMap fmap[NFD];
static ssize_t ckRead(void* c, char* b, size_t n) { return vread((int)(intptr_t)c, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {   // like a file stream of the C library, which carries on after a short write
  size_t k = 0; while (k < n) { ssize_t r = vwrite((int)(intptr_t)c, b + k, n - k); if (r <= 0) break; k += (size_t)r; }
  return (ssize_t)k;
}
static int ckSeek(void* c, off64_t* off, int wh) { off_t r = vseek((int)(intptr_t)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ckClose(void* c) {
  int fd = (int)(intptr_t)c;
  for (auto& m : fmap) if (m.f && m.fd == fd) m.f = nullptr;
  return vclose(fd);
}
static void parseMode(const char* m, bool& rd, bool& wr, bool& creat, bool& trunc, bool& app, bool& excl) {
  bool plus = strchr(m, '+') != nullptr; rd = wr = creat = trunc = app = false; excl = strchr(m, 'x') != nullptr;
  if (m[0] == 'r') { rd = true; wr = plus; }
  else if (m[0] == 'w') { wr = true; rd = plus; creat = trunc = true; }
  else if (m[0] == 'a') { wr = true; rd = plus; creat = app = true; }
}
static FILE* wrapFd(int fd, const char* mode) {
  cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
  char m2[8]; int k = 0; for (const char* p = mode; *p && k < 6; p++) if (strchr("rwab+", *p)) m2[k++] = *p; m2[k] = 0;
  FILE* f = fopencookie((void*)(intptr_t)fd, m2, io);
  if (!f) { vclose(fd); return nullptr; }
  for (auto& m : fmap) if (!m.f) { m.f = f; m.fd = fd; break; }
  return f;
}
template <class T> static T realFn(const char* name) { return (T)dlsym(RTLD_NEXT, name); }

static bool simulated() { return shm && shm->inCall; }
// the simulator's own work inside a seam is not part of the simulated process
struct Out { uint8_t s; Out() : s(shm ? shm->inCall : 0) { if (shm) shm->inCall = 0; } ~Out() { if (shm) shm->inCall = s; } };

// ---------------------------------------------------------------- allocation
enum { LT = 1 << 17 };
struct Live { void* p; size_t n; };
static Live live[LT];
static uint64_t liveN, liveB;
void liveReset() { memset(live, 0, sizeof live); liveN = liveB = 0; }
void liveGet(uint64_t& n, uint64_t& b) { n = liveN; b = liveB; }
static size_t lh(void* p) { return (size_t)(mix64((uint64_t)p) & (LT - 1)); }
#define TOMB ((void*)1)
static void liveAdd(void* p, size_t n) {
  if (liveN > LT / 2) return;
  size_t i = lh(p); while (live[i].p && live[i].p != TOMB) i = (i + 1) & (LT - 1);
  live[i].p = p; live[i].n = n; liveN++; liveB += n;
}
static void liveDel(void* p) {
  size_t i = lh(p);
  while (live[i].p) { if (live[i].p == p) { live[i].p = TOMB; liveN--; liveB -= live[i].n; return; } i = (i + 1) & (LT - 1); }
}
// true: this allocation fails
static bool allocFails(size_t n) {
  shm->cnt.allocs++; budget();
  if (shm->nfaults) {
    for (int i = 0; i < shm->nfaults; i++) {
      Fault& f = shm->faults[i];
      if (f.kind == F_ACRASH && f.n == shm->cnt.allocs) die(F_ACRASH);
      if (f.kind == F_ALLOC && f.n == shm->cnt.allocs) { fire(F_ALLOC); return true; }
      if (f.kind == F_ALLOCS && shm->cnt.allocs >= f.n) { fire(F_ALLOCS); return true; }
    }
  }
  return n > (size_t)64 << 20 || liveB + n > (size_t)512 << 20;   // the simulated machine's memory
}
static void fillGarbage(void* p, size_t n) {
  if (n > (1u << 20)) n = 1u << 20;
  uint64_t& r = shm->heapRng; uint8_t* b = (uint8_t*)p;
  switch (shm->heapSeed % 6) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0xa5, n); break;
    case 3: { size_t i = 0; for (; i + 4 <= n; i += 4) { r += 0x9e3779b97f4a7c15ull; uint32_t v = (uint32_t)(mix64(r) % 6); memcpy(b + i, &v, 4); } for (; i < n; i++) b[i] = 1; break; }
    case 4: { size_t i = 0; for (; i + 8 <= n; i += 8) { r += 0x9e3779b97f4a7c15ull; double v = (double)(mix64(r) % 1000) / 997.0; memcpy(b + i, &v, 8); } for (; i < n; i++) b[i] = 0; break; }
    default: { size_t i = 0; for (; i + 8 <= n; i += 8) { r += 0x9e3779b97f4a7c15ull; uint64_t v = mix64(r); memcpy(b + i, &v, 8); } for (; i < n; i++) b[i] = 7; break; }
  }
  shm->fired[F_GARBAGE]++;
}
static void* simAlloc(size_t n) {
  if (simulated()) {
    if (allocFails(n)) return nullptr;
    void* p = __real_malloc(n ? n : 1); if (!p) return nullptr;
    fillGarbage(p, n); liveAdd(p, n); return p;
  }
  return __real_malloc(n ? n : 1);
}
static void simFree(void* p) { if (!p) return; if (liveN) liveDel(p); __real_free(p); }

}  // namespace sim

using namespace sim;

void* operator new(size_t n) { void* p = simAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = simAlloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simAlloc(n); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }

extern "C" {

void* __wrap_malloc(size_t n) { void* p = simAlloc(n); if (!p) errno = ENOMEM; return p; }
void __wrap_free(void* p) { simFree(p); }
void* __wrap_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return nullptr;
  void* p = simAlloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void* __wrap_realloc(void* q, size_t n) {
  if (!simulated()) { if (q && liveN) liveDel(q); return __real_realloc(q, n); }
  if (allocFails(n)) return nullptr;
  if (q) liveDel(q);
  void* p = __real_realloc(q, n); if (p) liveAdd(p, n); return p;
}

FILE* fopen(const char* path, const char* mode) {
  if (isSimPath(path)) {
    Out o; bool rd, wr, creat, trunc, app, excl; parseMode(mode, rd, wr, creat, trunc, app, excl);
    int fd = vopen(path, rd, wr, creat, trunc, app, excl); if (fd < 0) return nullptr;
    return wrapFd(fd, mode);
  }
  if (simulated()) { errno = ENOENT; return nullptr; }   // nothing outside the virtual disk exists
  return realFn<FILE* (*)(const char*, const char*)>("fopen")(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) {
  if (isSimFd(fd)) { Out o; return wrapFd(fd, mode); }
  return realFn<FILE* (*)(int, const char*)>("fdopen")(fd, mode);
}
int fileno(FILE* f) {
  for (auto& m : fmap) if (m.f == f) return m.fd;
  return realFn<int (*)(FILE*)>("fileno")(f);
}
static int openFlags(const char* path, int fl) {
  int acc = fl & O_ACCMODE;
  return vopen(path, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
}
int open(const char* path, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (isSimPath(path)) { Out o; return openFlags(path, fl); }
  if (simulated()) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, path, fl, m);
}
int open64(const char* path, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(path, fl, m);
}
int openat(int d, const char* path, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (isSimPath(path)) { Out o; return openFlags(path, fl); }
  if (simulated()) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_openat, d, path, fl, m);
}
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) { if (isSimFd(fd)) return vread(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (isSimFd(fd)) return vwrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!isSimFd(fd)) return syscall(SYS_writev, fd, v, c);
  Out o; std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return vwrite(fd, all.data(), all.size());
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!isSimFd(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return vread(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!isSimFd(fd)) return syscall(SYS_pread64, fd, b, n, o);
  uint64_t p = ofd[fd - FDBASE].pos; ofd[fd - FDBASE].pos = o; ssize_t r = vread(fd, b, n); ofd[fd - FDBASE].pos = p; return r;
}
off_t lseek(int fd, off_t o, int w) { if (isSimFd(fd)) return vseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) { if (isSimFd(fd)) return vclose(fd); return (int)syscall(SYS_close, fd); }
int fsync(int fd) { if (isSimFd(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) {
  if (!isSimFd(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  VFile* v = &shm->file[ofd[fd - FDBASE].vf]; if ((uint64_t)n > MAXFSZ) { errno = EFBIG; return -1; }
  if ((uint64_t)n > v->size) memset(v->data + v->size, 0, n - v->size); v->size = (uint32_t)n; return 0;
}
static void fillStat(struct stat* st, VFile* v) {
  memset(st, 0, sizeof *st); st->st_mode = v->isdir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = v->size; st->st_nlink = 1; st->st_blksize = 4096;
}
int fstat(int fd, struct stat* st) {
  if (isSimFd(fd)) { fillStat(st, &shm->file[ofd[fd - FDBASE].vf]); return 0; }
  return realFn<int (*)(int, struct stat*)>("fstat")(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) {
  if (isSimPath(p)) { Out o; VFile* v = vfind(p); if (!v) { errno = ENOENT; return -1; } fillStat(st, v); return 0; }
  if (simulated()) { errno = ENOENT; return -1; }
  return realFn<int (*)(const char*, struct stat*)>("stat")(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { return stat(p, st); }
int lstat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int access(const char* p, int m) {
  if (isSimPath(p)) { Out o; if (!vfind(p)) { errno = ENOENT; return -1; } return 0; }
  if (simulated()) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_access, p, m);
}
int unlink(const char* p) {
  if (isSimPath(p)) {
    Out o; int cm = crashMode(); if (cm == 0) die(F_CRASH);
    VFile* v = vfind(p); if (!v || v->isdir) { errno = ENOENT; return -1; } v->exists = 0;
    if (cm > 0) die(F_CRASH); return 0;
  }
  if (simulated()) { errno = EACCES; return -1; }
  return (int)syscall(SYS_unlink, p);
}
int remove(const char* p) {
  if (isSimPath(p) || simulated()) return unlink(p);
  return realFn<int (*)(const char*)>("remove")(p);
}
int rename(const char* a, const char* b) {
  if (isSimPath(a) && isSimPath(b)) {
    Out o; int cm = crashMode(); if (cm == 0) die(F_CRASH);
    VFile* v = vfind(a); if (!v) { errno = ENOENT; return -1; }
    VFile* w = vfind(b); if (w && w->isdir) { errno = EISDIR; return -1; }
    if (w && w != v) w->exists = 0;
    strncpy(v->name, b, MAXNAME - 1);
    if (cm > 0) die(F_CRASH); return 0;
  }
  if (simulated()) { errno = EACCES; return -1; }
  return realFn<int (*)(const char*, const char*)>("rename")(a, b);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* p = va_arg(ap, void*); va_end(ap);
  if (isSimFd(fd)) { errno = ENOTTY; return -1; }
  return (int)syscall(SYS_ioctl, fd, req, p);
}
int poll(struct pollfd* f, nfds_t n, int t) {
  for (nfds_t i = 0; i < n; i++) if (isSimFd(f[i].fd)) { f[i].revents = f[i].events; return (int)n; }
  return (int)syscall(SYS_poll, f, n, t);
}

// ---------------------------------------------------------------- clock
static int64_t monoNs;
static int64_t simNow() {
  shm->clockReads++; shm->fired[F_CLOCK]++;
  uint64_t r = mix64(shm->clockRng += 0x9e3779b97f4a7c15ull); int64_t d = 1000000;
  const int64_t S = 1000000000;
  switch (shm->clockMode) {
    case 0: d = 1000000; break;
    case 1: d = 11 * S; break;                                     // every reading is past the logging period
    case 2: d = (int64_t)(r % 7200) * S - 3600 * S; break;         // jumps of up to an hour either way
    case 3: d = 0; break;                                          // stuck clock
    case 4: d = -S; break;                                         // runs backwards
    case 5: d = (r % 4 == 0) ? 100ll * 365 * 86400 * S : (r % 4 == 1) ? -100ll * 365 * 86400 * S : 10 * S; break;
    default: d = (int64_t)(r % (20 * S)); break;
  }
  int64_t v = shm->nowNs + d;
  if (v < 0) v = 0; if (v > 8000000000ll * S) v = 8000000000ll * S;
  shm->clockSpan += v > shm->nowNs ? v - shm->nowNs : shm->nowNs - v;
  monoNs += d > 0 ? d : 1; shm->nowNs = v;
  ev(20, 0, (uint64_t)v);
  return v;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!simulated()) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t v = simNow(); if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) v = monoNs;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  if (!simulated()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  int64_t v = simNow(); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t time(time_t* p) {
  int64_t v;
  if (!simulated()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else v = simNow() / 1000000000;
  if (p) *p = v; return v;
}
clock_t clock() {
  if (!simulated()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
  simNow(); return monoNs / 1000;
}
int nanosleep(const struct timespec* a, struct timespec*) {
  if (!simulated()) return (int)syscall(SYS_nanosleep, a, nullptr);
  shm->nowNs += a->tv_sec * 1000000000ll + a->tv_nsec; monoNs += a->tv_sec * 1000000000ll + a->tv_nsec; return 0;
}
int usleep(useconds_t u) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t = { (time_t)s, 0 }; nanosleep(&t, nullptr); return 0; }

const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=0:handle_sigfpe=1:handle_segv=1:"
         "handle_abort=0:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_fill=0:max_malloc_fill_size=0:print_legend=0:"
         "log_path=/dev/null:detect_odr_violation=0";
}
}
