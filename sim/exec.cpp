// Runs a plan: one child process per simulated process lifetime over one shared virtual disk.
#include "exec.h"
#include "drivers.h"
#include <cstdio>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static bool bitEq(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false;
  return true;
}
bool DsSnap::operator==(const DsSnap& o) const {
  return id == o.id && name == o.name && loaded == o.loaded && norm == o.norm && grouped == o.grouped && rows == o.rows && cols == o.cols && valsOk == o.valsOk && bitEq(v, o.v) && groups == o.groups;
}

static Snap readSnap(ObsR& r) {
  Snap s; s.present = true; s.n = r.i64(); s.count = r.i64();
  for (int64_t k = 0; k < s.n && !r.bad; k++) {
    DsSnap d; d.id = (int)r.i64(); d.name = r.str(); d.loaded = r.u8(); d.norm = r.u8(); d.grouped = r.u8(); d.rows = (int)r.i64(); d.cols = (int)r.i64();
    d.valsOk = r.u8(); int64_t n = r.i64(); for (int64_t i = 0; i < n && !r.bad; i++) d.v.push_back(r.f64()); d.groups = r.str();
    s.ds.push_back(d);
  }
  return s;
}

static void parseObs(Life& L, RunObs& R) {
  ObsR r; StepObs* cur = nullptr; int lifeNo = (int)R.lives.size();
  while (r.more()) {
    uint8_t k = r.u8();
    switch (k) {
      case O_STEP: { StepObs o; o.step = (int)r.i64(); o.life = lifeNo; o.begun = true; L.steps.push_back(o); cur = &L.steps.back(); break; }
      case O_FILE: { FileObs f; f.path = r.str(); f.exists = r.u8(); f.bytes = r.str(); if (cur) cur->files.push_back(f); break; }
      case O_RES: {
        Result x; x.has = true; x.ok = r.u8(); x.kind = r.str(); x.msg = r.str(); int64_t n = r.i64(); for (int64_t i = 0; i < n && !r.bad; i++) x.i.push_back(r.i64());
        n = r.i64(); for (int64_t i = 0; i < n && !r.bad; i++) x.d.push_back(r.f64());
        if (cur) { cur->res = x; cur->done = true; } break; }
      case O_COUNTS: {
        Counts c; c.opens = (uint32_t)r.i64(); c.reads = (uint32_t)r.i64(); c.seeks = (uint32_t)r.i64(); c.writes = (uint32_t)r.i64(); c.closes = (uint32_t)r.i64(); c.ios = (uint32_t)r.i64(); c.allocs = (uint32_t)r.i64();
        uint32_t f = (uint32_t)r.i64(); if (cur) { cur->cnt = c; cur->hasCounts = true; cur->fired = f; } break; }
      case O_DISK: { int64_t n = r.i64(); for (int64_t i = 0; i < n && !r.bad; i++) { std::string f = r.str(); char c = (char)r.u8(); if (cur) cur->disk.push_back({ f, c }); } break; }
      case O_SNAP: { Snap s = readSnap(r); if (cur) cur->snap = s; break; }
      case O_TEXT: { std::string t = r.str(); int e = r.u8(); int64_t c = r.i64(); if (e == 2) { L.finalText = 1; L.finalCode = c; } else if (cur) { cur->hasText = true; cur->text = t; cur->ended = e; cur->code = c; cur->done = true; } break; }
      case O_LIVE: { LiveObs l; l.cycle = r.i64(); l.n = r.i64(); l.bytes = r.i64(); l.fds = r.i64(); R.live.push_back(l); break; }
      case O_TS: {
        int64_t n = r.i64(); std::vector<TsObj> v;
        for (int64_t i = 0; i < n && !r.bad; i++) { TsObj t; t.present = r.u8(); if (t.present) { t.index = r.i64(); t.start = r.i64(); t.end = r.i64(); t.length = r.i64(); t.dead = r.u8(); if (!t.dead) for (int64_t j = 0; j < t.length && !r.bad; j++) t.v.push_back(r.f64()); } v.push_back(t); }
        std::vector<double> b; for (int i = 0; i < 72; i++) b.push_back(r.f64());
        if (cur) { cur->hasTs = true; cur->ts = v; cur->bufs = b; } break; }
      case O_LIFE_END: L.clean = true; break;
      default: r.bad = true;
    }
  }
}

// Every simulated lifetime is forked from one pristine process (the zygote: same program, same arguments, same environment,
// no address randomisation, an empty heap), so its memory layout depends on nothing but the plan, whoever asks for it:
// a worker after a thousand histories, the minimiser, or a replay.
enum { ZSHM = 700, ZREQ = 701, ZREP = 702 };
static int zReq = -1, zRep = -1;
struct ZMsg { int from; int driver; };
int zygoteMain() {
  initShm(ZSHM);
  rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  int nul = ::open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2); if (nul > 2) ::close(nul);
  signal(SIGTERM, SIG_IGN);
  ZMsg m; while (read(ZREQ, &m, sizeof m) == (ssize_t)sizeof m) {
    pid_t pid = fork();
    if (pid == 0) {
      ::close(ZREQ); ::close(ZREP); signal(SIGTERM, SIG_DFL);
      rl.rlim_cur = 12; rl.rlim_max = 14; setrlimit(RLIMIT_CPU, &rl);
      Plan p; std::string err; if (!planFromText(std::string(shm->plan, shm->planLen), p, err)) _exit(45);
      int from = m.from; char driver = (char)m.driver;
      if (driver == 'A') runApi(p, from); else if (driver == 'C') runCli(p, from); else if (driver == 'T') runValues(p, from); else runObjects(p, from);
      _exit(0);
    }
    int st = 45 << 8; if (pid > 0) while (waitpid(pid, &st, 0) < 0) {}
    if (write(ZREP, &st, sizeof st) != (ssize_t)sizeof st) break;
  }
  _exit(0);
}
void zygoteStart(const char* self) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
  pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    dup2(shmFd, ZSHM); dup2(a[0], ZREQ); dup2(b[1], ZREP); for (int fd = 3; fd < 64; fd++) ::close(fd);
    setpgid(0, 0);
    char n0[] = "onexsim", n1[] = "zygote", e0[] = "LC_ALL=C", e1[] = "SIM_STDERR=1"; char* av[] = { n0, n1, nullptr }; char* en[] = { e0, getenv("SIM_STDERR") ? e1 : nullptr, nullptr };
    execve(self, av, en); perror("execve"); _exit(3);
  }
  ::close(a[0]); ::close(b[1]); zReq = a[1]; zRep = b[0]; fcntl(zReq, F_SETFD, FD_CLOEXEC); fcntl(zRep, F_SETFD, FD_CLOEXEC);
}
static int zygoteRun(int from, char driver) {
  ZMsg m = { from, driver }; int st = 0;
  if (write(zReq, &m, sizeof m) != (ssize_t)sizeof m) { fprintf(stderr, "zygote gone\n"); exit(3); }
  ssize_t n; char* q = (char*)&st; size_t k = 0; while (k < sizeof st) { n = read(zRep, q + k, sizeof st - k); if (n < 0 && errno == EINTR) continue; if (n <= 0) { fprintf(stderr, "zygote gone\n"); exit(3); } k += (size_t)n; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 45) { fprintf(stderr, "zygote cannot run the plan\n"); exit(3); }
  return st;
}

RunObs execPlan(const Plan& p) {
  RunObs R; resetRun();
  { std::string t = planToText(p); if (t.size() > PLANMAX) { fprintf(stderr, "plan too large\n"); exit(3); } memcpy(shm->plan, t.data(), t.size()); shm->planLen = t.size(); }
  shm->chunkSeed = p.chunkSeed; shm->heapSeed = p.heapSeed; shm->clockSeed = p.clockSeed; shm->clockMode = p.clockMode;
  shm->nowNs = 1000000000ll * (int64_t)(1500000000 + p.clockSeed % 1000);
  int from = 0; char driver = p.driver.empty() ? 'D' : p.driver[0];
  while (from >= 0 && R.lives.size() < 40) {
    Life L; L.driver = driver; L.from = from;
    shm->obsLen = 0; shm->curStep = from; shm->inCall = 0; shm->nfaults = 0; shm->openFds = 0; shm->crashed = 0; shm->stepOpen = 0;
    int st = zygoteRun(from, driver);
    uint8_t wasIn = shm->inCall; (void)wasIn; shm->inCall = 0;   // the rest runs outside the simulated process
    parseObs(L, R);
    if (shm->stepOpen && !L.steps.empty() && L.steps.back().disk.empty()) L.steps.back().disk = diskDiff();   // the process ended inside the step
    shm->stepOpen = 0;
    L.last = shm->curStep;
    if (WIFEXITED(st)) {
      int c = WEXITSTATUS(st);
      if (c == 42) L.simCrash = true;
      else if (c == 43) { L.failed = true; L.how = "does not terminate (call budget exceeded)"; }
      else if (c == 44) { R.overflow = true; }
      else if (c == 99) { L.failed = true; L.how = "invalid memory access or other fatal error (AddressSanitizer)"; }
      else if (c != 0) { L.failed = true; L.how = "process ended with status " + std::to_string(c); }
      else if (driver == 'C') L.clean = true;
    } else if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st); L.failed = true;
      L.how = s == SIGXCPU || s == SIGKILL ? "does not terminate (CPU limit)" : std::string("killed by signal ") + std::to_string(s);
    }
    ev(40, (uint64_t)(WIFEXITED(st) ? WEXITSTATUS(st) : 200), (uint64_t)L.last);
    { uint64_t h = 1; for (size_t i = 0; i < shm->obsLen; i++) h = (h ^ shm->obs[i]) * 1099511628211ull; ev(41, h, shm->obsLen); }
    bool stop = L.failed;
    R.lives.push_back(L);
    if (stop || R.overflow) break;
    int nx = nextLife(p, L.simCrash || driver == 'C' ? L.last : L.last);
    if (p.cycles) break;
    if (nx < 0 || nx > (int)p.steps.size()) break;
    const Step& rs = p.steps[(size_t)nx - 1];
    driver = rs.s.empty() ? driver : rs.s[0];
    from = nx;
    if (from >= (int)p.steps.size()) break;
  }
  R.hash = shm->traceHash; R.events = shm->events; memcpy(R.fired, shm->fired, sizeof R.fired); R.clockSpan = shm->clockSpan; R.clockReads = shm->clockReads;
  return R;
}

}  // namespace sim
