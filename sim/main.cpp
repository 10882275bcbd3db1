// Entry points: search seeds, replay a plan file, minimise a failing plan.
#include "gen.h"
#include "model.h"
#include <chrono>
#include <csignal>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static double wall() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream b; b << f.rdbuf(); return b.str(); }
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p); f << s; }
static std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
  return o;
}
static std::string header(const Plan& p, const Viol& v, uint64_t hash) {
  std::ostringstream o; o << "# property " << p.prop << "\n# class " << v.cls << "\n# what: " << enc(v.msg) << "\n# trace " << hash << "\n";
  return o.str();
}

struct Stats {
  uint64_t plans = 0, execs = 0, steps = 0, lives = 0, events = 0, faultPlans = 0, crashes = 0, fired[F_NKINDS] = {}; double simSpan = 0; uint64_t clockReads = 0;
  std::unordered_set<uint64_t> hashes, states, nontrivial; std::map<std::string, uint64_t> cover, other; uint64_t recheck = 0, recheckBad = 0, overflow = 0, misplaced = 0;
};

static void account(Stats& S, const RunObs& R, const Judge& J, uint64_t h, const std::string& prop) {
  S.plans++; S.lives += R.lives.size(); S.events += R.events; S.simSpan += (double)R.clockSpan / 1e9; S.clockReads += R.clockReads;
  for (int i = 0; i < F_NKINDS; i++) S.fired[i] += R.fired[i];
  bool real = false; for (auto& L : R.lives) { S.steps += L.steps.size(); if (L.simCrash) S.crashes++; for (auto& s : L.steps) if (s.done && (s.res.ok || s.hasText)) real = true; }
  S.hashes.insert(h); if (real && R.events > 10) S.nontrivial.insert(h);
  for (auto& c : J.cover) S.cover[c.first] += c.second;
  for (uint64_t x : J.states) S.states.insert(x);
  if (R.overflow) S.overflow++;
  for (auto& v : J.all) { if (!v.tags.count(prop)) { std::string t; for (auto& x : v.tags) t += x + "+"; S.other[t + v.cls]++; } }
}

// re-executes; same class again and the same trace?
static bool sameAgain(const Plan& p, const std::string& cls, uint64_t hash) {
  uint64_t h = 0; Judge J = judge(p, nullptr, &h); const Viol* v = J.of(p.prop);
  if (h != hash || !v) return false;
  for (auto& x : J.all) if (x.tags.count(p.prop) && x.cls == cls) return true;
  return false;
}
static const Viol* ofCls(const Judge& J, const std::string& prop, const std::string& cls) {
  for (auto& x : J.all) if (x.tags.count(prop) && (cls.empty() || x.cls == cls)) return &x;
  return nullptr;
}

static volatile sig_atomic_t gStop = 0;
static void onTerm(int) { gStop = 1; }

static int worker(int argc, char** argv) {
  // worker prop tier firstSeed stride count outPrefix wallLimit [maxFail]
  std::string prop = argv[0]; bool th = std::string(argv[1]) == "thorough"; uint64_t first = strtoull(argv[2], 0, 10), stride = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
  std::string out = argv[5]; double limit = atof(argv[6]); int maxFail = argc > 7 ? atoi(argv[7]) : 6; double t0 = wall();
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTerm; sa.sa_flags = SA_RESTART; sigaction(SIGTERM, &sa, nullptr);
  Stats S; int fails = 0, nondet = 0; std::vector<std::string> failFiles, samples; uint64_t seedsDone = 0;
  std::map<std::string, int> clsSeen;
  for (uint64_t i = 0; i < count && !gStop && wall() - t0 < limit && fails < maxFail; i++) {
    uint64_t seed = first + i * stride; seedsDone++;
    Plan base = genBase(prop, seed, th);
    RunObs R0; uint64_t h = 0; Judge J = judge(base, &R0, &h, &S.execs); account(S, R0, J, h, prop);
    int variants = prop == "C14" ? 0 : (prop == "C12" || prop == "C03" || prop == "C15" ? 3 : 2);
    std::vector<Plan> ps; bool baseBad = J.of(prop) != nullptr; ps.push_back(base);
    auto report = [&](const Plan& p, const Judge& J, uint64_t h) {
      const Viol* v = J.of(prop); if (!v) return;
      if (clsSeen[v->cls]++ >= 3) return;
      Viol vv = *v;
      if (!sameAgain(p, vv.cls, h)) { nondet++; spit(out + ".nondet." + std::to_string(nondet), header(p, vv, h) + planToText(p)); return; }
      std::string f = out + ".fail." + std::to_string(fails++); spit(f, header(p, vv, h) + planToText(p)); failFiles.push_back(f);
    };
    if (baseBad) report(base, J, h);
    else for (int v = 0; v < variants; v++) {
      Plan q = base; if (!placeFaults(q, R0, seed * 31 + (uint64_t)v)) { S.misplaced++; break; }
      RunObs R; uint64_t hh = 0; Judge K = judge(q, &R, &hh, &S.execs); account(S, R, K, hh, prop); S.faultPlans++;
      if (K.of(prop)) { report(q, K, hh); break; }
      if (seed % 37 == 5) { uint64_t h2 = 0; judge(q, nullptr, &h2, &S.execs); S.recheck++; if (h2 != hh) { S.recheckBad++; spit(out + ".nondet.r" + std::to_string(S.recheckBad), planToText(q)); } }
      if (samples.size() < 2 && v == 0) samples.push_back(planToText(q));
    }
    if (seed % 37 == 5) { uint64_t h2 = 0; judge(base, nullptr, &h2, &S.execs); S.recheck++; if (h2 != h) { S.recheckBad++; spit(out + ".nondet.b" + std::to_string(S.recheckBad), planToText(base)); } }
    if (samples.empty()) samples.push_back(planToText(base));
  }
  std::ofstream o(out + ".json"); o << "{";
  o << "\"seeds\":" << seedsDone << ",\"plans\":" << S.plans << ",\"execs\":" << S.execs << ",\"steps\":" << S.steps << ",\"lives\":" << S.lives << ",\"events\":" << S.events << ",\"faultPlans\":" << S.faultPlans << ",\"crashes\":" << S.crashes
    << ",\"simSeconds\":" << (uint64_t)S.simSpan << ",\"clockReads\":" << S.clockReads << ",\"recheck\":" << S.recheck << ",\"recheckBad\":" << S.recheckBad << ",\"nondet\":" << nondet << ",\"overflow\":" << S.overflow << ",\"wall\":" << wall() - t0;
  o << ",\"fired\":{"; for (int i = 0; i < F_NKINDS; i++) o << (i ? "," : "") << "\"" << faultName[i] << "\":" << S.fired[i];
  o << "},\"cover\":{"; bool c = false; for (auto& x : S.cover) { o << (c ? "," : "") << "\"" << jesc(x.first) << "\":" << x.second; c = true; }
  o << "},\"other\":{"; c = false; for (auto& x : S.other) { o << (c ? "," : "") << "\"" << jesc(x.first) << "\":" << x.second; c = true; }
  o << "},\"fails\":["; for (size_t i = 0; i < failFiles.size(); i++) o << (i ? "," : "") << "\"" << jesc(failFiles[i]) << "\"";
  o << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
  o << "]}\n"; o.close();
  std::ofstream b(out + ".hashes", std::ios::binary);
  for (int k = 0; k < 3; k++) { auto& set = k == 0 ? S.hashes : k == 1 ? S.nontrivial : S.states; uint64_t n = set.size(); b.write((char*)&n, 8); for (uint64_t x : set) b.write((char*)&x, 8); }
  return 0;
}

static int replay(const char* file, bool verbose) {
  Plan p; std::string err; if (!planFromText(slurp(file), p, err)) { fprintf(stderr, "bad plan file: %s\n", err.c_str()); return 2; }
  uint64_t h = 0; RunObs R; Judge J = judge(p, &R, &h);
  printf("trace %llu\n", (unsigned long long)h);
  for (auto& v : J.all) { std::string t; for (auto& x : v.tags) t += (t.empty() ? "" : ",") + x; printf("%s [%s] %s: %s\n", v.tags.count(p.prop) ? "violates" : "other", t.c_str(), v.cls.c_str(), v.msg.c_str()); }
  if (verbose) for (auto& L : R.lives) { printf("-- lifetime %c from %d%s%s\n", L.driver, L.from, L.simCrash ? " (crashed by the plan)" : "", L.failed ? (" FAILED: " + L.how).c_str() : "");
    for (auto& s : L.steps) { printf("%3d %-8s %s", s.step, s.step < (int)p.steps.size() ? p.steps[s.step].op.c_str() : "end", s.hasText ? enc(s.text).substr(0, 200).c_str() : !s.res.has ? "" : s.res.ok ? "ok" : ("ERR " + s.res.kind + " " + s.res.msg).c_str());
      for (auto x : s.res.i) printf(" %lld", (long long)x); for (auto x : s.res.d) printf(" %.6g", x); printf("  {o%u r%u s%u w%u c%u a%u f%x}\n", s.cnt.opens, s.cnt.reads, s.cnt.seeks, s.cnt.writes, s.cnt.closes, s.cnt.allocs, s.fired); } }
  const Viol* v = J.of(p.prop);
  if (v) { printf("VIOL %s %s %s\n", p.prop.c_str(), v->cls.c_str(), v->msg.c_str()); return 1; }
  return 0;
}

// smaller plan with the same property and class violated
static int minimise(const char* in, const char* out, double limit) {
  Plan p; std::string err; if (!planFromText(slurp(in), p, err)) return 2;
  uint64_t h = 0; Judge J = judge(p, nullptr, &h); const Viol* v0 = J.of(p.prop); if (!v0) { fprintf(stderr, "does not fail\n"); return 3; }
  std::string cls = v0->cls; double t0 = wall(); int tries = 0;
  auto fails = [&](const Plan& q) { tries++; Judge K = judge(q); return ofCls(K, q.prop, cls) != nullptr; };
  auto timeUp = [&]() { return wall() - t0 > limit; };
  bool changed = true;
  while (changed && !timeUp()) {
    changed = false;
    for (size_t n = std::max<size_t>(1, p.steps.size() / 2); n >= 1 && !timeUp(); n /= 2)
      for (size_t i = 0; i + n <= p.steps.size() && !timeUp();) { Plan q = p; q.steps.erase(q.steps.begin() + (long)i, q.steps.begin() + (long)(i + n)); if (!q.steps.empty() && fails(q)) { p = q; changed = true; } else i++; }
    for (size_t i = 0; i < p.steps.size() && !timeUp(); i++) for (size_t f = 0; f < p.steps[i].faults.size();) { Plan q = p; q.steps[i].faults.erase(q.steps[i].faults.begin() + (long)f); if (fails(q)) { p = q; changed = true; } else f++; }
    for (int e = 0; e < 4 && !timeUp(); e++) { Plan q = p; if (e == 0) q.chunkSeed = 0; else if (e == 1) q.heapSeed = 0; else if (e == 2) { q.clockMode = 0; } else q.clockSeed = 0;
      if (planToText(q) != planToText(p) && fails(q)) { p = q; changed = true; } }
    for (size_t i = 0; i < p.steps.size() && !timeUp(); i++) {
      if (p.steps[i].op == "put") {   // fewer lines, fewer columns
        for (int pass = 0; pass < 60 && !timeUp(); pass++) {
          std::string b = p.steps[i].s2; size_t q = b.rfind('\n', b.size() > 1 ? b.size() - 2 : 0); if (q == std::string::npos || b.empty()) break;
          Plan t = p; t.steps[i].s2 = b.substr(0, q + 1); if (t.steps[i].s2 != b && fails(t)) { p = t; changed = true; } else break; }
        std::vector<std::string> L; std::istringstream in(p.steps[i].s2); std::string l; while (std::getline(in, l)) L.push_back(l);
        for (int pass = 0; pass < 60 && !timeUp(); pass++) {
          std::vector<std::string> M = L; bool any = false; for (auto& x : M) { size_t e = x.find_last_not_of(" "); if (e == std::string::npos) continue; size_t q = x.find_last_of(" ,;\t|:", e); if (q != std::string::npos && q > 0) { x = x.substr(0, q); any = true; } }
          if (!any) break; Plan t = p; t.steps[i].s2.clear(); for (auto& x : M) t.steps[i].s2 += x + "\n"; if (fails(t)) { p = t; L = M; changed = true; } else break; }
      }
      while (p.steps[i].op == "matchx" && p.steps[i].d.size() > 2 && !timeUp()) { Plan t = p; t.steps[i].d.pop_back(); if (fails(t)) { p = t; changed = true; } else break; }
    }
  }
  J = judge(p, nullptr, &h); const Viol* v = ofCls(J, p.prop, cls); if (!v) { fprintf(stderr, "minimised plan no longer fails\n"); return 3; }
  spit(out, header(p, *v, h) + planToText(p));
  fprintf(stderr, "minimised to %zu steps in %d executions\n", p.steps.size(), tries);
  return 0;
}

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC") && strcmp(argc > 1 ? argv[1] : "", "zygote")) { if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "zygote") return zygoteMain();
  initShm(-1); zygoteStart("/proc/self/exe");
  if (m == "worker" && argc >= 9) return worker(argc - 2, argv + 2);
  if (m == "replay" && argc >= 3) return replay(argv[2], argc > 3);
  if (m == "min" && argc >= 4) return minimise(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
  if (m == "gen" && argc >= 4) { Plan p = genBase(argv[2], strtoull(argv[3], 0, 10), argc > 4); if (argc > 5) { RunObs R; judge(p, &R); placeFaults(p, R, strtoull(argv[5], 0, 10)); } std::cout << planToText(p); return 0; }
  fprintf(stderr, "usage: %s worker|replay|min|gen ...\n", argv[0]); return 2;
}
