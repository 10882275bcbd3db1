#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {

const char* const faultName[F_NKINDS] = {
  "open", "read", "reads", "seek", "write", "writes", "close", "alloc", "allocs", "crash", "acrash",
  "ext", "eoferr", "short", "eintr", "quota", "damage", "clock", "garbage", "eofterm" };

std::string enc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c <= ' ' || c >= 127 || c == '%' || c == '|' || c == '=') { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
std::string dec(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else o += s[i];
  }
  return o;
}

int nextLife(const Plan& p, int i) {
  for (size_t k = (size_t)(i < 0 ? 0 : i); k < p.steps.size(); k++) if (p.steps[k].op == "restart") return (int)k + 1;
  return -1;
}

std::string planToText(const Plan& p) {
  std::ostringstream o;
  o << "plan prop=" << p.prop << " seed=" << p.seed << " driver=" << p.driver << " chunk=" << p.chunkSeed
    << " heap=" << p.heapSeed << " clock=" << p.clockSeed << " cmode=" << p.clockMode
    << " snap=" << p.snapEvery << " cycles=" << p.cycles << "\n";
  for (const Step& s : p.steps) {
    o << s.op << " u=" << s.uid;
    for (int i = 0; i < 6; i++) if (s.a[i]) o << " a" << i << "=" << s.a[i];
    if (!s.s.empty()) o << " s=" << enc(s.s);
    if (!s.s2.empty()) o << " t=" << enc(s.s2);
    if (!s.d.empty()) { o << " d="; char b[40]; for (size_t i = 0; i < s.d.size(); i++) { snprintf(b, sizeof b, "%s%.17g", i ? "," : "", s.d[i]); o << b; } }
    for (const Fault& f : s.faults) o << " |" << faultName[f.kind] << ":" << f.n << ":" << f.a;
    o << "\n";
  }
  return o.str();
}

bool planFromText(const std::string& t, Plan& p, std::string& err) {
  p = Plan(); p.steps.clear();
  std::istringstream in(t); std::string line; bool head = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line); std::string w; ls >> w;
    Step s; s.op = w; bool isHead = (w == "plan");
    while (ls >> w) {
      if (w[0] == '|') {
        size_t c1 = w.find(':'), c2 = w.find(':', c1 + 1);
        if (c1 == std::string::npos || c2 == std::string::npos) { err = "bad fault " + w; return false; }
        std::string k = w.substr(1, c1 - 1); Fault f; f.kind = -1;
        for (int i = 0; i < F_NKINDS; i++) if (k == faultName[i]) f.kind = i;
        if (f.kind < 0) { err = "unknown fault " + k; return false; }
        f.n = (uint32_t)strtoul(w.substr(c1 + 1, c2 - c1 - 1).c_str(), 0, 10);
        f.a = strtoll(w.substr(c2 + 1).c_str(), 0, 10);
        s.faults.push_back(f); continue;
      }
      size_t e = w.find('='); if (e == std::string::npos) { err = "bad word " + w; return false; }
      std::string k = w.substr(0, e), v = w.substr(e + 1);
      if (isHead) {
        if (k == "prop") p.prop = v; else if (k == "seed") p.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "driver") p.driver = v; else if (k == "chunk") p.chunkSeed = strtoull(v.c_str(), 0, 10);
        else if (k == "heap") p.heapSeed = strtoull(v.c_str(), 0, 10); else if (k == "clock") p.clockSeed = strtoull(v.c_str(), 0, 10);
        else if (k == "cmode") p.clockMode = atoi(v.c_str()); else if (k == "snap") p.snapEvery = atoi(v.c_str());
        else if (k == "cycles") p.cycles = atoi(v.c_str());
        continue;
      }
      if (k == "u") s.uid = strtoull(v.c_str(), 0, 10);
      else if (k.size() == 2 && k[0] == 'a') s.a[k[1] - '0'] = strtoll(v.c_str(), 0, 10);
      else if (k == "s") s.s = dec(v);
      else if (k == "t") s.s2 = dec(v);
      else if (k == "d") { std::istringstream ds(v); std::string x; while (std::getline(ds, x, ',')) s.d.push_back(strtod(x.c_str(), 0)); }
    }
    if (isHead) head = true; else p.steps.push_back(s);
  }
  if (!head) { err = "no plan header"; return false; }
  return true;
}

}  // namespace sim
