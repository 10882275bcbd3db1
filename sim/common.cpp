// Steps carried out by the scheduler itself: the state of the disk between operations.
#include "drivers.h"
#include <cstdlib>
namespace sim {

bool isDiskStep(const std::string& op) { return op == "put" || op == "mod" || op == "drop" || op == "quota" || op == "nop" || op == "copy"; }

static std::vector<std::pair<size_t, size_t>> toks(const std::string& b) {
  std::vector<std::pair<size_t, size_t>> v; size_t i = 0;
  while (i < b.size()) {
    while (i < b.size() && (b[i] == ' ' || b[i] == '\n')) i++;
    size_t j = i; while (j < b.size() && b[j] != ' ' && b[j] != '\n') j++;
    if (j > i) v.push_back(std::make_pair(i, j - i)); i = j;
  }
  return v;
}

// edits that keep the line structure of a group file: header (3 lines), then per length a count and two lines per group
static std::vector<std::string> linesOf(const std::string& b) {
  std::vector<std::string> L; size_t p = 0; while (p < b.size()) { size_t q = b.find('\n', p); if (q == std::string::npos) q = b.size() - 1; L.push_back(b.substr(p, q - p + 1)); p = q + 1; } return L;
}
static void structural(std::string& b, uint64_t k, int how) {
  std::vector<std::string> L = linesOf(b); std::vector<size_t> cnt; std::vector<long> num;   // the count lines and what they say
  for (size_t i = 3; i < L.size();) { long n = strtol(L[i].c_str(), nullptr, 10); if (n < 0 || n > 100000) break; cnt.push_back(i); num.push_back(n); i += 1 + 2 * (size_t)n; }
  if (cnt.empty() || (cnt.back() + 2 * (size_t)num.back()) >= L.size()) return;
  size_t q = k % cnt.size(), at = cnt[q]; long n = num[q]; if (n < 1) return;
  size_t g = at + 1 + 2 * ((k / 7) % (size_t)n), m = g + 1; std::string rep = L[g];
  auto setN = [&](long v) { L[at] = std::to_string(v) + "\n"; };
  switch (how) {
    case 0: setN(n + 1); L.insert(L.begin() + g, rep); L.insert(L.begin() + g + 1, "0 \n"); break;      // a group without members
    case 1: { std::string mem = L[m]; setN(n + 1); L.insert(L.begin() + g, mem); L.insert(L.begin() + g, rep); break; }
    case 2: setN(n - 1); L.erase(L.begin() + g, L.begin() + g + 2); break;
    case 3: case 4: {                                                                                     // one member lost / twice
      auto t = toks(L[m]); if (t.size() < 3) return; long c = (long)(t.size() - 1) / 2; size_t x = (k / 131) % (size_t)c; std::string pair = L[m].substr(t[1 + 2 * x].first, t[2 + 2 * x].first + t[2 + 2 * x].second - t[1 + 2 * x].first) + " ";
      std::string o = std::to_string(how == 3 ? c - 1 : c + 1) + " "; for (long y = 0; y < c; y++) { if (how == 3 && y == (long)x) continue; o += L[m].substr(t[1 + 2 * y].first, t[1 + 2 * y].second) + " " + L[m].substr(t[2 + 2 * y].first, t[2 + 2 * y].second) + " "; } if (how == 4) o += pair;
      L[m] = o + "\n"; break; }
    case 5: L.erase(L.begin() + at, L.begin() + at + 1 + 2 * n); break;
    case 6: { std::vector<std::string> B(L.begin() + at, L.begin() + at + 1 + 2 * n); L.insert(L.begin() + at, B.begin(), B.end()); break; }
    case 7: for (auto& l : L) if (l.back() == '\n') l.insert(l.size() - 1, "\r"); break;
    case 8: if (q + 1 < cnt.size()) { std::vector<std::string> A(L.begin() + at, L.begin() + cnt[q + 1]); size_t e = cnt[q + 1] + 1 + 2 * (size_t)num[q + 1]; std::vector<std::string> B(L.begin() + cnt[q + 1], L.begin() + e); B.insert(B.end(), A.begin(), A.end()); std::copy(B.begin(), B.end(), L.begin() + at); } break;   // two lengths exchanged
    case 9: { if (n < 2) return; size_t h = at + 1 + 2 * ((k / 131) % (size_t)n); std::swap(L[m], L[h + 1]); std::swap(L[g], L[h]); break; }   // groups in another order
    case 10: L[2] = "dtw\n"; break;
    default: { std::string h = L[0]; L[0] = L[1]; L[1] = h; break; }
  }
  b.clear(); for (auto& l : L) b += l;
}

void scheduler(const Step& s) {
  ev(30, s.uid, 0);
  if (s.op == "put") vput(s.s, s.s2);
  else if (s.op == "drop") vdrop(s.s);
  else if (s.op == "quota") shm->quota = s.a[0];
  else if (s.op == "copy") { std::string b; if (vget(s.s, b)) vput(s.s2, b); }
  else if (s.op == "mod") {
    std::string b; if (!vget(s.s, b) || b.empty()) return;
    size_t n = b.size(), k = (size_t)s.a[1];
    switch (s.a[0]) {
      case 0: b.resize(k % (n + 1)); break;                                     // lost tail
      case 1: for (size_t i = k % n; i < n; i++) b[i] = 0; break;               // tail never reached the disk
      case 2: b[k % n] = (char)s.a[2]; break;                                   // damaged byte
      case 3: b += s.s2; break;
      case 4: { auto t = toks(b); if (!t.empty()) { auto x = t[k % t.size()]; b.replace(x.first, x.second, s.s2); } break; }
      case 5: case 6: {                                                         // line lost / doubled
        std::vector<std::string> L; size_t p = 0; while (p < n) { size_t q = b.find('\n', p); if (q == std::string::npos) q = n - 1; L.push_back(b.substr(p, q - p + 1)); p = q + 1; }
        size_t i = k % L.size(); if (s.a[0] == 5) L.erase(L.begin() + i); else L.insert(L.begin() + i, L[i]);
        b.clear(); for (auto& l : L) b += l; break; }
      case 7: { auto t = toks(b); if (t.size() > 1) { auto x = t[k % t.size()], y = t[(size_t)s.a[2] % t.size()]; if (x.first > y.first) std::swap(x, y); if (x.first != y.first) { std::string tx = b.substr(x.first, x.second), ty = b.substr(y.first, y.second); b.replace(y.first, y.second, tx); b.replace(x.first, x.second, ty); } } break; }
      case 8: structural(b, (uint64_t)k, (int)s.a[2]); break;
    }
    shm->fired[F_DAMAGE]++;
    vput(s.s, b);
  }
}

void logFile(const std::string& path) {
  std::string b; bool ex = vget(path, b);
  ObsW::u8(O_FILE); ObsW::str(path); ObsW::u8(ex); ObsW::str(b);
}

// leave deterministic stale contents on the stack below the caller
__attribute__((noinline, no_sanitize("address"))) void paintStack() {
  volatile unsigned char buf[24 * 1024]; uint64_t r = shm->heapSeed;
  switch (shm->heapSeed % 6) {
    case 0: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0; break;
    case 1: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0xff; break;
    case 2: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0xa5; break;
    case 3: for (size_t i = 0; i < sizeof buf; i++) buf[i] = (i % 4 == 0) ? 1 + (i / 4) % 3 : 0; break;
    default: for (size_t i = 0; i < sizeof buf; i++) { if (i % 8 == 0) r = mix64(r); buf[i] = (unsigned char)(r >> (8 * (i % 8))); } break;
  }
}

}  // namespace sim
