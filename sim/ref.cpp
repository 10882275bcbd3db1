#include "ref.h"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <limits>
#include <map>
#include <sstream>

namespace ref {

static const double INF = std::numeric_limits<double>::infinity();

// ------------------------------------------------------------------ tables
// 0 not a number, 1 number, 2 out of range, 3 unclear (prefix of a number, nan, hex, subnormal ...)
static int number(const std::string& t, double& v) {
  size_t i = 0, n = t.size(); bool dig = false;
  if (i < n && (t[i] == '+' || t[i] == '-')) i++;
  size_t d0 = i;
  while (i < n && isdigit((unsigned char)t[i])) { i++; dig = true; }
  if (i < n && t[i] == '.') { i++; while (i < n && isdigit((unsigned char)t[i])) { i++; dig = true; } }
  (void)d0;
  if (dig) {
    size_t e = i;
    if (e < n && (t[e] == 'e' || t[e] == 'E')) {
      e++; if (e < n && (t[e] == '+' || t[e] == '-')) e++;
      size_t f = e; while (e < n && isdigit((unsigned char)t[e])) e++;
      if (e > f) i = e;
    }
  }
  if (dig && i == n) {
    errno = 0; v = strtod(t.c_str(), nullptr);
    if (std::isinf(v)) return 2;
    if (v != 0 && std::fabs(v) < 2.3e-308) return 3;
    if (v == 0) { // an underflowed non-zero literal
      for (char c : t) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return 3; }
    }
    return 1;
  }
  // does any prefix look like a number to a lenient reader?
  char* end = nullptr; v = strtod(t.c_str(), &end);
  if (end == t.c_str()) return 0;
  for (; *end; end++) if (!strchr(" \t\v\f\r\n", *end)) return 0;   // text after a number
  return 3;
}

// a value as a stream prints it, which includes inf and nan
static bool printed(const std::string& t, double& v) {
  if (t == "inf" || t == "-inf" || t == "nan" || t == "-nan") { v = strtod(t.c_str(), nullptr); return true; }
  int k = number(t, v); return k == 1 || (k == 3 && v != 0 && std::fabs(v) < 2.3e-308 && t.find_first_not_of("0123456789.eE+-") == std::string::npos);
}
bool sameVal(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool sameVals(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!sameVal(a[i], b[i])) return false;
  return true;
}
bool wild(const std::vector<double>& v) { for (double x : v) if (!(std::fabs(x) < 1e100)) return true; return false; }
bool unusual(const std::vector<double>& v) { for (double x : v) if (!std::isfinite(x) || (x != 0 && std::fabs(x) < 2.3e-308)) return true; return false; }

static std::vector<std::string> splitLines(const std::string& b) {
  std::vector<std::string> out; size_t p = 0;
  while (p < b.size()) {
    size_t q = b.find('\n', p);
    if (q == std::string::npos) { out.push_back(b.substr(p)); break; }
    out.push_back(b.substr(p, q - p)); p = q + 1;
  }
  return out;
}
static std::vector<std::string> tokens(const std::string& line, const std::string& seps) {
  std::vector<std::string> out; std::string cur;
  for (char c : line) {
    if (seps.find(c) != std::string::npos) { if (!cur.empty()) out.push_back(cur); cur.clear(); }
    else cur += c;
  }
  if (!cur.empty()) out.push_back(cur);
  return out;
}

Cls parseTable(const std::string& bytes, const std::string& seps, int maxRows, int startCol, Table& out) {
  out = Table();
  std::vector<std::string> lines = splitLines(bytes);
  size_t rows = lines.size(); if (maxRows > 0 && (size_t)maxRows < rows) rows = (size_t)maxRows;
  if (rows == 0 || startCol < 0) return ERROR;
  bool unclear = false; int ncol = -1;
  for (size_t r = 0; r < rows; r++) {
    if (lines[r].find('\0') != std::string::npos) unclear = out.odd = true;
    if (lines[r].find('\r') != std::string::npos) unclear = true;
    std::vector<std::string> t = tokens(lines[r], seps);
    if (r == 0) { ncol = (int)t.size(); if (ncol <= startCol) return ERROR; }
    else if ((int)t.size() != ncol) return ERROR;
    for (int c = startCol; c < ncol; c++) {
      double v = 0; int k = number(t[c], v);
      if (k == 0 || k == 2) return ERROR;
      if (k == 3) unclear = true;
      out.v.push_back(v);
    }
  }
  out.rows = (int)rows; out.cols = ncol - startCol;
  return unclear ? ANY : VALUE;
}

// ------------------------------------------------------------------ group files
static bool strictInt(const std::string& t, long& v) {
  if (t.empty() || t.size() > 9) return false;
  for (char c : t) if (!isdigit((unsigned char)c)) return false;
  v = strtol(t.c_str(), 0, 10); return true;
}
static std::vector<std::string> words(const std::string& l) { return tokens(l, " "); }

static bool parseStrict(const std::string& bytes, bool sizes, RGroups& g, std::string& why) {
  g = RGroups();
  if (bytes.empty() || bytes.back() != '\n') { why = "file does not end with a complete line"; return false; }
  std::vector<std::string> L = splitLines(bytes); size_t p = 0; long a, b, c;
  auto fail = [&](const std::string& w) { why = w + " (line " + std::to_string(p + 1) + ")"; return false; };
  if (L.size() < 3) return fail("header incomplete");
  std::vector<std::string> w = words(L[p]);
  double thr;
  if (w.size() != 4 || w[0] != "1" || !printed(w[1], thr) || !strictInt(w[2], a) || !strictInt(w[3], b)) return fail("bad header");
  g.thr = thr; g.rows = (int)a; g.cols = (int)b; p++;
  if (a < 1 || b < 1 || a > 100000 || b > 100000) return fail("bad dimensions");
  w = words(L[p]);
  if (w.size() != 2 || w[0] != "2" || !strictInt(w[1], c) || c != b + 1) return fail("bad length range");
  p++;
  w = words(L[p]); if (w.size() != 1 || (w[0] != "euclidean" && w[0] != "euclidean_dtw")) return fail("bad distance");
  g.dist = w[0]; p++;
  g.byLen.resize((size_t)g.cols + 1);
  for (int len = 2; len <= g.cols; len++) {
    if (p >= L.size()) return fail("missing block of length " + std::to_string(len));
    w = words(L[p]); if (w.size() != 1 || !strictInt(w[0], a) || a < 1) return fail("bad number of groups");
    long ng = a; p++;
    if (ng > (long)g.rows * (g.cols - len + 1)) return fail("more groups than subsequences");
    if (sizes) {
      if (p >= L.size()) return fail("missing sizes");
      w = words(L[p]); if ((long)w.size() != ng) return fail("wrong number of sizes");
      for (auto& t : w) { RGroup r; long s; if (!strictInt(t, s) || s < 1) return fail("bad size"); r.size = (int)s; g.byLen[len].push_back(r); }
      p++; continue;
    }
    for (long k = 0; k < ng; k++) {
      RGroup r;
      if (p + 1 >= L.size()) return fail("missing group");
      w = words(L[p]); if ((int)w.size() != len) return fail("representative has wrong length");
      for (auto& t : w) { double v; if (!printed(t, v)) return fail("bad representative value"); r.rep.push_back(v); }
      p++;
      w = words(L[p]); if (w.empty() || !strictInt(w[0], a) || a < 1 || (long)w.size() != 1 + 2 * a) return fail("bad member list");
      for (long m = 0; m < a; m++) {
        long i, s; if (!strictInt(w[1 + 2 * m], i) || !strictInt(w[2 + 2 * m], s)) return fail("bad member");
        r.mem.push_back(std::make_pair((int)i, (int)s));
      }
      r.size = (int)a; p++;
      g.byLen[len].push_back(r);
    }
  }
  if (p != L.size()) return fail("trailing content");
  return true;
}
bool parseGroupsStrict(const std::string& b, RGroups& o, std::string& why) { return parseStrict(b, false, o, why); }
bool parseSizesStrict(const std::string& b, RGroups& o, std::string& why) { return parseStrict(b, true, o, why); }

bool partitionOk(const RGroups& g, int rows, int cols, std::string& why) {
  if (g.rows != rows || g.cols != cols) { why = "dimensions differ"; return false; }
  for (int len = 2; len <= cols; len++) {
    int sub = cols - len + 1; std::vector<int> seen((size_t)rows * sub, 0);
    if ((size_t)len >= g.byLen.size()) { why = "no groups of length " + std::to_string(len); return false; }
    for (auto& r : g.byLen[len]) for (auto& m : r.mem) {
      if (m.first < 0 || m.first >= rows || m.second < 0 || m.second >= sub) { why = "member outside the dataset, length " + std::to_string(len); return false; }
      if (seen[(size_t)m.first * sub + m.second]++) { why = "subsequence (" + std::to_string(m.first) + "," + std::to_string(m.second) + ") of length " + std::to_string(len) + " is in two groups"; return false; }
    }
    for (size_t i = 0; i < seen.size(); i++) if (!seen[i]) { why = "subsequence (" + std::to_string(i / sub) + "," + std::to_string(i % sub) + ") of length " + std::to_string(len) + " is in no group"; return false; }
  }
  return true;
}

// what a lenient reader could still make of it: values read by the stream, or token by token
static bool lenient(const std::string& bytes, int rows, int cols, bool byToken, RGroups& g) {
  g = RGroups(); std::istringstream in(bytes); long ver, r, c, f, t; double thr; std::string dist;
  auto val = [&](double& v) { if (!byToken) return (bool)(in >> v); std::string w; if (!(in >> w) || w.find_first_of("xX") != std::string::npos || w.find('\0') != std::string::npos) return false; char* e; v = strtod(w.c_str(), &e); return *e == 0; };
  if (!(in >> ver) || !val(thr) || !(in >> r >> c)) return false;
  if (ver != 1 || r != rows || c != cols) return false;
  if (!(in >> f >> t >> dist)) return false;
  if (f != 2 || t != cols + 1) return false;
  if (dist != "euclidean" && dist != "euclidean_dtw") return false;
  g.rows = rows; g.cols = cols; g.thr = thr; g.dist = dist; g.byLen.resize((size_t)cols + 1);
  for (int len = 2; len <= cols; len++) {
    long ng; if (!(in >> ng) || ng < 0 || ng > 10000000) return false;
    for (long k = 0; k < ng; k++) {
      RGroup q; double v; for (int i = 0; i < len; i++) { if (!val(v)) return false; q.rep.push_back(v); }
      long n; if (!(in >> n) || n < 1 || n > 10000000) return false;
      for (long m = 0; m < n; m++) { long i, s; if (!(in >> i >> s)) return false; if (i < 0 || s < 0 || i > 1000000 || s > 1000000) return false; q.mem.push_back(std::make_pair((int)i, (int)s)); }
      q.size = (int)n; g.byLen[len].push_back(q);
    }
  }
  std::string why; return partitionOk(g, rows, cols, why);
}

GCls classifyGroups(const std::string& bytes, int rows, int cols, RGroups& out, std::string& why) {
  if (parseGroupsStrict(bytes, out, why)) {
    if (partitionOk(out, rows, cols, why)) return G_VALID;
    return G_INVALID;
  }
  RGroups g;
  if (!lenient(bytes, rows, cols, false, g) && !lenient(bytes, rows, cols, true, g)) return G_INVALID;
  out = g; return G_AMBIG;
}

static bool sameNum(double a, double b, double tol) { return sameVal(a, b) || (tol != 0 && close(a, b, tol)); }

bool sameGroups(const RGroups& a, const RGroups& b, double tol, std::string& why) {
  if (a.rows != b.rows || a.cols != b.cols) { why = "dimensions differ"; return false; }
  if (a.dist != b.dist) { why = "the distance differs"; return false; }
  for (int len = 2; len <= a.cols; len++) {
    const auto &x = a.byLen[len], &y = b.byLen[len];
    std::string at = " of length " + std::to_string(len);
    if (x.size() != y.size()) { why = "number of groups" + at + " differs"; return false; }
    for (size_t i = 0; i < x.size(); i++) {
      std::vector<std::pair<int, int>> m = x[i].mem, n = y[i].mem; std::sort(m.begin(), m.end()); std::sort(n.begin(), n.end());
      if (m != n) { why = "members of group " + std::to_string(i) + at + " differ"; return false; }
      for (size_t k = 0; k < x[i].rep.size(); k++) if (!sameNum(x[i].rep[k], y[i].rep[k], tol)) { why = "representative of group " + std::to_string(i) + at + " differs"; return false; }
    }
  }
  return true;
}

// ------------------------------------------------------------------ distances
double euclid(const double* a, const double* b, int len) {
  double s = 0; for (int i = 0; i < len; i++) { double d = a[i] - b[i]; s += d * d; }
  return std::sqrt(s / len);
}
int bandSize(int len, double ratio) { double r = std::floor(len * ratio); return r < len - 1 ? (int)r : len - 1; }
double dtw(const double* a, int m, const double* b, int n, double ratio) {
  int r = bandSize(std::max(m, n), ratio);
  std::vector<double> prev(n + 1, INF), cur(n + 1, INF); prev[0] = 0;
  for (int i = 1; i <= m; i++) {
    std::fill(cur.begin(), cur.end(), INF);
    for (int j = std::max(1, i - r); j <= std::min(n, i + r); j++) {
      double d = a[i - 1] - b[j - 1], best = std::min(prev[j - 1], std::min(prev[j], cur[j - 1]));
      if (best < INF) cur[j] = best + d * d;
    }
    std::swap(prev, cur);
  }
  return std::sqrt(prev[n]) / (2.0 * std::max(m, n));
}

// ------------------------------------------------------------------ grouping rule
// multiples of 2^-10 below 2^10: sums of squares are exact, so every order of evaluation gives the same double
static bool dyadic(double v) { double x = v * 1024; return x == std::floor(x) && std::fabs(v) <= 1024; }
bool greedyOk(const RGroups& g, const Table& t, double thr, std::string& why) {
  double scale = 1; for (double v : t.v) scale = std::max(scale, std::fabs(v));
  const double tol = 1e-9 * scale, half = thr / 2;
  bool grid = dyadic(half) && (double)t.cols * t.cols < 1e6; for (double v : t.v) if (!dyadic(v)) grid = false;
  // is the distance exactly representable at every stage (sum, mean, root)?  then nothing excuses a wrong side of the boundary
  auto exact = [&](const double* a, const double* b, int len, double d) {
    if (!grid) return false; double s = 0; for (int i = 0; i < len; i++) { double x = a[i] - b[i]; s += x * x; }
    return d * d * len == s && dyadic(d);
  };
  for (int len = 2; len <= t.cols; len++) {
    int sub = t.cols - len + 1; std::vector<int> owner((size_t)t.rows * sub, -1);
    const auto& G = g.byLen[len];
    std::vector<long> founder(G.size(), -1);   // scan position start * rows + idx
    for (size_t k = 0; k < G.size(); k++) for (auto& m : G[k].mem) {
      owner[(size_t)m.first * sub + m.second] = (int)k; long pos = (long)m.second * t.rows + m.first;
      if (founder[k] < 0 || pos < founder[k]) founder[k] = pos;
    }
    auto ptr = [&](long pos) { return &t.v[(size_t)(pos % t.rows) * t.cols + (size_t)(pos / t.rows)]; };
    auto nm = [&](long pos) { return "(" + std::to_string(pos % t.rows) + "," + std::to_string(pos / t.rows) + ") of length " + std::to_string(len); };
    std::vector<long> order(founder); std::sort(order.begin(), order.end());
    for (long pos = 0; pos < (long)t.rows * sub; pos++) {
      int k = owner[(size_t)(pos % t.rows) * sub + (size_t)(pos / t.rows)]; if (k < 0) { why = "no owner"; return false; }
      double best = INF;
      for (long f : order) { if (f >= pos) break; best = std::min(best, euclid(ptr(f), ptr(pos), len)); }
      if (founder[k] == pos) {
        bool hit = false; if (grid && best == half) for (long f : order) { if (f >= pos) break; if (exact(ptr(f), ptr(pos), len, half)) { hit = true; break; } }
        if (best < half - tol || hit) { why = "subsequence " + nm(pos) + " opened a group although one was within half the threshold"; return false; }
      } else {
        double d = euclid(ptr(founder[k]), ptr(pos), len);
        if (d > half + tol) { why = "subsequence " + nm(pos) + " is farther than half the threshold from its representative"; return false; }
        if (d > best + tol) { why = "subsequence " + nm(pos) + " did not join the nearest representative"; return false; }
      }
    }
  }
  return true;
}

// ------------------------------------------------------------------ search
static std::vector<int> lengthsFor(int cols, int qlen, double ratio) {
  std::vector<int> out;
  for (int L = 2; L <= cols; L++) {
    int r = bandSize(std::max(L, qlen), ratio);
    if (std::abs(L - qlen) <= r) out.push_back(L);
  }
  return out;
}
bool hasCandidate(const RGroups& g, int qlen, double ratio) { return qlen > 1 && !lengthsFor(g.cols, qlen, ratio).empty(); }

bool matchOk(const RGroups& g, const Table& t, const std::vector<double>& q, double ratio,
             int idx, int start, int len, double dist, double tolD, std::string& why) {
  double scale = 1; for (double v : t.v) scale = std::max(scale, std::fabs(v)); for (double v : q) scale = std::max(scale, std::fabs(v));
  const double tol = 1e-9 * scale;
  int n = (int)q.size();
  std::vector<int> Ls = lengthsFor(t.cols, n, ratio);
  if (std::find(Ls.begin(), Ls.end(), len) == Ls.end()) { why = "answer has a length outside the warping band"; return false; }
  if (idx < 0 || idx >= t.rows || start < 0 || start + len > t.cols) { why = "answer is not a subsequence of the dataset"; return false; }
  double truth = dtw(&t.v[(size_t)idx * t.cols + start], len, q.data(), n, ratio);
  if (std::isnan(dist) || std::fabs(truth - dist) > tol + tolD * (truth + (tolD > 0 ? 1e-4 : 0))) {
    char b[160]; snprintf(b, sizeof b, "reported distance %.12g, true distance %.12g", dist, truth); why = b; return false;
  }
  double best = INF; std::vector<std::pair<double, std::pair<int, int>>> reps;
  int grp = -1; double grpD = INF;
  for (int L : Ls) for (size_t k = 0; k < g.byLen[L].size(); k++) {
    const RGroup& r = g.byLen[L][k];
    double d = dtw(r.rep.data(), L, q.data(), n, ratio);
    if (d < best) best = d;
    if (L == len) for (auto& m : r.mem) if (m.first == idx && m.second == start) { grp = (int)k; grpD = d; }
  }
  if (grp < 0) { why = "answer is in no group"; return false; }
  if (grpD > best + tol) {
    char b[160]; snprintf(b, sizeof b, "answer's group has a representative at %.12g, another one is at %.12g", grpD, best); why = b; return false;
  }
  double bm = INF;
  for (auto& m : g.byLen[len][grp].mem) bm = std::min(bm, dtw(&t.v[(size_t)m.first * t.cols + m.second], len, q.data(), n, ratio));
  if (truth > bm + tol) {
    char b[160]; snprintf(b, sizeof b, "answer is at %.12g, the group's closest member at %.12g", truth, bm); why = b; return false;
  }
  return true;
}

}  // namespace ref
