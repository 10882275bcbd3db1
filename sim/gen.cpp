// Workloads: seeded histories of operations per property, and the placement of faults in them.
#include "gen.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstring>

namespace sim {

const char* const allProps[17] = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18" };

struct DsB { int rows = 0, cols = 0; bool grouped = false; std::string file; };
struct FileB { std::string path, seps; int rows, cols; };
struct GrpB { std::string path; int rows, cols; bool sizes; std::string file; };
struct Query { int tgt, q, idx, st, en; std::vector<double> x; };

struct Gen {
  Rng r; Plan p; std::string prop; bool thorough; char drv = 'D';
  std::map<int, DsB> ds, dsOther; std::vector<FileB> files; std::vector<GrpB> grps; std::vector<Query> asked;
  uint64_t uid = 0; int fileNo = 0; int maxRows = 6, maxCols = 12, minRows = 1, minCols = 2; bool wide = false; double constant = 1.5;
  Gen(const std::string& pr, uint64_t seed, bool th) : r(seed * 2654435761ull + 17), prop(pr), thorough(th) { p.prop = pr; p.seed = seed; }

  static std::string fmt(double v, int style) { char b[64]; if (style == 0) snprintf(b, sizeof b, "%.17g", v); else if (style == 1) snprintf(b, sizeof b, "%g", v); else if (style == 2) snprintf(b, sizeof b, "%.3f", v); else if (style == 4) snprintf(b, sizeof b, std::fabs(v) < 1e6 ? "%025.17f" : "%.25g", v);   // leading zeros, more digits than a double has
    else { snprintf(b, sizeof b, v == (long)v ? "%+.0f" : std::fabs(v) < 1 ? "%.6f" : "%E", v); std::string t = b; size_t z = t.find("0."); if (z != std::string::npos && (z == 0 || t[z - 1] == '-')) t.erase(z, 1); else if (t.find('.') == std::string::npos && std::fabs(v) < 1e6 && (long)v % 2) t += "."; return t; }   // +1 3. .250000 -.5 1.5E+03
    return b; }
  double value(int style) {
    switch (style) {
      case 0: return (double)r.range(0, 2);
      case 1: return r.range(-20, 20) / 4.0;
      case 2: return r.unit();
      case 3: return (r.unit() - 0.5) * 200;
      case 4: return r.range(0, 9) / 10.0;
      case 5: return std::ldexp(r.unit() + 0.5, r.range(-30, 30)) * (r.chance(0.5) ? 1 : -1);
      case 6: return std::ldexp(r.unit() + 0.5, r.range(-300, 300)) * (r.chance(0.5) ? 1 : -1);
      case 8: return r.range(0, 4) / 2.0;
      case 9: return (r.unit() - 0.5) * 2e-4;
      case 10: return 1e6 + r.unit();
      case 11: return r.chance(0.2) ? 0 : std::ldexp(r.unit() + 0.5, r.chance(0.5) ? r.range(-1060, 990) : r.chance(0.5) ? r.range(-1070, -1020) : r.range(960, 990)) * (r.chance(0.5) ? 1 : -1);
      default: return constant;
    }
  }
  bool groupish() { return prop != "C02" && prop != "C04"; }
  std::string table(int rows, int cols, const std::string& sep) {
    static const int gs[] = { 0, 0, 1, 1, 2, 2, 2, 3, 4, 4, 5, 7, 8, 8, 9, 10 }; int style = gs[r.below(16)];
    if (!groupish() && r.chance(0.2)) style = 6;
    int f = r.chance(0.55) ? 0 : r.chance(0.4) ? 1 : r.chance(0.5) ? 2 : 3; if (f == 2 && r.chance(0.25)) f = 4; if (style == 6) f = r.chance(0.5) ? 0 : 1; if (prop == "C13" && r.chance(0.5)) f = 1;
    bool extreme = (prop == "C04" || prop == "C10" || prop == "C02") && r.chance(prop == "C04" ? 0.1 : 0.05); if (extreme) { style = 11; f = r.chance(0.7) ? 0 : 1; }
    bool odd = (prop == "C04" || prop == "C02" || prop == "C05" || prop == "C06" || prop == "C07" || prop == "C03" || prop == "C08" || prop == "C11") && r.chance(0.04);
    static const double ks[] = { 1.5, -2.5, 0, -0.25, 1000000 }; constant = ks[r.below(5)];
    bool walk = r.chance(0.3); std::string o; bool messy = r.chance(0.15);
    bool sinus = r.chance(0.15); double ph = r.unit() * 3;
    std::string end = r.chance(0.7) ? "\n" : "";
    bool edge = (prop == "C08" || prop == "C09" || prop == "C05") && !odd && !extreme && r.chance(0.06); if (edge) { f = 0; sinus = walk = false; }   // rows whose distances nearly are half of common thresholds
    for (int i = 0; i < rows; i++) {
      double acc = 0, level = r.range(0, 4) / 2.0 * (1 + r.range(-2, 2) * 2.5e-8);
      for (int j = 0; j < cols; j++) {
        double v = value(style); if (walk && (style < 5 || style == 8)) { acc += v - 1; v = acc; } if (sinus) v = std::sin(j * 0.7 + i * ph) * 3 + v * 0.01; if (edge) v = level;
        if (messy && r.chance(0.2)) o += sep[r.below(sep.size())];
        if (odd && r.chance(0.15)) { static const char* t[] = { "inf", "-inf", "nan", "-nan" }; o += t[r.below(4)]; } else
        o += fmt(v, f);
        if (j + 1 < cols) o += sep[r.below(sep.size())]; else if (r.chance(0.1)) o += sep[0];
      }
      o += i + 1 < rows ? "\n" : end;
    }
    return o;
  }
  std::string sepSet() { static const char* s[] = { " ", " ", " ", ",", ";", "\t", "|", ", ", ":" }; return s[r.below(drv == 'C' ? 4 : 9)]; }

  Step& add(const std::string& op) { Step s; s.uid = ++uid + p.seed * 1000; s.op = op; p.steps.push_back(s); return p.steps.back(); }
  static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
  void emit(const std::string& op, std::vector<int64_t> a, const std::string& s = "", const std::string& s2 = "", std::vector<double> d = {}) {
    if (drv != 'C') { Step& x = add(op); for (size_t i = 0; i < a.size(); i++) x.a[i] = a[i]; x.s = s; x.s2 = s2; x.d = d; return; }
    std::string l; auto n = [&](int64_t v) { return " " + std::to_string(v); };
    if (op == "load") { l = "load " + s; if (a[1] || a[2] || s2 != " ") { l += n(a[1]); if (a[2] || s2 != " ") { l += n(a[2]); if (s2 != " ") l += " " + s2; } } }
    else if (op == "save") { l = "save" + n(a[0]) + " " + s; if (s2 != " " && !s2.empty()) l += " " + s2; }
    else if (op == "unload") l = "unload" + n(a[0]);
    else if (op == "norm") l = "normalize" + n(a[0]);
    else if (op == "paa") l = "paa" + n(a[0]) + n(a[1]);
    else if (op == "group") l = "group" + n(a[0]) + " " + num(d[0]);
    else if (op == "saveg") { l = "saveGroup" + n(a[0]) + " " + s; if (a[1] || r.chance(0.2)) l += n(a[1]); }
    else if (op == "loadg") l = "loadGroup" + n(a[0]) + " " + s;
    else if (op == "match") { l = "match" + n(a[0]) + n(a[1]) + n(a[2]); if (a[3] >= 0 || a[4] >= 0) l += n(a[3]) + n(a[4]); }
    else if (op == "info") l = "list dataset";
    else return;
    if (r.chance(0.05)) l = "  " + l; if (r.chance(0.05)) l += "  ";
    Step& x = add("line"); x.s = l;
  }

  // ---- operations on the believed state
  FileB& newFile(int rows = 0, int cols = 0) {
    if (!rows) rows = r.chance(0.2) ? 1 : r.range(std::min(minRows, maxRows), maxRows); if (!cols) cols = r.chance(0.12) ? r.range(1, 3) : r.range(std::min(minCols, maxCols), maxCols);
    FileB f; f.rows = rows; f.cols = cols; f.seps = sepSet(); f.path = (r.chance(0.15) ? "/sim/dir/f" : "/sim/f") + std::to_string(fileNo++ % 6) + ".txt"; if (r.chance(0.03)) f.path = "/sim/dir/" + std::string((size_t)r.range(20, 90), 'n') + f.path.substr(f.path.size() - 5);
    for (size_t i = 0; i < files.size(); i++) if (files[i].path == f.path) { files.erase(files.begin() + i); break; }
    Step& s = add("put"); s.s = f.path; s.s2 = table(rows, cols, f.seps);
    files.push_back(f); return files.back();
  }
  FileB anyFile() { if (files.empty() || r.chance(0.25)) return newFile(); return files[r.below(files.size())]; }
  int lowest() { int k = 0; while (ds.count(k)) k++; return k; }
  int anyDs() { if (ds.empty()) { load(); } auto it = ds.begin(); std::advance(it, r.below(ds.size())); return it->first; }
  int groupedDs() { std::vector<int> v; for (auto& d : ds) if (d.second.grouped) v.push_back(d.first); if (v.empty()) { int k = anyDs(); group(k); return k; } return v[r.below(v.size())]; }
  int load(const FileB* ff = nullptr, int slot = -1) {
    FileB f = ff ? *ff : anyFile(); int k = slot >= 0 ? slot : lowest(); if (drv == 'D' && k > 5) k = 5;
    int mr = 0, sc = 0;
    if (!ff && r.chance(0.2)) mr = r.range(1, f.rows + 1); if (!ff && f.cols > 2 && r.chance(0.15)) sc = r.range(1, f.cols - 1);
    emit("load", { k, mr, sc }, f.path, f.seps);
    DsB d; d.rows = mr > 0 ? std::min(mr, f.rows) : f.rows; d.cols = f.cols - sc; d.file = f.path; ds[k] = d; return k;
  }
  double threshold() { if ((prop == "C05" || prop == "C06" || prop == "C07" || prop == "C08" || prop == "C11") && r.chance(0.02)) return INFINITY; static const double t[] = { 0, 0.1, 0.2, 0.5, 1, 2, 5, 1000, 0.25, 1.5, 3, 4, 1e-4 }; if (r.chance(0.6)) return t[r.below(13)]; return r.unit() * (r.chance(0.5) ? 1 : 8); }
  bool tooBig(int k) { return ds[k].rows * ds[k].cols * ds[k].cols > (thorough ? 8000 : wide ? 5000 : 2500); }
  void group(int k) { if (tooBig(k)) { ds[k].grouped = false; return; } double t = threshold(); emit("group", { k }, "", "", { t }); ds[k].grouped = true; }
  void norm(int k) { emit("norm", { k }); ds[k].grouped = false; }
  void paa(int k) { int n = r.chance(0.1) ? 1 : r.chance(0.85) ? r.range(2, 4) : r.chance(0.7) ? ds[k].cols + r.range(-1, 1) : r.chance(0.5) ? 2147483647 : 1000000000; if (n < 1) n = 1; emit("paa", { k, n }); ds[k].cols = (ds[k].cols - 1) / n + 1; ds[k].grouped = false; }
  std::string outPath(const char* pre) { if (r.chance(0.03)) return "/sim/dir"; if (r.chance(0.03)) return "/sim/nodir/x"; return (r.chance(0.2) ? std::string("/sim/dir/") : std::string("/sim/")) + pre + std::to_string(r.below(3)); }
  void save(int k) {
    std::string sp = sepSet().substr(0, 1); std::string path = outPath("o"); emit("save", { k }, path, sp);
    if (path != "/sim/dir" && path != "/sim/nodir/x") { FileB f; f.path = path; f.seps = sp; f.rows = ds[k].rows; f.cols = ds[k].cols; for (size_t i = 0; i < files.size(); i++) if (files[i].path == path) { files.erase(files.begin() + i); break; } files.push_back(f); }
  }
  GrpB saveg(int k, bool sizes = false) {
    std::string path = outPath("g"); emit("saveg", { k, sizes }, path);
    GrpB g; g.path = path; g.rows = ds[k].rows; g.cols = ds[k].cols; g.sizes = sizes; g.file = ds[k].file;
    for (size_t i = 0; i < grps.size(); i++) if (grps[i].path == path) { grps.erase(grps.begin() + i); break; }
    if (path != "/sim/dir" && path != "/sim/nodir/x") grps.push_back(g);
    return g;
  }
  void loadg(int k) { std::string path = grps.empty() || r.chance(0.05) ? "/sim/missing" : grps[r.below(grps.size())].path; for (auto& g : grps) if (g.rows == ds[k].rows && g.cols == ds[k].cols && r.chance(0.7)) path = g.path; emit("loadg", { k }, path); ds[k].grouped = true; }
  void ratio() { if (drv == 'C') return; static const double t[] = { 0, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1 }; static const double o[] = { 1.5, 3, 100, 1e10, INFINITY, -0.2, -1, -1e-9, NAN }; emit("ratio", {}, "", "", { r.chance(0.08) ? o[r.below(9)] : r.chance(0.7) ? t[r.below(8)] : r.unit() }); }
  Query query(int tgt) {
    Query q; q.tgt = tgt; q.q = r.chance(0.6) ? tgt : anyDs(); DsB d = ds[q.q]; q.idx = (int)r.below((uint64_t)std::max(1, d.rows)); q.st = q.en = -1;
    if (r.chance(0.75) && d.cols >= 2) { q.st = r.range(0, d.cols - 2); q.en = r.range(q.st + 2, d.cols); }
    if (drv == 'D' && r.chance(0.45)) {
      int n = r.range(2, std::max(3, ds[tgt].cols + 1)); int st = (int)r.below(5); double mul = r.chance(0.3) ? 0.1 : 1; for (int i = 0; i < n; i++) q.x.push_back(value(st) * mul);
    }
    return q;
  }
  void ask(const Query& q) { if (!q.x.empty() && drv == 'D') emit("matchx", { q.tgt }, "", "", q.x); else emit("match", { q.tgt, q.q, q.idx, q.st, q.en }); asked.push_back(q); }
  void match(int tgt) { ask(query(tgt)); }
  std::map<int, Step> lastDist;
  void dist(int k) {
    if (lastDist.count(k) && r.chance(0.5)) { Step s = lastDist[k]; if (s.a[2] + s.a[3] <= ds[k].cols && s.a[1] < ds[k].rows) { if (r.chance(0.35)) { if (r.chance(0.7)) norm(k); else if (ds.size() > 1) { int o = k; for (auto& d : ds) if (d.first != k && r.chance(0.6)) o = d.first; if (o != k && s.a[2] + s.a[3] <= ds[o].cols && s.a[1] < ds[o].rows) emit("dist", { o, s.a[1], s.a[2], s.a[3] }, s.s, "", s.d); } } emit("dist", { k, s.a[1], s.a[2], s.a[3] }, s.s, "", s.d); return; } }   // the distance between a part of a series and given values, by name
    DsB d = ds[k]; if (d.cols < 2) return; int st = r.range(0, d.cols - 2), len = r.range(2, d.cols - st), idx = (int)r.below((uint64_t)std::max(1, d.rows)); bool warped = r.chance(0.5); std::string dn = warped ? "euclidean_dtw" : "euclidean";
    int n = warped && r.chance(0.5) ? r.range(2, std::max(3, d.cols)) : len; int sty = (int)r.below(5); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(value(sty));
    if (r.chance(0.15)) switch (r.below(5)) { case 0: idx = r.chance(0.5) ? -1 : d.rows; break; case 1: st = d.cols - len + 1; break; case 2: len = 0; break; case 3: dn = "manhattan"; break; default: if (!warped) x.push_back(0); break; }
    emit("dist", { k, idx, st, len }, dn, "", x); lastDist[k] = p.steps.back();
  }
  void unload(int k) { emit("unload", { k }); ds.erase(k); }
  void restart(char next = 0, int abrupt = -1) {
    if (!next) next = drv; Step& s = add("restart"); s.a[0] = abrupt < 0 ? r.chance(0.5) : abrupt; s.s = std::string(1, next); drv = next; ds.clear(); dsOther.clear();
  }
  void badOp() {
    int k = r.chance(0.5) ? lowest() + (int)r.below(3) : r.chance(0.5) ? -1 - (int)r.below(2) : 1000000; int w = (int)r.below(8);
    switch (w) {
      case 0: emit("unload", { k }); break; case 1: emit("norm", { k }); break; case 2: emit("paa", { k, 2 }); break; case 3: emit("group", { k }, "", "", { 0.3 }); break;
      case 4: emit("saveg", { k, 0 }, "/sim/gx"); break; case 5: emit("loadg", { k }, grps.empty() ? "/sim/missing" : grps[0].path); break;
      case 6: emit("match", { k, 0, 0, -1, -1 }); break; default: emit("save", { k }, "/sim/ox", " "); break;
    }
  }
  std::string existing() {   // a file somebody may want to keep
    if (!grps.empty() && r.chance(0.4)) return grps[r.below(grps.size())].path; if (!files.empty() && r.chance(0.8)) return files[r.below(files.size())].path; return r.chance(0.5) ? "/sim/new" : "/sim/dir/new";
  }
  void refusedSave() {
    std::string path = existing(); int k = r.chance(0.4) ? lowest() + (int)r.below(2) : r.chance(0.3) ? -1 : 1000000; std::vector<int> un; for (auto& d : ds) if (!d.second.grouped) un.push_back(d.first);
    if (drv == 'C' && r.chance(0.3)) {
      static const char* F[] = { "save x ", "saveGroup x ", "save 0 ", "saveGroup 0 ", "loadGroup 0 0 ", "group 0 ", "normalize ", "paa 0 2 ", "unload 0 ", "list ", "help ", "timer ", "frobnicate ", "match 0 0 0 ", "Save 0 ", "// save 0 " }; static const char* E[] = { "", "", " 1 2", " x", " , ," };
      int w = (int)r.below(16), e = (int)r.below(5); if ((w == 2 || w == 3) && e < 2) e = 2; Step& s = add("line"); s.s = F[w] + path + E[e]; return;
    }
    if (!un.empty() && r.chance(0.55)) emit("saveg", { un[r.below(un.size())], r.chance(0.3) }, path);
    else if (r.chance(0.5)) emit("save", { k }, path, " "); else emit("saveg", { k, 0 }, path);
  }
  void badArg() {
    int k = anyDs(); DsB d = ds[k];
    switch (r.below(7)) {
      case 0: emit("paa", { k, -(int)r.below(3) }); break;
      case 1: emit("match", { k, k, d.rows + (int)r.below(2), -1, -1 }); break;
      case 2: emit("match", { k, k, 0, r.range(0, d.cols), r.range(-1, d.cols + 2) }); break;
      case 3: emit("match", { k, 9, 0, -1, -1 }); break;
      case 4: emit("match", { k, k, -1, 0, 2 }); break;
      case 5: if (drv == 'D') { emit("group", { k }, "manhattan", "", { 0.3 }); break; } // fall through
      default: emit("load", { lowest() > 5 ? 5 : lowest(), 0, 0 }, r.chance(0.5) ? "/sim/missing" : "/sim/dir", " "); break;
    }
  }
  void badLoad() {   // a file that cannot give a table
    std::string path = "/sim/bad" + std::to_string(r.below(2)); std::string b = table(r.range(1, 4), r.range(1, 6), " "); int mr = 0, sc = 0; std::string seps = " ";
    switch (r.below(15)) {
      case 0: b = ""; break;
      case 13: { size_t q = b.find('\n', r.below(b.size())); if (q == std::string::npos) q = b.find('\n'); if (q == std::string::npos) q = 0; b.insert(q, r.chance(0.5) ? "\n" : "\n   "); break; }   // a blank line in between
      case 14: { b += (b.back() == '\n' ? "" : "\n") + std::string(r.chance(0.5) ? "x y\n" : "1e999 2 3 4 5 6 7 8\n"); mr = r.range(1, 4); break; }   // something odd, perhaps after the last row that is asked for
      case 1: b += (b.back() == '\n' ? "" : "\n") + std::string("1 2 3 4 5 6 7 8 9\n"); break;
      case 2: b = "1 2 x\n3 4 5\n"; break;
      case 3: b = "1 2 3\n3 4 1e999\n"; break;
      case 4: sc = r.range(6, 9); break;
      case 5: sc = -r.range(1, 3); break;
      case 6: b = "\n" + b; break;
      case 7: b += (b.back() == '\n' ? "" : "\n") + std::string("\n"); if (r.chance(0.5)) b = "\n\n"; break;
      case 8: case 9: {   // one token in a good table is not a number
        static const char* t[] = { "12abc", "1.2.3", "1,5", "3x", "1e5e5", "--1", "1e", "-", ".", "0x", "5\t", "\r", "1-2", "nanx", "1e400", "-1e400", "+", "4;" };
        size_t q = r.below(b.size()); size_t u = b.find(' ', q); if (u == std::string::npos) u = b.find(' '); if (u == std::string::npos) u = b.size() - (b.back() == '\n'); size_t v = u; while (v > 0 && b[v - 1] != ' ' && b[v - 1] != '\n') v--;
        b = b.substr(0, v) + t[r.below(18)] + b.substr(u); if (r.chance(0.15)) sc = 1; break; }
      case 10: for (auto& c : b) if (c == ' ') c = ','; if (r.chance(0.5)) seps = ","; break;   // a comma file, with or without naming the comma
      case 11: { std::string o; for (char c : b) { if (c == '\n') o += '\r'; o += c; } b = o; break; }   // a DOS file
      default: b = "label 1 2\nother 3 4\n"; if (r.chance(0.5)) sc = 1; break;
    }
    if (r.chance(0.2)) mr = r.range(1, 3);
    if (r.chance(0.02)) mr = r.chance(0.5) ? 2147483647 : -2147483647;
    Step& s = add("put"); s.s = path; s.s2 = b;
    int k = lowest(); if (drv == 'D' && !ds.empty() && r.chance(0.25)) k = anyDs(); if (drv == 'D' && k > 5) k = 5;
    emit("load", { k, mr, sc }, path, seps);
    // belief may be wrong afterwards; harmless
  }
  void damage(const std::string& path) {
    Step& s = add("mod"); s.s = path; int w = (int)r.below(10);
    if (path.find("/g") != std::string::npos && r.chance(0.3)) { s.a[0] = 8; s.a[1] = (int64_t)r.below(1u << 20); s.a[2] = (int64_t)r.below(12); return; } s.a[1] = (int64_t)r.below(1u << 20);
    if (w < 4) s.a[0] = 0; else if (w < 5) s.a[0] = 1; else if (w < 6) { s.a[0] = 2; s.a[2] = "0123456789 -.\nx"[r.below(15)]; }
    else if (w < 8) { s.a[0] = 4; static const char* t[] = { "0", "-1", "99", "2147483647", "4294967298", "x", "1e3", "0.5", "1", "2", "-2147483649", "3" }; s.s2 = t[r.below(12)]; if (r.chance(0.35)) s.a[1] = (int64_t)r.below(10); }
    else if (w < 9) { s.a[0] = r.chance(0.5) ? 5 : 6; if (r.chance(0.3)) s.a[1] = (int64_t)r.below(4); } else { s.a[0] = 7; s.a[2] = (int64_t)r.below(1u << 20); }
  }

  struct W { const char* n; int w; };
  void randomOp(const std::vector<W>& w) {
    int tot = 0; for (auto& x : w) tot += x.w; int c = (int)r.below((uint64_t)tot); std::string o; for (auto& x : w) { if (c < x.w) { o = x.n; break; } c -= x.w; }
    if (o == "put") newFile(); else if (o == "load") { if (ds.size() < 5) load(); else unload(anyDs()); } else if (o == "save") save(anyDs()); else if (o == "unload") { if (!ds.empty()) unload(anyDs()); }
    else if (o == "session") { if (drv == 'A') { int k = r.chance(0.25); emit("session", { k }); if (k) ds.clear(); else std::swap(ds, dsOther); } }
    else if (o == "unloadall") { if (drv != 'C') { emit("unloadall", {}); ds.clear(); } } else if (o == "norm") norm(anyDs()); else if (o == "paa") paa(anyDs()); else if (o == "group") group(anyDs());
    else if (o == "saveg") saveg(groupedDs(), r.chance(0.15)); else if (o == "loadg") loadg(anyDs()); else if (o == "ratio") ratio(); else if (o == "match") match(groupedDs()); else if (o == "info") emit("info", { anyDs() });
    else if (o == "badop") badOp(); else if (o == "badarg") badArg(); else if (o == "badload") badLoad(); else if (o == "again") { if (!asked.empty()) ask(asked[r.below(asked.size())]); }
    else if (o == "reload") { if (drv == 'D' && !ds.empty()) { int k = anyDs(); load(nullptr, k); } } else if (o == "quota") { Step& s = add("quota"); s.a[0] = r.chance(0.4) ? -1 : (int64_t)r.below(600); }
    else if (o == "damage") { if (!grps.empty()) damage(grps[r.below(grps.size())].path); } else if (o == "damagef") { if (!files.empty()) damage(files[r.below(files.size())].path); }
    else if (o == "restart") restart(); else if (o == "dtw") { if (drv == 'D') { int k = anyDs(); if (tooBig(k)) return; emit("group", { k }, "euclidean_dtw", "", { threshold() }); ds[k].grouped = true; } }
    else if (o == "ungroup") { if (drv == 'D') { int k = anyDs(); emit("ungroup", { k }); ds[k].grouped = false; } }
    else if (o == "match0") { match(anyDs()); }
    else if (o == "refsave") refusedSave();
    else if (o == "dist") { if (drv == 'D') dist(anyDs()); }
    else if (o == "bigload" && r.chance(0.2)) { newFile(r.range(1, 2), r.range(300, 1200)); FileB f = files.back(); if (ds.size() < 5) load(&f); }   // rows longer than the buffers on the way
    else if (o == "bigload") { int mc = maxCols, mr = maxRows; maxCols = 40; maxRows = 30; newFile(r.range(8, 30), r.range(20, 60)); maxCols = mc; maxRows = mr; FileB f = files.back(); if (ds.size() < 5) load(&f); }
    else if (o == "junk") junkLine(); else if (o == "eof") { Step& s = add("eof"); s.a[0] = 1; s.s = r.chance(0.3) ? "what\n\tn\nn" : r.chance(0.5) ? "n" : "yes\nno\nn"; }
  }
  std::string word;   // the last word tried as a command
  void junkLine() {
    static const char* L[] = { "", "   ", "// a comment", "//", "help", "help load", "help nothing", "help a b", "list", "list dataset", "list distance", "list everything", "list dataset x", "timer", "timer on", "timer off", "timer maybe",
      "timer on off", "load", "load /sim/missing", "load /sim/f0.txt x", "load /sim/f0.txt 1 2 3 4 5", "load /sim/f0.txt 99999999999", "load /sim/f0.txt 0 -1", "load /sim/f0.txt 0 77", "unload", "unload x", "unload 99", "unload -1", "unload 99999999999",
      "group", "group 0", "group 0 x", "group x 0.2", "group 0 0.2 extra", "group 0 1e999", "save", "save 0", "save x /sim/o0", "save 9 /sim/o0", "save 0 /sim/nodir/x", "save 0 /sim/dir", "save 0 /sim/o0 , x",
      "saveGroup", "saveGroup 0", "saveGroup 9 /sim/g0", "saveGroup 0 /sim/dir", "saveGroup 0 /sim/g0 x", "saveGroup 0 /sim/g1 1", "loadGroup", "loadGroup 0", "loadGroup 0 /sim/missing", "loadGroup 0 /sim/f0.txt", "loadGroup 0 /sim/dir", "loadGroup x /sim/g0",
      "normalize", "normalize x", "normalize 9", "normalize 0 1", "paa", "paa 0", "paa 0 0", "paa 0 -1", "paa 0 x", "paa 9 2", "paa 0 2 3", "match", "match 0", "match 0 0", "match 0 0 0 0", "match 0 0 0 1", "match 0 0 0 0 2", "match 0 0 0 2 2",
      "match 0 0 0 0 99", "match 0 0 99", "match 0 9 0", "match 9 0 0", "match x 0 0", "match 0 0 0 0 2 4", "match 0 0 -1", "match 0 0 0 0 1", "frobnicate", "Load /sim/f0.txt", "load/sim/f0.txt", "\x01\xff\xfe", "quit now?x", "exits", "\xc3\xa9\xc3\xa9 1 2", "match 0 0 0 -1 -1", "match 0 0 0 -1 3",
      "list distance dataset", "group 0 nan", "group 0 inf", "group 0 -inf", "group 0 0..5x", "group 0 0x1p-2", "paa 0 2147483647", "paa 0 1000000000", "save 0 /sim/o1 ;", "timer 1", "x//y", "load//sim/f0.txt", "/ /", "exit//", "list//x", "help //", "help help", "help exit", "help quit", "help list", "help match" };
    static const int n = sizeof L / sizeof *L; std::string l = L[r.below((uint64_t)n)];
    if (r.chance(0.35)) {   // a command, or something like one, with any arguments; words come back, because sessions remember
      static const char* W[] = { "load", "save", "unload", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "list", "help", "exit", "quit", "frobnicate", "loads", "Group", "he", "match2", "//", "grou" };
      static const char* A[] = { "0", "0", "0", "1", "2", "3", "-1", "9", "x", "0.2", "0.5", "4", "/sim/f0.txt", "/sim/g0", "/sim/o0", "/sim/missing", ",", "on", "off", "dataset", "distance", "+1", "007", "1e0", "2147483648", "-2147483649", "nan", "1.5", "12x", "//" };
      static const int nw = sizeof W / sizeof *W, na = sizeof A / sizeof *A; const char* w = W[r.below((uint64_t)nw)]; int form = (int)r.below(4);
      if (form == 0 && !word.empty()) w = word.c_str(); else word = w;
      if (form <= 1) { Step& h = add("line"); h.s = std::string("help ") + w; if (r.chance(0.3)) return; }
      l = w; if (l == "exit" || l == "quit") { if (form != 2) return; l += "s"; }
      int k = r.chance(0.5) ? 0 : r.range(1, 5); for (int i = 0; i < k; i++) { l += ' '; l += A[r.below((uint64_t)na)]; }
      Step& s = add("line"); s.s = l; return;
    }
    if (l == "quit now?x") l = "quitx";
    if (r.chance(0.03)) { l = std::string(r.range(100, 5000), 'a'); }
    if (r.chance(0.03)) { l = "load /sim/f0.txt 0 0"; for (int i = 0; i < 50; i++) l += " x"; }
    Step& s = add("line"); s.s = l;
  }

  // ---- whole histories
  void env() {
    p.chunkSeed = r.chance(0.6) ? r.next() | 1 : 0; p.heapSeed = r.next() % 100000; p.clockSeed = r.next() % 100000; p.clockMode = (int)r.below(7);
  }
  void start(const char* drivers) { drv = drivers[r.below(strlen(drivers))]; p.driver = std::string(1, drv); }
  void sizes() {
    double x = r.unit();
    if (r.chance(0.012)) { wide = true; maxRows = 1; maxCols = minCols = r.range(34, 60); return; }         // one long series
    if (r.chance(0.012)) { wide = true; maxRows = minRows = r.range(18, 80); maxCols = 5; return; }         // many short ones
    if (r.chance(0.04)) { wide = true; maxRows = 2; maxCols = thorough ? 36 : 28; return; } if (x < 0.5) { maxRows = 4; maxCols = 8; } else if (x < 0.85) { maxRows = 6; maxCols = 12; } else { maxRows = thorough ? 10 : 8; maxCols = thorough ? 24 : 18; }
  }

  Plan make() {
    env(); sizes(); int n;
    if (prop == "C01") {
      start("AAAC");
      if (r.chance(0.12)) {   // many handles at once, small tables
        maxRows = 2; maxCols = 4; for (int i = 0; i < 4; i++) newFile(); int m = r.chance(0.2) ? r.range(70, 140) : r.range(12, 70);
        for (int i = 0; i < m; i++) { int c = (int)r.below(20); if (c < 14 || ds.empty()) load(); else if (c < 18) unload(anyDs()); else if (c == 18) norm(anyDs()); else emit("info", { anyDs() }); }
        p.snapEvery = 1; n = r.range(2, 8); for (int i = 0; i < n; i++) randomOp({ {"unload", 10}, {"info", 10}, {"norm", 4}, {"badop", 4}, {"badload", 2} });
        return p;
      }
      n = r.range(6, 30); for (int i = 0; i < n; i++) randomOp({ {"load", 30}, {"unload", 18}, {"session", 4}, {"unloadall", 3}, {"norm", 5}, {"paa", 4}, {"group", 6}, {"match", 5}, {"save", 3}, {"saveg", 2}, {"loadg", 3}, {"info", 6}, {"badop", 8}, {"badarg", 3}, {"badload", 8}, {"put", 2} });
    } else if (prop == "C02") {
      start("AADDC"); n = r.range(2, 7); for (int i = 0; i < n; i++) { randomOp({ {"load", 40}, {"badload", 25}, {"bigload", 14}, {"unload", 6}, {"reload", 8}, {"damagef", 14}, {"badarg", 2}, {"group", 2} });
        if (!p.steps.empty() && p.steps.back().op == "mod" && !files.empty()) { FileB f = files[0]; for (auto& g : files) if (g.path == p.steps.back().s) f = g; if (ds.size() < 5) load(&f); } }
    } else if (prop == "C03") {
      start("ADDDC"); int k = load(); if (r.chance(0.8)) group(k); n = r.range(3, 14);
      for (int i = 0; i < n; i++) randomOp({ {"session", 2}, {"dist", 6}, {"load", 10}, {"unload", 3}, {"norm", 8}, {"paa", 8}, {"group", 14}, {"match", 10}, {"save", 8}, {"saveg", 10}, {"loadg", 12}, {"badop", 5}, {"badarg", 12}, {"badload", 6}, {"damage", 6}, {"reload", 4}, {"quota", 3}, {"ratio", 3}, {"match0", 4} });
    } else if (prop == "C04") {
      start("AADC"); load(); n = r.range(2, 9);
      for (int i = 0; i < n; i++) randomOp({ {"load", 14}, {"norm", 10}, {"paa", 10}, {"save", 40}, {"bigload", 6}, {"unload", 4}, {"quota", 5}, {"restart", 5}, {"put", 3}, {"group", 3} });
      if (!files.empty()) { if (r.chance(0.5)) { restart(r.chance(0.3) ? "ADC"[r.below(3)] : drv); FileB f = files[0]; for (auto& g : files) if (g.path.find("/o") != std::string::npos) f = g; bool ok = drv != 'C' || f.seps == " " || f.seps == "," ; if (ok) load(&f); } else { FileB f = files.back(); if (ds.size() < 5) load(&f); } }
    } else if (prop == "C05") {
      start("DDAC"); int k = load(); FileB f = files[0]; for (auto& g : files) if (g.path == ds[k].file) f = g;
      if (ds[k].rows != f.rows || ds[k].cols != f.cols) { unload(k); k = load(&f); }
      bool nrm = r.chance(0.4); if (nrm) norm(k); group(k); if (drv == 'D' && r.chance(0.1)) randomOp({ {"dtw", 1} }); int kk = r.range(1, 4); for (int i = 0; i < kk; i++) match(k);
      GrpB g = saveg(k); if (r.chance(0.3)) { emit("save", { k }, "/sim/keep", " "); f.path = "/sim/keep"; f.seps = " "; nrm = false; }
      if (g.path == "/sim/dir" || g.path == "/sim/nodir/x") { g.path = "/sim/gk"; emit("saveg", { k, 0 }, g.path); }
      std::vector<Query> qs = asked; int loops = r.range(1, 2);
      for (int i = 0; i < loops; i++) {
        if (r.chance(0.6)) { restart(r.chance(0.3) ? (drv == 'C' ? 'A' : 'D') : drv); int q = load(&f); if (nrm) norm(q); k = q; } else if (r.chance(0.4)) group(k); 
        emit("loadg", { k }, g.path); ds[k].grouped = true;
        for (auto& q : qs) { Query x = q; x.tgt = k; if (q.q != q.tgt) continue; x.q = k; if (drv != 'D' && !x.x.empty()) continue; ask(x); }
        if (r.chance(0.5)) { ratio(); match(k); }
        if (r.chance(0.5)) { g.path = "/sim/gz"; emit("saveg", { k, 0 }, g.path); qs = asked; }
      }
    } else if (prop == "C06") {
      start("DAAC"); int k = load(); group(k); n = r.range(2, 7);
      for (int i = 0; i < n; i++) { int c = (int)r.below(10); if (c < 6) saveg(r.chance(0.8) ? groupedDs() : anyDs(), r.chance(0.4)); else randomOp({ {"group", 5}, {"load", 5}, {"norm", 3}, {"paa", 3}, {"quota", 4}, {"loadg", 4}, {"match", 2}, {"badop", 1}, {"dtw", 3} }); }
      if (r.chance(0.3)) { int q = groupedDs(); GrpB g = saveg(q); if (r.chance(0.8)) group(q); emit("loadg", { q }, g.path); ds[q].grouped = true; saveg(q, r.chance(0.3)); }
    } else if (prop == "C07") {
      start("DDAC"); int k = load(); FileB f = files[0]; for (auto& g : files) if (g.path == ds[k].file) f = g;
      if (ds[k].rows != f.rows || ds[k].cols != f.cols) { unload(k); k = load(&f); }
      group(k); GrpB g = saveg(k, r.chance(0.08)); if (r.chance(0.4)) { emit("copy", {}, "", ""); p.steps.pop_back(); Step& s = add("copy"); s.s = g.path; s.s2 = "/sim/gcopy"; g.path = "/sim/gcopy"; }
      if (r.chance(0.75)) { int m = r.range(1, 2); for (int i = 0; i < m; i++) damage(g.path); }
      if (r.chance(0.5)) { restart(r.chance(0.2) ? "ADC"[r.below(3)] : drv); k = load(&f); if (r.chance(0.7)) group(k); } else if (r.chance(0.5)) group(k); else if (drv == 'D' && r.chance(0.3)) emit("ungroup", { k });
      if (r.chance(0.25)) { int q = r.chance(0.5) ? load() : k; (void)q; if (r.chance(0.5)) paa(k); }
      emit("loadg", { k }, g.path); if (r.chance(0.6)) match(k); if (r.chance(0.4)) { damage(g.path); emit("loadg", { k }, g.path); match(k); }
      if (r.chance(0.2)) loadg(anyDs());
    } else if (prop == "C08") {
      start("DDAC"); int k = load(); group(k); n = r.range(0, 7);
      for (int i = 0; i < n; i++) randomOp({ {"group", 40}, {"load", 10}, {"norm", 8}, {"paa", 6}, {"match", 5}, {"loadg", 3}, {"saveg", 3}, {"badarg", 5}, {"unload", 3}, {"dtw", 3}, {"reload", 3}, {"ungroup", 2} });
      if (r.chance(0.6)) group(anyDs());
    } else if (prop == "C09") {
      start("DDDAAC"); int k = load(); if (r.chance(0.3)) load(); if (r.chance(0.4)) norm(k); if (r.chance(0.7)) ratio(); group(k); n = r.range(2, 12);
      for (int i = 0; i < n; i++) randomOp({ {"session", 2}, {"match", 60}, {"ratio", 10}, {"group", 6}, {"badarg", 6}, {"load", 3}, {"norm", 2}, {"paa", 2}, {"match0", 4}, {"saveg", 2}, {"loadg", 3}, {"badop", 2}, {"dtw", 1} });
    } else if (prop == "C10") {
      start("DDAC"); int k = load(); if (r.chance(0.7)) group(k); n = r.range(2, 9);
      for (int i = 0; i < n; i++) randomOp({ {"session", 2}, {"dist", 10}, {"norm", 22}, {"paa", 22}, {"group", 14}, {"match0", 12}, {"saveg", 5}, {"loadg", 5}, {"load", 8}, {"reload", 8}, {"badload", 3}, {"save", 3}, {"info", 3}, {"badarg", 3}, {"ungroup", 2} });
    } else if (prop == "C11") {
      start("C"); newFile(); newFile(); if (r.chance(0.7)) { FileB f = files[0]; load(&f); if (r.chance(0.6)) group(0); } n = r.chance(0.03) ? r.range(50, 150) : r.range(4, 24);
      for (int i = 0; i < n; i++) randomOp({ {"junk", 50}, {"load", 8}, {"unload", 4}, {"norm", 4}, {"paa", 4}, {"group", 7}, {"match0", 8}, {"save", 5}, {"saveg", 5}, {"loadg", 5}, {"badop", 4}, {"badarg", 4}, {"badload", 5}, {"eof", 3}, {"damage", 3}, {"quota", 2}, {"info", 2} });
      if (r.chance(0.7)) { int c = (int)r.below(6); if (c == 0) add("line").s = "quit"; else if (c == 1) add("line").s = "exit now"; else { Step& s = add("eof"); s.a[0] = c > 2; s.s = c == 3 ? "y" : c == 4 ? "maybe\n" : c == 5 ? "x\ny" : ""; } }
      if (r.chance(0.2)) { restart('C'); randomOp({ {"load", 1} }); randomOp({ {"match0", 1} }); }
    } else if (prop == "C12") {
      start("AADDDC"); int k = load(); if (r.chance(0.8)) group(k); n = r.range(2, 9); if (r.chance(0.4)) match(k); if (drv == 'C' && r.chance(0.5)) junkLine();
      for (int i = 0; i < n; i++) randomOp({ {"session", 2}, {"dist", 8}, {"load", 10}, {"norm", 8}, {"paa", 8}, {"group", 14}, {"match", 22}, {"save", 5}, {"saveg", 6}, {"loadg", 10}, {"unload", 3}, {"ratio", 5}, {"reload", 5}, {"again", 6}, {"unloadall", 1}, {"dtw", 1} });
    } else if (prop == "C13") {
      start("AD"); p.cycles = 6; p.snapEvery = 0; int k = load(); n = r.range(2, 9); (void)k;
      for (int i = 0; i < n; i++) randomOp({ {"dist", 5}, {"load", 12}, {"norm", 8}, {"paa", 8}, {"group", 16}, {"match", 16}, {"save", 5}, {"saveg", 8}, {"loadg", 12}, {"unload", 5}, {"ratio", 4}, {"reload", 4}, {"badop", 2}, {"badarg", 6}, {"badload", 8}, {"damage", 8}, {"dtw", 1} });
    } else if (prop == "C14") {
      start("AADDC"); load(); n = r.range(3, 14);
      for (int i = 0; i < n; i++) randomOp({ {"session", 2}, {"dist", 5}, {"load", 10}, {"norm", 7}, {"paa", 7}, {"group", 20}, {"match", 22}, {"save", 6}, {"saveg", 8}, {"loadg", 10}, {"unload", 4}, {"ratio", 5}, {"reload", 4}, {"badop", 2}, {"badarg", 4}, {"badload", 5}, {"damage", 6}, {"quota", 3}, {"bigload", 2}, {"restart", 2}, {"info", 2}, {"dtw", 2} });
    } else if (prop == "C18") {
      start("AADDC"); int k = load(); if (r.chance(0.6)) { group(k); saveg(k); } if (r.chance(0.4)) newFile(); n = r.range(4, 18);
      for (int i = 0; i < n; i++) randomOp({ {"refsave", 26}, {"load", 12}, {"unload", 5}, {"norm", 6}, {"paa", 5}, {"group", 8}, {"match0", 6}, {"save", 8}, {"saveg", 10}, {"loadg", 12}, {"badop", 4}, {"badarg", 4}, {"badload", 8}, {"damage", 8}, {"reload", 3}, {"quota", 3}, {"restart", 4}, {"dist", 2}, {"session", 2}, {"ungroup", 4}, {"info", 2}, {"unloadall", 1} });
    } else if (prop == "C16") {
      start("DDA"); int k = load(); if (r.chance(0.4)) load(); if (r.chance(0.5)) ratio(); group(k); double t = p.steps.back().d.empty() ? 0.2 : p.steps.back().d[0]; int q0 = r.range(1, 4); for (int i = 0; i < q0; i++) match(k);
      bool many = r.chance(0.05); n = many ? r.range(30, 90) : r.range(3, 14); DsB d0 = ds[k]; double lastRatio = -1; (void)d0;
      for (int i = 0; i < n; i++) randomOp({ {"again", 40}, {"match", 14}, {"ratio", 10}, {"load", 5}, {"badarg", 4}, {"badload", 3}, {"match0", 4}, {"norm", 2}, {"saveg", 2}, {"info", 1}, {"group", 3} });
      for (auto& s : p.steps) if (s.op == "ratio" && s.d[0] >= 0) lastRatio = s.d[0];
      if (r.chance(0.6)) {   // a fresh process repeats only the load, the grouping and the queries
        FileB f; bool have = false; for (auto& x : files) if (x.path == d0.file && x.rows == d0.rows && x.cols == d0.cols) { f = x; have = true; }
        std::vector<Query> qs = asked; if (have) { restart(); int q = load(&f, drv == 'D' ? k : -1); if (lastRatio >= 0) emit("ratio", {}, "", "", { lastRatio }); emit("group", { q }, "", "", { t }); ds[q].grouped = true; for (auto& x : qs) { if (x.q != k || x.tgt != k) continue; Query y = x; y.tgt = y.q = q; ask(y); } }
      } else for (auto& x : std::vector<Query>(asked)) if (ds.count(x.tgt) && ds.count(x.q)) ask(x);
    } else if (prop == "C15") {
      drv = 'T'; p.driver = "T"; n = r.range(4, 30); int len[6] = { 0 }; bool own[6] = { false }; int vb[6] = { -1, -1, -1, -1, -1, -1 }; bool dead[6] = { false }; int baseLen = r.range(1, 12);
      auto vec = [&](int m) { std::vector<double> v; int st = (int)r.below(6); for (int i = 0; i < m; i++) v.push_back(value(st)); return v; };
      auto mk = [&](int k) { int m = r.chance(0.7) ? baseLen : r.range(1, 16); Step& s = add("tnew"); s.a[0] = k; s.d = vec(m); len[k] = m; own[k] = true; dead[k] = false; vb[k] = -1; };
      mk(0); mk(1);
      for (int i = 0; i < n; i++) {
        int k = (int)r.below(6), j = (int)r.below(6); std::vector<int> live; for (int q = 0; q < 6; q++) if (len[q] && !dead[q]) live.push_back(q); if (live.empty()) { mk(k); continue; } j = live[r.below(live.size())]; int l2 = live[r.below(live.size())];
        int c = (int)r.below(100);
        if (c < 7) mk(k);
        else if (c < 10) { Step& s = add("tidx"); s.a[0] = j; s.a[1] = r.chance(0.6) ? r.range(0, std::max(0, len[j] - 1)) : r.chance(0.5) ? len[j] + (int)r.below(2) : -1 - (int)r.below(2); }
        else if (c < 12) { int m = r.chance(0.7) ? baseLen : r.range(1, 40); Step& s = add("tzero"); s.a[0] = k; s.a[1] = m; len[k] = m; own[k] = true; dead[k] = false; vb[k] = -1; }
        else if (c < 13) { int m = r.chance(0.6) ? baseLen : r.range(1, 12), b = (int)r.below(3); Step& s = add("tview2"); s.a[0] = k; s.a[1] = b; s.a[2] = m; len[k] = m; own[k] = false; dead[k] = false; vb[k] = b; }
        else if (c < 17) { int m = r.chance(0.6) ? baseLen : r.range(1, 12), b = (int)r.below(3), st = r.range(0, 24 - m); bool al = false; for (int q = 0; q < 6; q++) if (vb[q] == b && q != k) al = true; (void)al; Step& s = add("tview"); s.a[0] = k; s.a[1] = b; s.a[2] = st; s.a[3] = st + m; s.a[4] = r.range(0, 5); len[k] = m; own[k] = false; dead[k] = false; vb[k] = b; }
        else if (c < 25) { Step& s = add("tcopy"); s.a[0] = k; s.a[1] = j; len[k] = len[j]; own[k] = own[j]; dead[k] = false; vb[k] = vb[j]; }
        else if (c < 37) { int t = r.chance(0.8) ? l2 : k; if (!len[t]) t = l2; Step& s = add("tassign"); s.a[0] = t; s.a[1] = j; len[t] = len[j]; own[t] = own[j]; dead[t] = false; vb[t] = vb[j]; }
        else if (c < 45) { if (l2 == j) { if (r.chance(0.3)) { Step& s = add("tmove"); s.a[0] = s.a[1] = j; } continue; } int t = l2; Step& s = add("tmove"); s.a[0] = t; s.a[1] = j; len[t] = len[j]; own[t] = own[j]; vb[t] = vb[j]; dead[t] = false; dead[j] = true; }
        else if (c < 55) { if (!own[l2]) continue; bool alias = false; (void)alias; Step& s = add("tadd"); s.a[0] = l2; s.a[1] = j; }
        else if (c < 58) { if (live.size() > 2) { Step& s = add("tdel"); s.a[0] = j; len[j] = 0; vb[j] = -1; } }
        else if (c < 62) ratio();
        else if (c < 84) { Step& s = add("tenv"); s.a[0] = j; s.a[1] = r.chance(0.3) ? 0 : r.chance(0.7) ? r.range(0, std::max(1, len[j])) : r.range(0, 30); s.a[2] = r.chance(0.5); }
        else if (c < 93) { Step& s = add("tkeogh"); s.a[0] = j; s.a[1] = l2; }
        else { if (std::min(len[j], len[l2]) < 1) continue; Step& s = add("tcross"); s.a[0] = j; s.a[1] = l2; }
      }
    }
    return p;
  }
};

Plan genBase(const std::string& prop, uint64_t seed, bool thorough) { Gen g(prop, seed, thorough); return g.make(); }

bool placeFaults(Plan& p, const RunObs& base, uint64_t seed) {
  Rng r(seed ^ 0x5bd1e995u); const std::string& P = p.prop;
  if (P == "C14") return false;
  const bool lineOom = P == "C12" || P == "C03";
  // calls each step really made
  std::map<int, Counts> cnt; for (auto& L : base.lives) for (auto& s : L.steps) if (s.hasCounts) cnt[s.step] = s.cnt;
  std::vector<int> cand;
  for (size_t i = 0; i < p.steps.size(); i++) {
    auto it = cnt.find((int)i); if (it == cnt.end()) continue; const Counts& c = it->second;
    std::string o = p.steps[i].op; if (o == "line") { o = p.steps[i].s.substr(0, p.steps[i].s.find(' ')); }
    bool ld = o == "load", sv = o == "save", sg = o == "saveg" || o == "saveGroup", lg = o == "loadg" || o == "loadGroup"; bool io = c.ios > 0, al = c.allocs > 0 && ((p.steps[i].op != "line" && p.steps[i].op != "eof") || (lineOom && p.steps[i].op == "line"));
    bool take = false;
    if (P == "C02") take = ld && (io || al); else if (P == "C04") take = (sv && io) || (ld && io && r.chance(0.1)); else if (P == "C06") take = sg && io; else if (P == "C07") take = (lg || sg) && io;
    else if (P == "C12" || P == "C15") take = al; else if (P == "C05" || P == "C09" || P == "C16" || P == "C08" || P == "C10") take = al || io; else take = io || al;
    if (take) { cand.push_back((int)i); if (P == "C07" && lg) cand.push_back((int)i); }
  }
  if (cand.empty()) return false;
  int nf = r.chance(0.6) ? 1 : r.range(2, 3); std::set<int> done; std::vector<std::pair<int, Step>> inserts; bool any = false;
  for (int f = 0; f < nf; f++) {
    int i = cand[r.below(cand.size())]; if (!done.insert(i).second) continue; Step& s = p.steps[i]; const Counts& c = cnt[i];
    std::vector<int> kinds; bool allocOk = (s.op != "line" || lineOom) && s.op != "eof";
    if (P == "C13" && s.op == "load") {
      // libstdc++ itself leaks a finished element when copying an element range of token iterators runs out of memory while advancing
      // the iterator, which allocates for long tokens only: those are not the library user's doing
      size_t longest = 0;
      for (auto& t : p.steps) {
        if ((t.s != s.s && t.s2 != s.s) || t.op == "load") continue;
        if (t.op != "put") { longest = 99; break; }
        size_t run = 0; for (char ch : t.s2) { run = strchr(" ,;\t|:\n", ch) ? 0 : run + 1; longest = std::max(longest, run); }
      }
      if (longest > 15) allocOk = false;
    }
    bool ioOnly = P == "C04" || P == "C06" || P == "C07" || P == "C11"; bool alOnly = P == "C12" || P == "C15" || P == "C09" || P == "C16";
    if (c.allocs && allocOk && (!ioOnly || r.chance(0.1))) { kinds.push_back(F_ALLOC); kinds.push_back(F_ALLOC); kinds.push_back(F_ALLOCS); }
    if (!alOnly) {
      if (c.opens) kinds.push_back(F_OPEN);
      if (c.reads) { kinds.push_back(F_READ); kinds.push_back(F_READ); kinds.push_back(F_READS); }
      if (c.seeks && c.reads) kinds.push_back(F_SEEK);
      if (c.writes) { kinds.push_back(F_WRITE); kinds.push_back(F_WRITE); kinds.push_back(F_WRITES); kinds.push_back(F_WRITES); }
      if (c.closes) { kinds.push_back(F_CLOSE); kinds.push_back(F_CLOSE); }
      if (c.reads && P == "C02" && r.chance(0.2)) kinds.push_back(F_EXT);
      bool crashes = (P == "C07" || P == "C04" || P == "C05" || P == "C18") && c.writes; if (crashes) for (int q = 0; q < (P == "C07" ? 8 : 2); q++) kinds.push_back(F_CRASH);
    }
    if (kinds.empty()) continue;
    Fault x; x.kind = kinds[r.below(kinds.size())]; x.a = 0; static const int64_t we[] = { EIO, ENOSPC, EDQUOT, EIO, EINTR }; auto pick = [&](uint32_t n) { return n ? (uint32_t)(1 + (r.chance(0.15) ? n - 1 : r.below(n))) : 1u; };
    switch (x.kind) {
      case F_ALLOC: case F_ALLOCS: x.n = pick(c.allocs); break;
      case F_OPEN: x.n = pick(c.opens); { static const int64_t oe[] = { EACCES, EMFILE, ENOENT, EIO }; x.a = oe[r.below(4)]; } break;
      case F_READ: x.n = pick(c.reads); x.a = r.chance(0.2) ? EINTR : EIO; break;
      case F_READS: x.n = pick(c.reads); x.a = EIO; break;
      case F_SEEK: x.n = pick(c.seeks); break;
      case F_WRITE: x.n = pick(c.writes); x.a = we[r.below(5)]; break;
      case F_WRITES: x.n = pick(c.writes); x.a = (int64_t)r.below(50); break;
      case F_CLOSE: x.n = 1; x.a = (int64_t)r.below(60); break;
      case F_CRASH: x.n = pick(c.ios); x.a = (int64_t)r.below(3); break;
      case F_EXT: x.n = pick(c.reads); x.a = r.chance(0.7) ? (int64_t)r.below(200) : -1; break;
      default: break;
    }
    s.faults.push_back(x); any = true;
    if (x.kind == F_CRASH) {
      // after the crash: a new process looks at what is left
      Step rs; rs.op = "restart"; rs.uid = s.uid * 7 + 1; rs.a[0] = 1; rs.s = ""; inserts.push_back(std::make_pair(i, rs));
      std::string dr = p.driver; int lastLoad = -1; for (int q = 0; q < i; q++) { if (p.steps[q].op == "restart" && !p.steps[q].s.empty()) dr = p.steps[q].s; if (p.steps[q].op == "load" || p.steps[q].s.compare(0, 5, "load ") == 0) lastLoad = q; }
      inserts.back().second.s = dr;
      if (lastLoad >= 0 && (P == "C07" || P == "C05")) {
        Step l = p.steps[lastLoad]; l.faults.clear(); l.uid = s.uid * 7 + 2; inserts.push_back(std::make_pair(i, l));
        std::string h = "0"; int64_t hk = dr == "D" ? l.a[0] : 0; (void)h;
        if (r.chance(0.6)) { Step g; g.uid = s.uid * 7 + 3; if (dr == "C") { g.op = "line"; g.s = "group 0 0.35"; } else { g.op = "group"; g.a[0] = hk; g.d = { 0.35 }; } inserts.push_back(std::make_pair(i, g)); }
        Step g; g.uid = s.uid * 7 + 4; std::string path = s.s; if (s.op == "line") { size_t a = s.s.find("/sim/"), b = s.s.find(' ', a); path = a == std::string::npos ? "/sim/g0" : s.s.substr(a, b == std::string::npos ? b : b - a); }
        if (dr == "C") { g.op = "line"; g.s = "loadGroup 0 " + path; } else { g.op = "loadg"; g.a[0] = hk; g.s = path; } inserts.push_back(std::make_pair(i, g));
        Step m; m.uid = s.uid * 7 + 5; if (dr == "C") { m.op = "line"; m.s = "match 0 0 0"; } else { m.op = "match"; m.a[0] = m.a[1] = hk; m.a[3] = m.a[4] = -1; } inserts.push_back(std::make_pair(i, m));
      }
    } else if (P == "C03" || P == "C12" || P == "C11" || P == "C08" || P == "C10" || P == "C09" || P == "C16" || (P != "C13" && P != "C15" && r.chance(0.4))) {
      Step again = s; again.faults.clear(); again.uid = s.uid * 7 + 6; again.a[5] = 1; inserts.push_back(std::make_pair(i, again));
    }
  }
  if (!any) return false;
  std::stable_sort(inserts.begin(), inserts.end(), [](const std::pair<int, Step>& a, const std::pair<int, Step>& b) { return a.first < b.first; });
  std::vector<Step> out; size_t q = 0; for (int i = 0; i < (int)p.steps.size(); i++) { out.push_back(p.steps[i]); while (q < inserts.size() && inserts[q].first == i) out.push_back(inserts[q++].second); }
  p.steps = out; return true;
}

}  // namespace sim
