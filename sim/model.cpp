// The reference model: what every observed step must and must not have done.
#include "model.h"
#include "drivers.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace sim {

static const uint32_t ALLOCF = 1u << F_ALLOC | 1u << F_ALLOCS;
static const uint32_t IOF = 1u << F_OPEN | 1u << F_READ | 1u << F_READS | 1u << F_SEEK | 1u << F_WRITE | 1u << F_WRITES | 1u << F_CLOSE | 1u << F_QUOTA | 1u << F_EXT | 1u << F_EOFERR;

struct FileProv { ref::Table t; std::string sep; };
struct GroupProv { std::vector<double> v; int rows, cols; ref::RGroups g; bool sizes; };
struct Answer { bool ok; int64_t i, s, l; double d; bool coarse; };

static bool writable(const std::string& p) {
  if (p.compare(0, 5, "/sim/") != 0) return false;
  std::string n = p.substr(5); if (n.empty() || n == "dir") return false;
  size_t sl = n.find('/'); if (sl == std::string::npos) return true;
  return n.compare(0, 4, "dir/") == 0 && n.size() > 4 && n.find('/', 4) == std::string::npos;
}

struct Checker {
  const Plan& p; const RunObs& R; bool baseClean; Judge& J;
  Snap cur; double ratio = 0.1; char driver = 'D'; int life = 0;
  bool allocFired = false, faultFailed = false, timerOn = true; int idx = -1;
  std::map<std::string, FileProv> prov; std::map<std::string, GroupProv> gprov;
  std::map<std::string, Answer> memo, cmemo; std::map<std::string, std::string> gmemo;
  std::set<int> loadedGroups;       // ids whose grouping came from a file
  std::map<int, std::string> distOf; // and its distance
  Snap otherCur; std::set<int> otherLoaded; std::map<int, std::string> otherDist; std::map<int, double> otherThr;   // of the second session
  std::map<int, double> thrOf;      // id -> threshold of its current grouping, when known
  Checker(const Plan& p, const RunObs& R, bool bc, Judge& J) : p(p), R(R), baseClean(bc), J(J) {}

  void bad(std::set<std::string> tags, const std::string& cls, const std::string& msg) {
    if (allocFired && baseClean) tags.insert("C12");
    if (idx >= 0 && baseClean && p.steps[idx].a[5] == 1 && faultFailed) tags.insert("C03");
    Viol v; v.tags = tags; v.cls = cls; v.step = idx;
    v.msg = (idx >= 0 ? "step " + std::to_string(idx) + " (" + p.steps[idx].op + "): " : std::string()) + msg;
    J.all.push_back(v);
  }
  void cov(const std::string& k) { J.cover[k]++; }

  // ---------------------------------------------------------------- helpers
  static ref::Table tab(const DsSnap& d) { ref::Table t; t.rows = d.rows; t.cols = d.cols; t.v = d.v; return t; }
  static bool sameExcept(const Snap& a, const Snap& b, int id) {
    std::vector<const DsSnap*> x, y; for (auto& d : a.ds) if (d.id != id) x.push_back(&d); for (auto& d : b.ds) if (d.id != id) y.push_back(&d);
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) if (!(*x[i] == *y[i])) return false;
    return true;
  }
  static bool same(const Snap& a, const Snap& b) { return a.n == b.n && a.count == b.count && sameExcept(a, b, -12345); }
  static std::string diff(const Snap& a, const Snap& b) {
    for (auto& d : a.ds) {
      const DsSnap* e = b.find(d.id); if (!e) return "dataset " + std::to_string(d.id) + " is gone";
      if (*e == d) continue;
      std::string w = "dataset " + std::to_string(d.id) + ":";
      if (d.name != e->name) w += " name"; if (d.rows != e->rows || d.cols != e->cols) w += " dimensions"; if (d.norm != e->norm) w += " normalized-flag";
      if (d.grouped != e->grouped) w += " grouped-flag"; if (d.groups != e->groups) w += " groups"; if (d.loaded != e->loaded) w += " loaded-flag";
      DsSnap f = *e; f.v = d.v; f.valsOk = d.valsOk; DsSnap g = d; (void)g; if (!ref::sameVals(d.v, e->v)) w += " values";
      return w + " changed";
    }
    for (auto& e : b.ds) if (!a.find(e.id)) return "dataset " + std::to_string(e.id) + " appeared";
    if (a.count != b.count) return "dataset count changed";
    return "nothing";
  }
  static const FileObs* fileOf(const StepObs& so, const std::string& path, bool last) {
    const FileObs* f = nullptr; for (auto& x : so.files) if (x.path == path) { f = &x; if (!last) break; } return f;
  }
  static std::string bytesOf(const std::vector<double>& v) { return std::string((const char*)v.data(), v.size() * 8); }
  static std::string canon(const ref::RGroups& g) {
    std::ostringstream o; char b[40];
    for (int L = 2; L <= g.cols; L++) for (auto& r : g.byLen[L]) {
      auto m = r.mem; std::sort(m.begin(), m.end()); o << "g"; for (double x : r.rep) { snprintf(b, sizeof b, "%.17g,", x); o << b; } for (auto& x : m) o << x.first << ":" << x.second << ";"; }
    return o.str();
  }
  void forgetThr(int id) { thrOf.erase(id); distOf.erase(id); }
  static bool sameThr(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-14 * (std::fabs(a) + std::fabs(b)); }
  void dropProv(const std::string& path) { prov.erase(path); gprov.erase(path); }

  // a failing operation must have left everything alone
  void unchanged(const StepObs& so, std::set<std::string> tags, const std::string& what) {
    if (!so.snap.present) return;
    if (!same(cur, so.snap)) {
      if (driver == 'C') tags.insert("C11");
      bad(tags, "trace-left", what + ": " + diff(cur, so.snap));
    }
  }
  void others(const StepObs& so, int id, std::set<std::string> tags) {
    if (!so.snap.present) return;
    if (!sameExcept(cur, so.snap, id)) { tags.insert("C01"); bad(tags, "other-changed", "another dataset changed: " + diff(cur, so.snap)); }
  }

  // ---------------------------------------------------------------- one operation
  void op(const Step& s, const Result& r, const StepObs& so) {
    const std::string& o = s.op; int k = (int)s.a[0]; const Snap& post = so.snap;
    const DsSnap* d = cur.find(k); bool cli = driver == 'C';
    bool fault = (so.fired & (IOF | ALLOCF)) != 0; bool ext = (so.fired & (1u << F_EXT)) != 0;
    auto T = [&](std::initializer_list<const char*> l) { std::set<std::string> t; for (auto x : l) t.insert(x); return t; };
    auto refused = [&](std::set<std::string> tags, const std::string& why) {   // must have been an error
      if (r.ok) { if (cli) tags.insert("C11"); bad(tags, "accepted", why + ", but success is reported"); } };
    auto wrongErr = [&](std::set<std::string> tags, const std::string& why) {
      if (!r.ok && !fault) { if (cli) tags.insert("C11"); bad(tags, "refused", why + ", but an error is reported: " + r.msg); } };
    bool needsDs = o != "load" && o != "unloadall" && o != "ratio" && o != "session";
    if (needsDs && !d) {
      refused(T({"C01"}), "dataset " + std::to_string(k) + " is not loaded");
      if (!r.ok) unchanged(so, T({"C01", "C03"}), "operation on an unused handle"); return;
    }
    if (!r.ok) cov("err." + o); else cov("ok." + o);
    if (!r.ok && fault) faultFailed = true;

    if (o == "load") {
      const FileObs* f = fileOf(so, s.s, false); bool isDir = s.s == "/sim/dir";
      ref::Table t; ref::Cls c = !f || !f->exists ? ref::ERROR : ref::parseTable(f->bytes, s.s2, (int)s.a[1], (int)s.a[2], t);
      bool reload = driver == 'D' && d;
      auto pv = prov.find(s.s); bool fromSave = pv != prov.end() && s.s2.find(pv->second.sep) != std::string::npos && s.a[1] <= 0 && s.a[2] == 0 && f && f->exists;
      if (r.ok) {
        if (c == ref::ERROR && !ext) {
          refused(T({"C02"}), !f || !f->exists ? (isDir ? "the path is a directory" : "the file does not exist") : "the file cannot give the requested table");
        } else if (post.present && r.i.size() >= 3) {
          int id = (int)r.i[0]; const DsSnap* e = post.find(id);
          if (!e) { bad(cli ? T({"C01", "C11"}) : T({"C01"}), "handle", "the handle it reports is not in the listing"); return; }
          if (driver != 'D') {
            int low = 0; while (cur.find(low)) low++;
            if (id != low) bad(T({"C01"}), "handle", "handle " + std::to_string(id) + " given out, lowest unused is " + std::to_string(low));
            if (post.n != cur.n + 1) bad(T({"C01"}), "count", "number of listed datasets is wrong after a load");
          }
          if (e->rows != r.i[1] || e->cols != r.i[2]) bad(cli ? T({"C02", "C11"}) : T({"C02", "C01"}), "dims", "reported dimensions differ from the dataset");
          if (e->name != s.s) bad(T({"C01"}), "name", "dataset carries the wrong file name");
          if (reload) {
            if (e->grouped) bad(T({"C10"}), "stale-groups", "a reloaded dataset still counts as grouped");
            if (e->norm) bad(T({"C10"}), "stale-flag", "a reloaded dataset still counts as normalized");
          } else if (e->grouped || e->norm) bad(T({"C01"}), "flags", "a fresh dataset counts as grouped or normalized");
          if (!ext && c == ref::VALUE) {
            std::set<std::string> tags = T({"C02"}); if (fromSave) tags.insert("C04");
            if (e->rows != t.rows || e->cols != t.cols) bad(tags, "shape", "dataset is " + std::to_string(e->rows) + "x" + std::to_string(e->cols) + ", file part is " + std::to_string(t.rows) + "x" + std::to_string(t.cols));
            else if (!e->valsOk || !ref::sameVals(e->v, t.v)) bad(tags, "values", "dataset values differ from the file");
          }
          if (!ext && c == ref::ANY && !t.odd) {   // whether it is accepted is open, what it holds is not
            bool eq = e->rows == t.rows && e->cols == t.cols && e->valsOk && e->v.size() == t.v.size(); for (size_t i = 0; eq && i < t.v.size(); i++) eq = e->v[i] == t.v[i] || std::isnan(t.v[i]);
            if (!eq) bad(T({"C02"}), "values", "dataset values differ from the file"); else cov("load.unclear");
          }
          if (ext && (e->rows < 1 || e->cols < 1)) bad(T({"C02"}), "shape", "success with an empty dataset");
          if (fromSave && !ext) {
            const ref::Table& q = pv->second.t;
            if (e->rows != q.rows || e->cols != q.cols || !ref::sameVals(e->v, q.v)) bad(T({"C04"}), "roundtrip", "reloading the saved dataset gives different values");
          }
          others(so, id, T({}));
          loadedGroups.erase(id); forgetThr(id);
        }
      } else {
        if (c == ref::VALUE) { std::set<std::string> t2 = T({"C02"}); if (fromSave) t2.insert("C04"); wrongErr(t2, "the file holds the requested table"); }
        else if (c == ref::ANY && fromSave && f->bytes.find_first_of(std::string("\0\r", 2)) == std::string::npos) wrongErr(T({"C04"}), "the file is a saved dataset");
        if (reload) {
          if (post.present) {
            const DsSnap* e = post.find(k); bool empty = e && !e->loaded && !e->grouped;
            if (!(e && *e == *d) && !empty) bad(T({"C03"}), "trace-left", "failed reload left a half-changed dataset");
            others(so, k, T({"C03"}));
            if (empty) { loadedGroups.erase(k); forgetThr(k); }
          }
        } else unchanged(so, T({"C03", "C01"}), "failed load");
      }
      return;
    }
    if (o == "unloadall") {
      if (!r.ok) bad(T({"C01"}), "refused", "unloading everything failed");
      else if (post.present && (post.n != 0 || post.count != 0)) bad(T({"C01"}), "count", "datasets remain after unloading all");
      loadedGroups.clear(); thrOf.clear(); distOf.clear(); return;
    }
    if (o == "session") {   // a new session in place of this one, or the other session of this process
      if (r.ok) {
        if (k) { cur = Snap(); cur.present = true; loadedGroups.clear(); thrOf.clear(); distOf.clear(); }
        else { std::swap(cur, otherCur); std::swap(loadedGroups, otherLoaded); std::swap(thrOf, otherThr); std::swap(distOf, otherDist); }
      } else if (!fault) bad(T({"C01"}), "refused", "a session cannot be started");
      unchanged(so, T({"C01"}), r.ok && !k ? "what happened in the other session" : "starting a session"); return;
    }
    if (o == "ratio") { if (!s.d.empty() && !(s.d[0] >= 0)) { if (r.ok) bad(T({"C09"}), "accepted", "a warping band that cannot be is accepted"); } else if (!r.ok && !fault) bad(T({"C09"}), "refused", "a warping band is refused: " + r.msg); if (r.ok) ratio = s.d.empty() ? ratio : s.d[0]; unchanged(so, T({"C01"}), "setting the warping band"); return; }

    const DsSnap* e = post.present ? post.find(k) : nullptr;
    if (post.present && !e && o != "unload") { bad(T({"C01"}), "gone", "the dataset disappeared"); return; }
    auto tagErr = [&](std::initializer_list<const char*> l) { auto t = T(l); t.insert("C03"); return t; };

    if (o == "unload") {
      if (!r.ok) { wrongErr(T({"C01"}), "the handle is in use"); unchanged(so, tagErr({"C01"}), "failed unload"); }
      else { if (post.present && e) bad(T({"C01"}), "unload", "dataset still listed after unload"); if (post.present && driver != 'D' && post.count != cur.count - 1) bad(T({"C01"}), "count", "count is wrong after unload"); others(so, k, T({})); loadedGroups.erase(k); forgetThr(k); }
      return;
    }
    if (o == "info") {
      if (!r.ok) { wrongErr(T({"C01"}), "the handle is in use"); }
      else if (r.i.size() >= 5 && (r.i[0] != k || r.i[1] != d->rows || r.i[2] != d->cols || (bool)r.i[3] != d->grouped || (bool)r.i[4] != d->norm)) bad(T({"C01"}), "info", "per-handle information disagrees with the listing");
      unchanged(so, T({"C01"}), "asking for information"); return;
    }
    if (o == "ungroup") { if (post.present && e) { DsSnap x = *d; x.grouped = false; x.groups.clear(); if (!(x == *e)) bad(T({"C10"}), "ungroup", "dropping groups changed something else"); } others(so, k, T({})); loadedGroups.erase(k); forgetThr(k); return; }

    if (o == "save") {
      dropProv(s.s);
      const FileObs* f = fileOf(so, s.s, true);
      if (r.ok) {
        if (!writable(s.s)) refused(T({"C04"}), "the path cannot be written");
        else if (d->loaded && d->rows > 0 && d->cols > 0) {
          ref::Table t; std::string sep = s.s2.empty() ? " " : s.s2.substr(0, 1);
          if (!f || !f->exists) bad(T({"C04"}), "lost", "no file after a successful save");
          else if ((ref::parseTable(f->bytes, sep, 0, 0, t) != ref::VALUE && !(ref::unusual(d->v) && t.rows > 0))) bad(T({"C04"}), "lost", "the saved file is not a complete table");
          else if (t.rows != d->rows || t.cols != d->cols) bad(T({"C04"}), "lost", "the saved file has " + std::to_string(t.rows) + "x" + std::to_string(t.cols) + " values, the dataset " + std::to_string(d->rows) + "x" + std::to_string(d->cols));
          else if (!ref::sameVals(t.v, d->v)) bad(T({"C04"}), "precision", "the saved file holds different values");
          else { FileProv q; q.t = tab(*d); q.sep = sep; prov[s.s] = q; }
        }
        unchanged(so, T({"C04"}), "saving");
      } else {
        if (writable(s.s)) wrongErr(T({"C04"}), "the dataset can be saved");
        unchanged(so, tagErr({"C04"}), "failed save");
      }
      return;
    }
    if (o == "norm") {
      if (!d->loaded || d->v.empty()) { refused(T({"C10"}), "there is no data"); if (!r.ok) unchanged(so, tagErr({"C10"}), "failed normalization"); return; }
      if (!r.ok) { wrongErr(T({"C10"}), "the dataset can be normalized"); unchanged(so, tagErr({"C10"}), "failed normalization"); return; }
      double mn = d->v[0], mx = d->v[0]; for (double x : d->v) { mn = std::min(mn, x); mx = std::max(mx, x); }
      bool odd = false; for (double x : d->v) if (!std::isfinite(x)) odd = true; if (!std::isfinite(mx - mn)) odd = true;
      if (!odd && r.d.size() >= 2 && (r.d[0] != mn || r.d[1] != mx)) bad(T({"C10"}), "minmax", "old minimum and maximum are wrong");
      if (e) {
        bool okv = e->valsOk && e->v.size() == d->v.size() && e->rows == d->rows && e->cols == d->cols;
        for (size_t i = 0; !odd && okv && i < d->v.size(); i++) { double x = mx > mn ? (d->v[i] - mn) / (mx - mn) : 0; if (!ref::close(x, e->v[i], 1e-9)) okv = false; }
        if (!okv) bad(T({"C10"}), "values", "normalized values are wrong");
        if (!e->norm) bad(T({"C10"}), "flag", "dataset is not marked normalized");
        if (e->grouped) bad(T({"C10"}), "stale-groups", "the dataset still counts as grouped after normalization");
        if (e->name != d->name) bad(T({"C10"}), "name", "name changed");
      }
      others(so, k, T({"C10"})); loadedGroups.erase(k); forgetThr(k); return;
    }
    if (o == "paa") {
      int n = (int)s.a[1];
      if (n <= 0) { refused(T({"C10"}), "the block size is not positive"); if (!r.ok) unchanged(so, tagErr({"C10"}), "failed aggregation"); return; }
      if (!d->loaded || d->v.empty()) { refused(T({"C10"}), "there is no data"); if (!r.ok) unchanged(so, tagErr({"C10"}), "failed aggregation"); return; }
      if (!r.ok) { wrongErr(T({"C10"}), "the dataset can be aggregated"); unchanged(so, tagErr({"C10"}), "failed aggregation"); return; }
      int nc = (d->cols - 1) / n + 1;
      if (r.i.size() >= 3 && (r.i[1] != d->rows || r.i[2] != nc)) bad(cli ? T({"C10", "C11"}) : T({"C10"}), "dims", "reported dimensions are wrong after aggregation");
      if (e) {
        bool okv = e->valsOk && e->rows == d->rows && e->cols == nc && (int)e->v.size() == d->rows * nc; double scale = 1; bool odd = false; for (double x : d->v) { scale = std::max(scale, std::fabs(x)); if (!(std::fabs(x) < 1e305)) odd = true; }
        for (int i = 0; !odd && okv && i < d->rows; i++) for (int j = 0; okv && j < nc; j++) {
          double sum = 0; int c = 0; for (int q = j * n; q < std::min(d->cols, (j + 1) * n); q++) { sum += d->v[(size_t)i * d->cols + q]; c++; }
          if (std::fabs(sum / c - e->v[(size_t)i * nc + j]) > 1e-9 * scale) okv = false;
        }
        if (!okv) bad(T({"C10"}), "values", "aggregated values are wrong");
        bool same = ref::sameVals(e->v, d->v) && e->cols == d->cols;
        if (e->grouped && !(same && d->grouped && e->groups == d->groups)) bad(T({"C10"}), "stale-groups", "the dataset still counts as grouped after aggregation");
        if (e->norm && !d->norm) bad(T({"C10"}), "flag", "aggregation marked the dataset normalized");
        if (e->name != d->name) bad(T({"C10"}), "name", "name changed");
        if (!e->grouped) { loadedGroups.erase(k); forgetThr(k); }
      }
      others(so, k, T({"C10"})); return;
    }
    if (o == "group") {
      std::string dn = s.s.empty() ? "euclidean" : s.s; double thr = s.d.empty() ? 0 : s.d[0];
      bool badName = dn != "euclidean" && dn != "euclidean_dtw";
      if (!d->loaded || badName) { refused(T({"C08"}), "nothing can be grouped"); if (!r.ok) unchanged(so, tagErr({"C08"}), "failed grouping"); return; }
      if (!r.ok) { wrongErr(T({"C08"}), "the dataset can be grouped"); unchanged(so, tagErr({"C08"}), "failed grouping"); return; }
      if (e) {
        DsSnap x = *e; x.groups = d->groups; x.grouped = d->grouped;
        if (!(x == *d)) bad(T({"C08"}), "side-effect", "grouping changed values or flags");
        if (!e->grouped) { bad(T({"C08"}), "flag", "dataset does not count as grouped"); return; }
        ref::RGroups g; std::string why;
        if (!ref::parseGroupsStrict(e->groups, g, why)) bad(T({"C06", "C08"}), "format", "the grouping cannot be read: " + why);
        else {
          if (!ref::partitionOk(g, d->rows, d->cols, why)) bad(T({"C08"}), "partition", why);
          else if (dn == "euclidean" && thr >= 0 && !ref::wild(d->v) && !ref::greedyOk(g, tab(*d), thr, why)) bad(T({"C08"}), "rule", why);
          if (!r.i.empty() && r.i[0] != g.total()) bad(cli ? T({"C08", "C11"}) : T({"C08"}), "count", "reports " + std::to_string(r.i[0]) + " groups, there are " + std::to_string(g.total()));
          if (!sameThr(g.thr, thr)) bad(T({"C06"}), "threshold", "recorded threshold is wrong");
          if (g.dist != dn) bad(T({"C05", "C06"}), "distance", "recorded distance is wrong");
          for (int L = 2; L <= g.cols; L++) for (auto& q : g.byLen[L]) {   // representative = earliest member in scan order
            std::pair<int, int> f = q.mem[0]; for (auto& m : q.mem) if (std::make_pair(m.second, m.first) < std::make_pair(f.second, f.first)) f = m;
            bool inside = f.first >= 0 && f.first < d->rows && f.second >= 0 && f.second + L <= d->cols; if (!inside) continue;
            for (int i = 0; i < L; i++) if (!ref::sameVal(q.rep[i], d->v[(size_t)f.first * d->cols + f.second + i]) && !ref::close(q.rep[i], d->v[(size_t)f.first * d->cols + f.second + i], 1e-4)) { bad(T({"C08"}), "representative", "a representative is not the group's earliest member"); L = g.cols; break; }
            if (L >= g.cols && !J.all.empty() && J.all.back().cls == "representative") break;
            bool exact = true; for (int i = 0; i < L; i++) if (!ref::sameVal(q.rep[i], d->v[(size_t)f.first * d->cols + f.second + i])) exact = false;
            if (!exact) { bad(T({"C05", "C06", "C08"}), "digits", "a representative in the group file is not value for value the group's earliest member"); L = g.cols; break; }
          }
          std::string key = dn + bytesOf({thr, (double)d->rows}) + bytesOf(d->v), cg = canon(g);
          auto it = gmemo.find(key); if (it == gmemo.end()) gmemo[key] = cg; else if (it->second != cg) bad(T({"C08"}), "regroup", "grouping the same data with the same threshold again gives other groups");
        }
      }
      others(so, k, T({"C08"})); loadedGroups.erase(k); forgetThr(k); if (std::isfinite(thr)) thrOf[k] = thr; distOf[k] = dn; return;
    }
    if (o == "saveg") {
      dropProv(s.s); const FileObs* f = fileOf(so, s.s, true); bool sizes = s.a[1] != 0;
      if (!d->grouped) { refused(T({"C06"}), "the dataset is not grouped"); if (!r.ok) unchanged(so, tagErr({"C06"}), "failed group save"); return; }
      if (!r.ok) { if (writable(s.s)) wrongErr(T({"C06"}), "the groups can be saved"); unchanged(so, tagErr({"C06"}), "failed group save"); return; }
      unchanged(so, T({"C06"}), "saving groups");
      if (!writable(s.s)) { refused(T({"C06"}), "the path cannot be written"); return; }
      if (!f || !f->exists) { bad(T({"C06"}), "lost", "no file after a successful group save"); return; }
      ref::RGroups g, m; std::string why; bool have = ref::parseGroupsStrict(d->groups, m, why);
      if (!(sizes ? ref::parseSizesStrict(f->bytes, g, why) : ref::parseGroupsStrict(f->bytes, g, why))) { bad(T({"C06"}), "lost", "the saved group file is incomplete: " + why); return; }
      if (g.rows != d->rows || g.cols != d->cols) { bad(T({"C06"}), "header", "the saved group file has the wrong dimensions"); return; }
      if (!sizes) {
        if (!ref::partitionOk(g, d->rows, d->cols, why)) bad(T({"C06"}), "partition", why);
        else if (have && !ref::sameGroups(g, m, 1e-5, why)) bad(T({"C06"}), "content", why);
      } else {
        for (int L = 2; L <= g.cols; L++) {
          long tot = 0; for (auto& q : g.byLen[L]) tot += q.size;
          if (tot != (long)d->rows * (d->cols - L + 1)) { bad(T({"C06"}), "sizes", "sizes of length " + std::to_string(L) + " do not add up"); break; }
          if (have) { bool eq = m.byLen[L].size() == g.byLen[L].size(); for (size_t i = 0; eq && i < g.byLen[L].size(); i++) eq = g.byLen[L][i].size == m.byLen[L][i].size; if (!eq) { bad(T({"C06"}), "sizes", "sizes differ from the groups"); break; } }
        }
      }
      if (thrOf.count(k) && !sameThr(g.thr, thrOf[k])) bad(T({"C06"}), "threshold", "the saved group file records another threshold than the grouping's");
      if (distOf.count(k) && g.dist != distOf[k]) bad(T({"C06"}), "distance", "the saved group file names another distance than the grouping's");
      if (have && !sameThr(g.thr, m.thr)) bad(T({"C06"}), "threshold", "recorded threshold is wrong");
      if (have) { GroupProv q; q.v = d->v; q.rows = d->rows; q.cols = d->cols; q.g = m; q.sizes = sizes; gprov[s.s] = q; }
      return;
    }
    if (o == "loadg") {
      const FileObs* f = fileOf(so, s.s, false); ref::RGroups g; std::string why;
      if (!d->loaded) return;
      ref::GCls c = !f || !f->exists ? ref::G_INVALID : ref::classifyGroups(f->bytes, d->rows, d->cols, g, why);
      auto pv = gprov.find(s.s); bool own = pv != gprov.end() && !pv->second.sizes && f && f->exists && pv->second.rows == d->rows && pv->second.cols == d->cols && ref::sameVals(pv->second.v, d->v);
      cov(c == ref::G_VALID ? "groupfile.intact" : c == ref::G_INVALID ? "groupfile.broken" : "groupfile.unclear");
      if (r.ok) {
        if (c == ref::G_INVALID && !ext) { refused(T({"C07"}), "the group file is torn, damaged or foreign" + (why.empty() ? "" : " (" + why + ")")); }
        if (e) {
          DsSnap x = *e; x.groups = d->groups; x.grouped = d->grouped;
          if (!(x == *d)) bad(T({"C07", "C05"}), "side-effect", "loading groups changed values or flags");
          ref::RGroups h; std::string w2;
          if (!e->grouped) bad(T({"C05"}), "flag", "dataset does not count as grouped");
          else if (!ref::parseGroupsStrict(e->groups, h, w2)) bad(T({"C05", "C07"}), "format", "the loaded grouping cannot be read: " + w2);
          else if (!ref::partitionOk(h, d->rows, d->cols, w2)) bad(T({"C07"}), "partition", "loaded grouping: " + w2);
          else if (!ext && c != ref::G_INVALID) {
            if (!ref::sameGroups(g, h, 0, w2)) bad(T({"C05"}), "content", "loaded grouping differs from the file: " + w2);
            if (!r.i.empty() && r.i[0] != h.total()) bad(cli ? T({"C05", "C11"}) : T({"C05"}), "count", "reports a wrong number of groups");
            if (own && !ref::sameGroups(pv->second.g, h, 0, w2)) bad(T({"C05"}), "roundtrip", "reloaded grouping differs from the saved one: " + w2);
          }
        }
        others(so, k, T({"C07"})); loadedGroups.insert(k);
        forgetThr(k); if (c == ref::G_VALID && !ext) { thrOf[k] = g.thr; distOf[k] = g.dist; }
      } else {
        if (c == ref::G_VALID) { auto t = T({"C07"}); if (own) t.insert("C05"); wrongErr(t, "the group file is intact and fits"); }
        unchanged(so, tagErr({"C07"}), "failed group load");
      }
      return;
    }
    if (o == "dist") {
      int64_t i = s.a[1], st = s.a[2], len = s.a[3]; bool eu = s.s == "euclidean", known = eu || s.s == "euclidean_dtw";
      if (!known || i < 0 || i >= d->rows || st < 0 || len <= 0 || st + len > d->cols || (eu && (size_t)len != s.d.size())) { refused(T({"C10"}), "there is no such distance, series or range, or the lengths differ"); }
      else if (!r.ok) wrongErr(T({"C10"}), "the distance exists");
      else {
        const double* x = &d->v[(size_t)(i * d->cols + st)]; std::vector<double> own(x, x + len);
        if (!ref::wild(own) && !ref::wild(s.d) && r.d.size() == 1) {
          double want = eu ? ref::euclid(x, s.d.data(), (int)len) : ref::dtw(x, (int)len, s.d.data(), (int)s.d.size(), ratio);
          if (!ref::close(want, r.d[0], 1e-9)) bad(T({"C10"}), "distance", "the distance to part of a series is not that of its present values");
        }
      }
      unchanged(so, T({"C10", "C03"}), "asking for a distance"); return;
    }
    if (o == "match" || o == "matchx") {
      std::vector<double> q; bool expErr = false; std::string why;
      if (o == "matchx") q = s.d;
      else {
        const DsSnap* qd = cur.find((int)s.a[1]); int64_t i = s.a[2], st = s.a[3], en = s.a[4];
        if (!qd) { expErr = true; why = "the query dataset is not loaded"; }
        else if (i < 0 || i >= qd->rows) { expErr = true; why = "there is no such series"; }
        else {
          if (st < 0 && en < 0) { st = 0; en = qd->cols; }
          if (st < 0 || st >= en || en > qd->cols) { expErr = true; why = "there is no such range"; }
          else for (int64_t j = st; j < en; j++) q.push_back(qd->v[(size_t)(i * qd->cols + j)]);
        }
      }
      ref::RGroups g; std::string w2; bool parsed = d->grouped && ref::parseGroupsStrict(d->groups, g, w2);
      if (!expErr && !d->grouped) { expErr = true; why = "the dataset is not grouped"; }
      if (!expErr && q.size() < 2) { expErr = true; why = "the query is too short"; }
      if (!expErr && d->grouped && !parsed) { unchanged(so, T({"C09", "C16"}), "a query"); return; }
      if (!expErr && !ref::hasCandidate(g, (int)q.size(), ratio)) { expErr = true; why = "no group is comparable with the query"; cov("match.nocandidate"); }
      if (expErr) { refused(T({"C09"}), why); if (!r.ok) unchanged(so, tagErr({"C09"}), "refused query"); return; }
      if (ref::wild(d->v) || ref::wild(q)) { unchanged(so, T({"C09", "C16"}), "a query"); return; }   // distances that are not numbers have no best
      bool lg = loadedGroups.count(k) > 0;
      if (!r.ok) { auto t = T({"C09"}); if (lg) t.insert("C05"); wrongErr(t, "the query has an answer"); unchanged(so, tagErr({"C09"}), "failed query"); return; }
      unchanged(so, T({"C09", "C16"}), "a query");
      if (r.i.size() < 3 || r.d.empty()) { if (cli) bad(T({"C11"}), "answer", "the best match cannot be read from the answer"); return; }
      cov(lg ? "match.reloaded" : "match.grouped"); if ((int)q.size() != (int)r.i[2]) cov("match.otherlength"); if (r.d[0] > 0) cov("match.nonzero");
      if (!ref::matchOk(g, tab(*d), q, ratio, (int)r.i[0], (int)r.i[1], (int)r.i[2], r.d[0], cli ? 1e-3 : 0, why)) {
        auto t = T({"C09"}); if (cli) t.insert("C11"); bad(t, "match", why); }
      std::string base = bytesOf(d->v) + bytesOf({(double)d->rows, ratio, (double)q.size()}) + bytesOf(q);
      if (!cli) {
        std::string key = base + d->groups; auto it = memo.find(key);
        if (it == memo.end()) memo[key] = Answer{true, r.i[0], r.i[1], r.i[2], r.d[0], false};
        else { cov("match.repeated"); const Answer& a = it->second; if (a.i != r.i[0] || a.s != r.i[1] || a.l != r.i[2] || !ref::close(a.d, r.d[0], 1e-12)) bad(T({"C16"}), "memo", "the same query was answered differently before"); }
      }
      { std::string key = base + canon(g); auto it = cmemo.find(key);
        if (it == cmemo.end()) cmemo[key] = Answer{true, r.i[0], r.i[1], r.i[2], r.d[0], cli};
        else { const Answer& a = it->second; double tol = a.coarse || cli ? 1e-3 : 1e-9; if (lg) cov("match.aftersave");
          double df = std::fabs(a.d - r.d[0]); if (df > tol * (std::fabs(a.d) + std::fabs(r.d[0])) + 1e-12 + (tol > 1e-6 ? 1e-9 : 0)) { auto t = T({"C16"}); if (lg) t.insert("C05"); bad(t, "memo", "the same query gave another distance before"); } } }
      return;
    }
  }

  // ---------------------------------------------------------------- command line
  static bool has(const std::string& t, const char* w) { return t.find(w) != std::string::npos; }
  // 0 error, 1 value, 2 unclear
  static int cliInt(const std::string& t, int64_t& v) {
    size_t i = 0; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t d = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++;
    if (i == d) { // a stream of blanks before digits would be skipped by a lenient reader
      if (!t.empty() && isspace((unsigned char)t[0])) return 2; return 0; }
    if (i - d > 12) return 0; v = strtoll(t.c_str(), 0, 10); if (v > 2147483647ll || v < -2147483648ll) return 0;
    return i == t.size() ? 1 : 2;
  }
  static int cliNum(const std::string& t, double& v) {
    char* e; v = strtod(t.c_str(), &e); if (e == t.c_str()) return 0; if (std::isinf(v)) return has(t, "n") ? 2 : 0;
    if (std::isnan(v)) return 2;
    for (char c : t) if (!strchr("0123456789+-.eE", c)) return 2;
    return *e ? 2 : 1;
  }
  void cliLine(const Step& s, const StepObs& so) {
    const std::string& t = so.text; bool err = has(t, "Error!");
    auto T = [&](std::initializer_list<const char*> l) { std::set<std::string> x; for (auto w : l) x.insert(w); return x; };
    if (s.op == "eof") {
      std::vector<std::string> rep; if (s.a[0] > 0) { std::istringstream in(s.s); std::string r; while (std::getline(in, r)) rep.push_back(r); }
      bool end = true; for (auto& r : rep) { if (r == "y" || r == "") { end = true; break; } if (r == "n") { end = false; break; } }
      if (end && !so.ended) bad(T({"C11"}), "session", "confirmed end of input did not end the session");
      if (!end && so.ended) bad(T({"C11"}), "session", "the session ended although the end of input was not confirmed");
      if (so.ended && so.code != 0) bad(T({"C11"}), "exitcode", "the session ended with status " + std::to_string(so.code));
      if (!so.ended) unchanged(so, T({"C11"}), "end of input"); return;
    }
    if (so.fired & ALLOCF && err) {   // out of memory: an error, with nothing changed; at worst it ends the session, cleanly
      { std::istringstream in(s.s); std::string w; while (in >> w) dropProv(w); }
      if (so.ended && so.code != 0) bad(T({"C11"}), "exitcode", "the session ended with status " + std::to_string(so.code));
      if (!so.ended) unchanged(so, T({"C12", "C03"}), "a line refused for lack of memory");
      return;
    }
    std::vector<std::string> a; { std::string c; for (char ch : s.s) { if (ch == ' ') { if (!c.empty()) a.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) a.push_back(c); }
    if (!a.empty() && a[0].compare(0, 2, "//") != 0 && (a[0] == "quit" || a[0] == "exit")) {
      if (!so.ended) bad(T({"C11"}), "session", "'" + a[0] + "' did not end the session");
      else if (so.code != 0) bad(T({"C11"}), "exitcode", "the session ended with status " + std::to_string(so.code));
      return;
    }
    if (so.ended) { bad(T({"C11"}), "session", "the session ended on the line '" + s.s + "'"); return; }
    bool pressed = so.fired & ALLOCF;   // a string stream that runs out of memory truncates its text: only a silent line is wrong then
    if (a.empty() || a[0].compare(0, 2, "//") == 0) { unchanged(so, T({"C11"}), "a blank or comment line"); return; }
    static const std::map<std::string, const char*> phrase = { {"load", "Dataset loaded"}, {"save", "Saved dataset"}, {"unload", "is unloaded"}, {"timer", "Timer is"},
      {"group", "is now grouped"}, {"saveGroup", "Saved groups"}, {"loadGroup", "groups loaded"}, {"normalize", "is now normalized"}, {"paa", "PAA-ed"}, {"match", "Best Match"} };
    size_t nerr = 0; for (size_t p = t.find("Error!"); p != std::string::npos; p = t.find("Error!", p + 1)) nerr++;
    if (nerr > 1) bad(T({"C11"}), "answer", "more than one error for one line");
    auto mustErr = [&](const char* why) { if (!err) bad(T({"C11"}), "accepted", std::string(why) + ", but no error is reported for '" + s.s + "'"); unchanged(so, T({"C11", "C03"}), "a refused line"); };
    const std::string& c = a[0]; size_t n = a.size();
    if (c == "help") {
      if (n > 2) mustErr("too many arguments"); else { if (n == 2 && !phrase.count(a[1]) && a[1] != "help" && a[1] != "exit" && a[1] != "quit" && a[1] != "list") mustErr("there is no such command"); else { if (err) bad(T({"C11"}), "refused", "help reports an error"); else if (t.size() < 10 && !pressed) bad(T({"C11"}), "answer", "help answers nothing"); } unchanged(so, T({"C11"}), "help"); }
      return;
    }
    if (c == "list") {
      if (n != 2) { mustErr("wrong number of arguments"); return; }
      if (pressed && (a[1] == "distance" || a[1] == "dataset")) { unchanged(so, T({"C11"}), "list"); return; }
      if (a[1] == "distance") { if (err || !has(t, "euclidean")) bad(T({"C11"}), "answer", "list distance gives no list"); }
      else if (a[1] == "dataset") {
        std::string want = "There are " + std::to_string(cur.n) + " loaded datasets"; if (err || !has(t, want.c_str())) bad(T({"C11", "C01"}), "listing", "the listing does not report " + std::to_string(cur.n) + " datasets");
        for (auto& d : cur.ds) if (!has(t, d.name.c_str())) bad(T({"C11", "C01"}), "listing", "a loaded dataset is not listed");
      } else mustErr("unknown object");
      unchanged(so, T({"C11"}), "list"); return;
    }
    auto ph = phrase.find(c);
    if (ph == phrase.end()) { mustErr("unknown command"); return; }
    bool said = has(t, ph->second);
    if (pressed && !err && t.find_first_not_of(" \n\r\t") != std::string::npos) {
      std::vector<const char*> parts; if (c == "load" || c == "paa") parts = {"ID:", "Item count:", "Item length:"}; else if (c == "group") parts = {"Number of Groups:"}; else if (c == "match") parts = {"Distance = "};
      bool whole = said && t.size() > 2 && t.compare(t.size() - 2, 2, "\n\n") == 0; for (auto w : parts) { size_t p = t.find(w); if (p == std::string::npos || t.find_first_of("0123456789", p) == std::string::npos) whole = false; }
      if (!whole) { if (c == "timer") { if (n == 2) timerOn = a[1] == "on"; } else { std::istringstream in(s.s); std::string w; while (in >> w) dropProv(w); loadedGroups.clear(); thrOf.clear(); distOf.clear(); } return; }
    }
    if (err == said) bad(T({"C11"}), "answer", err ? "both a result and an error" : "neither a result nor an error for '" + s.s + "'");
    if (c == "timer") {
      bool okArgs = n == 1 || (n == 2 && (a[1] == "on" || a[1] == "off")); if (!okArgs) mustErr("bad timer argument"); else if (err) bad(T({"C11"}), "refused", "timer reports an error");
      else { if (n == 2) timerOn = a[1] == "on"; if (has(t, "Timer is ON") != timerOn || has(t, "Timer is OFF") == timerOn) bad(T({"C11"}), "timer", "the timer is reported to be in the wrong state"); }
      unchanged(so, T({"C11"}), "timer"); return;
    }
    static const std::map<std::string, std::pair<size_t, size_t>> arity = { {"load", {2, 5}}, {"save", {3, 4}}, {"unload", {2, 5}}, {"group", {3, 3}}, {"saveGroup", {3, 4}}, {"loadGroup", {3, 3}}, {"normalize", {2, 2}}, {"paa", {3, 3}}, {"match", {4, 6}} };
    auto ar = arity.at(c);
    if (n < ar.first || n > ar.second || (c == "match" && n == 5)) { mustErr("wrong number of arguments"); return; }
    // translate into the operation it stands for
    Step q; q.uid = s.uid; Result r; r.has = true; r.ok = !err; r.msg = t.substr(0, 80); int unclear = 0, bade = 0;
    auto I = [&](size_t i) { int64_t v = 0; int x = cliInt(a[i], v); if (x == 0) bade++; if (x == 2) unclear++; return v; };
    auto num = [&](const char* label) { size_t p = t.find(label); return p == std::string::npos ? -99999 : strtoll(t.c_str() + p + strlen(label), 0, 10); };
    if (c == "load") { q.op = "load"; q.s = a[1]; q.a[1] = n > 2 ? I(2) : 0; q.a[2] = n > 3 ? I(3) : 0; q.s2 = n > 4 ? a[4] : " "; r.i = { num("ID:"), num("Item count:"), num("Item length:") }; }
    else if (c == "save") { q.op = "save"; q.a[0] = I(1); q.s = a[2]; q.s2 = n == 4 ? a[3].substr(0, 1) : " "; }
    else if (c == "unload") { q.op = "unload"; q.a[0] = I(1); if (n > 2) unclear++; }
    else if (c == "group") { q.op = "group"; q.a[0] = I(1); double v = 0; int x = cliNum(a[2], v); if (x == 0) bade++; if (x == 2) unclear++; q.d.push_back(v); r.i = { num("Number of Groups:") }; }
    else if (c == "saveGroup") { q.op = "saveg"; q.a[0] = I(1); q.s = a[2]; q.a[1] = n == 4 ? I(3) : 0; }
    else if (c == "loadGroup") { q.op = "loadg"; q.a[0] = I(1); q.s = a[2]; size_t p = t.find(" groups loaded"); if (p != std::string::npos) { size_t b = p; while (b > 0 && isdigit((unsigned char)t[b - 1])) b--; r.i = { strtoll(t.c_str() + b, 0, 10) }; } }
    else if (c == "normalize") { q.op = "norm"; q.a[0] = I(1); }
    else if (c == "paa") { q.op = "paa"; q.a[0] = I(1); q.a[1] = I(2); r.i = { num("ID:"), num("Item count:"), num("Item length:") }; }
    else if (c == "match") {
      q.op = "match"; q.a[0] = I(1); q.a[1] = I(2); q.a[2] = I(3); q.a[3] = n > 4 ? I(4) : -1; q.a[4] = n > 5 ? I(5) : -1;
      size_t p = t.find("Distance = ");
      if (!err && p != std::string::npos) { r.i = { num("timeseries "), num("starting at "), num("with length ") }; r.d = { strtod(t.c_str() + p + 11, 0) }; }
    }
    if (r.ok && !r.i.empty() && r.i[0] == -99999 && said) { bad(T({"C11"}), "answer", "the answer lacks its numbers"); }
    if (said && !pressed && (c == "group" || c == "match") && has(t, "Command executed in") != timerOn) bad(T({"C11"}), "timer", timerOn ? "the timer is on, but the command is not timed" : "the timer is off, but the command is timed");
    if (bade) { mustErr("a number cannot be read"); dropProvFor(q); return; }
    if (unclear) { if (err) unchanged(so, T({"C11", "C03"}), "a refused line"); dropProvFor(q); loadedGroups.clear(); thrOf.clear(); distOf.clear(); return; }
    if (q.op == "group" && q.d[0] < 0) q.s = "";   // negative thresholds: only the partition is checked
    op(q, r, so);
  }
  void dropProvFor(const Step& q) { if (!q.s.empty()) dropProv(q.s); }

  // ---------------------------------------------------------------- time series values
  struct V { bool present = false, dead = false, owner = false; int64_t index = 0, start = 0, end = 0; std::vector<double> v; int buf = -1; bool shared = false; };   // shared: its memory was changed through another object
  V tv[6]; double tb[3][24];
  std::vector<double> valOf(const V& x) { if (x.owner) return x.v; std::vector<double> o; for (int64_t i = x.start; i < x.end; i++) o.push_back(tb[x.buf][i]); return o; }
  void values(const Step& s, const StepObs& so) {
    const std::string& o = s.op; int64_t k = s.a[0] % 6, j = s.a[1]; const Result& r = so.res; bool fault = so.fired != 0;
    auto T = [&]() { return std::set<std::string>{"C15"}; };
    bool expErr = false, overlap = false; V old[6]; for (int i = 0; i < 6; i++) old[i] = tv[i];
    auto ok2 = [&](int64_t i) { return i >= 0 && i < 6 && tv[i].present && !tv[i].dead; };
    if (o == "tnew") { V n; n.present = n.owner = true; n.end = (int64_t)s.d.size(); n.v = s.d; tv[k] = n; }
    else if (o == "tview") { V n; n.present = true; n.buf = (int)(j % 3); n.index = s.a[4]; n.start = s.a[2]; n.end = s.a[3]; tv[k] = n; }
    else if (o == "tzero") { V n; n.present = n.owner = true; n.end = j; n.v.assign((size_t)j, 0.0); tv[k] = n; }
    else if (o == "tview2") { V n; n.present = true; n.buf = (int)(j % 3); n.end = s.a[2]; tv[k] = n; }
    else if (o == "tidx") { if (!tv[k].present) expErr = true; else if (tv[k].dead) return resync(so); else { std::vector<double> x = valOf(tv[k]); if (j < 0 || j >= (int64_t)x.size()) expErr = true; else if (r.ok && (r.d.empty() || r.d[0] != x[(size_t)j])) bad(T(), "values", "reading one point gives another value"); } }
    else if (o == "tcopy") { if (!(j >= 0 && j < 6 && tv[j].present)) expErr = true; else if (tv[j].dead) return resync(so); else { tv[k] = tv[j]; tv[k].shared = false; } }
    else if (o == "tassign") { if (!tv[k].present || j < 0 || j > 5 || !tv[j].present) expErr = true; else if (tv[j].dead) return resync(so); else { tv[k] = tv[j]; if (k != j) tv[k].shared = false; } }
    else if (o == "tmove") { if (!tv[k].present || j < 0 || j > 5 || !tv[j].present) expErr = true; else if (tv[j].dead) return resync(so); else if (k != j) { tv[k] = tv[j]; tv[j].dead = true; } }
    else if (o == "tadd") {
      if (!tv[k].present || j < 0 || j > 5 || !tv[j].present) expErr = true;
      else if (tv[j].dead || tv[k].dead) return resync(so);
      else if (tv[k].end - tv[k].start != tv[j].end - tv[j].start) expErr = true;
      else if (!tv[k].owner && !tv[j].owner && tv[k].buf == tv[j].buf && tv[k].start != tv[j].start && tv[k].start < tv[j].end && tv[j].start < tv[k].end) overlap = true;   // partly overlapping memory
      else { std::vector<double> x = valOf(tv[k]), y = valOf(tv[j]); if (x.size() != y.size()) expErr = true; else for (size_t i = 0; i < x.size(); i++) { if (tv[k].owner) tv[k].v[i] += y[i]; else tb[tv[k].buf][tv[k].start + (int64_t)i] += y[i]; } }
    }
    else if (o == "tdel") { if (!tv[k].present) expErr = true; else tv[k] = V(); }
    else if (o == "tset") { tb[j % 3][s.a[2] % 24] = s.d[0]; }
    else if (o == "ratio") { if (!(s.d[0] >= 0)) expErr = true; else if (r.ok) ratio = s.d[0]; }
    else if (o == "tenv" || o == "tkeogh" || o == "tcross") { if (!ok2(k) || (o != "tenv" && !ok2(j))) return resync(so); }
    if (expErr) { if (r.ok) bad(T(), "accepted", "the operation must be refused"); }
    else if (!r.ok) { if (!fault) bad(T(), "refused", "the operation failed: " + r.msg); }
    if (!r.ok) for (int i = 0; i < 6; i++) { bool wasDead = tv[i].dead && o == "tmove"; tv[i] = old[i]; (void)wasDead; }
    if (o == "tadd" && !expErr && tv[k].present && !tv[k].owner) for (int i = 0; i < 6; i++) if (i != k && tv[i].present && !tv[i].owner && tv[i].buf == tv[k].buf) tv[i].shared = true;
    if (o == "tadd" && !expErr && (!r.ok || overlap)) return resync(so);
    bool sh = (k >= 0 && k < 6 && tv[k].shared) || ((o == "tkeogh" || o == "tcross") && j >= 0 && j < 6 && tv[j].shared);
    cov((r.ok ? "ok." : "err.") + o);
    if (r.ok && o == "tenv" && !sh) {
      std::vector<double> x = valOf(tv[k]); int len = (int)x.size(), b = (int)std::min<int64_t>(j, len - 1);
      if ((int)r.d.size() != 2 * len) { bad(T(), "envelope", "the envelope has the wrong length"); }
      else for (int i = 0; i < len; i++) {
        double lo = x[i], up = x[i]; for (int q = std::max(0, i - b); q <= std::min(len - 1, i + b); q++) { lo = std::min(lo, x[q]); up = std::max(up, x[q]); }
        if (r.d[2 * i] != lo || r.d[2 * i + 1] != up) { bad(T(), "envelope", "the envelope for band " + std::to_string(j) + " is not the minimum and maximum at point " + std::to_string(i)); break; }
      }
    }
    if (r.ok && (o == "tkeogh" || o == "tcross") && !sh) {
      auto lb = [&](const std::vector<double>& x, const std::vector<double>& y) {
        int mx = (int)std::max(x.size(), y.size()), len = (int)std::min(x.size(), y.size()); int b = std::min(ref::bandSize(mx, ratio), (int)x.size() - 1); double sum = 0;
        for (int i = 0; i < len; i++) { double lo = x[i], up = x[i]; for (int q = std::max(0, i - b); q <= std::min((int)x.size() - 1, i + b); q++) { lo = std::min(lo, x[q]); up = std::max(up, x[q]); } double d = y[i] > up ? y[i] - up : y[i] < lo ? y[i] - lo : 0; sum += d * d; }
        return std::sqrt(sum) / (2.0 * mx); };
      std::vector<double> x = valOf(tv[k]), y = valOf(tv[j]); double e = lb(x, y); if (o == "tcross") e = std::max(e, lb(y, x));
      if (r.d.empty() || !ref::close(e, r.d[0], 1e-9)) bad(T(), "bound", "the lower bound does not use the current envelope");
      if (o == "tcross" && r.d.size() > 1) {
        double dt = ref::dtw(x.data(), (int)x.size(), y.data(), (int)y.size(), ratio);
        if (std::isfinite(dt) && !ref::close(dt, r.d[1], 1e-9)) bad(T(), "distance", "the warped distance is wrong");
      }
    }
    compareTs(so);
  }
  void compareTs(const StepObs& so) {
    if (!so.hasTs) return;
    auto T = [&]() { return std::set<std::string>{"C15"}; };
    for (int i = 0; i < 6; i++) {
      const TsObj& t = so.ts[i]; V& m = tv[i];
      if (t.present != m.present) { bad(T(), "object", "object " + std::to_string(i) + " is missing"); continue; }
      if (!m.present || m.dead) continue;
      if (t.dead) { bad(T(), "values", "object " + std::to_string(i) + " lost its data"); continue; }
      if (t.index != m.index || t.start != m.start || t.end != m.end || t.length != m.end - m.start) bad(T(), "position", "object " + std::to_string(i) + " has the wrong position");
      else if (t.v != valOf(m)) bad(T(), "values", "object " + std::to_string(i) + " has the wrong values");
    }
    for (int b = 0; b < 3; b++) for (int i = 0; i < 24; i++) if (so.bufs[b * 24 + i] != tb[b][i]) { bad(T(), "buffer", "memory the object does not own was changed"); b = 3; break; }
  }
  void resync(const StepObs& so) {   // outside what is specified: take over what is there
    if (!so.hasTs) return;
    for (int i = 0; i < 6; i++) { const TsObj& t = so.ts[i]; if (!t.present) { tv[i] = V(); continue; } if (!tv[i].present) { tv[i].present = true; tv[i].dead = true; } if (t.dead) tv[i].dead = true; else if (tv[i].owner) { tv[i].v = t.v; } }
    for (int b = 0; b < 3; b++) for (int i = 0; i < 24; i++) tb[b][i] = so.bufs[b * 24 + i];
  }

  // ---------------------------------------------------------------- files on the disk
  // Nothing but the target of a save changes, and not even that when the save is refused before it starts.
  void files(const Step& s, const StepObs& so) {
    std::string target, why; int64_t id = -1; bool group = false, known = p.snapEvery && !p.cycles && driver != 'T';
    if (s.op == "save" || s.op == "saveg") { target = s.s; id = s.a[0]; group = s.op == "saveg"; if (driver == 'D' && id < 0) known = false; }
    else if (s.op == "line") {
      std::vector<std::string> a; { std::string c; for (char ch : s.s) { if (ch == ' ') { if (!c.empty()) a.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) a.push_back(c); }
      if (a.size() >= 3 && (a[0] == "save" || a[0] == "saveGroup")) { target = a[2]; group = a[0] == "saveGroup"; int x = cliInt(a[1], id); if (x == 0) why = "its handle is not a number"; if (x == 2) known = false; if (a.size() > 4) why = "it has too many arguments"; }
    }
    if (known && !target.empty() && why.empty()) { const DsSnap* d = cur.find((int)id); if (!d) why = "its handle is not in use"; else if (group && !d->grouped) why = "the dataset has no groups"; }
    if (!known) why.clear();
    if (!target.empty()) cov(why.empty() ? "save:attempted" : "save:refused");
    for (auto& x : so.disk) {
      static const std::map<char, const char*> how = { {'n', "created"}, {'c', "changed"}, {'g', "removed"} };
      if (!target.empty() && x.first == target) { if (!why.empty()) bad({"C18"}, "refusedsave", "the file " + x.first + " was " + how.at(x.second) + " by a save although " + why); continue; }
      if (x.second == 'n' && !target.empty() && (!so.done || so.fired)) continue;   // what is left of a save that failed or died
      bad({"C18"}, "otherfile", "the file " + x.first + " was " + how.at(x.second) + ", which is not what the operation writes");
    }
  }

  // ---------------------------------------------------------------- crashes
  std::set<std::string> crashTags(int step, uint32_t fired) {
    std::set<std::string> t; if (driver == 'C') t.insert("C11"); if (driver == 'T') t.insert("C15");
    if (step >= 0 && step < (int)p.steps.size()) {
      std::string o = p.steps[step].op; const Step& s = p.steps[step];
      if (o == "line") { std::istringstream in(s.s); in >> o; }
      if (o == "load") { t.insert("C02"); }
      else if (o == "save") t.insert("C04"); else if (o == "group") t.insert("C08"); else if (o == "saveg" || o == "saveGroup") t.insert("C06");
      else if (o == "loadg" || o == "loadGroup") { t.insert("C07"); t.insert("C05"); } else if (o == "match" || o == "matchx") { t.insert("C09"); if (!loadedGroups.empty()) t.insert("C05"); }
      else if (o == "norm" || o == "paa" || o == "normalize" || o == "dist") t.insert("C10"); else if (o == "unload" || o == "unloadall" || o == "session" || o == "info" || o == "restart" || o == "snap") t.insert("C01");
      if (fired & IOF) t.insert("C03");
    }
    if (allocFired && baseClean) { t.insert("C12"); t.insert("C03"); }
    return t;
  }

  void run() {
    for (life = 0; life < (int)R.lives.size(); life++) {
      const Life& L = R.lives[life]; driver = L.driver; cur = Snap(); cur.present = true; ratio = 0.1; allocFired = false; faultFailed = false; timerOn = true; loadedGroups.clear(); thrOf.clear(); distOf.clear();
      otherCur = cur; otherLoaded.clear(); otherThr.clear(); otherDist.clear();
      for (auto& v : tv) v = V(); for (int b = 0; b < 3; b++) for (int i = 0; i < 24; i++) tb[b][i] = (double)(((b * 31 + i * 7) % 13) - 6) / 4;
      uint32_t lastFired = 0;
      for (const StepObs& so : L.steps) {
        const Step& s = p.steps[so.step]; idx = so.step;
        if (s.op == "put" || s.op == "mod" || s.op == "drop") dropProv(s.s);
        if (s.op == "copy") { auto a = prov.find(s.s); if (a != prov.end()) { FileProv x = a->second; dropProv(s.s2); prov[s.s2] = x; } else { auto g = gprov.find(s.s); bool h = g != gprov.end(); GroupProv x; if (h) x = g->second; dropProv(s.s2); if (h) gprov[s.s2] = x; } }
        if (isDiskStep(s.op) || s.op == "restart") continue;
        files(s, so);
        if (!so.done) { if (s.op == "save" || s.op == "saveg") dropProv(s.s); if (s.op == "line") { std::istringstream in(s.s); std::string w; while (in >> w) dropProv(w); } continue; }
        lastFired = so.fired; if (so.fired & ALLOCF) allocFired = true;
        if (p.cycles) continue;
        if (driver == 'T') { values(s, so); continue; }
        if (!p.snapEvery && !so.snap.present) continue;
        if (driver == 'C') cliLine(s, so); else op(s, so.res, so);
        if (so.snap.present) {
          if (so.snap.count != so.snap.n) bad({"C01"}, "count", "dataset count " + std::to_string(so.snap.count) + " but " + std::to_string(so.snap.n) + " listed");
          std::set<int> ids; for (auto& d : so.snap.ds) if (!ids.insert(d.id).second) bad({"C01"}, "handle", "a handle is listed twice");
          for (auto& d : so.snap.ds) if (!d.valsOk && d.loaded) bad({"C01", "C04"}, "unreadable", "a dataset cannot be read back");
          cur = so.snap;
          uint64_t h = mix64(so.fired + 77 * (so.res.ok ? 1 : 2)); for (char c : s.op) h = mix64(h ^ (uint64_t)c);
          for (auto& d : cur.ds) { h = mix64(h ^ (uint64_t)(d.id * 1000003 + d.rows * 1009 + d.cols * 4 + d.norm * 2 + d.grouped)); for (char c : d.groups) h = h * 1099511628211ull + (unsigned char)c; }
          J.states.insert(h);
        }
      }
      if (L.failed) {
        idx = L.last; if (idx >= (int)p.steps.size()) idx = (int)p.steps.size() - 1;
        uint32_t f = shm->firedMask; (void)lastFired; if (f & ALLOCF) allocFired = true;
        bad(crashTags(idx, f), "crash", L.how);
      } else if (!L.simCrash && !L.clean) { idx = L.last; }
      if (L.driver == 'C' && L.finalText && L.finalCode != 0) { idx = L.last; bad({"C11"}, "exitcode", "the session ended with status " + std::to_string(L.finalCode)); }
    }
  }
};

void checkRun(const Plan& p, const RunObs& r, bool baseClean, Judge& out) { Checker c(p, r, baseClean, out); c.run(); }

Plan stripFaults(const Plan& p) { Plan q = p; for (auto& s : q.steps) s.faults.clear(); return q; }
bool hasFaults(const Plan& p) { for (auto& s : p.steps) if (!s.faults.empty()) return true; return false; }

static std::string stripText(const std::string& t) {
  std::istringstream in(t); std::string l, o;
  while (std::getline(in, l)) { if (l.find("Command executed in") != std::string::npos || l.find("Processing time series space") != std::string::npos || l.find("Grouping progress") != std::string::npos) continue; o += l + "\n"; }
  return o;
}
// what two runs in different environments must have in common
static std::string twinDiff(const RunObs& a, const RunObs& b, int& step) {
  step = -1;
  for (size_t l = 0; l < std::max(a.lives.size(), b.lives.size()); l++) {
    if (l >= a.lives.size() || l >= b.lives.size()) return "one run ended earlier";
    const Life &x = a.lives[l], &y = b.lives[l];
    for (size_t i = 0; i < std::max(x.steps.size(), y.steps.size()); i++) {
      if (i >= x.steps.size() || i >= y.steps.size()) return "one run stopped earlier" + (x.failed ? ": " + x.how : y.failed ? ": " + y.how : std::string());
      const StepObs &s = x.steps[i], &t = y.steps[i]; step = s.step;
      if (s.done != t.done) return "one run did not finish the step" + (x.failed ? ": " + x.how : y.failed ? ": " + y.how : std::string());
      if (s.res.ok != t.res.ok || s.res.kind != t.res.kind) return "one run reports an error";
      if (s.res.msg != t.res.msg) return "different messages";
      if (s.res.i != t.res.i) return "different results";
      if (std::string((const char*)s.res.d.data(), s.res.d.size() * 8) != std::string((const char*)t.res.d.data(), t.res.d.size() * 8)) return "different numbers";
      if (stripText(s.text) != stripText(t.text) || s.ended != t.ended || s.code != t.code) return "different answers";
      for (size_t k = 0; k < s.files.size(); k++) if (k >= t.files.size() || s.files[k].exists != t.files[k].exists || s.files[k].bytes != t.files[k].bytes) return "different files written";
      if (s.snap.ds.size() != t.snap.ds.size() || s.snap.count != t.snap.count) return "different datasets";
      for (size_t k = 0; k < s.snap.ds.size(); k++) if (!(s.snap.ds[k] == t.snap.ds[k])) return "a dataset differs";
    }
    if (x.failed != y.failed) return "one run ended abnormally: " + (x.failed ? x.how : y.how);
    if (x.simCrash != y.simCrash) return "one run crashed";
  }
  return "";
}

Judge judge(const Plan& p, RunObs* obsOut, uint64_t* hashOut, uint64_t* execs) {
  Judge J; uint64_t h = 0, n = 0; RunObs R;
  if (p.prop == "C14") {
    Plan q = p; R = execPlan(p); n++; h = R.hash;
    // the other environment: derived from the plan, so the plan file says everything
    q.chunkSeed = p.chunkSeed ? 0 : mix64(p.seed + 11); q.heapSeed = p.heapSeed + 1 + p.seed % 5; q.clockSeed = mix64(p.clockSeed + 1); q.clockMode = (p.clockMode + 1 + (int)(p.seed % 6)) % 7;
    RunObs S = execPlan(q); n++; h = mix64(h ^ S.hash);
    int st; std::string d = twinDiff(R, S, st);
    checkRun(p, R, false, J);
    if (!d.empty()) { Viol v; v.tags = {"C14"}; v.cls = "twin"; v.step = st; v.msg = "step " + std::to_string(st) + (st >= 0 && st < (int)p.steps.size() ? " (" + p.steps[st].op + ")" : "") + ": two environments disagree: " + d; J.all.push_back(v); }
    for (int i = 0; i < F_NKINDS; i++) R.fired[i] += S.fired[i]; R.clockSpan += S.clockSpan; R.clockReads += S.clockReads; R.events += S.events;
  } else if (p.prop == "C13") {
    R = execPlan(p); n++; h = R.hash;
    checkRun(p, R, false, J);
    bool growN = R.live.size() >= 4, growB = growN, growF = growN;
    for (size_t i = 2; i < R.live.size(); i++) { if (R.live[i].n <= R.live[i - 1].n) growN = false; if (R.live[i].bytes <= R.live[i - 1].bytes) growB = false; if (R.live[i].fds <= R.live[i - 1].fds) growF = false; }
    auto add = [&](const char* c, const std::string& m) { Viol v; v.tags = {"C13"}; v.cls = c; v.msg = m; J.all.push_back(v); };
    if (growN || growB) add("leak", "every repetition of the cycle keeps more memory: " + std::to_string(R.live[1].n) + " -> " + std::to_string(R.live.back().n) + " live allocations, " + std::to_string(R.live[1].bytes) + " -> " + std::to_string(R.live.back().bytes) + " bytes");
    if (growF) add("fdleak", "every repetition of the cycle keeps more open files");
  } else {
    bool clean = true;
    if ((p.prop == "C12" || p.prop == "C03") && hasFaults(p)) {
      RunObs B = execPlan(stripFaults(p)); n++; Judge j0; checkRun(stripFaults(p), B, false, j0); clean = j0.all.empty();
    }
    R = execPlan(p); n++; h = R.hash;
    checkRun(p, R, clean, J);
  }
  if (obsOut) *obsOut = R; if (hashOut) *hashOut = h; if (execs) *execs += n;
  return J;
}

}  // namespace sim
