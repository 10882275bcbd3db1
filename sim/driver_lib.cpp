// Drivers that run the library inside the simulated process.
#include "config.hpp"
#include "OnexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "TimeSeries.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include "drivers.h"
#include <map>
#include <memory>
#include <new>
#include <unistd.h>

namespace sim {

struct Res {
  bool ok = true; std::string kind, msg; std::vector<int64_t> i; std::vector<double> d;
};
static void logRes(const Res& r) {
  ObsW::u8(O_RES); ObsW::u8(r.ok); ObsW::str(r.kind); ObsW::str(r.msg);
  ObsW::i64((int64_t)r.i.size()); for (auto v : r.i) ObsW::i64(v);
  ObsW::i64((int64_t)r.d.size()); for (auto v : r.d) ObsW::f64(v);
}
static void logCounts() {
  ObsW::u8(O_COUNTS); const Counts& c = shm->cnt;
  ObsW::i64(c.opens); ObsW::i64(c.reads); ObsW::i64(c.seeks); ObsW::i64(c.writes); ObsW::i64(c.closes); ObsW::i64(c.ios); ObsW::i64(c.allocs);
  ObsW::i64(shm->firedMask);
}
template <class F> static Res guarded(F f) {
  Res r;
  paintStack();
  try { f(r); }
  catch (onex::OnexException& e) { r.ok = false; r.kind = "onex"; r.msg = e.what(); }
  catch (std::bad_alloc&) { r.ok = false; r.kind = "bad_alloc"; }
  catch (std::exception& e) { r.ok = false; r.kind = "std"; r.msg = e.what(); }
  catch (...) { r.ok = false; r.kind = "unknown"; }
  shm->inCall = 0;
  return r;
}
static const char* OBS = "/sim/.obs";

// the common part of one operation of drivers D and A
template <class H> static void runSteps(const Plan& p, int from, H& h) {
  for (size_t k = (size_t)from; k < p.steps.size(); k++) {
    const Step& s = p.steps[k];
    ObsW::u8(O_STEP); ObsW::i64((int64_t)k);
    shm->curStep = (int)k;
    if (s.op == "restart") { if (s.a[0] == 0) { h.clear(); } ObsW::u8(O_LIFE_END); return; }
    if (isDiskStep(s.op)) { scheduler(s); continue; }
    bool preF = s.op == "load" || s.op == "loadg", postF = s.op == "save" || s.op == "saveg";
    if (preF) logFile(s.s);
    beginStep((int)k, s.uid, s.faults);
    Res r = h.step(s);
    endStep();
    logRes(r); logCounts(); ObsW::disk(diskDiff());
    if (postF) logFile(s.s);
    if (p.snapEvery || s.op == "snap") h.snap();
  }
  h.clear();
  ObsW::u8(O_LIFE_END);
}

static void putDs(int id, const std::string& name, bool loaded, bool norm, bool grouped, int count, int len,
                  const std::vector<double>& vals, bool valsOk, const std::string& groups) {
  ObsW::i64(id); ObsW::str(name); ObsW::u8(loaded); ObsW::u8(norm); ObsW::u8(grouped); ObsW::i64(count); ObsW::i64(len);
  ObsW::u8(valsOk); ObsW::i64((int64_t)vals.size()); for (double v : vals) ObsW::f64(v); ObsW::str(groups);
}

// ------------------------------------------------------------------ driver D
struct Objects {
  enum { N = 6 };
  onex::GroupableTimeSeriesSet* o[N] = {};
  ~Objects() {}
  void clear() { InCall c; for (auto& x : o) { delete x; x = nullptr; } }
  onex::GroupableTimeSeriesSet& at(int64_t i) {
    if (i < 0 || i >= N || !o[i]) throw onex::OnexException("no such object");
    return *o[i];
  }
  static void cand(Res& r, const onex::candidate_time_series_t& c) {
    r.i = { c.data.getIndex(), c.data.getStart(), c.data.getLength() }; r.d = { (double)c.dist };
  }
  Res step(const Step& s) {
    const std::string& op = s.op; int64_t k = s.a[0];
    std::string path = s.s, t2 = s.s2;
    if (op == "load") return guarded([&](Res& r) {
      if (k < 0 || k >= N) throw onex::OnexException("no such object");
      InCall c;
      if (o[k]) o[k]->loadData(path, (int)s.a[1], (int)s.a[2], t2);
      else {
        std::unique_ptr<onex::GroupableTimeSeriesSet> n(new onex::GroupableTimeSeriesSet());
        n->loadData(path, (int)s.a[1], (int)s.a[2], t2); o[k] = n.release();
      }
      shm->inCall = 0;
      r.i = { k, o[k]->getItemCount(), o[k]->getItemLength() };
    });
    if (op == "save") return guarded([&](Res&) { auto& x = at(k); InCall c; x.saveData(path, t2.empty() ? ' ' : t2[0]); });
    if (op == "unload") return guarded([&](Res&) { at(k); InCall c; delete o[k]; o[k] = nullptr; });
    if (op == "unloadall") return guarded([&](Res&) { clear(); });
    if (op == "norm") return guarded([&](Res& r) { auto& x = at(k); std::pair<onex::data_t, onex::data_t> m; { InCall c; m = x.normalize(); } r.d = { (double)m.first, (double)m.second }; });
    if (op == "paa") return guarded([&](Res& r) { auto& x = at(k); { InCall c; x.PAA((int)s.a[1]); } r.i = { k, x.getItemCount(), x.getItemLength() }; });
    if (op == "group") return guarded([&](Res& r) { auto& x = at(k); int n; std::string dn = s.s.empty() ? "euclidean" : s.s; { InCall c; n = x.groupAllLengths(dn, (onex::data_t)s.d.at(0)); } r.i = { n }; });
    if (op == "saveg") return guarded([&](Res&) { auto& x = at(k); InCall c; x.saveGroups(path, s.a[1] != 0); });
    if (op == "loadg") return guarded([&](Res& r) { auto& x = at(k); int n; { InCall c; n = x.loadGroups(path); } r.i = { n }; });
    if (op == "ratio") return guarded([&](Res&) { InCall c; onex::setWarpingBandRatio(s.d.at(0)); });
    if (op == "match") return guarded([&](Res& r) {
      auto& x = at(k); auto& q = at(s.a[1]); InCall c;
      onex::TimeSeries ts = q.getTimeSeries((int)s.a[2], (int)s.a[3], (int)s.a[4]);
      onex::candidate_time_series_t b = x.getBestMatch(ts); shm->inCall = 0; cand(r, b);
    });
    if (op == "matchx") return guarded([&](Res& r) {
      auto& x = at(k); std::vector<onex::data_t> v(s.d.begin(), s.d.end());
      InCall c; onex::TimeSeries ts(v.data(), (int)v.size());
      onex::candidate_time_series_t b = x.getBestMatch(ts); shm->inCall = 0; cand(r, b);
    });
    if (op == "dist") return guarded([&](Res& r) {
      auto& x = at(k); std::vector<onex::data_t> v(s.d.begin(), s.d.end()); onex::data_t d;
      { InCall c; onex::TimeSeries ts(v.data(), (int)v.size()); d = x.distanceBetween((int)s.a[1], (int)s.a[2], (int)s.a[3], ts, path); }
      r.d = { (double)d };
    });
    if (op == "ungroup") return guarded([&](Res&) { auto& x = at(k); InCall c; x.reset(); });
    if (op == "info") return guarded([&](Res& r) { auto& x = at(k); r.i = { k, x.getItemCount(), x.getItemLength(), x.isGrouped(), x.isNormalized() }; });
    return Res();
  }
  void snap() {
    ObsW::u8(O_SNAP); int n = 0; for (auto x : o) if (x) n++;
    ObsW::i64(n); ObsW::i64(n);
    for (int k = 0; k < N; k++) if (o[k]) {
      auto& x = *o[k]; std::vector<double> v; bool ok = true; std::string g;
      int rows = x.getItemCount(), cols = x.getItemLength();
      try {
        if ((long)rows * cols < 200000 && rows >= 0 && cols >= 0 && x.isLoaded())
          for (int i = 0; i < rows; i++) { onex::TimeSeries t = x.getTimeSeries(i); if (cols == 0) break; for (int j = 0; j < cols; j++) v.push_back((double)t[j]); }
      } catch (...) { ok = false; }
      if (x.isGrouped()) {
        try { x.saveGroups(OBS, false); vget(OBS, g); vdrop(OBS); } catch (...) { g = "!error"; }
      }
      putDs(k, x.getFilePath(), x.isLoaded(), x.isNormalized(), x.isGrouped(), rows, cols, v, ok, g);
    }
  }
};

// ------------------------------------------------------------------ driver A
struct Api {
  onex::OnexAPI *api, *other = nullptr;   // other: a second session of the same process
  Api() { InCall c; api = new onex::OnexAPI(); }
  void clear() { InCall c; delete api; api = nullptr; delete other; other = nullptr; }
  Res step(const Step& s) {
    const std::string& op = s.op; int k = (int)s.a[0];
    std::string path = s.s, t2 = s.s2;
    if (op == "load") return guarded([&](Res& r) {
      onex::dataset_info_t i; { InCall c; i = api->loadDataset(path, (int)s.a[1], (int)s.a[2], t2); shm->inCall = 0; }
      r.i = { i.id, i.itemCount, i.itemLength, i.isGrouped, i.isNormalized }; r.msg = i.name;
    });
    if (op == "save") return guarded([&](Res&) { InCall c; api->saveDataset(k, path, t2.empty() ? ' ' : t2[0]); });
    if (op == "unload") return guarded([&](Res&) { InCall c; api->unloadDataset(k); });
    if (op == "unloadall") return guarded([&](Res&) { InCall c; api->unloadAllDataset(); });
    if (op == "session") return guarded([&](Res&) {
      InCall c;
      if (k) { onex::OnexAPI* n = new onex::OnexAPI(); delete api; api = n; }
      else { if (!other) other = new onex::OnexAPI(); std::swap(api, other); }
    });
    if (op == "norm") return guarded([&](Res& r) { std::pair<onex::data_t, onex::data_t> m; { InCall c; m = api->normalizeDataset(k); } r.d = { (double)m.first, (double)m.second }; });
    if (op == "paa") return guarded([&](Res& r) { onex::dataset_info_t i; { InCall c; i = api->PAA(k, (int)s.a[1]); shm->inCall = 0; } r.i = { i.id, i.itemCount, i.itemLength }; });
    if (op == "group") return guarded([&](Res& r) { int n; { InCall c; n = api->groupDataset(k, (onex::data_t)s.d.at(0)); } r.i = { n }; });
    if (op == "saveg") return guarded([&](Res&) { InCall c; api->saveGroup(k, path, s.a[1] != 0); });
    if (op == "loadg") return guarded([&](Res& r) { int n; { InCall c; n = api->loadGroup(k, path); } r.i = { n }; });
    if (op == "ratio") return guarded([&](Res&) { InCall c; api->setWarpingBandRatio(s.d.at(0)); });
    if (op == "match") return guarded([&](Res& r) {
      InCall c; onex::candidate_time_series_t b = api->getBestMatch(k, (int)s.a[1], (int)s.a[2], (int)s.a[3], (int)s.a[4]); shm->inCall = 0; Objects::cand(r, b);
    });
    if (op == "info") return guarded([&](Res& r) { onex::dataset_info_t i; { InCall c; i = api->getDatasetInfo(k); shm->inCall = 0; } r.i = { i.id, i.itemCount, i.itemLength, i.isGrouped, i.isNormalized }; r.msg = i.name; });
    return Res();
  }
  void snap() {
    ObsW::u8(O_SNAP);
    std::vector<onex::dataset_info_t> all = api->getAllDatasetInfo();
    ObsW::i64((int64_t)all.size()); ObsW::i64(api->getDatasetCount());
    for (auto& i : all) {
      std::vector<double> v; bool ok = true; std::string b, g;
      try {
        api->saveDataset(i.id, OBS, ' '); vget(OBS, b); vdrop(OBS);
        const char* p = b.c_str(); char* e; for (;;) { double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; }
        if ((int64_t)v.size() != (int64_t)i.itemCount * i.itemLength) ok = false;
      } catch (...) { ok = false; }
      if (i.isGrouped) { try { api->saveGroup(i.id, OBS, false); vget(OBS, g); vdrop(OBS); } catch (...) { g = "!error"; } }
      putDs(i.id, i.name, true, i.isNormalized, i.isGrouped, i.itemCount, i.itemLength, v, ok, g);
    }
  }
};

// ------------------------------------------------------------------ driver T
struct Values {
  enum { N = 6, NB = 3, BL = 24 };
  onex::TimeSeries* o[N] = {};
  bool moved[N] = {};   // moved-from objects are only destroyed or assigned to
  onex::data_t buf[NB][BL];
  Values() { for (int b = 0; b < NB; b++) for (int i = 0; i < BL; i++) buf[b][i] = (onex::data_t)(((b * 31 + i * 7) % 13) - 6) / 4; }
  void clear() { InCall c; for (auto& x : o) { delete x; x = nullptr; } }
  onex::TimeSeries& at(int64_t i) { if (i < 0 || i >= N || !o[i]) throw onex::OnexException("no such object"); return *o[i]; }
  onex::TimeSeries& src(int64_t i) { auto& x = at(i); if (moved[i]) throw onex::OnexException("moved-from object"); return x; }
  Res step(const Step& s) {
    const std::string& op = s.op; int64_t k = s.a[0] % N, j = s.a[1];
    if (op == "tnew") return guarded([&](Res&) {
      onex::TimeSeries* n; { InCall c; n = new onex::TimeSeries((int)s.d.size()); for (size_t i = 0; i < s.d.size(); i++) (*n)[(int)i] = (onex::data_t)s.d[i]; delete o[k]; } o[k] = n; moved[k] = false; });
    if (op == "tzero") return guarded([&](Res&) { onex::TimeSeries* n; { InCall c; n = new onex::TimeSeries((int)j); delete o[k]; } o[k] = n; moved[k] = false; });
    if (op == "tview2") return guarded([&](Res&) { onex::TimeSeries* n; { InCall c; n = new onex::TimeSeries(buf[j % NB], (int)s.a[2]); delete o[k]; } o[k] = n; moved[k] = false; });
    if (op == "tidx") return guarded([&](Res& r) { auto& x = src(k); double v; { InCall c; v = (double)x[(int)j]; } r.d = { v }; });
    if (op == "tview") return guarded([&](Res&) {
      onex::TimeSeries* n; { InCall c; n = new onex::TimeSeries(buf[j % NB], (int)s.a[4], (int)s.a[2], (int)s.a[3]); delete o[k]; } o[k] = n; moved[k] = false; });
    if (op == "tcopy") return guarded([&](Res&) { auto& x = src(j); onex::TimeSeries* n; { InCall c; n = new onex::TimeSeries(x); delete o[k]; } o[k] = n; moved[k] = false; });
    if (op == "tassign") return guarded([&](Res&) { auto &y = at(k), &x = src(j); { InCall c; y = x; } moved[k] = false; });
    if (op == "tmove") return guarded([&](Res&) { auto &y = at(k), &x = src(j); { InCall c; y = std::move(x); } if (&x != &y) { moved[k] = false; moved[j] = true; } });
    if (op == "tadd") return guarded([&](Res&) { auto &y = src(k), &x = src(j); InCall c; y += x; });
    if (op == "tdel") return guarded([&](Res&) { at(k); InCall c; delete o[k]; o[k] = nullptr; moved[k] = false; });
    if (op == "tenv") return guarded([&](Res& r) {
      auto& x = src(k); const onex::data_t *lo, *up;
      { InCall c; if (s.a[2]) { up = x.getKeoghUpper((int)j); lo = x.getKeoghLower((int)j); } else { lo = x.getKeoghLower((int)j); up = x.getKeoghUpper((int)j); } }
      int n = x.getLength(); for (int i = 0; i < n; i++) { r.d.push_back((double)lo[i]); r.d.push_back((double)up[i]); } });
    if (op == "tkeogh") return guarded([&](Res& r) { auto &y = src(k), &x = src(j); double v; { InCall c; v = (double)onex::keoghLowerBound(y, x, (onex::data_t)INF_()); } r.d = { v }; });
    if (op == "tcross") return guarded([&](Res& r) { auto &y = src(k), &x = src(j); double v, w; { InCall c; v = (double)onex::crossKeoghLowerBound(y, x, (onex::data_t)INF_()); w = (double)onex::cascadeDistance(y, x, (onex::data_t)INF_()); } r.d = { v, w }; });
    if (op == "ratio") return guarded([&](Res&) { InCall c; onex::setWarpingBandRatio(s.d.at(0)); });
    if (op == "tset") return guarded([&](Res&) { buf[j % NB][s.a[2] % BL] = (onex::data_t)s.d.at(0); });
    return Res();
  }
  static double INF_() { return std::numeric_limits<double>::infinity(); }
  void snap() {
    ObsW::u8(O_TS); ObsW::i64(N);
    for (int q = 0; q < N; q++) {
      auto x = o[q];
      ObsW::u8(x != nullptr); if (!x) continue;
      ObsW::i64(x->getIndex()); ObsW::i64(x->getStart()); ObsW::i64(x->getEnd()); ObsW::i64(x->getLength());
      bool dead = moved[q] || x->getData() == nullptr; ObsW::u8(dead); if (dead) continue;
      for (int i = 0; i < x->getLength(); i++) ObsW::f64((double)(*x)[i]);
    }
    for (auto& b : buf) for (auto v : b) ObsW::f64((double)v);
  }
};

template <class H> static void runCycles(const Plan& p, H& h) {
  liveReset();
  for (int c = 0; c < p.cycles; c++) {
    for (size_t k = 0; k < p.steps.size(); k++) {
      const Step& s = p.steps[k];
      if (c == 0) { ObsW::u8(O_STEP); ObsW::i64((int64_t)k); }
      shm->curStep = (int)k;
      if (isDiskStep(s.op)) { scheduler(s); continue; }
      beginStep((int)k, s.uid, s.faults);
      Res r = h.step(s);
      endStep();
      if (c == 0) { logRes(r); logCounts(); }
    }
    { Step s; s.op = "unloadall"; s.uid = 7; beginStep((int)p.steps.size(), 7, std::vector<Fault>()); h.step(s); endStep(); }
    uint64_t n, b; liveGet(n, b);
    ObsW::u8(O_LIVE); ObsW::i64(c); ObsW::i64((int64_t)n); ObsW::i64((int64_t)b); ObsW::i64(shm->openFds);
  }
  ObsW::u8(O_LIFE_END);
}

void runObjects(const Plan& p, int from) { Objects h; if (p.cycles) runCycles(p, h); else runSteps(p, from, h); }
void runApi(const Plan& p, int from) { Api h; if (p.cycles) runCycles(p, h); else runSteps(p, from, h); }
void runValues(const Plan& p, int from) { Values h; runSteps(p, from, h); }

}  // namespace sim
