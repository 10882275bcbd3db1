// Independent reference: file formats, distances, grouping and search, written from the documentation
// and the property statements, sharing nothing with the code under test.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <utility>

namespace ref {

enum Cls { VALUE, ERROR, ANY };

struct Table { int rows = 0, cols = 0; bool odd = false; std::vector<double> v; };
// what loading these bytes with these arguments must give
Cls parseTable(const std::string& bytes, const std::string& seps, int maxRows, int startCol, Table& out);

bool sameVal(double a, double b);                                          // equal, or both not a number
bool sameVals(const std::vector<double>& a, const std::vector<double>& b);
bool wild(const std::vector<double>& v);                                   // squares of values may not be finite: distances are not checked
bool unusual(const std::vector<double>& v);                                // infinite, not a number or subnormal

struct RGroup { std::vector<double> rep; std::vector<std::pair<int, int>> mem; int size = 0; };
struct RGroups {
  double thr = 0; int rows = 0, cols = 0; std::string dist;
  std::vector<std::vector<RGroup>> byLen;   // index: length, 0 and 1 unused
  int total() const { int n = 0; for (auto& g : byLen) n += (int)g.size(); return n; }
};
enum GCls { G_VALID, G_INVALID, G_AMBIG };
// strict: exactly the documented layout; lenient reading decides G_AMBIG
GCls classifyGroups(const std::string& bytes, int rows, int cols, RGroups& out, std::string& why);
bool parseGroupsStrict(const std::string& bytes, RGroups& out, std::string& why);
bool parseSizesStrict(const std::string& bytes, RGroups& out, std::string& why);
bool partitionOk(const RGroups& g, int rows, int cols, std::string& why);
// same groups, same representatives, same members (order of members inside a group free)
bool sameGroups(const RGroups& a, const RGroups& b, double tol, std::string& why);

double euclid(const double* a, const double* b, int len);                 // sqrt(sum / len)
int bandSize(int len, double ratio);
double dtw(const double* a, int m, const double* b, int n, double ratio); // sqrt(total) / (2 max)
bool greedyOk(const RGroups& g, const Table& t, double thr, std::string& why);

struct Match { bool any = false; };
// is (idx, start, len, dist) an acceptable answer?  any=false: an error is expected
bool hasCandidate(const RGroups& g, int qlen, double ratio);
bool matchOk(const RGroups& g, const Table& t, const std::vector<double>& q, double ratio,
             int idx, int start, int len, double dist, double tolD, std::string& why);
// two distances agree
inline bool close(double a, double b, double tol) {
  if (a == b) return true;
  double d = a > b ? a - b : b - a; double m = (a < 0 ? -a : a) > (b < 0 ? -b : b) ? (a < 0 ? -a : a) : (b < 0 ? -b : b);
  return d <= tol * (1 + m);
}

}  // namespace ref
