#pragma once
#include <cmath>
#include <vector>
// Problem description shared by the harnesses and the reference solver.  The
// reference is compiled on its own, without instrumentation.
namespace socp {
typedef std::vector<double> Vec;
struct Lin { Vec a; double c = 0; double at(const Vec& x) const { double v = c; for (size_t i = 0; i < a.size(); i++) v += a[i] * x[i]; return v; }
             double mag(const Vec& x) const { double v = std::fabs(c); for (size_t i = 0; i < a.size(); i++) v += std::fabs(a[i] * x[i]); return v; } };
enum Kind { EQ, LE, QUAD, SOC };
struct Con { Kind k; std::vector<Lin> q; Vec w; Lin l; int approx = 0;   // approx: 1 trust region, 2 soft
  double viol(const Vec& x) const {                       // > 0: violated
    double v = l.at(x);
    if (k == EQ) return std::fabs(v);
    if (k == QUAD) for (size_t i = 0; i < q.size(); i++) v += w[i] * q[i].at(x) * q[i].at(x);
    if (k == SOC) { double s = 0; for (auto& e : q) s += e.at(x) * e.at(x); v += std::sqrt(s); }
    return v;
  }
  double mag(const Vec& x) const { double v = 1 + l.mag(x); for (size_t i = 0; i < q.size(); i++) { double m = q[i].mag(x); v += k == QUAD ? w[i] * m * m : m; } return v; } };
struct Prob {
  int n = 0; std::vector<char> bin; std::vector<Con> con; std::vector<Lin> oq; Vec ow; Lin ol; bool boxed = false; double R = 1e4;
  double obj(const Vec& x) const { double v = ol.at(x) - ol.c; for (size_t i = 0; i < oq.size(); i++) v += ow[i] * oq[i].at(x) * oq[i].at(x); return v; }
  double objmag(const Vec& x) const { double v = 1 + ol.mag(x); for (size_t i = 0; i < oq.size(); i++) { double m = oq[i].mag(x); v += ow[i] * m * m; } return v; }
  int nbin() const { int b = 0; for (char c : bin) b += c; return b; }
};

struct Ref { int status = 0;   // 1 strictly feasible optimum, -1 infeasible, 0 undecided
             Vec x; double f = 0; double slack = 0; bool at_r = false; };
struct Truth { bool feasible = false, decided = true; double f = INFINITY; Vec x; double depth = 0; bool at_r = false; };
Ref reference(const Prob& p, const Vec& fixed);
Truth truth(const Prob& p);   // over all binary assignments
}
