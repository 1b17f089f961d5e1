// Random small conic / mixed-binary problems, an own reference solver for them,
// and code that states them to solver::Model through its public interface.
#pragma once
#include "../sim/sim.hpp"
#include "socp_prob.hpp"
#include <solver/interface/Model.hpp>
#include <cmath>
#include <cstring>
#include <memory>
#include <vector>

namespace socp {
using namespace sim;
// ---- generator ------------------------------------------------------------------
inline Lin gen_lin(int n, int lo, int hi, double dens, const char* tag) { Lin l; l.a.assign(n, 0); bool any = false; for (int i = 0; i < n; i++) if (pick(100, tag) < dens * 100) { int v = lo + (int)pick(hi - lo + 1, tag); l.a[i] = v; any |= v != 0; } if (!any) l.a[pick(n, tag)] = 1; l.c = 0; return l; }
inline Con gen_con(const Prob& p, const Vec& x0, bool feasible, bool tight) {
  Con c; int n = p.n; c.k = (Kind)(int)(1 + pick(3, "constraint-kind")); if (chance(0.2, "equality")) c.k = EQ;
  double margin = tight ? 0 : feasible ? 0.5 * (1 + pick(4, "margin")) : -0.5 * (1 + (int)pick(6, "margin"));
  c.l = gen_lin(n, -3, 3, 0.6, "row"); 
  if (c.k == QUAD || c.k == SOC) {
    int m = 1 + (int)pick(3, "terms");
    for (int j = 0; j < m; j++) { Lin q = gen_lin(n, -2, 2, 0.5, "term"); q.c = (int)pick(5, "term") - 2; c.q.push_back(q); c.w.push_back(c.k == SOC ? 1 : 0.5 * (1 + pick(4, "weight"))); }
    if (chance(0.4, "no-linear-part")) c.l.a.assign(n, 0);
  } else if (chance(0.02, "constant-constraint")) c.l.a.assign(n, 0);
  c.l.c = 0; double v = c.k == EQ ? c.l.at(x0) : c.viol(x0);
  if (c.k == SOC) v = std::ceil(v * 2) / 2;
  c.l.c = c.k == EQ ? -v + (feasible ? 0 : margin) : -v - margin;
  return c;
}
inline Prob gen(bool bins, bool approx = false) {
  Prob p; p.n = 1 + (int)pick(6, "variables"); p.bin.assign(p.n, 0);
  if (bins) { int nb = 1 + (int)pick(std::min(p.n, 4), "binaries"); for (int k = 0; k < nb; k++) p.bin[pick(p.n, "binary-at")] = 1; }
  Vec x0(p.n); for (int i = 0; i < p.n; i++) x0[i] = p.bin[i] ? (double)pick(2, "inside") : grid(2, 1, "inside");
  p.boxed = !chance(0.08, "no-box");
  int nc = (int)pick(6, "constraints");
  bool infeas = chance(0.15, "want-infeasible");
  for (int k = 0; k < nc; k++) p.con.push_back(gen_con(p, x0, !infeas || pick(2, "cut-off") == 0, chance(0.03, "tight")));
  if (p.boxed) { static const double Bs[4] = {4, 3, 10, 50}; double B = Bs[pick(4, "box")];
    for (int i = 0; i < p.n; i++) if (!p.bin[i]) for (int s = -1; s <= 1; s += 2) { Con c; c.k = LE; c.l.a.assign(p.n, 0); c.l.a[i] = s; c.l.c = -B; p.con.push_back(c); } }
  p.ol = gen_lin(p.n, -4, 4, 0.8, "cost"); if (chance(0.1, "no-linear-cost")) p.ol.a.assign(p.n, 0); p.ol.c = (int)pick(3, "cost-constant");
  int nq = (int)pick(4, "cost-terms");
  for (int k = 0; k < nq; k++) { Lin q = gen_lin(p.n, -2, 2, 0.5, "cost-term"); q.c = (int)pick(7, "cost-term") - 3; p.oq.push_back(q); p.ow.push_back(0.5 * (1 + pick(6, "cost-weight"))); }
  if (!p.boxed) for (int i = 0; i < p.n && chance(0.7, "bounded-cost"); i++) { Lin q; q.a.assign(p.n, 0); q.a[i] = 1; q.c = (int)pick(5, "centre") - 2; p.oq.push_back(q); p.ow.push_back(1); }
  if (approx) for (auto& c : p.con) if (c.k == QUAD) c.approx = (int)pick(3, "approximation");
  if (chance(0.1, "scaled")) { double s = pick(2, "scale") ? 100 : 0.01; p.ol.c *= s; for (auto& v : p.ol.a) v *= s; for (auto& w : p.ow) w *= s; }
  return p;
}

// ---- stating the problem to the library --------------------------------------------
using solver::LinExpr; using solver::DCPQuadExpr; using solver::Var; using solver::VarType; using solver::Model; using solver::ExitCode;
// style: how the expression is written down; the value is the same
inline LinExpr expr(const Lin& l, const std::vector<Var>& v, int style) {
  LinExpr e;
  switch (style % 4) {
    case 0: e = LinExpr(l.c); for (size_t i = 0; i < l.a.size(); i++) if (l.a[i] != 0) e += LinExpr(v[i]) * l.a[i]; break;
    case 1: for (size_t i = l.a.size(); i-- > 0;) if (l.a[i] != 0) e += LinExpr(v[i], l.a[i]); e += l.c; break;
    case 2: e = LinExpr(l.c); for (size_t i = 0; i < l.a.size(); i++) if (l.a[i] != 0) { e -= (-2.0 * l.a[i]) * v[i]; e = e - LinExpr(v[i]) * l.a[i]; } break;
    default: e = LinExpr(2 * l.c); for (size_t i = 0; i < l.a.size(); i++) if (l.a[i] != 0) e = e + LinExpr(v[i], l.a[i]) * 2; e /= 2; break;
  }
  return e;
}
inline void state_con(Model& m, const Con& c, const std::vector<Var>& v, int style) {
  LinExpr l = expr(c.l, v, style);
  switch (c.k) {
    case EQ: if (style & 4) m.addLinConstr(LinExpr(0.0), "=", l); else m.addLinConstr(l, "=", 0.0); break;
    case LE: if (style & 4) m.addLinConstr(l * -1.0, ">", 0.0); else if (style & 8) { Lin lc = c.l; lc.c = 0; m.addLinConstr(expr(lc, v, style), "<", LinExpr(-c.l.c)); } else m.addLinConstr(l, "<", 0.0); break;
    default: {
      DCPQuadExpr q; for (size_t i = 0; i < c.q.size(); i++) q.addQuaTerm(c.k == SOC ? 1.0 : c.w[i], expr(c.q[i], v, style + (int)i));
      LinExpr rhs(0.0);
      if (style & 4) q.addLinTerm(l); else rhs = l * -1.0;
      if (c.k == SOC) m.addSocConstr(q, "<", rhs);
      else m.addQuaConstr(q, "<", rhs, c.approx == 1 ? solver::QuadConstrApprox::TrustRegion : c.approx == 2 ? solver::QuadConstrApprox::SoftConstraint : solver::QuadConstrApprox::None);
    }
  }
}
inline void state_obj(Model& m, const Prob& p, const std::vector<Var>& v, int style) {
  DCPQuadExpr q; for (size_t i = 0; i < p.oq.size(); i++) q.addQuaTerm(p.ow[i], expr(p.oq[i], v, style + (int)i));
  LinExpr l = expr(p.ol, v, style);
  if (style & 4) { q.addLinTerm(l); m.setObjective(q, LinExpr(0.0)); } else m.setObjective(q, l);
}
inline void state_vars(Model& m, const Prob& p, std::vector<Var>& v) { v.clear(); for (int i = 0; i < p.n; i++) v.push_back(p.bin[i] ? m.addVar(VarType::Binary, 0, 1, 0.5) : m.addVar(VarType::Continuous, -1e10, 1e10)); }
}
