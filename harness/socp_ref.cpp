// Barrier method for the convex problem with the binaries fixed.  Returns a strictly
// feasible point that is optimal up to ~1e-8; every verdict is refuted by a witness.
// Eigen is renamed so that nothing here is shared with the instrumented code.
#define Eigen RefEigen
#include <Eigen/Dense>
#include "socp_prob.hpp"
namespace socp {
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
struct Fun { V g; M H; double v; };
Lin on_subspace(const Lin& l, const V& x0, const M& N) { Lin r; V a = Eigen::Map<const V>(l.a.data(), l.a.size()); V an = N.transpose() * a; r.a.assign(an.data(), an.data() + an.size()); r.c = l.c + a.dot(x0); return r; }
Ref reference(const Prob& p, const Vec& fixed /* NaN: free */) {
  Ref r; const int n = p.n;
  std::vector<V> rows; std::vector<double> rhs; double scale = 1;
  for (auto& c : p.con) if (c.k == EQ) { rows.push_back(Eigen::Map<const V>(c.l.a.data(), n)); rhs.push_back(-c.l.c); }
  for (int i = 0; i < n; i++) if (!std::isnan(fixed[i])) { V e = V::Zero(n); e[i] = 1; rows.push_back(e); rhs.push_back(fixed[i]); }
  V x0 = V::Zero(n); M N = M::Identity(n, n);
  if (!rows.empty()) {
    M A(rows.size(), n); V b(rows.size());
    for (size_t i = 0; i < rows.size(); i++) { A.row(i) = rows[i]; b[i] = rhs[i]; scale = std::max(scale, std::fabs(rhs[i])); }
    Eigen::JacobiSVD<M> sv(A, Eigen::ComputeFullV | Eigen::ComputeThinU); sv.setThreshold(1e-9);
    x0 = sv.solve(b);
    if ((A * x0 - b).cwiseAbs().maxCoeff() > 1e-3) { r.status = -1; r.slack = (A * x0 - b).cwiseAbs().maxCoeff(); return r; }
    if ((A * x0 - b).cwiseAbs().maxCoeff() > 1e-8 * scale) return r;
    N = sv.matrixV().rightCols(n - sv.rank());
  }
  const int d = N.cols();
  std::vector<Con> cs; for (auto& c : p.con) if (c.k != EQ) { Con t = c; t.l = on_subspace(c.l, x0, N); for (auto& q : t.q) q = on_subspace(q, x0, N); cs.push_back(t); }
  std::vector<Lin> oq; for (auto& q : p.oq) oq.push_back(on_subspace(q, x0, N)); Lin ol = on_subspace(p.ol, x0, N);
  auto back = [&](const V& z) { V x = x0 + N * z.head(d); Vec o(x.data(), x.data() + n); for (int i = 0; i < n; i++) if (!std::isnan(fixed[i])) o[i] = fixed[i]; return o; };
  const double R = p.R;
  auto maxviol = [&](const V& z) { Vec zz(z.data(), z.data() + d); double m = -1e300; for (auto& c : cs) m = std::max(m, c.viol(zz)); return m; };
  if (d == 0) { V z(0); double m = cs.empty() ? -1 : maxviol(z); if (m < -1e-7) r.status = 1; else if (m > 1e-6) r.status = -1; r.slack = m; r.x = back(z); r.f = p.obj(r.x); return r; }
  // barrier value/derivatives at (z, s); phase 1 when s is used.  Constraint: g(z) <= s.
  auto barrier = [&](const V& z, double s, bool ph1, V* g, M* H) -> double {
    int D = d + (ph1 ? 1 : 0); double val = 0; if (g) { g->setZero(D); H->setZero(D, D); }
    for (auto& c : cs) {
      V gl = V::Zero(D); for (int i = 0; i < d; i++) gl[i] = c.l.a[i]; if (ph1) gl[d] = -1;
      double l = c.l.c; for (int i = 0; i < d; i++) l += c.l.a[i] * z[i]; l -= s * (ph1 ? 1 : 0);
      if (c.k == SOC && !c.q.empty()) {
        double t = -l; double uu = 0; V du = V::Zero(D); M Q = M::Zero(D, D);
        for (auto& q : c.q) { V a = V::Zero(D); double u = q.c; for (int i = 0; i < d; i++) { a[i] = q.a[i]; u += q.a[i] * z[i]; } uu += u * u; du += u * a; if (g) Q += a * a.transpose(); }
        double f = t * t - uu; if (!(t > 0) || !(f > 0)) return INFINITY;
        val -= std::log(f);
        if (g) { V df = -2 * t * gl - 2 * du; M Hf = 2 * gl * gl.transpose() - 2 * Q; *g -= df / f; *H += df * df.transpose() / (f * f) - Hf / f; }
      } else {
        double f = -l; V df = -gl; M Q = M::Zero(D, D);
        if (c.k == QUAD) for (size_t k = 0; k < c.q.size(); k++) { V a = V::Zero(D); double u = c.q[k].c; for (int i = 0; i < d; i++) { a[i] = c.q[k].a[i]; u += c.q[k].a[i] * z[i]; } f -= c.w[k] * u * u; df -= 2 * c.w[k] * u * a; if (g) Q -= 2 * c.w[k] * a * a.transpose(); }
        if (!(f > 0)) return INFINITY;
        val -= std::log(f);
        if (g) { *g -= df / f; *H += df * df.transpose() / (f * f) - Q / f; }
      }
    }
    for (int i = 0; i < d; i++) { double f1 = R - z[i], f2 = R + z[i]; if (!(f1 > 0) || !(f2 > 0)) return INFINITY; val -= std::log(f1) + std::log(f2); if (g) { (*g)[i] += 1 / f1 - 1 / f2; (*H)(i, i) += 1 / (f1 * f1) + 1 / (f2 * f2); } }
    if (ph1) { double f1 = s + 1e3; if (!(f1 > 0)) return INFINITY; val -= std::log(f1); if (g) { (*g)[d] -= 1 / f1; (*H)(d, d) += 1 / (f1 * f1); } }
    return val;
  };
  auto objective = [&](const V& z, V* g, M* H, double t) { double v = 0; for (int i = 0; i < d; i++) { v += ol.a[i] * z[i]; if (g) (*g)[i] += t * ol.a[i]; }
    for (size_t k = 0; k < oq.size(); k++) { double u = oq[k].c; V a(d); for (int i = 0; i < d; i++) { a[i] = oq[k].a[i]; u += a[i] * z[i]; } v += p.ow[k] * u * u; if (g) { *g += t * 2 * p.ow[k] * u * a; *H += t * 2 * p.ow[k] * a * a.transpose(); } } return v; };
  V z = V::Zero(d); 
  double mcount = 2 * cs.size() + 2 * d + 1;
  if (!cs.empty()) { // phase 1
    double s = maxviol(z) + 1;
    double t = 1; bool found = false;
    for (int outer = 0; outer < 14 && !found; outer++, t *= 10) {
      for (int it = 0; it < 60; it++) {
        V g; M H; double v = barrier(z, s, true, &g, &H); if (!std::isfinite(v)) return r;
        g[d] += t; double f0 = v + t * s;
        H += 1e-14 * H.diagonal().cwiseAbs().maxCoeff() * M::Identity(d + 1, d + 1);
        V st = -H.ldlt().solve(g); double dec = -g.dot(st); if (!std::isfinite(dec)) return r; if (dec < 1e-9) break;
        double al = 1; bool ok = false;
        for (int k = 0; k < 50; k++, al *= 0.5) { double f1 = barrier(z + al * st.head(d), s + al * st[d], true, nullptr, nullptr) + t * (s + al * st[d]); if (f1 <= f0 - 0.1 * al * dec) { ok = true; break; } }
        if (!ok) break;
        z += al * st.head(d); s += al * st[d];
        if (s < -0.5) { found = true; break; }
      }
      if (!found && s < 0 && mcount / t < 0.1 * -s) found = true;
      if (!found && s - 2 * mcount / t > 1e-6) { r.status = -1; r.slack = s; return r; }
    }
    if (!(maxviol(z) < -1e-5)) { r.slack = s; return r; }
    r.slack = maxviol(z);
  }
  double t = 1;
  for (int outer = 0; outer < 40 && mcount / t > 1e-9; outer++, t *= 8) {
    for (int it = 0; it < 60; it++) {
      V g; M H; double v = barrier(z, 0, false, &g, &H); double f0 = v + t * objective(z, &g, &H, t);
      H += 1e-14 * H.diagonal().cwiseAbs().maxCoeff() * M::Identity(d, d);
      V st = -H.ldlt().solve(g); double dec = -g.dot(st); if (!std::isfinite(dec)) goto done; if (dec < 1e-9) break;
      double al = 1; bool ok = false;
      for (int k = 0; k < 50; k++, al *= 0.5) { V zn = z + al * st; double b = barrier(zn, 0, false, nullptr, nullptr); if (!std::isfinite(b)) continue; double f1 = b + t * objective(zn, nullptr, nullptr, t); if (f1 <= f0 - 0.1 * al * dec) { ok = true; break; } }
      if (!ok) break;
      z += al * st;
    }
  }
done:
  r.status = 1; r.x = back(z); r.f = p.obj(r.x);
  for (int i = 0; i < d; i++) if (std::fabs(z[i]) > 0.03 * R) r.at_r = true;
  return r;
}
Truth truth(const Prob& p) {
  Truth t; int nb = p.nbin();
  for (int m = 0; m < (1 << nb); m++) {
    Vec fx(p.n, NAN); int k = 0; for (int i = 0; i < p.n; i++) if (p.bin[i]) fx[i] = (m >> k++) & 1;
    Ref r = reference(p, fx);
    if (r.status == 0) t.decided = false;
    if (r.status == 1) { t.feasible = true; t.depth = std::min(t.depth, r.slack); if (r.f < t.f) { t.f = r.f; t.x = r.x; t.at_r = r.at_r; } }
  }
  return t;
}

}
