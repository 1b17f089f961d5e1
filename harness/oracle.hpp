// Small dense oracles shared by the harnesses (independent of the code under test).
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <cmath>
namespace orc {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
// least squares residual norm of  min | b + F l + P m |, m >= 0   (F free, P non-negative multipliers)
// Lawson-Hanson on the split system; sizes here are tiny.
inline double nnls_residual(const V& b, const M& F, const M& P, V* outm = nullptr) {
  // project out the free part
  V rb = b; M rp = P;
  if (F.cols() > 0) {
    Eigen::JacobiSVD<M> sv(F, Eigen::ComputeThinU);
    double s0 = sv.singularValues().size() ? sv.singularValues()[0] : 0;
    for (int i = 0; i < sv.singularValues().size(); i++) if (sv.singularValues()[i] > 1e-9 * (1 + s0)) {
      V u = sv.matrixU().col(i);
      rb -= u * u.dot(rb);
      for (int c = 0; c < rp.cols(); c++) rp.col(c) -= u * u.dot(rp.col(c));
    }
  }
  const int n = rp.cols();
  V m = V::Zero(n);
  std::vector<char> act(n, 0);
  for (int it = 0; it < 4 * n + 8; it++) {
    V w = -rp.transpose() * (rb + rp * m);
    int best = -1; double bw = 1e-10;
    for (int i = 0; i < n; i++) if (!act[i] && w[i] > bw) { bw = w[i]; best = i; }
    if (best < 0) break;
    act[best] = 1;
    for (int in = 0; in < 2 * n + 4; in++) {
      std::vector<int> id; for (int i = 0; i < n; i++) if (act[i]) id.push_back(i);
      M A(rp.rows(), id.size()); for (size_t k = 0; k < id.size(); k++) A.col(k) = rp.col(id[k]);
      V s = A.completeOrthogonalDecomposition().solve(-rb);
      bool ok = true; double al = 1;
      for (size_t k = 0; k < id.size(); k++) if (s[k] <= 1e-13) { ok = false; double d = m[id[k]] - s[k]; double a = d > 0 ? m[id[k]] / d : 0; if (a < al) al = a; }
      if (ok) { m.setZero(); for (size_t k = 0; k < id.size(); k++) m[id[k]] = s[k]; break; }
      for (size_t k = 0; k < id.size(); k++) { m[id[k]] += al * (s[k] - m[id[k]]); if (m[id[k]] <= 1e-13) { m[id[k]] = 0; act[id[k]] = 0; } }
    }
  }
  if (outm) *outm = m;
  return (rb + rp * m).norm();
}
}
