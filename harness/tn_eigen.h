// Spectral oracles (Eigen).
#ifndef VERIF_TN_EIGEN_H
#define VERIF_TN_EIGEN_H
#include "tn.h"
#include <Eigen/Dense>
namespace tn {
inline Eigen::MatrixXcd ToE(const Mat &m) { Eigen::MatrixXcd e(m.r, m.c); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) e(i, j) = m(i, j); return e; }
inline Mat FromE(const Eigen::MatrixXcd &e) { Mat m(e.rows(), e.cols()); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) m(i, j) = e(i, j); return m; }
// squared Schmidt coefficients of v across a cut with `left` states on the left
inline std::vector<double> Schmidt2(const Vec &v, size_t left) {
  size_t right = v.size() / left; bool l = left <= right; size_t n = l ? left : right;
  Eigen::MatrixXcd rho = Eigen::MatrixXcd::Zero(n, n);
  Eigen::MatrixXcd a(left, right);
  for (size_t i = 0; i < left; ++i) for (size_t j = 0; j < right; ++j) a(i, j) = v[i * right + j];
  rho = l ? Eigen::MatrixXcd(a * a.adjoint()) : Eigen::MatrixXcd(a.adjoint() * a);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(rho, Eigen::EigenvaluesOnly);
  std::vector<double> p; for (size_t i = 0; i < n; ++i) p.push_back(std::max(0.0, es.eigenvalues()[n - 1 - i]));
  return p;
}
inline double Entropy(const std::vector<double> &p, size_t n) {
  double tot = 0; for (double x : p) tot += x;
  double s = 0;
  for (double x : p) { x /= tot; if (x <= 1e-30) continue; s += n == 1 ? -x * std::log(x) : std::pow(x, double(n)); }
  return n == 1 ? s : std::log(s) / (1.0 - double(n));
}
// lowest eigenvalue of h restricted to the basis states `keep`
inline std::vector<double> Spectrum(const Mat &h, const std::vector<size_t> &keep) {
  Eigen::MatrixXcd m(keep.size(), keep.size());
  for (size_t i = 0; i < keep.size(); ++i) for (size_t j = 0; j < keep.size(); ++j) m(i, j) = h(keep[i], keep[j]);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(m, Eigen::EigenvaluesOnly);
  std::vector<double> o; for (size_t i = 0; i < keep.size(); ++i) o.push_back(es.eigenvalues()[i]); return o;
}
// exp(z h) for Hermitian h
inline Mat ExpHerm(const Mat &h, cd z) {
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(ToE(h));
  Eigen::VectorXcd d(h.r); for (size_t i = 0; i < h.r; ++i) d[i] = std::exp(z * es.eigenvalues()[i]);
  return FromE(es.eigenvectors() * d.asDiagonal() * es.eigenvectors().adjoint());
}
}
#endif
