// Dense oracles shared by the tensor-network explorers.  Nothing here uses the
// tensor library's contractions: states and operators are expanded by hand.
#ifndef VERIF_TN_H
#define VERIF_TN_H
#include "mc.h"
#include "qlten/qlten.h"
#include <complex>
#include <cmath>
#include <string>
#include <vector>
#include <algorithm>

namespace tn {
using cd = std::complex<double>;
using qlten::QLTensor; using qlten::Index; using qlten::QNSector;

struct Mat {
  size_t r = 0, c = 0; std::vector<cd> a;
  Mat() = default;
  Mat(size_t r, size_t c) : r(r), c(c), a(r * c) {}
  cd &operator()(size_t i, size_t j) { return a[i * c + j]; }
  cd operator()(size_t i, size_t j) const { return a[i * c + j]; }
  static Mat Id(size_t n) { Mat m(n, n); for (size_t i = 0; i < n; ++i) m(i, i) = 1; return m; }
};
using Vec = std::vector<cd>;
inline Mat operator*(const Mat &x, const Mat &y) {
  if (x.c != y.r) throw std::logic_error("oracle: matrix shapes");
  Mat z(x.r, y.c);
  for (size_t i = 0; i < x.r; ++i) for (size_t k = 0; k < x.c; ++k) {
    cd v = x(i, k); if (v == cd(0)) continue;
    for (size_t j = 0; j < y.c; ++j) z(i, j) += v * y(k, j);
  }
  return z;
}
inline Mat operator+(const Mat &x, const Mat &y) {
  if (x.r != y.r || x.c != y.c) throw std::logic_error("oracle: matrix shapes");
  Mat z(x); for (size_t i = 0; i < z.a.size(); ++i) z.a[i] += y.a[i]; return z;
}
inline Mat operator*(cd s, const Mat &x) { Mat z(x); for (auto &v : z.a) v *= s; return z; }
inline Vec operator*(const Mat &m, const Vec &v) {
  Vec o(m.r); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) o[i] += m(i, j) * v[j]; return o;
}
inline Mat Kron(const Mat &x, const Mat &y) {
  Mat z(x.r * y.r, x.c * y.c);
  for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) {
    cd v = x(i, j); if (v == cd(0)) continue;
    for (size_t k = 0; k < y.r; ++k) for (size_t l = 0; l < y.c; ++l) z(i * y.r + k, j * y.c + l) = v * y(k, l);
  }
  return z;
}
inline Mat Dagger(const Mat &x) { Mat z(x.c, x.r); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) z(j, i) = std::conj(x(i, j)); return z; }
inline double Diff(const std::vector<cd> &x, const std::vector<cd> &y) {
  if (x.size() != y.size()) return 1e300;
  double m = 0;
  for (size_t i = 0; i < x.size(); ++i) { double d = std::abs(x[i] - y[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; }
  return m;
}
inline double Diff(const Mat &x, const Mat &y) { return x.r == y.r && x.c == y.c ? Diff(x.a, y.a) : 1e300; }
inline double Norm(const Vec &v) { double s = 0; for (auto &x : v) s += std::norm(x); return std::sqrt(s); }
inline cd Dot(const Vec &x, const Vec &y) { cd s = 0; for (size_t i = 0; i < x.size(); ++i) s += std::conj(x[i]) * y[i]; return s; }
inline Vec Scale(const Vec &v, cd s) { Vec o(v); for (auto &x : o) x *= s; return o; }
inline Vec Add(const Vec &x, const Vec &y) { Vec o(x); for (size_t i = 0; i < o.size(); ++i) o[i] += y[i]; return o; }
inline double MaxAbs(const std::vector<cd> &v) { double m = 0; for (auto &x : v) m = std::max(m, std::abs(x)); return m; }

// operator tensor {IN, OUT}: O|s> = sum_s' t(s, s') |s'>
template<typename E, typename Q>
Mat OpMat(const QLTensor<E, Q> &t) {
  if (t.Rank() != 2) throw std::logic_error("operator of rank " + std::to_string(t.Rank()));
  size_t d = t.GetShape()[0], e = t.GetShape()[1];
  Mat m(e, d);
  for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < e; ++j) m(j, i) = t.GetElem({i, j});
  return m;
}
// product of local operators, identity elsewhere
inline Mat Product(const std::vector<size_t> &dims, const std::vector<std::pair<size_t, Mat>> &ops) {
  Mat z = Mat::Id(1);
  for (size_t i = 0; i < dims.size(); ++i) {
    Mat l = Mat::Id(dims[i]);
    for (auto &o : ops) if (o.first == i) l = o.second * l;
    z = Kron(z, l);
  }
  return z;
}

// MPS (rank-3 tensors [l, phys, r]) as a vector.
template<typename GetTen>
Vec MpsVec(size_t n, GetTen get) {
  std::vector<cd> cur{1}; size_t D = 1, phys = 1;
  for (size_t i = 0; i < n; ++i) {
    const auto &t = get(i);
    if (t.IsDefault()) throw std::logic_error("missing MPS tensor " + std::to_string(i));
    if (t.Rank() != 3) throw std::logic_error("MPS tensor of rank " + std::to_string(t.Rank()));
    auto sh = t.GetShape();
    if (sh[0] != D) throw std::logic_error("MPS bond mismatch at site " + std::to_string(i));
    std::vector<cd> nx(phys * sh[1] * sh[2]);
    const auto &raw = t.Raw();
    for (size_t p = 0; p < phys; ++p) for (size_t l = 0; l < D; ++l) {
      cd v = cur[p * D + l]; if (v == cd(0)) continue;
      for (size_t s = 0; s < sh[1]; ++s) for (size_t r = 0; r < sh[2]; ++r)
        nx[(p * sh[1] + s) * sh[2] + r] += v * cd(raw[(l * sh[1] + s) * sh[2] + r]);
    }
    cur.swap(nx); D = sh[2]; phys *= sh[1];
  }
  if (D != 1) throw std::logic_error("open right bond of the MPS");
  return cur;
}
template<typename MPST>
Vec DenseMps(const MPST &mps) { return MpsVec(mps.size(), [&](size_t i) -> decltype(auto) { return mps[i]; }); }

// MPO (rank-4 tensors [l, in, out, r]) as a matrix (row: out, column: in).
template<typename MPOT>
Mat DenseMpo(const MPOT &mpo) {
  size_t D = 1, R = 1, C = 1; std::vector<cd> cur{1};   // [out, in, bond]
  for (size_t i = 0; i < mpo.size(); ++i) {
    const auto &t = mpo[i];
    if (t.IsDefault()) throw std::logic_error("missing MPO tensor " + std::to_string(i));
    if (t.Rank() != 4) throw std::logic_error("MPO tensor of rank " + std::to_string(t.Rank()));
    auto sh = t.GetShape();
    if (sh[0] != D) throw std::logic_error("MPO bond mismatch at site " + std::to_string(i));
    const auto &raw = t.Raw();
    std::vector<cd> nx(R * sh[2] * C * sh[1] * sh[3]);
    for (size_t ro = 0; ro < R; ++ro) for (size_t ci = 0; ci < C; ++ci) for (size_t l = 0; l < D; ++l) {
      cd v = cur[(ro * C + ci) * D + l]; if (v == cd(0)) continue;
      for (size_t s = 0; s < sh[1]; ++s) for (size_t o = 0; o < sh[2]; ++o) for (size_t r = 0; r < sh[3]; ++r)
        nx[((ro * sh[2] + o) * (C * sh[1]) + ci * sh[1] + s) * sh[3] + r] += v * cd(raw[((l * sh[1] + s) * sh[2] + o) * sh[3] + r]);
    }
    cur.swap(nx); R *= sh[2]; C *= sh[1]; D = sh[3];
  }
  if (D != 1) throw std::logic_error("open right bond of the MPO");
  Mat m(R, C); m.a = cur; return m;
}

// isometry checks of an MPS tensor
template<typename T>
double LeftDefect(const T &t) {
  auto sh = t.GetShape(); const auto &raw = t.Raw(); double m = 0;
  for (size_t a = 0; a < sh[2]; ++a) for (size_t b = 0; b < sh[2]; ++b) {
    cd s = 0; for (size_t x = 0; x < sh[0] * sh[1]; ++x) s += std::conj(cd(raw[x * sh[2] + a])) * cd(raw[x * sh[2] + b]);
    m = std::max(m, std::abs(s - cd(a == b)));
  }
  return m;
}
template<typename T>
double RightDefect(const T &t) {
  auto sh = t.GetShape(); const auto &raw = t.Raw(); double m = 0; size_t w = sh[1] * sh[2];
  for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[0]; ++b) {
    cd s = 0; for (size_t x = 0; x < w; ++x) s += cd(raw[a * w + x]) * std::conj(cd(raw[b * w + x]));
    m = std::max(m, std::abs(s - cd(a == b)));
  }
  return m;
}

inline std::string Num(double x) { char b[40]; snprintf(b, 40, "%.6g", x); return b; }
inline std::string Num(cd x) { char b[80]; snprintf(b, 80, "(%.6g,%.6g)", x.real(), x.imag()); return b; }

// Runs one case; anything thrown is a violation under "exc".
template<typename F>
void Case(const std::string &id, F f) {
  auto &c = mc::ctx();
  c.begin_case(id);
  try { f(); c.evaluations++; }
  catch (const std::exception &e) { c.evaluations++; c.violate("exception", id, e.what()); }
}
}  // tn
#endif
