// Exact dense reference of the sweeps: the documented sequence of local updates on
// the tensors of a state, each done by diagonalisation and a full decomposition.
// A run without a unique answer (ties, tiny weights) returns false and says `why`.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "tn_eigen.h"
namespace ref {
using tn::cd; using tn::Mat; using tn::Vec;
struct Trunc { size_t D, dmin; double trunc; };
struct Ref {
  using EM = Eigen::MatrixXcd; std::vector<size_t> d; std::vector<EM> A; EM H; std::string why; double e = 0;      // A[i]: rows (left, physical), columns right
  size_t dl(size_t i) const { return A[i].rows() / d[i]; } size_t dr(size_t i) const { return A[i].cols(); }
  template<typename M> Ref(const M &m, const std::vector<size_t> &dims, const Mat &h) : d(dims), H(tn::ToE(h)) {
    for (size_t i = 0; i < d.size(); ++i) { auto sh = m[i].GetShape(); const auto &raw = m[i].Raw(); EM a(sh[0] * sh[1], sh[2]); for (size_t x = 0; x < sh[0] * sh[1]; ++x) for (size_t r = 0; r < sh[2]; ++r) a(x, r) = raw[x * sh[2] + r]; A.push_back(a); }
  }
  static EM Wide(const EM &a, size_t d) { size_t l = a.rows() / d, r = a.cols(); EM o(l, d * r); for (size_t x = 0; x < l; ++x) for (size_t s = 0; s < d; ++s) for (size_t y = 0; y < r; ++y) o(x, s * r + y) = a(x * d + s, y); return o; }
  static EM Tall(const EM &a, size_t d) { size_t l = a.rows(), r = a.cols() / d; EM o(l * d, r); for (size_t x = 0; x < l; ++x) for (size_t s = 0; s < d; ++s) for (size_t y = 0; y < r; ++y) o(x * d + s, y) = a(x, s * r + y); return o; }
  EM left(size_t n) const { EM L = EM::Ones(1, 1); for (size_t i = 0; i < n; ++i) { EM N(L.rows() * d[i], dr(i)); EM t = L * Wide(A[i], d[i]); for (long p = 0; p < L.rows(); ++p) for (size_t s = 0; s < d[i]; ++s) N.row(p * d[i] + s) = t.row(p).segment(s * dr(i), dr(i)); L = N; } return L; }
  EM right(size_t n) const { EM R = EM::Ones(1, 1); for (size_t i = d.size(); i-- > n;) R = Wide(A[i] * R, d[i]); return R; }
  Vec state() const { EM L = left(d.size()); Vec v(L.rows()); for (long i = 0; i < L.rows(); ++i) v[i] = L(i, 0); return v; }
  // lowest state that the Krylov space of theta reaches; the block is L x (n physical states) x R
  EM ground(const EM &L, size_t n, const EM &R, const EM &theta) {
    size_t l = L.cols(), r = R.rows(); EM B(L.rows() * n * R.cols(), l * n * r); B.setZero();
    for (size_t a = 0; a < l; ++a) for (size_t s = 0; s < n; ++s) for (size_t b = 0; b < r; ++b) for (long p = 0; p < L.rows(); ++p) if (std::abs(L(p, a)) > 1e-15) for (long q = 0; q < R.cols(); ++q) B((p * n + s) * R.cols() + q, (a * n + s) * r + b) = L(p, a) * R(b, q);
    EM h = B.adjoint() * H * B; h = (0.5 * (h + h.adjoint())).eval(); Eigen::SelfAdjointEigenSolver<EM> es(h); Eigen::VectorXcd t(l * n * r);
    EM w = theta; for (size_t a = 0; a < l; ++a) for (size_t s = 0; s < n; ++s) for (size_t b = 0; b < r; ++b) t((a * n + s) * r + b) = w(a * n + s, b);
    t /= t.norm(); Eigen::VectorXcd c = es.eigenvectors().adjoint() * t; auto &ev = es.eigenvalues(); long N = ev.size();
    for (long i = 0; i < N;) {
      long j = i; double o = 0; while (j < N && ev[j] - ev[i] < 1e-8) { o += std::norm(c[j]); ++j; }
      if (o > 1e-24 && o < 1e-5) { why = "small overlap"; return EM(); }
      if (o >= 1e-5) {
        double gap = 1; for (long k = j; k < N; ++k) if (std::norm(c[k]) > 1e-24) { gap = ev[k] - ev[i]; break; } if (gap < 1e-3) { why = "small gap"; return EM(); }
        Eigen::VectorXcd g = Eigen::VectorXcd::Zero(N); for (long k = i; k < j; ++k) g += c[k] * es.eigenvectors().col(k); g /= g.norm(); e = ev[i];
        EM out(l * n, r); for (size_t x = 0; x < l * n; ++x) for (size_t b = 0; b < r; ++b) out(x, b) = g(x * r + b); return out;
      }
      i = j;
    }
    why = "no overlap"; return EM();
  }
  template<typename P> bool cut(const EM &m, const P &p, EM &u, Eigen::VectorXd &s, EM &v) {
    Eigen::JacobiSVD<EM> svd(m, Eigen::ComputeThinU | Eigen::ComputeThinV); auto &sv = svd.singularValues(); size_t n = sv.size(); double tot = sv.squaredNorm();
    auto err = [&](size_t k) { return sv.tail(n - k).squaredNorm() / tot; };
    size_t k = std::min(n, std::max<size_t>(p.dmin, 1)); while (k < n && k < p.D && err(k) > p.trunc) ++k;
    if (k < n && sv[k - 1] - sv[k] < 1e-3 * sv[0]) { why = "tie at the cut"; return false; }
    if (sv[k - 1] < 1e-4 * sv[0]) { why = "tiny weight kept"; return false; }
    for (size_t x = std::max<size_t>(k, 2) - 1; x <= k; ++x) if (x <= n && std::abs(err(x) - p.trunc) < 1e-3 * p.trunc + 1e-13) { if (p.trunc > 1e-9 || err(x) > p.trunc) { why = "weight at the limit"; return false; } }
    u = svd.matrixU().leftCols(k); s = sv.head(k); v = svd.matrixV().leftCols(k).adjoint(); return true;
  }
  template<typename P> bool two(size_t i, bool rightward, const P &p) {
    EM th = A[i] * Wide(A[i + 1], d[i + 1]);           // (l s) x (t r)
    size_t r = dr(i + 1), n = d[i] * d[i + 1], l = dl(i); EM f(l * n, r); for (size_t a = 0; a < l * d[i]; ++a) for (size_t t = 0; t < d[i + 1]; ++t) for (size_t b = 0; b < r; ++b) f(a * d[i + 1] + t, b) = th(a, t * r + b);
    EM g = ground(left(i), n, right(i + 2), f); if (!why.empty()) return false;
    for (size_t a = 0; a < l * d[i]; ++a) for (size_t t = 0; t < d[i + 1]; ++t) for (size_t b = 0; b < r; ++b) th(a, t * r + b) = g(a * d[i + 1] + t, b);
    EM u, v; Eigen::VectorXd s; if (!cut(th, p, u, s, v)) return false;
    if (rightward) { A[i] = u; A[i + 1] = Tall(s.asDiagonal() * v, d[i + 1]); } else { A[i] = u * s.asDiagonal(); A[i + 1] = Tall(v, d[i + 1]); } return true;
  }
  template<typename P> bool one(size_t i, bool rightward, const P &p) {
    EM g = ground(left(i), d[i], right(i + 1), A[i]); if (!why.empty()) return false; EM u, v; Eigen::VectorXd s;
    if (rightward) { if (!cut(g, p, u, s, v)) return false; A[i] = u; A[i + 1] = Tall(s.asDiagonal() * v * Wide(A[i + 1], d[i + 1]), d[i + 1]); }
    else { if (!cut(Wide(g, d[i]), p, u, s, v)) return false; A[i] = Tall(v, d[i]); A[i - 1] = A[i - 1] * u * s.asDiagonal(); } return true;
  }
  template<typename P> bool two_range(size_t lb, size_t rb, const P &p) { for (size_t i = lb; i + 1 < rb; ++i) if (!two(i, true, p)) return false; for (size_t i = rb; i > lb + 1; --i) if (!two(i - 1, false, p)) return false; return true; }
  template<typename P> bool two_sweep(const P &p) { return two_range(0, d.size() - 1, p); }
  template<typename P> bool one_sweep(const P &p) { size_t N = d.size(); for (size_t i = 0; i + 1 < N; ++i) if (!one(i, true, p)) return false; for (size_t i = N - 1; i > 0; --i) if (!one(i, false, p)) return false; return true; }
  // DMRG: the bonds near the ends are completed first, the state moves to the left boundary
  void dmrg_init(size_t D, size_t &lb, size_t &rb) {
    size_t N = d.size(), lm = N % 2 ? N / 2 : N / 2 - 1, rm = N / 2; lb = 0; rb = N - 1;
    for (size_t i = 0; i < lm; ++i) { lb = i; size_t f = dl(i) * d[i]; if (f > D) break; A[i + 1] = Tall(A[i] * Wide(A[i + 1], d[i + 1]), d[i + 1]); A[i] = EM::Identity(f, f); }
    for (size_t i = N - 1; i > rm; --i) { rb = i; size_t f = dr(i) * d[i]; if (f > D) break; A[i - 1] = A[i - 1] * Wide(A[i], d[i]); A[i] = Tall(EM::Identity(f, f), d[i]); }
    for (size_t i = 0; i <= lb; ++i) { Eigen::HouseholderQR<EM> qr(A[i]); long k = std::min(A[i].rows(), A[i].cols()); EM q = qr.householderQ() * EM::Identity(A[i].rows(), k); EM r = q.adjoint() * A[i]; A[i] = q; A[i + 1] = Tall(r * Wide(A[i + 1], d[i + 1]), d[i + 1]); }
  }
  // ---- time evolution: exp(-i h dt) on the block
  EM evolve(const EM &L, size_t n, const EM &R, const EM &theta, double dt) {
    size_t l = L.cols(), r = R.rows(); EM B(L.rows() * n * R.cols(), l * n * r); B.setZero();
    for (size_t a = 0; a < l; ++a) for (size_t s = 0; s < n; ++s) for (size_t b = 0; b < r; ++b) for (long p = 0; p < L.rows(); ++p) if (std::abs(L(p, a)) > 1e-15) for (long q = 0; q < R.cols(); ++q) B((p * n + s) * R.cols() + q, (a * n + s) * r + b) = L(p, a) * R(b, q);
    EM h = B.adjoint() * H * B; h = (0.5 * (h + h.adjoint())).eval(); Eigen::SelfAdjointEigenSolver<EM> es(h); Eigen::VectorXcd t(l * n * r);
    for (size_t x = 0; x < l * n; ++x) for (size_t b = 0; b < r; ++b) t(x * r + b) = theta(x, b);
    Eigen::VectorXcd c = es.eigenvectors().adjoint() * t; for (long i = 0; i < c.size(); ++i) c[i] *= std::exp(cd(0, -dt * es.eigenvalues()[i])); t = es.eigenvectors() * c;
    EM out(l * n, r); for (size_t x = 0; x < l * n; ++x) for (size_t b = 0; b < r; ++b) out(x, b) = t(x * r + b); return out;
  }
  template<typename P> bool tdvp_two(size_t i, bool rightward, double dt, const P &p) {
    EM th = A[i] * Wide(A[i + 1], d[i + 1]); size_t r = dr(i + 1), n = d[i] * d[i + 1], l = dl(i); EM f(l * n, r);
    for (size_t a = 0; a < l * d[i]; ++a) for (size_t t = 0; t < d[i + 1]; ++t) for (size_t b = 0; b < r; ++b) f(a * d[i + 1] + t, b) = th(a, t * r + b);
    EM g = evolve(left(i), n, right(i + 2), f, dt);
    for (size_t a = 0; a < l * d[i]; ++a) for (size_t t = 0; t < d[i + 1]; ++t) for (size_t b = 0; b < r; ++b) th(a, t * r + b) = g(a * d[i + 1] + t, b);
    EM u, v; Eigen::VectorXd s; if (!cut(th, p, u, s, v)) return false;
    if (rightward) { A[i] = u; A[i + 1] = Tall(s.asDiagonal() * v, d[i + 1]); } else { A[i] = u * s.asDiagonal(); A[i + 1] = Tall(v, d[i + 1]); } return true;
  }
  void tdvp_back(size_t i, double dt) { A[i] = evolve(left(i), d[i], right(i + 1), A[i], -dt); }
  // one step of the second-order two-site scheme; the state is right canonical beyond site 1
  template<typename P> bool tdvp_step(double tau, const P &p) {
    size_t N = d.size(); double h = tau / 2;
    for (size_t i = 0; i + 2 < N; ++i) { if (!tdvp_two(i, true, h, p)) return false; tdvp_back(i + 1, h); }
    for (size_t i = N - 1; i > 1; --i) { if (!tdvp_two(i - 1, false, i == N - 1 ? tau : h, p)) return false; tdvp_back(i - 1, h); }
    return tdvp_two(0, true, h, p);
  }
};
} // namespace ref
#endif
