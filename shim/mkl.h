// Stand-in for the LAPACKE entry points the library uses (no BLAS/LAPACK
// headers are installed in the sandbox).
#ifndef SHIM_MKL_H
#define SHIM_MKL_H
#include <algorithm>
#include <cmath>
#include <vector>
#ifndef LAPACK_ROW_MAJOR
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
#endif
typedef int lapack_int;
#ifndef MKL_INT
#define MKL_INT int
#endif
// Eigenvalues (ascending) and vectors of a real symmetric tridiagonal matrix,
// by cyclic Jacobi rotations.  d: n diagonal, e: n-1 off-diagonal.
inline int LAPACKE_dstev(int layout, char jobz, lapack_int n, double *d,
                         double *e, double *z, lapack_int ldz) {
  if (n < 0) return -3;
  if (jobz != 'N' && jobz != 'V') return -2;
  for (int i = 0; i < n; ++i) if (!(std::fabs(d[i]) < 1e300)) return -4;
  for (int i = 0; i + 1 < n; ++i) if (!(std::fabs(e[i]) < 1e300)) return -5;
  std::vector<double> A(size_t(n) * n, 0.0), V(size_t(n) * n, 0.0);
  for (int i = 0; i < n; ++i) {
    A[i * n + i] = d[i];
    V[i * n + i] = 1.0;
    if (i + 1 < n) { A[i * n + i + 1] = e[i]; A[(i + 1) * n + i] = e[i]; }
  }
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, dia = 0;
    for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q)
      (p == q ? dia : off) += A[p * n + q] * A[p * n + q];
    if (off <= 1e-60 || off <= 1e-33 * dia) break;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      double apq = A[p * n + q];
      if (apq == 0.0) continue;
      double th = (A[q * n + q] - A[p * n + p]) / (2 * apq);
      double t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1));
      double c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; ++k) {
        double x = A[k * n + p], y = A[k * n + q];
        A[k * n + p] = c * x - s * y; A[k * n + q] = s * x + c * y;
      }
      for (int k = 0; k < n; ++k) {
        double x = A[p * n + k], y = A[q * n + k];
        A[p * n + k] = c * x - s * y; A[q * n + k] = s * x + c * y;
      }
      for (int k = 0; k < n; ++k) {
        double x = V[k * n + p], y = V[k * n + q];
        V[k * n + p] = c * x - s * y; V[k * n + q] = s * x + c * y;
      }
    }
  }
  std::vector<int> ord(n);
  for (int i = 0; i < n; ++i) ord[i] = i;
  std::sort(ord.begin(), ord.end(), [&](int x, int y) { return A[x * n + x] < A[y * n + y]; });
  for (int i = 0; i < n; ++i) d[i] = A[ord[i] * n + ord[i]];
  for (int i = 0; i + 1 < n; ++i) e[i] = 0.0;
  if (jobz == 'V') {
    for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) {
      double v = V[r * n + ord[c]];
      if (layout == LAPACK_ROW_MAJOR) z[r * ldz + c] = v; else z[c * ldz + r] = v;
    }
  }
  return 0;
}
#endif
