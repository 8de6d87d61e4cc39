// The Krylov solvers on the real headers: every small Hermitian matrix and start vector of
// a finite set, against exact eigenvalues, exact Krylov minima and exact exponentials.
// Modes: vmps (matrix-vector callback), dmrg (super-block terms), expmv (time evolution).
#include "tn_eigen.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algorithm/dmrg/dmrg_impl.h"
#include "qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h"
using namespace qlmps; using namespace qlten; using tn::cd; using tn::Mat; using tn::Vec;
using special_qn::U1QN; using Q = U1QN;

// ---- the operator handed to the solvers
static Mat gH; static size_t gCalls;
template<typename T> T *Mul(const std::vector<T *> &, T *s) {
  ++gCalls; T *r = new T(*s); const auto &raw = std::as_const(*s).Raw(); size_t n = raw.size();
  auto sh = s->GetShape();
  for (size_t i = 0; i < n; ++i) {
    cd x = 0; for (size_t j = 0; j < n; ++j) x += gH(i, j) * cd(raw[j]);
    std::vector<size_t> co(sh.size()); size_t k = i; for (size_t a = sh.size(); a-- > 0;) { co[a] = k % sh[a]; k /= sh[a]; }
    if constexpr (std::is_same_v<typename T::ElemType, double>) (*r)(co) = x.real(); else (*r)(co) = x;
  }
  return r;
}
// rank 3: [1, n, 1]; rank 4: [1, a, b, 1].  All states carry the same charge.
template<typename E> QLTensor<E, Q> State(const Vec &v, size_t rank) {
  size_t n = v.size(), a = n % 2 == 0 && n > 2 ? 2 : 1; Q z(0);
  Index<Q> l({QNSector<Q>(z, 1)}, IN), r({QNSector<Q>(z, 1)}, OUT);
  auto P = [&](size_t d) { return Index<Q>({QNSector<Q>(z, d)}, OUT); };
  QLTensor<E, Q> t = rank == 3 ? QLTensor<E, Q>({l, P(n), r}) : QLTensor<E, Q>({l, P(a), P(n / a), r});
  for (size_t i = 0; i < n; ++i) { E x; if constexpr (std::is_same_v<E, double>) x = v[i].real(); else x = v[i];
    if (rank == 3) t({0, i, 0}) = x; else t({0, i / (n / a), i % (n / a), 0}) = x; }
  return t;
}
template<typename T> Vec Flat(const T &t) { Vec v; for (auto &x : t.Raw()) v.push_back(cd(x)); return v; }

// ---- exact Krylov space: basis of span{v, Hv, ...} (dimension `most` at most) and its Ritz values
struct Krylov { std::vector<Vec> b; };
static Krylov Space(const Mat &h, const Vec &v, size_t most) {
  Krylov k; Vec x = v;
  while (k.b.size() < most) {
    double before = tn::Norm(x); if (before < 1e-12) break;
    for (auto &y : x) y /= before;
    for (int rep = 0; rep < 2; ++rep) for (auto &q : k.b) { cd o = tn::Dot(q, x); for (size_t i = 0; i < x.size(); ++i) x[i] -= o * q[i]; }
    double nn = tn::Norm(x); if (nn < 1e-7) break;
    for (auto &y : x) y /= nn;
    k.b.push_back(x); x = h * x;
  }
  return k;
}
static double Lowest(const Mat &h, const std::vector<Vec> &b) {
  Mat m(b.size(), b.size()); for (size_t i = 0; i < b.size(); ++i) { Vec y = h * b[i]; for (size_t j = 0; j < b.size(); ++j) m(j, i) = tn::Dot(b[j], y); }
  std::vector<size_t> all; for (size_t i = 0; i < b.size(); ++i) all.push_back(i); return tn::Spectrum(m, all)[0];
}
static double Scale(const Mat &h) { double s = 1; for (auto &x : h.a) s = std::max(s, std::abs(x)); return s; }

// One eigen-solver run: `res` is consumed.
template<typename T>
void JudgeGs(const std::string &id, const Mat &h, const Vec &v, const LanczosParams &p, const LanczosRes<T> &res, size_t calls, bool count, long live) {
  auto &c = mc::ctx(); double sc = Scale(h); Vec w = Flat(std::as_const(*res.gs_vec)); double nn = tn::Norm(w);
  std::vector<size_t> all; for (size_t i = 0; i < v.size(); ++i) all.push_back(i);
  double lo = tn::Spectrum(h, all)[0], e = res.gs_eng, start = tn::Dot(v, h * v).real() / std::pow(tn::Norm(v), 2);
  size_t cap = std::max<size_t>(p.max_iterations, 1); c.traces_validated++;
  if (!(std::abs(nn - 1) < 1e-6)) c.violate("norm", id, "returned vector has norm " + tn::Num(nn));
  else { double rq = tn::Dot(w, h * w).real() / (nn * nn); if (!(std::abs(rq - e) < 1e-6 * sc)) c.violate("energy-of-another-vector", id, "reported " + tn::Num(e) + ", vector has " + tn::Num(rq)); }
  if (!(e > lo - 1e-9 * sc)) c.violate("below-the-spectrum", id, tn::Num(e) + " < " + tn::Num(lo));
  if (!(e < start + 1e-9 * sc)) c.violate("worse-than-the-start", id, tn::Num(e) + " > " + tn::Num(start));
  if (res.iters < 1 || res.iters > cap) c.violate("iterations", id, std::to_string(res.iters) + " of " + std::to_string(cap));
  if (count && (calls < 1 || calls > cap)) c.violate("products", id, std::to_string(calls) + " of " + std::to_string(cap));
  auto k = Space(h, v, std::min(v.size(), std::max<size_t>(res.iters, 1))); double kr = Lowest(h, k.b);
  if (!(e < kr + 1e-7 * sc)) c.violate("not-the-krylov-minimum", id, tn::Num(e) + " > " + tn::Num(kr) + " after " + std::to_string(res.iters));
  if (p.error <= 1e-8 && cap > v.size()) { auto f = Space(h, v, v.size()); double m = Lowest(h, f.b); if (!(e < m + 1e-6 * sc)) c.violate("not-converged", id, tn::Num(e) + " > " + tn::Num(m)); }
  else if (cap < v.size() && p.error <= 1e-8 && res.iters < cap) { auto f = Space(h, v, cap); double m = Lowest(h, f.b); if (!(e < m + 1e-6 * sc)) c.violate("gave-up-early", id, tn::Num(e) + " > " + tn::Num(m)); }
  delete res.gs_vec;
  if (shim::Live::Count() != live) c.violate("tensors-left", id, std::to_string(long(shim::Live::Count()) - live));
  c.states++; c.transitions += res.iters; c.note_distinct(mc::hash_str(id));
  c.outcome("dim " + std::to_string(v.size()) + ", " + std::to_string(res.iters) + " iterations");
}

// ---- the enumerated matrices and vectors
static std::vector<Mat> Matrices(size_t n, const std::vector<double> &dg, const std::vector<cd> &off) {
  std::vector<Mat> out; std::vector<std::pair<size_t, size_t>> pos; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) pos.push_back({i, j});
  size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= dg.size(); for (size_t i = 0; i < pos.size(); ++i) tot *= off.size();
  for (size_t x = 0; x < tot; ++x) { Mat m(n, n); size_t k = x; for (size_t i = 0; i < n; ++i) { m(i, i) = dg[k % dg.size()]; k /= dg.size(); }
    for (auto &p : pos) { m(p.first, p.second) = off[k % off.size()]; m(p.second, p.first) = std::conj(off[k % off.size()]); k /= off.size(); } out.push_back(m); }
  return out;
}
static std::vector<Vec> Vectors(size_t n, const std::vector<cd> &val) {
  std::vector<Vec> out; size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= val.size();
  for (size_t x = 1; x < tot; ++x) { Vec v(n); size_t k = x; for (auto &y : v) { y = val[k % val.size()]; k /= val.size(); } if (tn::Norm(v) > 0) out.push_back(v); }
  return out;
}
struct Family { std::string name; bool real; std::vector<Mat> h; std::vector<Vec> v; };
static std::vector<Family> Families(bool th) {
  cd I(0, 1); std::vector<Family> f;
  f.push_back({"r1", true, Matrices(1, {0, 1, -1, 0.3, -2.7, 1e8, 1.0 / 3}, {}), Vectors(1, {0, 1, -1, 0.3, 1.0 / 3, 7.7, 1e-9})});
  f.push_back({"c1", false, Matrices(1, {0, 1, -1, 0.3, -2.7, 1e8, 1.0 / 3}, {}), Vectors(1, {0, 1, I, cd(0.3, 0.4), cd(1, 1), cd(1.0 / 3, -0.7), 1e-9})});
  f.push_back({"r2", true, Matrices(2, {0, 1, -1, 0.3, -2.7}, {0, 1, -0.5, 1.0 / 3}), Vectors(2, {0, 1, -1, 0.3, 2})});
  f.push_back({"c2", false, Matrices(2, {0, 1, 0.3, -2.7}, {0, 1, I, cd(0.5, -0.5)}), Vectors(2, {0, 1, I, cd(1, 1), -0.3})});
  f.push_back({"r3", true, th ? Matrices(3, {0, 1, -1, 0.3}, {0, 1, -0.5, 0.7}) : Matrices(3, {0, 1, -0.7}, {0, 1, -0.5}), Vectors(3, {0, 1, -1})});
  f.push_back({"c3", false, th ? Matrices(3, {0, 1, -0.7}, {0, 1, I, cd(0.5, 0.5)}) : Matrices(3, {0, 0.3}, {0, 1, I}), th ? Vectors(3, {0, 1, I}) : Vectors(3, {0, 1, cd(0, -0.7)})});
  f.push_back({"r4", true, th ? Matrices(4, {0, 1, -0.7}, {0, 1}) : Matrices(4, {0, 0.3}, {0, 1}), th ? Vectors(4, {0, 1, -1}) : Vectors(4, {0, 1})});
  // multiples of the identity and projectors, where any start vector exhausts its space at once
  std::vector<Mat> d; for (size_t n : {4, 6}) for (double a : {0.3, 1.0 / 3, 2.0}) for (double b : {0.3, 0.7}) for (size_t k = 0; k <= n; ++k) { Mat m(n, n); for (size_t i = 0; i < n; ++i) m(i, i) = i < k ? a : b; d.push_back(m); }
  std::vector<Vec> dv; for (size_t n : {4, 6}) for (int s = 0; s < 12; ++s) { Vec v(n); for (size_t i = 0; i < n; ++i) v[i] = std::sin(1.0 + s * 0.77 + i * (1.1 + s)); dv.push_back(v); }
  f.push_back({"deg", true, d, dv});
  return f;
}
static const std::vector<std::pair<double, size_t>> kParams = {{1e-10, 100}, {1e-9, 1}, {1e-9, 2}, {1e-9, 3}, {1e-2, 100}, {1e-10, 4}};

template<typename F>
void ForAll(const std::string &only, F f) {
  auto &c = mc::ctx();
  for (auto &fa : Families(c.thorough())) {
    if (!only.empty() && only.compare(0, fa.name.size() + 1, fa.name + "/")) continue;
    for (size_t h = 0; h < fa.h.size(); ++h) for (size_t v = 0; v < fa.v.size(); ++v) {
      if (fa.h[h].r != fa.v[v].size()) continue;
      if (only.empty() && !c.mine()) continue;
      f(fa, h, v, fa.name + "/" + std::to_string(h) + "." + std::to_string(v) + ".");
    }
    c.info[fa.name] = std::to_string(fa.h.size()) + " matrices, " + std::to_string(fa.v.size()) + " start vectors";
  }
}
static void Vmps(const std::string &only) {
  auto &c = mc::ctx();
  ForAll(only, [&](const Family &fa, size_t h, size_t v, const std::string &base) {
    for (size_t rank = 3; rank <= 4; ++rank) for (size_t p = 0; p < kParams.size(); ++p) {
      std::string id = base + std::to_string(rank) + "." + std::to_string(p); if (!only.empty() && only != id) continue;
      LanczosParams lp(kParams[p].first, kParams[p].second);
      auto go = [&](auto tag) { using E = decltype(tag); using T = QLTensor<E, Q>;
        tn::Case(id, [&] { long live = shim::Live::Count(); gH = fa.h[h]; gCalls = 0; auto r = LanczosSolver<T>({}, new T(State<E>(fa.v[v], rank)), &Mul<T>, lp); JudgeGs(id, gH, fa.v[v], lp, r, gCalls, true, live); }); };
      if (fa.real) go(double()); go(QLTEN_Complex());
      if (c.states % 4999 == 7) c.sample(id);
    }
  });
}
static void Expmv(const std::string &only) {
  static const double kT[] = {0.1, -0.1, 0.7, 0, -3}; auto &c = mc::ctx();
  ForAll(only, [&](const Family &fa, size_t h, size_t v, const std::string &base) {
    for (size_t rank = 3; rank <= 4; ++rank) for (size_t p = 0; p < kParams.size(); ++p) for (size_t t = 0; t < 5; ++t) {
      std::string id = base + std::to_string(rank) + "." + std::to_string(p) + "." + std::to_string(t); if (!only.empty() && only != id) continue;
      LanczosParams lp(kParams[p].first, kParams[p].second); using T = QLTensor<QLTEN_Complex, Q>;
      tn::Case(id, [&] {
        long live = shim::Live::Count(); gH = fa.h[h]; gCalls = 0; const Vec &x = fa.v[v]; size_t cap = lp.max_iterations;
        auto r = LanczosExpmvSolver<T>({}, new T(State<QLTEN_Complex>(x, rank)), &Mul<T>, kT[t], lp); Vec w = Flat(std::as_const(*r.expmv)); double n0 = tn::Norm(x); c.traces_validated++;
        if (!(std::abs(tn::Norm(w) / n0 - 1) < 1e-6)) c.violate("norm", id, tn::Num(tn::Norm(w) / n0));
        if (r.iters < 1 || r.iters > cap) c.violate("iterations", id, std::to_string(r.iters));
        if (gCalls < 1 || gCalls > cap) c.violate("products", id, std::to_string(gCalls));
        // the exact result within the Krylov space that was built
        auto k = Space(gH, x, std::min(x.size(), r.iters)); size_t m = k.b.size(); Mat s(m, m);
        for (size_t i = 0; i < m; ++i) { Vec y = gH * k.b[i]; for (size_t j = 0; j < m; ++j) s(j, i) = tn::Dot(k.b[j], y); }
        Mat u = tn::ExpHerm(s, cd(0, -kT[t])); Vec want(x.size()); cd first = tn::Dot(k.b[0], x); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < x.size(); ++j) want[j] += first * u(i, 0) * k.b[i][j];
        double d = 0; for (size_t j = 0; j < w.size(); ++j) d = std::max(d, std::abs(w[j] - want[j])); double ph = 1 + std::abs(kT[t]) * Scale(gH);
        if (!(d < 1e-7 * n0 * ph)) c.violate("not-the-krylov-exponential", id, tn::Num(d));
        if (cap > x.size() || r.iters < cap) { Vec ex = tn::ExpHerm(gH, cd(0, -kT[t])) * x; double dd = 0; for (size_t j = 0; j < w.size(); ++j) dd = std::max(dd, std::abs(w[j] - ex[j])); if (!(dd < n0 * ((lp.error <= 1e-8 ? 1e-6 : 10 * lp.error) + 1e-8 * ph))) c.violate("not-the-exponential", id, tn::Num(dd)); }
        delete r.expmv; if (shim::Live::Count() != live) c.violate("tensors-left", id, std::to_string(long(shim::Live::Count()) - live));
        c.states++; c.transitions += r.iters; c.note_distinct(mc::hash_str(id)); c.outcome("dim " + std::to_string(x.size()) + ", " + std::to_string(r.iters) + " iterations");
      });
      if (c.states % 9999 == 7) c.sample(id);
    }
  });
}
// Super-block Hamiltonians: sums of (left block x site) x (site x right block) products.
static void Dmrg(const std::string &only) {
  auto &c = mc::ctx(); using T = QLTensor<QLTEN_Complex, Q>; Q z(0);
  auto op = [&](const Mat &m, bool left) { Index<Q> a({QNSector<Q>(z, m.r)}, left ? OUT : IN); T t({a, InverseIndex(a)}); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.r; ++j) t({i, j}) = m(j, i); return t; };
  std::vector<Mat> o2; { Mat i(2, 2), x(2, 2), zz(2, 2), y(2, 2); i(0, 0) = i(1, 1) = 1; x(0, 1) = x(1, 0) = 1; zz(0, 0) = 1; zz(1, 1) = -1; y(0, 1) = cd(0, -1); y(1, 0) = cd(0, 1); o2 = {i, x, zz, y}; }
  // term: group of (l, s) pairs, group of (s, r) pairs (indices into o2), scaled
  struct G { std::vector<std::array<int, 2>> a, b; };
  std::vector<G> gs; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) gs.push_back({{{i, j}}, {{j, i}}});
  gs.push_back({{{1, 0}, {0, 1}}, {{0, 0}}}); gs.push_back({{{0, 0}}, {{2, 2}, {1, 0}, {0, 3}}}); gs.push_back({{{1, 2}, {2, 1}}, {{3, 3}, {0, 0}}}); gs.push_back({{{3, 1}, {1, 3}}, {{3, 1}, {1, 3}}});
  std::vector<Vec> st; for (int k = 0; k < 4; ++k) { Vec v(16); if (k < 3) v[k * 5] = 1; if (k >= 1) v[6] = cd(0, 0.5); if (k == 3) for (size_t i = 0; i < 16; ++i) v[i] = cd(std::cos(i * 1.7), std::sin(i * i * 0.9)); st.push_back(v); }
  std::vector<size_t> h; size_t depth = c.thorough() ? 3 : 2;
  std::function<void()> rec = [&] {
    if (!h.empty()) for (size_t v = 0; v < st.size(); ++v) for (size_t p = 0; p < kParams.size(); ++p) {
      std::string id = "t"; for (auto x : h) id += "." + std::to_string(x); id += "/" + std::to_string(v) + "." + std::to_string(p);
      if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] {
        std::vector<std::unique_ptr<T>> own; SuperBlockHamiltonianTerms<T> terms; Mat m(16, 16);
        auto keep = [&](int w, bool left) { own.push_back(std::make_unique<T>(op(o2[w], left))); return own.back().get(); };
        for (auto x : h) { BlockSiteHamiltonianTermGroup<T> a; SiteBlockHamiltonianTermGroup<T> b; Mat A(4, 4), B(4, 4);
          for (auto &q : gs[x].a) { a.push_back({keep(q[0], true), keep(q[1], false)}); A = A + tn::Kron(o2[q[0]], o2[q[1]]); }
          for (auto &q : gs[x].b) { b.push_back({keep(q[0], false), keep(q[1], false)}); B = B + tn::Kron(o2[q[0]], o2[q[1]]); }
          terms.push_back({a, b}); m = m + tn::Kron(A, B); }
        Index<Q> l({QNSector<Q>(z, 2)}, IN), r({QNSector<Q>(z, 2)}, OUT); long live = shim::Live::Count(); T *s = new T({l, r, r, r}); for (size_t i = 0; i < 16; ++i) (*s)({i / 8, i / 4 % 2, i / 2 % 2, i % 2}) = st[v][i];
        LanczosParams lp(kParams[p].first, kParams[p].second); auto res = LanczosSolver(terms, s, lp); JudgeGs(id, m, st[v], lp, res, 0, false, live);
      });
      if (c.states % 997 == 7) c.sample(id);
    }
    if (h.size() < depth) for (size_t g = h.empty() ? 0 : h.back(); g < gs.size(); ++g) { h.push_back(g); rec(); h.pop_back(); }
  };
  rec(); c.info["terms"] = std::to_string(gs.size()) + " term groups, sums of up to " + std::to_string(depth);
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx();
  auto all = [&](const std::string &only) { if (c.mode == "vmps") Vmps(only); else if (c.mode == "dmrg") Dmrg(only); else Expmv(only); };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
