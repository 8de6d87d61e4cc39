// Hamiltonian generation: every sequence of AddTerm calls up to a depth, over a
// pool of terms, for several site types, against the explicitly summed operator.
#include "tn.h"
#include "tn_eigen.h"
#include <set>
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/one_dim_tn/mpo/mat_repr_mpo.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using tn::Mat; using tn::cd;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;

template<typename E, typename Q>
struct Model {
  using T = QLTensor<E, Q>;
  using Gen = MPOGenerator<E, Q>;
  IndexVec<Q> sites;
  std::vector<size_t> dims;
  struct Term { std::string name; std::function<void(Gen &)> add; Mat dense; };
  std::vector<Term> pool;
  void Sites(const IndexVec<Q> &s) { sites = s; dims.clear(); for (auto &i : s) dims.push_back(i.dim()); }
  Mat P(cd c, const std::vector<std::pair<size_t, Mat>> &o) const { return c * tn::Product(dims, o); }
  // generic interface
  void Generic(const std::string &n, E c, std::vector<T> ops, std::vector<size_t> at) {
    std::vector<std::pair<size_t, Mat>> o; for (size_t i = 0; i < ops.size(); ++i) o.push_back({at[i], tn::OpMat(ops[i])});
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, ops, at); }, P(cd(c), o)});
  }
  // one or two body interface with an optional inserted string
  void One(const std::string &n, E c, T a, size_t i) {
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, a, i); }, P(cd(c), {{i, tn::OpMat(a)}})});
  }
  void Two(const std::string &n, E c, T a, size_t i, T b, size_t j) {
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, a, i, b, j); }, P(cd(c), {{i, tn::OpMat(a)}, {j, tn::OpMat(b)}})});
  }
  void TwoStr(const std::string &n, E c, T a, size_t i, T b, size_t j, T f) {
    std::vector<std::pair<size_t, Mat>> o{{i, tn::OpMat(a)}, {j, tn::OpMat(b)}};
    for (size_t k = i + 1; k < j; ++k) o.push_back({k, tn::OpMat(f)});
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, a, i, b, j, f); }, P(cd(c), o)});
  }
  void TwoAt(const std::string &n, E c, T a, size_t i, T b, size_t j, T f, std::vector<size_t> at) {
    std::vector<std::pair<size_t, Mat>> o{{i, tn::OpMat(a)}, {j, tn::OpMat(b)}};
    for (size_t k : at) o.push_back({k, tn::OpMat(f)});
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, a, i, b, j, f, at); }, P(cd(c), o)});
  }
  // n physical operators with inserted strings (tail string when there are as many)
  void Phys(const std::string &n, E c, std::vector<T> ops, std::vector<size_t> at, std::vector<T> ins) {
    std::vector<std::pair<size_t, Mat>> o;
    for (size_t i = 0; i < ops.size(); ++i) {
      o.push_back({at[i], tn::OpMat(ops[i])});
      size_t to = i + 1 < ops.size() ? at[i + 1] : dims.size();
      if (i < ins.size()) for (size_t k = at[i] + 1; k < to; ++k) o.push_back({k, tn::OpMat(ins[i])});
    }
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, ops, at, ins); }, P(cd(c), o)});
  }
  void PhysAt(const std::string &n, E c, std::vector<T> ops, std::vector<size_t> at, std::vector<T> ins,
              std::vector<std::vector<size_t>> where) {
    std::vector<std::pair<size_t, Mat>> o;
    for (size_t i = 0; i < ops.size(); ++i) o.push_back({at[i], tn::OpMat(ops[i])});
    for (size_t i = 0; i < ins.size(); ++i) for (size_t k : where[i]) o.push_back({k, tn::OpMat(ins[i])});
    pool.push_back({n, [=](Gen &g) { g.AddTerm(c, ops, at, ins, where); }, P(cd(c), o)});
  }
};

// rows x cols matrices of operators, multiplied out
template<typename T>
Mat DenseMatRepr(const MatReprMPO<T> &m, const std::vector<size_t> &dims) {
  std::vector<Mat> cur{Mat::Id(1)};
  for (size_t i = 0; i < m.size(); ++i) {
    if (m[i].rows != cur.size()) throw std::logic_error("matrix form: row count differs from the previous column count");
    std::vector<Mat> nx; size_t R = cur[0].r * dims[i];
    for (size_t y = 0; y < m[i].cols; ++y) {
      Mat s(R, R);
      for (size_t x = 0; x < m[i].rows; ++x) if (!m[i].IsNull(x, y)) s = s + tn::Kron(cur[x], tn::OpMat(m[i](x, y)));
      nx.push_back(s);
    }
    cur.swap(nx);
  }
  if (cur.size() != 1) throw std::logic_error("matrix form does not end in a single column");
  return cur[0];
}

template<typename E, typename Q>
void CheckOne(const Model<E, Q> &m, const std::string &id, const std::vector<size_t> &seq) {
  auto &c = mc::ctx();
  tn::Case(id, [&] {
    SiteVec<E, Q> sv(m.sites);
    MPOGenerator<E, Q> gen(sv, Q() - Q());
    size_t D = 1; for (auto d : m.dims) D *= d;
    Mat want(D, D); std::string what;
    for (size_t t : seq) { m.pool[t].add(gen); want = want + m.pool[t].dense; what += (what.empty() ? "" : " ; ") + m.pool[t].name; c.transitions++; }
    double tol = 1e-11 * std::max(1.0, tn::MaxAbs(want.a));
    auto judge = [&](const char *form, const Mat &got) {
      double d = tn::Diff(got, want);
      c.traces_validated++;
      if (!(d < tol)) c.violate(std::string("wrong-operator-") + form, id, what + ": differs by " + tn::Num(d));
    };
    auto mpo = gen.Gen(true); judge("compressed", tn::DenseMpo(mpo));
    auto raw = gen.Gen(false); judge("uncompressed", tn::DenseMpo(raw));
    auto mat = gen.GenMatReprMPO(); judge("matrix", DenseMatRepr(mat, m.dims));
    size_t big = 0;
    for (size_t i = 0; i < mpo.size(); ++i) {
      if (mpo[i].Div() != Q()) c.violate("mpo-divergence", id, what + ": MPO tensor carries a divergence");
      auto &ix = mpo[i].GetIndexes();
      if (ix[0].GetDir() != IN || ix[1].GetDir() != IN || ix[2].GetDir() != OUT || ix[3].GetDir() != OUT)
        c.violate("mpo-directions", id, what + ": index directions");
      if (mpo[i].GetShape()[3] > raw[i].GetShape()[3]) c.violate("compress-grows", id, what + ": compression enlarges a bond");
      big = std::max(big, mpo[i].GetShape()[3]);
      if (c.mode == "rank" && (mpo[i].GetShape()[3] != 1 || mat[i].cols != 1)) c.violate("not-minimal", id, what + ": a single product on a bond of dimension " + std::to_string(mpo[i].GetShape()[3]));
    }
    // generating again gives the same operator (generation has no side effect)
    auto again = gen.Gen(true);
    if (!(tn::Diff(tn::DenseMpo(again), want) < tol)) c.violate("second-generation", id, what);
    c.note_distinct(mc::hash_str(id));
    c.outcome("D=" + std::to_string(big));
    c.states++;
  });
}

// ---- the number of terms a bond has to carry: the rank of the operator across the bond
inline long OperatorRank(const Mat &want, const std::vector<size_t> &dims, size_t cut) {
  size_t L = 1, R = 1; for (size_t i = 0; i < dims.size(); ++i) (i < cut ? L : R) *= dims[i];
  Eigen::MatrixXcd M(L * L, R * R);
  for (size_t a = 0; a < L; ++a) for (size_t b = 0; b < L; ++b) for (size_t x = 0; x < R; ++x) for (size_t y = 0; y < R; ++y) M(a * L + b, x * R + y) = want(a * R + x, b * R + y);
  Eigen::MatrixXcd g = L <= R ? Eigen::MatrixXcd(M * M.adjoint()) : Eigen::MatrixXcd(M.adjoint() * M);   // the smaller Gram matrix
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(g, Eigen::EigenvaluesOnly); double top = es.eigenvalues().maxCoeff(); long r = 0;
  for (long i = 0; i < es.eigenvalues().size(); ++i) r += es.eigenvalues()[i] > 1e-10 * top; return r;
}
// Every graph of couplings: each pair of sites carries one of the given strengths or none. A coupling is a group of terms.
template<typename E, typename Q>
void Graphs(const std::string &name, Model<E, Q> m, std::vector<double> strengths, std::function<void(Model<E, Q> &, size_t, size_t, double)> couple, const std::string &only) {
  auto &c = mc::ctx(); size_t n = m.dims.size(), pairs = n * (n - 1) / 2, b = strengths.size() + 1, total = 1; for (size_t i = 0; i < pairs; ++i) total *= b;
  std::vector<std::vector<std::pair<size_t, size_t>>> group;      // [strength][pair] -> terms
  for (double x : strengths) { group.emplace_back(); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { size_t from = m.pool.size(); couple(m, i, j, x); group.back().push_back({from, m.pool.size()}); } }
  for (size_t x = 1; x < total; ++x) for (int order = 0; order < 2; ++order) {
    std::string id = name + ":" + std::to_string(x) + "." + std::to_string(order); if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      std::vector<size_t> seq; for (size_t i = 0, y = x; i < pairs; ++i, y /= b) if (y % b) for (size_t t = group[y % b - 1][i].first; t < group[y % b - 1][i].second; ++t) seq.push_back(t);
      if (order) std::reverse(seq.begin(), seq.end());
      SiteVec<E, Q> sv(m.sites); MPOGenerator<E, Q> gen(sv, Q() - Q()); size_t D = 1; for (auto d : m.dims) D *= d; Mat want(D, D);
      for (size_t t : seq) { m.pool[t].add(gen); want = want + m.pool[t].dense; c.transitions++; }
      auto mpo = gen.Gen(true); auto mat = gen.GenMatReprMPO(); if (!(tn::Diff(tn::DenseMpo(mpo), want) < 1e-11 * std::max(1.0, tn::MaxAbs(want.a)))) c.violate("wrong-operator", id, "");
      for (size_t cut = 1; cut < n; ++cut) {
        long r = OperatorRank(want, m.dims, cut), have = long(mpo[cut - 1].GetShape()[3]), rows = long(mat[cut - 1].cols);
        if (have != r || rows != r) c.violate(have < r || rows < r ? "narrower-than-the-operator" : "not-minimal", id, "bond " + std::to_string(cut) + " has " + std::to_string(have) + " and " + std::to_string(rows) + ", the operator needs " + std::to_string(r));
        c.outcome("rank " + std::to_string(r));
      }
      c.traces_validated++; c.states++; c.note_distinct(mc::hash_str(id)); if (c.states % 2003 == 7) c.sample(id);
    });
  }
  c.info[name] = std::to_string(total - 1) + " coupling graphs, two orders";
}

template<typename E, typename Q>
void Explore(const std::string &name, const Model<E, Q> &m, size_t depth, const std::string &only) {
  auto &c = mc::ctx();
  if (!only.empty()) {
    if (only.compare(0, name.size() + 1, name + ":") != 0) return;
    std::vector<size_t> seq; std::stringstream s(only.substr(name.size() + 1)); std::string w;
    while (std::getline(s, w, '.')) seq.push_back(std::stoul(w));
    CheckOne(m, only, seq);
    return;
  }
  std::vector<size_t> seq;
  std::function<void()> rec = [&] {
    bool some = false;                // at least one term must survive
    for (size_t t : seq) some |= tn::MaxAbs(m.pool[t].dense.a) > 0;
    if (some && c.mine()) {
      std::string id = name + ":"; for (size_t i = 0; i < seq.size(); ++i) id += (i ? "." : "") + std::to_string(seq[i]);
      CheckOne(m, id, seq);
      if (c.seq % 4001 == 0) c.sample(id);
    }
    if (seq.size() == depth) return;
    for (size_t t = 0; t < m.pool.size(); ++t) { seq.push_back(t); rec(); seq.pop_back(); }
  };
  rec();
  c.info[name] = std::to_string(m.pool.size()) + " terms, every sequence of up to " + std::to_string(depth);
}

template<typename E, typename Q>
Model<E, Q> SpinModel(size_t n, bool complex_coefs) {
  Model<E, Q> m; sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o(s);
  m.Sites(IndexVec<Q>(n, s.phys_bond_out));
  auto two = [](auto t, double x) { t *= E(x); return t; };
  E c1(1), c2(-0.7); if constexpr (std::is_same_v<E, QLTEN_Complex>) { if (complex_coefs) c2 = E(0.3, -0.8); }
  size_t e = n - 1;
  m.One("Sz0", c1, o.sz, 0); m.One("-.7Sz_e", c2, o.sz, e); m.One("(-2Sz)_e", c1, two(o.sz, -2), e);
  m.Two("Sz0Sz1", c1, o.sz, 0, o.sz, 1); m.Two("Sp0Sm_e", c2, o.sp, 0, o.sm, e); m.Two("Sm0Sp_e", c2, o.sm, 0, o.sp, e);
  m.Generic("unsorted Sm_e Sp0", c1, {o.sm, o.sp}, {e, 0});
  m.Two("(-Sp)0Sm1", c1, two(o.sp, -1), 0, o.sm, 1);
  m.One("0*Sz0", E(0), o.sz, 0); m.One("-Sz0", E(-1), o.sz, 0);
  if (n >= 3) {
    m.Generic("SzSzSz", c2, {o.sz, o.sz, o.sz}, {0, 1, 2});
    m.Generic("unsorted SzSpSm", c1, {o.sp, o.sz, o.sm}, {2, 1, 0});
    m.TwoStr("Sp0[Sz]Sm2", c1, o.sp, 0, o.sm, 2, o.sz);
    m.TwoAt("Sp0{Sz@1}Sm2", c2, o.sp, 0, o.sm, 2, o.sz, {1});
    m.Two("Sz1Sz2", c1, o.sz, 1, o.sz, 2); m.One("Sz1", c1, o.sz, 1);
    m.Phys("tail Sp0 Sm1 then Sz", c2, {o.sp, o.sm}, {0, 1}, {o.id, o.sz});
    m.Phys("tail Sp0 Sm1 then -Sz", c2, {o.sp, o.sm}, {0, 1}, {o.id, two(o.sz, -1)});
    m.TwoStr("Sp0[-Sz]Sm2", c1, o.sp, 0, o.sm, 2, two(o.sz, -1));
  }
  if (n >= 4) {
    m.TwoStr("Sp0[Sz]Sm3", c1, o.sp, 0, o.sm, 3, o.sz);
    m.TwoAt("Sp0{Sz@2}Sm3", c1, o.sp, 0, o.sm, 3, o.sz, {2});
    m.Phys("Sp0[Sz]Sm2 Sz3", c1, {o.sp, o.sm, o.sz}, {0, 2, 3}, {o.sz, o.id});
    m.PhysAt("at", c2, {o.sp, o.sm}, {0, 3}, {o.sz}, {{1, 2}});
    m.Phys("tail Sp0 Sm2", c1, {o.sp, o.sm}, {0, 2}, {o.sz, o.sz});
    m.Two("Sz2Sz3", c1, o.sz, 2, o.sz, 3);
    m.Two("Sp1Sm2", c1, o.sp, 1, o.sm, 2); m.Two("Sm1Sp2", c1, o.sm, 1, o.sp, 2);
  }
  return m;
}
template<typename E, typename Q>
Model<E, Q> MixedModel() {             // different local spaces on the sites
  Model<E, Q> m; sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o(s); using T = QLTensor<E, Q>;
  Index<Q> one({QNSector<Q>(Q(2), 1), QNSector<Q>(Q(0), 1), QNSector<Q>(Q(-2), 1)}, OUT);
  m.Sites({s.phys_bond_out, one, s.phys_bond_out});
  T z({InverseIndex(one), one}), u({InverseIndex(one), one}), d({InverseIndex(one), one});
  z(0, 0) = 1.0; z(2, 2) = -1.0; u(1, 0) = 1.0; u(2, 1) = 1.0; d(0, 1) = 1.0; d(1, 2) = 1.0;
  m.One("sz0", 1.0, o.sz, 0); m.One("Z1", -0.5, z, 1); m.One("sz2", 2.0, o.sz, 2);
  m.Two("sp0 D1", 0.5, o.sp, 0, d, 1); m.Two("sm0 U1", 0.5, o.sm, 0, u, 1);
  m.Two("U1 sm2", 0.5, u, 1, o.sm, 2); m.Two("D1 sp2", 0.5, d, 1, o.sp, 2);
  m.Two("sz0 sz2", 1.0, o.sz, 0, o.sz, 2); m.Generic("sz Z sz", 1.0, {o.sz, z, o.sz}, {0, 1, 2});
  m.Two("sp0 sm2", 1.0, o.sp, 0, o.sm, 2); m.TwoStr("sp0[Z]sm2", 1.0, o.sp, 0, o.sm, 2, z);
  return m;
}
template<typename E, typename Q>
Model<E, Q> HubbardModel(size_t n) {
  Model<E, Q> m; sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s);
  m.Sites(IndexVec<Q>(n, s.phys_bond_out));
  for (size_t i = 0; i < n; ++i) m.One("U" + std::to_string(i), 4.0, o.nupndn, i);
  m.One("mu0", -1.0, o.nf, 0);
  for (size_t i = 0; i + 1 < n; ++i) {
    std::string a = std::to_string(i);
    m.TwoStr("hop1 " + a, -1.0, o.bupcF, i, o.bupa, i + 1, o.f); m.TwoStr("hop2 " + a, 1.0, o.bupaF, i, o.bupc, i + 1, o.f);
    m.TwoStr("hop3 " + a, -1.0, o.bdnc, i, o.Fbdna, i + 1, o.f); m.TwoStr("hop4 " + a, 1.0, o.bdna, i, o.Fbdnc, i + 1, o.f);
  }
  if (n > 2) {
    m.TwoStr("hop02", -0.3, o.bupcF, 0, o.bupa, 2, o.f);
    m.Two("pair02", 0.5, o.cupccdnc, 0, o.cdnacupa, 2);
    m.Generic("corr hop", 0.2, {o.bupcF, o.nf, o.bupa}, {0, 1, 2});
  }
  return m;
}
// Every term there is: all sites in all orders, all operators from a set, through every overload
template<typename E, typename Q>
Model<E, Q> EveryTerm(size_t n, bool few) {
  Model<E, Q> m; sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o(s); using T = QLTensor<E, Q>;
  m.Sites(IndexVec<Q>(n, s.phys_bond_out));
  auto times = [](auto t, double x) { t *= E(x); return t; };
  std::vector<T> ops{o.sz, o.sp, times(o.sm, -1.5)}; std::vector<int> q{0, 1, -1}; if (!few) { ops.push_back(times(o.sz, 0.5) + o.id); q.push_back(0); }
  std::vector<T> ins{o.id, o.sz, times(o.sz, -2)};
  E c1(0.7); if constexpr (std::is_same_v<E, QLTEN_Complex>) c1 = E(0.3, -0.8);
  auto digits = [](size_t x, size_t b, size_t k) { std::vector<size_t> v; while (k--) { v.push_back(x % b); x /= b; } return v; };
  auto power = [](size_t b, size_t k) { size_t p = 1; while (k--) p *= b; return p; };
  for (size_t k = 1; k <= n; ++k) for (size_t sx = 0; sx < power(n, k); ++sx) {
    auto at = digits(sx, n, k); if (std::set<size_t>(at.begin(), at.end()).size() != k) continue; bool sorted = std::is_sorted(at.begin(), at.end());
    if (few && k > 3) continue;
    for (size_t ox = 0; ox < power(ops.size(), k); ++ox) {
      auto w = digits(ox, ops.size(), k); int t = 0; for (auto x : w) t += q[x]; if (t) continue;
      std::vector<T> a; for (auto x : w) a.push_back(ops[x]);
      std::string nm; for (size_t i = 0; i < k; ++i) nm += std::to_string(w[i]) + "@" + std::to_string(at[i]) + " ";
      m.Generic(nm, c1, a, at);
      if (k == 1) m.One(nm, c1, a[0], at[0]);
      if (k == 2) m.Two(nm, c1, a[0], at[0], a[1], at[1]);
      if (!sorted || k < 2) continue;
      // insertions: every choice of the inserted operators, with and without a tail, between all or any of the sites
      for (size_t tail = 0; tail < 2; ++tail) for (size_t ix = 0; ix < power(ins.size(), k - 1 + tail); ++ix) {
        auto iw = digits(ix, ins.size(), k - 1 + tail); std::vector<T> in; for (auto x : iw) in.push_back(ins[x]); std::string ni = nm + "ins"; for (auto x : iw) ni += std::to_string(x);
        m.Phys(ni, c1, a, at, in); if (k == 2 && !tail) m.TwoStr(ni + " two", c1, a[0], at[0], a[1], at[1], in[0]);
        if (few && ix % 2) continue;
        std::vector<std::pair<size_t, size_t>> room; for (size_t i = 0; i < in.size(); ++i) { size_t to = i + 1 < k ? at[i + 1] : n; for (size_t x = at[i] + 1; x < to; ++x) room.push_back({i, x}); }
        for (size_t sub = 0; sub < power(2, room.size()); ++sub) {
          std::vector<std::vector<size_t>> where(in.size()); for (size_t r = 0; r < room.size(); ++r) if (sub >> r & 1) where[room[r].first].push_back(room[r].second);
          m.PhysAt(ni + " at" + std::to_string(sub), c1, a, at, in, where); if (k == 2 && !tail && !where[0].empty()) m.TwoAt(ni + " two at" + std::to_string(sub), c1, a[0], at[0], a[1], at[1], in[0], where[0]);
        }
      }
    }
  }
  return m;
}
int main(int argc, char **argv) {
  mc::mute_all();
  auto all = [&](const std::string &only) {
    bool th = mc::ctx().thorough();
    if (mc::ctx().mode == "rank") {
      sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o(s); typedef Model<double, U1QN> M; typedef Model<double, U1U1QN> H;
      auto chain = [&](size_t n) { M m; m.Sites(IndexVec<U1QN>(n, s.phys_bond_out)); return m; };
      std::function<void(M &, size_t, size_t, double)> ising = [&](M &m, size_t i, size_t j, double x) { m.Two("zz", x, o.sz, i, o.sz, j); };
      std::function<void(M &, size_t, size_t, double)> heis = [&](M &m, size_t i, size_t j, double x) { m.Two("zz", x, o.sz, i, o.sz, j); m.Two("pm", 0.5 * x, o.sp, i, o.sm, j); m.Two("mp", 0.5 * x, o.sm, i, o.sp, j); };
      Graphs<double, U1QN>("ising4", chain(4), {1, -0.7, 2}, ising, only); Graphs<double, U1QN>("ising5", chain(5), {1}, ising, only); Graphs<double, U1QN>("ising6", chain(6), {-0.5}, ising, only);
      Graphs<double, U1QN>("heis3", chain(3), {1, -0.7, 2}, heis, only); Graphs<double, U1QN>("heis4", chain(4), {1, -0.7, 2}, heis, only); Graphs<double, U1QN>("heis5", chain(5), {1}, heis, only); if (th) Graphs<double, U1QN>("heis6", chain(6), {1}, heis, only);
      sites::HubbardSite<U1U1QN> hs; HubbardOperators<double, U1U1QN> ho(hs);
      std::function<void(H &, size_t, size_t, double)> hop = [&](H &m, size_t i, size_t j, double x) { m.TwoStr("1", -x, ho.bupcF, i, ho.bupa, j, ho.f); m.TwoStr("2", x, ho.bupaF, i, ho.bupc, j, ho.f); m.TwoStr("3", -x, ho.bdnc, i, ho.Fbdna, j, ho.f); m.TwoStr("4", x, ho.bdna, i, ho.Fbdnc, j, ho.f); };
      for (size_t n = 2; n <= (th ? 4 : 3); ++n) { H m; m.Sites(IndexVec<U1U1QN>(n, hs.phys_bond_out)); Graphs<double, U1U1QN>("hub" + std::to_string(n), m, {1}, hop, only); }
      Explore("terms3", EveryTerm<QLTEN_Complex, U1QN>(3, false), 1, only); Explore("terms4", EveryTerm<double, U1QN>(4, !th), 1, only);
      return;
    }
    if (mc::ctx().mode == "terms") {
      Explore("terms2", EveryTerm<double, U1QN>(2, false), 2, only); Explore("terms3", EveryTerm<QLTEN_Complex, U1QN>(3, false), 1, only); Explore("terms4", EveryTerm<double, U1QN>(4, !th), 1, only);
      Explore("terms3t", EveryTerm<double, TrivialRepQN>(3, false), 1, only); if (th) { Explore("terms3p", EveryTerm<double, U1QN>(3, true), 2, only); Explore("terms5", EveryTerm<double, U1QN>(5, true), 1, only); }
      return;
    }
    Explore("spin2", SpinModel<double, U1QN>(2, false), th ? 6 : 5, only);
    Explore("spin3", SpinModel<double, U1QN>(3, false), th ? 5 : 4, only);
    Explore("spin4", SpinModel<double, U1QN>(4, false), th ? 4 : 3, only);
    Explore("spin4c", SpinModel<QLTEN_Complex, U1QN>(4, true), th ? 3 : 2, only);
    Explore("spin3t", SpinModel<QLTEN_Complex, TrivialRepQN>(3, true), th ? 4 : 3, only);
    Explore("spin5", SpinModel<double, U1QN>(5, false), th ? 3 : 2, only);
    Explore("mixed", MixedModel<double, U1QN>(), th ? 5 : 4, only);
    Explore("hub2", HubbardModel<double, U1U1QN>(2), th ? 6 : 4, only);
    Explore("hub3", HubbardModel<double, U1U1QN>(3), th ? 4 : 3, only);
    Explore("hub3t", HubbardModel<double, TrivialRepQN>(3), 2, only);
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, [&](const std::string &c) { all(c); });
}
