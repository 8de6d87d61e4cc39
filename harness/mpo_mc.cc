// Histories of operations on finite matrix product operators with the dense
// operator as shadow (mode hist), products compressed by variational sweeps
// (mode vprod) and thermal density matrices (mode exp).
#include "tn_eigen.h"
#include "scratch.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using tn::cd; using tn::Mat;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;

template<typename E, typename Q>
struct Cfg { std::string name; std::vector<size_t> dims; std::vector<FiniteMPO<E, Q>> m; };   // Hermitian, charge-free operators

// isometry of an operator tensor [l, in, out, r]
template<typename T> double LDef(const T &t) {
  auto s = t.GetShape(); const auto &w = t.Raw(); double m = 0; size_t L = s[0] * s[1] * s[2], R = s[3];
  for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < R; ++b) { cd x = 0; for (size_t i = 0; i < L; ++i) x += std::conj(cd(w[i * R + a])) * cd(w[i * R + b]); m = std::max(m, std::abs(x - cd(a == b))); }
  return m;
}
template<typename T> double RDef(const T &t) {
  auto s = t.GetShape(); const auto &w = t.Raw(); double m = 0; size_t L = s[0], R = s[1] * s[2] * s[3];
  for (size_t a = 0; a < L; ++a) for (size_t b = 0; b < L; ++b) { cd x = 0; for (size_t i = 0; i < R; ++i) x += cd(w[a * R + i]) * std::conj(cd(w[b * R + i])); m = std::max(m, std::abs(x - cd(a == b))); }
  return m;
}
inline double Fro(const Mat &m) { return tn::Norm(m.a); }
inline cd Overlap(const Mat &x, const Mat &y) { return tn::Dot(x.a, y.a); }

// squared operator Schmidt weights across a cut
inline std::vector<double> OpSchmidt2(const Mat &m, const std::vector<size_t> &d, size_t cut) {
  size_t l = 1, r = 1; for (size_t i = 0; i < d.size(); ++i) (i < cut ? l : r) *= d[i];
  tn::Vec v(l * l * r * r);
  for (size_t a = 0; a < l; ++a) for (size_t b = 0; b < r; ++b) for (size_t c = 0; c < l; ++c) for (size_t e = 0; e < r; ++e) v[((a * l + c) * r + b) * r + e] = m(a * r + b, c * r + e);
  return tn::Schmidt2(v, l * l);
}

template<typename E, typename Q>
void Invariants(const std::string &id, const std::string &after, const FiniteMPO<E, Q> &m, const Mat &d, const char *who) {
  auto &c = mc::ctx(); c.traces_validated++;
  Mat got = tn::DenseMpo(m); double sc = std::max(1.0, tn::MaxAbs(d.a)), df = tn::Diff(got, d);
  if (!(df < 1e-10 * sc)) c.violate("operator-changed", id, std::string(who) + " after " + after + ": differs by " + tn::Num(df));
  auto ty = m.GetTensCanoType(); int cen = m.GetCenter(); size_t D = 1;
  if (ty.size() != m.size() || cen < -1 || cen >= int(m.size())) { c.violate("record", id, after); return; }
  for (size_t i = 0; i < m.size(); ++i) {
    const auto &t = m[i];
    if (m.GetTenCanoType(i) != ty[i]) c.violate("record", id, after);
    if ((ty[i] == MPSTenCanoType::LEFT || (cen >= 0 && int(i) < cen)) && !(LDef(t) < 1e-10)) c.violate("not-left-canonical", id, std::string(who) + " site " + std::to_string(i) + " after " + after);
    if ((ty[i] == MPSTenCanoType::RIGHT || (cen >= 0 && int(i) > cen)) && !(RDef(t) < 1e-10)) c.violate("not-right-canonical", id, std::string(who) + " site " + std::to_string(i) + " after " + after);
    if (i + 1 < m.size()) D = std::max(D, t.GetShape()[3]);
  }
  if (m.GetMaxBondDim() != D) c.violate("max-bond", id, std::to_string(m.GetMaxBondDim()) + " for " + std::to_string(D));
}

template<typename E, typename Q> struct World { FiniteMPO<E, Q> a, b; Mat da, db; bool skip; };
template<typename E, typename Q> struct Op { std::string name; std::function<void(World<E, Q> &, const std::string &)> run; };

template<typename E, typename Q>
std::vector<Op<E, Q>> Ops(const Cfg<E, Q> &g) {
  using W = World<E, Q>; using M = FiniteMPO<E, Q>; auto &c = mc::ctx(); std::vector<Op<E, Q>> o; size_t n = g.dims.size(); auto dims = g.dims;
  auto num = [](size_t k) { return "(" + std::to_string(k) + ")"; };
  for (size_t k = 0; k < n; ++k) o.push_back({"Centralize" + num(k), [k, &c](W &w, const std::string &id) { w.a.Centralize(int(k)); if (w.a.GetCenter() != int(k)) c.violate("center-not-set", id, ""); }});
  for (size_t k = 0; k + 1 < n; ++k) o.push_back({"LeftCanonicalize" + num(k), [k, &c](W &w, const std::string &id) { w.a.LeftCanonicalize(k); const M &m = w.a; for (size_t i = 0; i <= k; ++i) if (!(LDef(m[i]) < 1e-10)) c.violate("left-canonicalize", id, ""); }});
  for (size_t k = 1; k < n; ++k) o.push_back({"RightCanonicalize" + num(k), [k, n, &c](W &w, const std::string &id) { w.a.RightCanonicalize(k); const M &m = w.a; for (size_t i = k; i < n; ++i) if (!(RDef(m[i]) < 1e-10)) c.violate("right-canonicalize", id, ""); }});
  if (n > 2) { o.push_back({"LeftCanonicalizeTen(1)", [&c](W &w, const std::string &id) { w.a.LeftCanonicalizeTen(1); const M &m = w.a; if (!(LDef(m[1]) < 1e-10)) c.violate("left-canonicalize-ten", id, ""); }});
    o.push_back({"RightCanonicalizeTen(1)", [&c](W &w, const std::string &id) { w.a.RightCanonicalizeTen(1); const M &m = w.a; if (!(RDef(m[1]) < 1e-10)) c.violate("right-canonicalize-ten", id, ""); }}); }
  o.push_back({"a[1]*=-2", [](W &w, const std::string &) { w.a[1] *= E(-2); w.da = cd(-2) * w.da; }});
  o.push_back({"Scale(.5)", [&c](W &w, const std::string &id) { int cen = w.a.GetCenter(); w.a.Scale(E(0.5)); w.da = cd(0.5) * w.da; if (cen >= 0 && w.a.GetCenter() != cen) c.violate("scale-center", id, ""); }});
  o.push_back({"*=3", [](W &w, const std::string &) { w.a *= E(3); w.da = cd(3) * w.da; }});
  o.push_back({"Normalize", [&c](W &w, const std::string &id) { int cen = w.a.GetCenter(); double r = w.a.Normalize(); double f = Fro(w.da); w.da = cd(1 / r) * w.da;
    if (cen >= 0 && !(std::abs(r - f) < 1e-9 * std::max(1.0, f))) c.violate("normalize", id, tn::Num(r) + " for an operator of norm " + tn::Num(f));
    if (cen >= 0 && w.a.GetCenter() != cen) c.violate("normalize-center", id, ""); }});
  o.push_back({"a=b", [](W &w, const std::string &) { w.a = w.b; w.da = w.db; }});
  o.push_back({"a=copy", [](W &w, const std::string &) { M t(w.a); w.a = t; }});
  o.push_back({"swap", [n, &c](W &w, const std::string &id) { M t(n); t = std::move(w.a); w.a = std::move(w.b); w.b = std::move(t); std::swap(w.da, w.db); }});
  o.push_back({"a+=b", [](W &w, const std::string &) { if (w.a.GetMaxBondDim() + w.b.GetMaxBondDim() > 40) { w.skip = true; return; } w.a += w.b; w.da = w.da + w.db; }});
  o.push_back({"a=b+a", [](W &w, const std::string &) { if (w.a.GetMaxBondDim() + w.b.GetMaxBondDim() > 40) { w.skip = true; return; } w.a = w.b + w.a; w.da = w.db + w.da; }});
  o.push_back({"a=a*b", [n](W &w, const std::string &) { if (w.a.GetMaxBondDim() * w.b.GetMaxBondDim() > 40) { w.skip = true; return; } M t(n); MpoProduct(w.a, w.b, t); w.a = t; w.da = w.da * w.db; }});
  o.push_back({"b=SimpleProduct(a,b)", [](W &w, const std::string &) { if (w.a.GetMaxBondDim() * w.b.GetMaxBondDim() > 40) { w.skip = true; return; } w.b = w.a.SimpleProduct(w.b); w.db = w.da * w.db; }});
  o.push_back({"a=1", [](W &w, const std::string &) { w.a = GenerateIdentityMPO(w.b); w.da = Mat::Id(w.db.r); }});
  o.push_back({"Trace", [&c](W &w, const std::string &id) { cd x = w.a.Trace(), y = 0; for (size_t i = 0; i < w.da.r; ++i) y += w.da(i, i);
    if (!(std::abs(x - y) < 1e-10 * std::max(1.0, Fro(w.da) * w.da.r))) c.violate("trace", id, tn::Num(x) + " for " + tn::Num(y)); }});
  o.push_back({"Dump/Load", [](W &w, const std::string &) { std::as_const(w.a).Dump("slot"); if (!w.b.Load("slot")) throw std::logic_error("load failed"); w.db = w.da; }});
  o.push_back({"Truncate(all)", [](W &w, const std::string &) { w.a.Truncate(0.0, 1, 1000); }});
  for (size_t D : {1, 2}) o.push_back({"Truncate" + num(D), [D, n, dims, &c](W &w, const std::string &id) {
    double lost = 0; for (size_t i = 1; i < n; ++i) { auto p = OpSchmidt2(w.da, dims, i); for (size_t k = D; k < p.size(); ++k) lost += p[k]; }
    w.a.Truncate(0.0, 1, D); Mat got = tn::DenseMpo(std::as_const(w.a)); if (w.a.GetMaxBondDim() > D) c.violate("truncate-bond", id, "");
    double e = Fro(w.da + cd(-1) * got), f = Fro(w.da);
    if (!(e * e <= lost * (1 + 1e-9) + 1e-10 * std::max(1.0, f * f))) c.violate("truncate-loss", id, tn::Num(e * e) + " lost, discarded weights " + tn::Num(lost));
    if (Fro(got) > f * (1 + 1e-9)) c.violate("truncate-norm", id, "");
    w.da = got; }});
  return o;
}
template<typename E, typename Q>
void Histories(const Cfg<E, Q> &g, size_t depth, const std::string &only) {
  auto &c = mc::ctx(); auto ops = Ops(g); using W = World<E, Q>;
  if (!only.empty() && only.compare(0, g.name.size() + 1, g.name + "/")) return;
  auto apply = [&](W &w, const std::string &id, size_t op) {
    w.skip = false; ops[op].run(w, id); if (w.skip) return false;
    if (Fro(w.da) > 1e7 || Fro(w.db) > 1e7 || Fro(w.da) < 1e-6) return false;      // keep the numbers comparable
    c.transitions++; c.states++; Invariants(id, ops[op].name, w.a, w.da, "a"); Invariants(id, ops[op].name, w.b, w.db, "b"); c.note_distinct(mc::hash_str(id)); return true;
  };
  for (size_t st = 0; st + 1 < g.m.size() + 1; ++st) {
    auto fresh = [&] { auto &x = g.m[st]; auto &y = g.m[(st + 1) % g.m.size()]; return W{x, y, tn::DenseMpo(x), tn::DenseMpo(y), false}; };
    auto path = [&](const std::vector<size_t> &h) { std::string s = g.name + "/" + std::to_string(st); for (auto x : h) s += "." + std::to_string(x); return s; };
    if (!only.empty()) {
      std::stringstream ss(only.substr(only.find('/') + 1)); std::string x; std::vector<size_t> h; while (std::getline(ss, x, '.')) h.push_back(std::stoul(x));
      if (h[0] == st) tn::Case(only, [&] { auto w = fresh(); for (size_t i = 1; i < h.size(); ++i) { std::cerr << ops.at(h[i]).name << "\n"; if (!apply(w, only, h[i])) break; } });
      continue;
    }
    std::vector<size_t> h;
    std::function<void(const W &)> rec = [&](const W &w) {
      for (size_t op = 0; op < ops.size(); ++op) {
        if (h.size() == 1 && !c.mine()) continue;
        h.push_back(op); std::string id = path(h); bool on = false;
        tn::Case(id, [&] { W x(w); on = apply(x, id, op); if (on && h.size() < depth) rec(x); });
        if (on) c.outcome(ops[op].name.substr(0, ops[op].name.find('(')));
        if (h.size() == depth && c.states % 20011 == 7) { std::string s; for (auto k : h) s += ops[k].name + " "; c.sample(g.name + ": " + s); }
        h.pop_back();
      }
    };
    tn::Case(path(h), [&] { rec(fresh()); });
  }
  c.info[g.name] = std::to_string(ops.size()) + " operations, " + std::to_string(g.m.size()) + " starts, depth " + std::to_string(depth);
}

// Products by variational sweeps: every pair of operators, guess, bond limit, sweep count.
template<typename E, typename Q>
void Products(const Cfg<E, Q> &g, const std::string &only) {
  auto &c = mc::ctx(); using M = FiniteMPO<E, Q>; size_t n = g.dims.size(), K = g.m.size();
  // guess: 0 none, 1 the exact product, 2 product plus another operator, 3+k operator k; then a center for it
  for (size_t x = 0; x < K; ++x) for (size_t y = 0; y < K; ++y) for (size_t gs = 0; gs < 3 + K; ++gs) for (int cen = -1; cen < int(n); ++cen)
    for (size_t D : {1, 2, 3, 100}) for (size_t sw : {0, 1, 2, 4}) for (int sq = 0; sq < 3; ++sq) {
      if ((gs == 0) != (cen == -1) && gs == 0) continue;
      if (sq && x != y) continue;
      if (sq && gs == 0 && cen != -1) continue;
      std::string id = g.name + "/v" + std::to_string(x) + "." + std::to_string(y) + "." + std::to_string(gs) + "." + std::to_string(cen) + "." + std::to_string(D) + "." + std::to_string(sw) + "." + std::to_string(sq);
      if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] {
        const M &a = g.m[x], &b = g.m[y]; Mat want = tn::DenseMpo(a) * tn::DenseMpo(b); M out(n);
        if (gs == 1) MpoProduct(a, b, out); else if (gs == 2) { MpoProduct(a, b, out); out += g.m[(x + 1) % K]; } else if (gs > 2) out = g.m[gs - 3];
        if (cen >= 0) out.Centralize(cen);
        if (n == 2 && cen > 1) return;
        if (sq == 0) { MpoProduct(a, b, out, 1, D, 0.0, sw, 1e-13, "tmp" , false); }
        else {                                   // the square through files
          std::filesystem::remove_all("guess"); if (gs) std::as_const(out).Dump("guess");
          M s(a); MpoVOptimizeParams p("guess", 1, D, 0.0, sw, 1e-13, "tmp");
          if (sq == 1) s.Square(p); else { double f = s.SquareAndNormlize(p); Mat d = tn::DenseMpo(std::as_const(s)); if (!(std::abs(Fro(d) - 1) < 1e-10)) c.violate("normalized", id, "norm " + tn::Num(Fro(d))); s *= E(f); }
          out = s;
        }
        c.transitions++; Mat got = tn::DenseMpo(std::as_const(out)); double wf = Fro(want), gf = Fro(got), sc = std::max(1.0, wf * wf);
        if (sq < 2) Invariants(id, "product", out, got, "product");
        if (sw == 0 && n > 2) { c.states++; c.outcome("no sweep"); if (std::filesystem::exists("tmp")) std::filesystem::remove_all("tmp"); return; }
        if (out.GetMaxBondDim() > D) c.violate("product-bond", id, std::to_string(out.GetMaxBondDim()));
        cd ov = Overlap(got, want);
        if (!(std::abs(ov - cd(gf * gf)) < 1e-9 * sc)) c.violate("product-projection", id, "<out|product> = " + tn::Num(ov) + ", |out|^2 = " + tn::Num(gf * gf));
        if (gf > wf * (1 + 1e-9) + 1e-9) c.violate("product-norm", id, "");
        if (D == 100 && (gs == 1 || gs == 2) && !(Fro(got + cd(-1) * want) < 1e-7 * std::max(1.0, wf))) c.violate("product", id, "differs by " + tn::Num(Fro(got + cd(-1) * want)));
        if (n == 2) { double lost = 0; auto p = OpSchmidt2(want, g.dims, 1); for (size_t k = D; k < p.size(); ++k) lost += p[k]; double e = Fro(got + cd(-1) * want); if (!(e * e <= lost + 1e-9 * sc)) c.violate("product", id, "two sites: error " + tn::Num(e)); }
        if (std::filesystem::exists("tmp")) std::filesystem::remove_all("tmp");
        c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(sq ? "square" : gs == 0 ? "product, no guess" : gs == 1 ? "product, exact guess" : gs == 2 ? "product, rich guess" : "product, other guess");
      });
    }
}
// exp(-tau H) by its series, uncompressed and with every bond limit that is still exact
template<typename E, typename Q>
void Thermal(const Cfg<E, Q> &g, const std::string &only) {
  auto &c = mc::ctx(); using M = FiniteMPO<E, Q>; size_t n = g.dims.size();
  for (size_t x = 0; x < g.m.size(); ++x) for (double tau : {0.01, 0.1, 0.5, 1.0}) for (size_t order : {2, 3, 4, 8, 30}) for (double tol : {1e-3, 1e-8, 1e-14}) for (size_t D : {64, 200}) for (int again = 0; again < 2; ++again) {
    std::string id = g.name + "/x" + std::to_string(x) + "." + tn::Num(tau) + "." + std::to_string(order) + "." + tn::Num(tol) + "." + std::to_string(D) + "." + std::to_string(again);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      Mat h = tn::DenseMpo(g.m[x]);
      std::filesystem::remove_all("th"); mkdir("th", 0755);
      for (int k = 0; k <= again; ++k) {
        M ham(g.m[x]); auto [norm, rho] = ExpFiniteMPO(ham, tau, order, tol, 1e-16, 1, D, 10, 1e-13, "th/p", "th/tmp"); c.transitions++;
        // the exact partial sum that the stopping rule selects
        Mat term = Mat::Id(h.r), sum = term; cd t0 = double(h.r);
        for (size_t q = 1; q < order; ++q) {
          term = cd(-tau / q) * (term * h); sum = sum + term;
          if (q % 2 == 0) { cd t = 0; for (size_t i = 0; i < h.r; ++i) t += term(i, i); if (std::abs(t / t0) < tol) break; }
        }
        Mat got = tn::DenseMpo(std::as_const(rho)); double f = Fro(sum), e = Fro(cd(norm) * got + cd(-1) * sum);
        if (!(std::abs(Fro(got) - 1) < 1e-9)) c.violate("rho-norm", id, tn::Num(Fro(got)));
        if (!(e < 1e-6 * std::max(1.0, f))) c.violate("rho", id, "series of exp(-tau H) differs by " + tn::Num(e) + " of " + tn::Num(f));
        if (order == 30 && tol < 1e-10) { double ex = Fro(cd(norm) * got + cd(-1) * tn::ExpHerm(h, -tau)); if (!(ex < 1e-6 * std::max(1.0, f))) c.violate("rho-exact", id, tn::Num(ex)); }
        if (tn::Diff(tn::DenseMpo(g.m[x]), tn::DenseMpo(std::as_const(ham))) > 0) c.violate("hamiltonian-changed", id, "");
        if (rho.GetMaxBondDim() > D) c.violate("rho-bond", id, std::to_string(rho.GetMaxBondDim()));
        Invariants(id, "exp", rho, got, "rho");
      }
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome("thermal operator");
    });
  }
}

template<typename E, typename Q, typename F>
FiniteMPO<E, Q> Make(const SiteVec<E, Q> &sv, F f) { MPOGenerator<E, Q> g(sv, Q()); f(g); return FiniteMPO<E, Q>(g.Gen()); }
template<typename E, typename Q>
Cfg<E, Q> Spin(const std::string &nm, size_t n, bool z) {
  Cfg<E, Q> g; g.name = nm; sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o; SiteVec<E, Q> sv(n, s.phys_bond_out); g.dims.assign(n, 2);
  g.m.push_back(Make(sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(1), o.sz, i, o.sz, i + 1); h.AddTerm(E(0.5), o.sp, i, o.sm, i + 1); h.AddTerm(E(0.5), o.sm, i, o.sp, i + 1); } }));
  g.m.push_back(Make(sv, [&](auto &h) { h.AddTerm(E(0.7), o.sz, 0); h.AddTerm(E(-0.4), o.sz, n - 1); h.AddTerm(E(0.3), o.sz, 0, o.sz, n - 1);
    if constexpr (std::is_same_v<E, QLTEN_Complex>) if (z) { h.AddTerm(E(0.0, 0.3), o.sp, 0, o.sm, n - 1); h.AddTerm(E(0.0, -0.3), o.sm, 0, o.sp, n - 1); } }));
  g.m.push_back(Make(sv, [&](auto &h) { h.AddTerm(E(1.5), o.sz, n / 2); }));
  return g;
}
template<typename E, typename Q>
Cfg<E, Q> Hub(const std::string &nm, size_t n) {
  Cfg<E, Q> g; g.name = nm; sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s); SiteVec<E, Q> sv(n, s.phys_bond_out); g.dims.assign(n, 4);
  g.m.push_back(Make(sv, [&](auto &h) { for (size_t i = 0; i < n; ++i) h.AddTerm(E(2), o.nupndn, i); for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(-1), o.bupcF, i, o.bupa, i + 1, o.f); h.AddTerm(E(1), o.bupaF, i, o.bupc, i + 1, o.f); } }));
  g.m.push_back(Make(sv, [&](auto &h) { h.AddTerm(E(0.5), o.sz, 0, o.sz, 1); h.AddTerm(E(-0.2), o.nf, 0); }));
  return g;
}
// spin 1/2 next to a larger site
template<typename E, typename Q>
Cfg<E, Q> Mixed(const std::string &nm) {
  Index<Q> a = sites::SpinOneHalfSite<Q>().phys_bond_out, b({QNSector<Q>(Q(2), 1), QNSector<Q>(Q(0), 2), QNSector<Q>(Q(-2), 1)}, OUT);
  Cfg<E, Q> g; g.name = nm; SiteVec<E, Q> sv(IndexVec<Q>{a, b, a}); g.dims = {2, 4, 2}; SpinOneHalfOperators<E, Q> o;
  QLTensor<E, Q> d({InverseIndex(b), b}); d({0, 0}) = 1; d({3, 3}) = -1; d({1, 2}) = 0.5; d({2, 1}) = 0.5;
  g.m.push_back(Make(sv, [&](auto &h) { h.AddTerm(E(1), o.sz, 0, d, 1); h.AddTerm(E(0.5), d, 1, o.sz, 2); h.AddTerm(E(0.5), o.sp, 0, o.sm, 2); h.AddTerm(E(0.5), o.sm, 0, o.sp, 2); }));
  g.m.push_back(Make(sv, [&](auto &h) { h.AddTerm(E(0.3), d, 1); h.AddTerm(E(0.3), o.sz, 0); }));
  return g;
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch;
  auto all = [&](const std::string &only) {
    bool th = c.thorough(); size_t less = c.mode == "histsan";
    if (c.mode == "vprod") {
      Products(Spin<double, U1QN>("s2", 2, false), only); Products(Spin<double, U1QN>("s3", 3, false), only); Products(Spin<QLTEN_Complex, U1QN>("s4c", 4, true), only);
      Products(Spin<QLTEN_Complex, TrivialRepQN>("t3c", 3, true), only); Products(Mixed<double, U1QN>("mix"), only); if (th) { Products(Hub<double, U1U1QN>("hub3", 3), only); Products(Spin<double, U1QN>("s5", 5, false), only); }
    } else if (c.mode == "exp") {
      Thermal(Spin<double, U1QN>("s2", 2, false), only); Thermal(Spin<double, U1QN>("s3", 3, false), only); Thermal(Spin<double, TrivialRepQN>("t3", 3, false), only); Thermal(Mixed<double, U1QN>("mix"), only);
      if (th) Thermal(Hub<double, U1U1QN>("hub2", 2), only);
    } else {
      Histories(Spin<double, U1QN>("s3", 3, false), (th ? 4 : 3) - less, only); Histories(Spin<QLTEN_Complex, U1QN>("s2c", 2, true), (th ? 5 : 4) - less, only);
      Histories(Spin<double, U1QN>("s4", 4, false), (th ? 4 : 3) - less, only); Histories(Mixed<double, U1QN>("mix"), (th ? 4 : 3) - less, only); Histories(Spin<QLTEN_Complex, TrivialRepQN>("t3c", 3, true), (th ? 4 : 3) - less, only);
    }
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
