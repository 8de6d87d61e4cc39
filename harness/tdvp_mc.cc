// Two-site TDVP on the real headers: every kick site, operator pair, start center,
// step size, number of steps and truncation against exact time evolution, the state
// left on disk and the returned correlations.   Modes: tdvp, tdvpsan, tdvpref (every
// truncation against exactly done local updates).
#include "ref.h"
#include "scratch.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
#include <fstream>
#include <sstream>
#include <map>
#include <optional>
using namespace qlmps; using namespace qlten; using tn::cd; using tn::Mat; using tn::Vec;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
namespace fs = std::filesystem;
using E = QLTEN_Complex;

template<typename Q>
struct Kick { std::string name; QLTensor<E, Q> op0, inst0, op1, inst1; };
template<typename Q>
struct Sys {
  std::string name; SiteVec<E, Q> sv; MPO<QLTensor<E, Q>> mpo; Mat h;
  std::vector<std::vector<std::vector<size_t>>> starts; std::vector<Kick<Q>> kicks;
  std::vector<size_t> dims() const { std::vector<size_t> d; for (auto &s : sv.sites) d.push_back(s.dim()); return d; }
};
template<typename Q>
std::vector<size_t> Charges(const SiteVec<E, Q> &sv) {
  std::vector<Q> q(1); bool first = true;
  for (auto &ix : sv.sites) {
    std::vector<Q> site; for (auto &sct : ix.GetQNScts()) for (size_t k = 0; k < sct.dim(); ++k) site.push_back(sct.GetQn());
    std::vector<Q> nx; for (auto &a : q) for (auto &b : site) nx.push_back(first ? b : a + b);
    q.swap(nx); first = false;
  }
  std::vector<size_t> o; for (auto &x : q) o.push_back(x.Hash()); return o;
}
template<typename Q>
FiniteMPS<E, Q> Start(const Sys<Q> &g, size_t which, size_t center) {
  FiniteMPS<E, Q> m(g.sv); qlten::shim::Rng() = which * 7919 + 5;
  if (g.starts[which].size() == 1) DirectStateInitMps(m, g.starts[which][0]); else ExtendDirectRandomInitMps(m, g.starts[which], 4);
  m.Centralize(0); m[0] *= cd(1.0 / m[0].Get2Norm()); m.Centralize(int(center)); return m;
}
template<typename Q>
FiniteMPS<E, Q> FromDisk(const Sys<Q> &g, const std::string &p) { FiniteMPS<E, Q> m(g.sv); for (size_t i = 0; i < m.size(); ++i) m.LoadTen(i, GenMPSTenName(p, i)); return m; }
template<typename Q>
Vec VecFromDisk(const Sys<Q> &g, const std::string &p) { auto m = FromDisk(g, p); return tn::DenseMps(std::as_const(m)); }
// what the file of results says
struct Row { std::vector<double> sites, times; cd avg; };
std::vector<Row> ReadRows(const std::string &file) {
  std::ifstream in(file); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(), flat;
  for (char ch : s) flat += (ch == '[' || ch == ']' || ch == ',') ? std::string(" ") + ch + " " : std::string(1, ch);
  std::stringstream t(flat); std::string w; std::vector<std::vector<double>> groups; int depth = 0; std::vector<Row> rows; std::vector<double> cur; bool closed = false;
  while (t >> w) {
    if (closed) throw std::logic_error("text after the list");
    if (w == "[") { depth++; cur.clear(); if (depth == 2) groups.clear(); }
    else if (w == "]") {
      if (depth == 3) groups.push_back(cur);
      if (depth == 2) { if (groups.size() != 3 || groups[2].size() != 2) throw std::logic_error("row with " + std::to_string(groups.size()) + " entries"); rows.push_back({groups[0], groups[1], cd(groups[2][0], groups[2][1])}); }
      depth--; if (depth == 0) closed = true;
    } else if (w != ",") { size_t p; cur.push_back(std::stod(w, &p)); if (p != w.size()) throw std::logic_error("not a number: " + w); }
  }
  if (!closed) throw std::logic_error("unterminated list"); return rows;
}
size_t Ranks(const std::vector<double> &p) { size_t n = 0; for (double x : p) if (x > 1e-10 * p[0]) ++n; return n; }

template<typename Q>
void One(const Sys<Q> &g, const std::string &id, size_t st, size_t center, const Kick<Q> &k, size_t site, double tau, size_t steps, size_t D, double trunc, double e0) {
  auto &c = mc::ctx(); const size_t n = g.sv.size; auto dims = g.dims();
  long live0 = long(qlten::shim::Live::Count());
  Vec v0, kicked; DynamicMeasuRes<E> res, prev;
  for (auto p : {"mps", "ini", "tmp", "mtmp"}) fs::remove_all(p);
  {
    auto m = Start(g, st, center); v0 = tn::DenseMps(std::as_const(m)); m.Dump("mps", true);
  }
  std::vector<std::pair<size_t, Mat>> ops{{site, tn::OpMat(k.op0)}};
  if (!k.inst0.IsDefault()) for (size_t i = 0; i < site; ++i) ops.push_back({i, tn::OpMat(k.inst0)});
  kicked = tn::Product(dims, ops) * v0;
  double n0 = tn::Norm(kicked); if (n0 < 1e-6) return;            // the operator annihilates the state
  auto run = [&](size_t s) {
    TDVPEvolveParams<Q> p(tau, s, site, k.op0, k.inst0, k.op1, k.inst1, e0, 1, D, trunc, LanczosParams(1e-13, 60), "mps", "ini", "tmp", "mtmp");
    FiniteMPS<E, Q> m(g.sv); auto r = TwoSiteFiniteTDVP(m, g.mpo, p, "corr"); if (!m.empty()) c.violate("mps-not-released", id, ""); return r;
  };
  res = run(steps); c.transitions += steps; c.traces_validated++;
  Vec ini = VecFromDisk(g, "ini"); if (tn::Diff(ini, v0) > 1e-12) c.violate("initial-state-lost", id, tn::Num(tn::Diff(ini, v0)));
  auto fm = std::make_unique<FiniteMPS<E, Q>>(FromDisk(g, "mps")); const auto &kf = *fm; Vec v = tn::DenseMps(kf); double nv = tn::Norm(v);
  bool full = trunc == 0 && D >= 64;
  // conservation laws
  auto ch = Charges(g.sv); size_t sec = 0; for (size_t i = 0; i < ch.size(); ++i) if (std::abs(kicked[i]) > 1e-7) { sec = ch[i]; break; }
  double leak = 0; for (size_t i = 0; i < ch.size(); ++i) if (ch[i] != sec) leak = std::max(leak, std::abs(v[i])); if (leak > 1e-9) c.violate("left-the-charge-sector", id, tn::Num(leak));
  double en0 = tn::Dot(kicked, g.h * kicked).real(), en = tn::Dot(v, g.h * v).real();
  if (full) {
    if (!(std::abs(nv - n0) < 1e-8)) c.violate("norm", id, tn::Num(n0) + " -> " + tn::Num(nv));
    if (!(std::abs(en - en0) < 1e-7)) c.violate("energy-not-conserved", id, tn::Num(en0) + " -> " + tn::Num(en));
  } else if (!(nv < n0 + 1e-8) || !(nv > 0.2 * n0)) c.violate("norm", id, tn::Num(n0) + " -> " + tn::Num(nv));
  // the state itself
  Vec ex = tn::ExpHerm(g.h, cd(0, -tau * double(steps))) * kicked; double err = tn::Norm(tn::Add(v, tn::Scale(ex, -1))) / n0;
  bool complete = full; size_t left = 1;
  { // every bond spans everything the sector allows, on the side with fewer states
    for (size_t i = 0; i + 1 < n && complete; ++i) {
      left *= dims[i]; std::map<size_t, size_t> dummy; size_t right = kicked.size() / left; Eigen::MatrixXd mask(left, right);
      // number of states of the smaller side that occur with the sector's charge
      size_t cl = 0, cr = 0; for (size_t a = 0; a < left; ++a) { bool any = false; for (size_t b = 0; b < right; ++b) any |= ch[a * right + b] == sec; cl += any; }
      for (size_t b = 0; b < right; ++b) { bool any = false; for (size_t a = 0; a < left; ++a) any |= ch[a * right + b] == sec; cr += any; }
      if (Ranks(tn::Schmidt2(kicked, left)) < std::min(cl, cr)) complete = false;
      // all splits by charge block must be tight on the same side of the middle
      if (2 * (i + 1) <= n ? cl > cr : cr > cl) complete = false;
    }
    if (n > 4) complete = false;          // beyond four sites projections are no longer onto everything
  }
  double bound = complete || steps == 0 ? 1e-8 : full ? 0.05 * std::abs(tau) + 1e-9 : 0.8;
  if (!(err < bound)) c.violate("wrong-state", id, (complete ? "exact evolution off by " : "far from exact evolution: ") + tn::Num(err));
  if (getenv("TDVP_DBG")) std::cerr << id << " complete " << complete << " full " << full << " err " << err << "\n";
  // canonical form and bonds
  for (size_t i = 0; i < n; ++i) {
    if (steps > 0 && i == 0 && tn::LeftDefect(kf[i]) > 1e-8) c.violate("canonical", id, "site 0");
    if (i >= 2 && tn::RightDefect(kf[i]) > 1e-8) c.violate("canonical", id, "site " + std::to_string(i));
    if (steps > 0 && i + 1 < n && kf[i].GetShape()[2] > D) c.violate("bond-limit", id, std::to_string(kf[i].GetShape()[2]));
  }
  // correlations
  auto corr = [&](const Vec &psi, size_t i) {
    std::vector<std::pair<size_t, Mat>> o{{i, tn::OpMat(k.op1)}}; if (!k.inst1.IsDefault()) for (size_t x = 0; x < i; ++x) o.push_back({x, tn::OpMat(k.inst1)});
    return tn::Dot(v0, tn::Product(dims, o) * psi);
  };
  if (res.size() != n * (steps + 1)) { c.violate("result-size", id, std::to_string(res.size())); return; }
  for (size_t s = 0; s <= steps; ++s) for (size_t i = 0; i < n; ++i) {
    auto &r = res[s * n + i]; double t = tau * double(s);
    if (r.sites != std::vector<size_t>{site, i} || r.times.size() != 2 || r.times[0] != 0 || std::abs(r.times[1] - t) > 1e-12) c.violate("result-labels", id, "entry " + std::to_string(s * n + i));
    if (s == 0 && !(std::abs(r.avg - corr(kicked, i)) < 1e-9)) c.violate("correlation", id, "t=0 site " + std::to_string(i) + ": " + tn::Num(r.avg) + ", state has " + tn::Num(corr(kicked, i)));
    if (s == steps && s > 0) { cd want = corr(v, i) * std::exp(cd(0, e0 * t)); if (!(std::abs(r.avg - want) < 1e-9)) c.violate("correlation", id, "site " + std::to_string(i) + ": " + tn::Num(r.avg) + ", state has " + tn::Num(want)); }
    if (complete) { cd want = corr(tn::ExpHerm(g.h, cd(0, -t)) * kicked, i) * std::exp(cd(0, e0 * t)); if (!(std::abs(r.avg - want) < 1e-7)) c.violate("correlation-exact", id, "step " + std::to_string(s) + " site " + std::to_string(i)); }
  }
  // the file of results
  auto rows = ReadRows("corr.json"); if (rows.size() != res.size()) c.violate("file", id, std::to_string(rows.size()) + " rows");
  for (size_t i = 0; i < rows.size() && i < res.size(); ++i) {
    std::vector<double> s(res[i].sites.begin(), res[i].sites.end());
    if (rows[i].sites != s || std::abs(rows[i].avg - res[i].avg) > 1e-5 || rows[i].times.size() != 2 || std::abs(rows[i].times[1] - res[i].times[1]) > 1e-5) c.violate("file", id, "row " + std::to_string(i));
  }
  // fewer steps are a prefix, whatever an earlier evolution left in the directories for temporary files
  if (steps > 0) {
    for (auto p : {"mps", "ini"}) fs::remove_all(p);
    { auto m = Start(g, st, center); m.Dump("mps", true); }
    size_t again = std::max<size_t>(1, steps - 1); prev = run(again); c.transitions += again;
    for (size_t i = 0; i < prev.size() && i < res.size(); ++i) if (!(std::abs(prev[i].avg - res[i].avg) < 1e-10)) { c.violate("not-a-prefix", id, std::to_string(i)); break; }
    if (again == steps) { double d = tn::Diff(VecFromDisk(g, "mps"), v); if (!(d < 1e-9)) c.violate("not-reproducible", id, tn::Num(d)); }
  }
  fm.reset();
  if (long(qlten::shim::Live::Count()) != live0) c.violate("tensors-leaked", id, std::to_string(long(qlten::shim::Live::Count()) - live0));
  c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(complete ? "exact" : full ? "untruncated" : "truncated");
  if (c.states % 397 == 3) c.sample(id + ": " + k.name + " at " + std::to_string(site) + ", error " + tn::Num(err));
}
template<typename Q>
void All(const Sys<Q> &g, const std::string &only, bool small) {
  auto &c = mc::ctx(); if (!only.empty() && only.compare(0, g.name.size() + 1, g.name + "/")) return;
  size_t n = g.sv.size, maxsteps = c.thorough() ? 4 : 3;
  for (size_t st = 0; st < g.starts.size(); ++st) for (size_t k = 0; k < g.kicks.size(); ++k) for (size_t site = 0; site < n; ++site) for (size_t center = 0; center <= site; ++center)
    for (int ti = 0; ti < 3; ++ti) for (size_t steps = 0; steps <= maxsteps; ++steps) for (int tr = 0; tr < 4; ++tr) for (int e = 0; e < 2; ++e) {
      const double tau = ti == 0 ? 0.05 : ti == 1 ? 0.2 : -0.1; if (ti == 2 && (e == 1 || steps == 0 || tr > 1)) continue;
      if (small && (tr == 2 || e == 1 || steps > 2 || ti == 1)) continue;
      if (e == 1 && tr != 0) continue;
      std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(k) + "." + std::to_string(site) + "." + std::to_string(center) + "." + std::to_string(ti) + "." + std::to_string(steps) + "." + std::to_string(tr) + "." + std::to_string(e);
      if (only.empty() ? !c.mine() : only != id) continue;
      size_t D = tr == 1 ? 3 : tr == 3 ? 2 : 64; double trunc = tr == 2 ? 1e-4 : 0; if (!g.kicks[k].inst0.IsDefault() && false) continue;
      tn::Case(id, [&] { One(g, id, st, center, g.kicks[k], site, tau, steps, D, trunc, e ? -0.75 : 0.0); });
    }
}
// ---- every local update done exactly, truncation included
template<typename Q>
void Reference(const Sys<Q> &g, const std::string &only, size_t maxsteps, bool small) {
  auto &c = mc::ctx(); if (!only.empty() && only.compare(0, g.name.size() + 1, g.name + "/")) return;
  const size_t n = g.sv.size; auto dims = g.dims(); static const double taus[] = {0.05, 0.3, -0.2};
  for (size_t st = 0; st < g.starts.size(); ++st) for (size_t kk = 0; kk < g.kicks.size(); ++kk) for (size_t site = 0; site < n; ++site) for (int ti = 0; ti < 3; ++ti)
    for (size_t D : {1, 2, 3, 4, 5, 6, 64}) for (size_t dmin : {1, 2, 3, 5}) for (double tr : {1e-12, 1e-8, 1e-6, 1e-4, 1e-3, 1e-2, 1e-1}) for (size_t steps = 1; steps <= maxsteps; ++steps) {
      if (dmin > D || (small && (dmin == 5 || (steps == 2 && D != 4 && D != 64)))) continue;
      std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(kk) + "." + std::to_string(site) + "." + std::to_string(ti) + "." + std::to_string(D) + "." + std::to_string(dmin) + "." + tn::Num(tr) + "." + std::to_string(steps);
      if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] {
        const auto &k = g.kicks[kk]; double tau = taus[ti], e0 = 0.4; Vec v0;
        auto run = [&](size_t s) {
          for (auto p : {"mps", "ini", "tmp", "mtmp"}) fs::remove_all(p);
          { auto m = Start(g, st, 0); v0 = tn::DenseMps(std::as_const(m)); m.Dump("mps", true); }
          std::vector<std::pair<size_t, Mat>> ops{{site, tn::OpMat(k.op0)}}; if (!k.inst0.IsDefault()) for (size_t i = 0; i < site; ++i) ops.push_back({i, tn::OpMat(k.inst0)});
          if (tn::Norm(tn::Product(dims, ops) * v0) < 1e-6) return std::optional<DynamicMeasuRes<E>>();
          TDVPEvolveParams<Q> p(tau, s, site, k.op0, k.inst0, k.op1, k.inst1, e0, dmin, D, tr, LanczosParams(1e-14, 100), "mps", "ini", "tmp", "mtmp");
          FiniteMPS<E, Q> m(g.sv); return std::optional<DynamicMeasuRes<E>>(TwoSiteFiniteTDVP(m, g.mpo, p, "corr"));
        };
        if (!run(0)) return;                               // annihilated
        auto m = FromDisk(g, "mps"); ref::Ref r(std::as_const(m), dims, g.h); ref::Trunc p{D, dmin, tr}; std::vector<Vec> w{r.state()};
        for (size_t s = 0; s < steps; ++s) { if (!r.tdvp_step(tau, p)) { c.outcome("no unique answer: " + r.why); return; } w.push_back(r.state()); }
        auto res = run(steps); auto f = FromDisk(g, "mps"); Vec v = tn::DenseMps(std::as_const(f)); c.transitions += steps; c.traces_validated++;
        double err = tn::Norm(tn::Add(v, tn::Scale(w.back(), -1))); if (!(err < 1e-6)) c.violate("reference-state", id, "differs from the exact updates by " + tn::Num(err));
        for (size_t i = 0; i < n; ++i) if (f[i].GetShape() != std::vector<size_t>{r.dl(i), dims[i], r.dr(i)}) { c.violate("reference-bond", id, "site " + std::to_string(i)); break; }
        for (size_t s = 0; s <= steps && res->size() == n * (steps + 1); ++s) for (size_t i = 0; i < n; ++i) {
          std::vector<std::pair<size_t, Mat>> o{{i, tn::OpMat(k.op1)}}; if (!k.inst1.IsDefault()) for (size_t x = 0; x < i; ++x) o.push_back({x, tn::OpMat(k.inst1)});
          cd want = tn::Dot(v0, tn::Product(dims, o) * w[s]) * std::exp(cd(0, e0 * tau * double(s)));
          if (!(std::abs((*res)[s * n + i].avg - want) < 1e-6)) { c.violate("reference-correlation", id, "step " + std::to_string(s) + " site " + std::to_string(i)); break; }
        }
        c.states++; c.note_distinct(mc::hash_str(id)); c.outcome("agrees"); if (c.states % 531 == 3) c.sample(id + ": off by " + tn::Num(err));
      });
    }
}
template<typename Q, typename F>
Sys<Q> Make(const std::string &nm, const SiteVec<E, Q> &sv, F f, std::vector<std::vector<std::vector<size_t>>> st, std::vector<Kick<Q>> ks) {
  MPOGenerator<E, Q> a(sv, Q()); f(a); auto m = a.Gen(); Mat h = tn::DenseMpo(m); return Sys<Q>{nm, sv, m, h, st, ks};
}
template<typename Q>
Sys<Q> Heis(const std::string &nm, size_t n) {
  sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o; SiteVec<E, Q> sv(n, s.phys_bond_out); QLTensor<E, Q> none;
  std::vector<size_t> neel(n); for (size_t i = 0; i < n; ++i) neel[i] = i % 2;
  std::vector<std::vector<size_t>> all, one; size_t up = n / 2;
  for (size_t x = 0; x < (size_t(1) << n); ++x) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = x >> i & 1; if (size_t(__builtin_popcountll(x)) == up) all.push_back(v); if (__builtin_popcountll(x) == 1) one.push_back(v); }
  std::vector<Kick<Q>> ks{{"sz,sz", o.sz, none, o.sz, none}, {"sp,sm", o.sp, none, o.sm, none}, {"sm,sp", o.sm, none, o.sp, none}, {"sp,sm with strings", o.sp, cd(2) * o.sz, o.sm, cd(2) * o.sz}};
  return Make<Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { double J = 1 + 0.2 * i; h.AddTerm(E(J), o.sz, i, o.sz, i + 1); h.AddTerm(E(0.5 * J), o.sp, i, o.sm, i + 1); h.AddTerm(E(0.5 * J), o.sm, i, o.sp, i + 1); }
    h.AddTerm(E(0.3), o.sz, 0); h.AddTerm(E(0.25), o.sz, 0, o.sz, n - 1); h.AddTerm(E(0, 0.3), o.sp, 0, o.sm, 1); h.AddTerm(E(0, -0.3), o.sm, 0, o.sp, 1); }, {{neel}, all, one}, ks);
}
template<typename Q>
Sys<Q> Hubb(const std::string &nm, size_t n) {
  sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s); SiteVec<E, Q> sv(n, s.phys_bond_out); // |2>,|up>,|dn>,|0>
  std::vector<size_t> a(n); for (size_t i = 0; i < n; ++i) a[i] = i % 2 ? 2 : 1;
  std::vector<std::vector<size_t>> all; for (size_t x = 0; x < (size_t(1) << (2 * n)); ++x) { std::vector<size_t> v(n); size_t up = 0, dn = 0; for (size_t i = 0; i < n; ++i) { v[i] = x >> (2 * i) & 3; up += v[i] <= 1; dn += v[i] == 0 || v[i] == 2; } if (up == 2 && dn == 1) all.push_back(v); }
  std::vector<Kick<Q>> ks{{"c+,c up", o.bupc, o.f, o.bupa, o.f}, {"c,c+ down", o.Fbdna, o.f, o.bdnc, o.f}};
  return Make<Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i < n; ++i) h.AddTerm(E(2), o.nupndn, i);
    for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(-1), o.bupcF, i, o.bupa, i + 1, o.f); h.AddTerm(E(1), o.bupaF, i, o.bupc, i + 1, o.f); h.AddTerm(E(-1), o.bdnc, i, o.Fbdna, i + 1, o.f); h.AddTerm(E(1), o.bdna, i, o.Fbdnc, i + 1, o.f); } }, {{a}, all}, ks);
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch;
  auto all = [&](const std::string &only) {
    if (c.mode == "tdvpref") {
      bool th = c.thorough(); Reference(Heis<U1QN>("h3", 3), only, th ? 3 : 2, false); Reference(Heis<U1QN>("h4", 4), only, th ? 3 : 2, !th); Reference(Heis<TrivialRepQN>("t4", 4), only, th ? 2 : 1, !th); Reference(Heis<U1QN>("h5", 5), only, th ? 2 : 1, !th); Reference(Hubb<U1U1QN>("hub3", 3), only, th ? 2 : 1, !th);
      return;
    }
    bool san = c.mode == "tdvpsan";
    All(Heis<U1QN>("h3", 3), only, san); All(Heis<U1QN>("h4", 4), only, san);
    if (!san) { All(Heis<TrivialRepQN>("t3", 3), only, false); All(Heis<TrivialRepQN>("t4", 4), only, !c.thorough()); All(Heis<U1QN>("h5", 5), only, !c.thorough()); All(Hubb<U1U1QN>("hub3", 3), only, !c.thorough()); if (c.thorough()) All(Heis<U1QN>("h6", 6), only, true); }
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
