// Histories of operations on finite matrix product states, with the explicit
// state vector as shadow.  Modes: hist, init, ops.
#include "tn_eigen.h"
#include "scratch.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
using namespace qlmps; using namespace qlten; using tn::Vec; using tn::cd; using tn::Mat;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;

template<typename E, typename Q>
struct Cfg {
  std::string name; SiteVec<E, Q> sv; std::vector<std::vector<std::vector<size_t>>> starts; size_t enlarge;
  std::vector<size_t> dims() const { std::vector<size_t> d; for (auto &s : sv.sites) d.push_back(s.dim()); return d; }
};
template<typename E, typename Q>
FiniteMPS<E, Q> Start(const Cfg<E, Q> &g, size_t which, uint64_t seed) {
  FiniteMPS<E, Q> m(g.sv);
  qlten::shim::Rng() = seed * 7919 + 12345;
  if (g.starts[which].size() == 1) DirectStateInitMps(m, g.starts[which][0]);
  else ExtendDirectRandomInitMps(m, g.starts[which], g.enlarge);
  return m;
}
// permutation of the dense index under site reversal
inline Vec Reversed(const Vec &v, const std::vector<size_t> &d) {
  Vec o(v.size()); size_t n = d.size();
  for (size_t s = 0; s < v.size(); ++s) {
    std::vector<size_t> c(n); size_t x = s; for (size_t i = n; i-- > 0;) { c[i] = x % d[i]; x /= d[i]; }
    size_t t = 0; for (size_t i = n; i-- > 0;) t = t * d[i] + c[i];
    o[t] = v[s];
  }
  return o;
}

template<typename E, typename Q>
struct World {
  FiniteMPS<E, Q> a, b; Vec va, vb; 
  FiniteMPS<E, Q> d; bool disk = false; Vec vd; bool skip = false;
};

template<typename E, typename Q>
void Invariants(const std::string &id, const std::string &after, const FiniteMPS<E, Q> &m, const Vec &v, const char *who) {
  auto &c = mc::ctx();
  c.traces_validated++;
  Vec got = tn::DenseMps(m);
  double sc = std::max(1e-300, tn::MaxAbs(v)), d = tn::Diff(got, v);
  if (!(d < 1e-11 * std::max(1.0, sc))) c.violate("state-changed", id, std::string(who) + " after " + after + ": differs by " + tn::Num(d));
  auto types = m.GetTensCanoType(); int cen = m.GetCenter();
  if (types.size() != m.size()) { c.violate("record-size", id, after); return; }
  for (size_t i = 0; i < m.size(); ++i) {
    if (m.GetTenCanoType(i) != types[i]) c.violate("record-getter", id, after);
    bool l = types[i] == MPSTenCanoType::LEFT || (cen >= 0 && int(i) < cen), r = types[i] == MPSTenCanoType::RIGHT || (cen >= 0 && int(i) > cen);
    const auto &t = m[i];
    if (l && !(tn::LeftDefect(t) < 1e-11)) c.violate("not-left-canonical", id, std::string(who) + " site " + std::to_string(i) + " after " + after);
    if (r && !(tn::RightDefect(t) < 1e-11)) c.violate("not-right-canonical", id, std::string(who) + " site " + std::to_string(i) + " after " + after);
  }
  if (cen >= int(m.size()) || cen < -1) c.violate("center-range", id, after);
  else if (cen >= 0) {
    double n = tn::Norm(v), k = m[size_t(cen)].Get2Norm();
    if (!(std::abs(n - k) < 1e-10 * std::max(1.0, n))) c.violate("center-norm", id, std::string(who) + " after " + after + ": " + tn::Num(k) + " for a state of norm " + tn::Num(n));
  }
}

// Canonicalization by QR and Reverse turn bonds around; sums need bonds of one
// direction, inner products need equal outer bonds.
template<typename E, typename Q>
bool SameBonds(const FiniteMPS<E, Q> &a, const FiniteMPS<E, Q> &b, bool inner) {
  size_t n = a.size();
  if (inner) for (size_t i = 0; i < n; ++i) for (size_t k : {0, 2}) if (a[i].GetIndex(k).GetDir() != b[i].GetIndex(k).GetDir()) return false;
  return a[0].GetIndex(0) == b[0].GetIndex(0) && a[n - 1].GetIndex(2) == b[n - 1].GetIndex(2);
}
template<typename E, typename Q>
struct Op { std::string name; std::function<void(World<E, Q> &, const std::string &)> run; };

template<typename E, typename Q>
std::vector<Op<E, Q>> Ops(const Cfg<E, Q> &g, bool uniform) {
  using W = World<E, Q>; using M = FiniteMPS<E, Q>;
  auto &c = mc::ctx();
  std::vector<Op<E, Q>> o; size_t n = g.sv.size; auto dims = g.dims();
  auto num = [](size_t k) { return "(" + std::to_string(k) + ")"; };
  for (size_t k = 0; k < n; ++k) o.push_back({"Centralize" + num(k), [k, &c](W &w, const std::string &id) {
    w.a.Centralize(int(k)); if (w.a.GetCenter() != int(k)) c.violate("center-not-set", id, "Centralize"); }});
  for (size_t k = 0; k + 1 < n; ++k) o.push_back({"LeftCanonicalize" + num(k), [k, &c](W &w, const std::string &id) {
    w.a.LeftCanonicalize(k); const M &m = w.a;
    for (size_t i = 0; i <= k; ++i) if (!(tn::LeftDefect(m[i]) < 1e-11)) c.violate("left-canonicalize", id, "site " + std::to_string(i)); }});
  for (size_t k = 1; k < n; ++k) o.push_back({"RightCanonicalize" + num(k), [k, n, &c](W &w, const std::string &id) {
    w.a.RightCanonicalize(k); const M &m = w.a;
    for (size_t i = k; i < n; ++i) if (!(tn::RightDefect(m[i]) < 1e-11)) c.violate("right-canonicalize", id, "site " + std::to_string(i)); }});
  for (size_t k = 0; k + 1 < n; ++k) o.push_back({"LeftCanonicalizeTen" + num(k), [k, &c](W &w, const std::string &id) {
    w.a.LeftCanonicalizeTen(k); const M &m = w.a; if (!(tn::LeftDefect(m[k]) < 1e-11)) c.violate("left-canonicalize-ten", id, ""); }});
  for (size_t k = 1; k < n; ++k) for (int svd = 0; svd < 2; ++svd) {
    o.push_back({std::string("RightCanonicalizeTen") + (svd ? "Svd" : "") + num(k), [k, svd, &c](W &w, const std::string &id) {
      auto s = w.a.RightCanonicalizeTen(k, svd); const M &m = w.a;
      if (!(tn::RightDefect(m[k]) < 1e-11)) c.violate("right-canonicalize-ten", id, "");
      (void) s; }});
  }
  for (size_t k = 0; k < n; k += 2) o.push_back({"a[k]*=2" + num(k), [k](W &w, const std::string &) { w.a[k] *= E(2); w.va = tn::Scale(w.va, 2); }});
  o.push_back({"*a(n-1)*=-.5", [n](W &w, const std::string &) { *w.a(n - 1) *= E(-0.5); w.va = tn::Scale(w.va, -0.5); }});
  o.push_back({"a=b", [](W &w, const std::string &) { w.a = w.b; w.va = w.vb; }});
  o.push_back({"a=copy(a)", [](W &w, const std::string &) { M t(w.a); w.a = t; }});
  o.push_back({"swap", [](W &w, const std::string &) { M t(std::move(w.a)); w.a = std::move(w.b); w.b = std::move(t); std::swap(w.va, w.vb); }});
  o.push_back({"a=a+b", [&g](W &w, const std::string &) {
    if (!SameBonds(w.a, w.b, true)) { w.skip = true; return; }
    Vec s = tn::Add(w.va, w.vb); if (tn::Norm(s) < 1e-6) { w.skip = true; return; }
    M t(g.sv); FiniteMPSAdd(w.a, w.b, t); w.a = t; w.va = s; }});
  o.push_back({"<a|b>", [&c](W &w, const std::string &id) {
    if (!SameBonds(w.a, w.b, false)) { w.skip = true; return; }
    cd x = FiniteMPSInnerProd(w.a, w.b), y = tn::Dot(w.vb, w.va);
    if (!(std::abs(x - y) < 1e-10 * std::max(1.0, std::abs(y)))) c.violate("inner-product", id, tn::Num(x) + " for " + tn::Num(y));
    cd z = FiniteMPSInnerProd(w.a, w.a), q = tn::Dot(w.va, w.va);
    if (!(std::abs(z - q) < 1e-10 * std::max(1.0, std::abs(q)))) c.violate("norm-square", id, tn::Num(z) + " for " + tn::Num(q)); }});
  o.push_back({"Dump", [](W &w, const std::string &) { w.a.Dump("slot"); w.d = w.a; w.disk = true; w.vd = w.va; }});
  o.push_back({"DumpRelease+Load", [](W &w, const std::string &) { w.d = w.a; w.a.Dump("slot", true); w.disk = true; w.vd = w.va;
    for (size_t i = 0; i < w.a.size(); ++i) { const M &m = w.a; if (m(i) != nullptr) throw std::logic_error("released tensor is still there"); }
    w.a.Load("slot"); }});
  o.push_back({"Load", [](W &w, const std::string &) { if (!w.disk) { w.skip = true; return; }
    w.d.Dump("slot");       // the directory of this branch of the search
    w.a.Load("slot"); w.va = w.vd; }});
  for (size_t k = 0; k < n; k += n - 1) o.push_back({"DumpTen/LoadTen" + num(k), [k](W &w, const std::string &) { const M &m = w.a; auto t = m[k];
    w.a.DumpTen(k, "one", true); w.a.LoadTen(k, "one"); if (!(m[k] == t)) throw std::logic_error("tensor differs after DumpTen/LoadTen"); }});
  if (uniform) o.push_back({"Reverse", [dims, &c](W &w, const std::string &id) {
    int cen = w.a.GetCenter(); w.a.Reverse(); w.va = Reversed(w.va, dims);
    if (cen >= 0 && w.a.GetCenter() != int(dims.size()) - 1 - cen) c.violate("reverse-center", id, "center " + std::to_string(cen) + " became " + std::to_string(w.a.GetCenter())); }});
  o.push_back({"Truncate(all)", [](W &w, const std::string &) { TruncateMPS(w.a, 0.0, 1, 1000); w.va = tn::Scale(w.va, 1 / tn::Norm(w.va)); }});
  for (size_t D = 1; D <= 2; ++D) o.push_back({"Truncate" + num(D), [D, n, dims, &c](W &w, const std::string &id) {
    Vec v = tn::Scale(w.va, 1 / tn::Norm(w.va));
    double lost = 0; size_t left = 1;
    for (size_t i = 0; i + 1 < n; ++i) { left *= dims[i]; auto p = tn::Schmidt2(v, left); for (size_t k = D; k < p.size(); ++k) lost += p[k]; }
    TruncateMPS(w.a, 0.0, 1, D); const M &m = w.a;
    for (size_t i = 0; i + 1 < n; ++i) if (m[i].GetShape()[2] > D) c.violate("truncate-bond", id, "bond " + std::to_string(i));
    Vec got = tn::DenseMps(m);
    if (!(std::abs(tn::Norm(got) - 1) < 1e-10)) c.violate("truncate-norm", id, "norm " + tn::Num(tn::Norm(got)));
    double ov = std::abs(tn::Dot(v, got));
    // the discarded weights bound the loss (a degenerate cut may pick either of the equal weights)
    if (!(1 - ov * ov <= lost * (1 + 1e-9) + 1e-10)) c.violate("truncate-loss", id, "1-|<|>|^2 = " + tn::Num(1 - ov * ov) + ", discarded weights " + tn::Num(lost));
    w.va = got; }});
  for (size_t k = 1; k <= 3; ++k) o.push_back({"Entropy" + num(k), [k, n, dims, &c](W &w, const std::string &id) {
    auto e = w.a.GetEntanglementEntropy(k); double nv = tn::Norm(w.va); w.va = tn::Scale(w.va, 1 / nv);
    if (e.size() != n - 1) { c.violate("entropy-size", id, ""); return; }
    size_t left = 1;
    for (size_t i = 0; i + 1 < n; ++i) {
      left *= dims[i]; double x = tn::Entropy(tn::Schmidt2(w.va, left), k);
      if (!(std::abs(x - e[i]) < 1e-9)) c.violate("entropy-" + std::to_string(k), id, "bond " + std::to_string(i) + ": " + tn::Num(e[i]) + ", exact " + tn::Num(x));
    } }});
  return o;
}

// A truncated state is only known up to a phase and to the choice within degenerate
// weights, so the shadow is taken from the state there.
template<typename E, typename Q>
void Histories(const Cfg<E, Q> &g, bool uniform, size_t depth, const std::string &only) {
  auto &c = mc::ctx(); auto ops = Ops(g, uniform);
  auto path = [&](size_t st, const std::vector<size_t> &h) { std::string s = g.name + "/" + std::to_string(st); for (auto x : h) s += "." + std::to_string(x); return s; };
  auto apply = [&](World<E, Q> &w, const std::string &id, size_t op) {
    w.skip = false; ops[op].run(w, id); if (w.skip) return false;
    c.transitions++; c.states++;
    Invariants(id, ops[op].name, w.a, w.va, "a"); Invariants(id, ops[op].name, w.b, w.vb, "b");
    c.note_distinct(mc::hash_str(id));
    return true;
  };
  auto fresh = [&](size_t st) {
    auto a = Start(g, st, 1), b = Start(g, (st + 1) % g.starts.size(), 2);
    World<E, Q> w{a, b, tn::DenseMps(a), tn::DenseMps(b), a, false, {}, false}; return w;
  };
  for (size_t st = 0; st < g.starts.size(); ++st) {
    if (!only.empty()) {
      std::stringstream ss(only.substr(only.find('/') + 1)); std::string w; std::vector<size_t> h; while (std::getline(ss, w, '.')) h.push_back(std::stoul(w));
      if (h.empty() || h[0] != st) continue;
      tn::Case(only, [&] { auto wd = fresh(st); for (size_t i = 1; i < h.size(); ++i) { std::cerr << ops.at(h[i]).name << "\n"; if (!apply(wd, only, h[i])) break; } });
      continue;
    }
    std::vector<size_t> h;
    std::function<void(const World<E, Q> &)> rec = [&](const World<E, Q> &w) {
      for (size_t op = 0; op < ops.size(); ++op) {
        if (h.size() == 1 && !c.mine()) continue;           // shard on the second step
        h.push_back(op); std::string id = path(st, h);
        bool on = false;
        tn::Case(id, [&] { World<E, Q> x(w); on = apply(x, id, op); if (on && h.size() < depth) rec(x); });
        if (on) c.outcome(ops[op].name.substr(0, ops[op].name.find('(')));
        if (h.size() == depth && c.states % 50021 == 7) { std::string s; for (auto k : h) s += ops[k].name + " "; c.sample(g.name + ": " + s); }
        h.pop_back();
      }
    };
    tn::Case(path(st, h), [&] { rec(fresh(st)); });
  }
  c.info[g.name] = std::to_string(ops.size()) + " operations, " + std::to_string(g.starts.size()) + " starts, depth " + std::to_string(depth);
}

template<typename Q> Index<Q> SpinIx() { return sites::SpinOneHalfSite<Q>().phys_bond_out; }
template<typename E, typename Q>
Cfg<E, Q> Spin(const std::string &nm, size_t n, size_t enlarge) {
  Cfg<E, Q> g{nm, SiteVec<E, Q>(n, SpinIx<Q>()), {}, enlarge};
  std::vector<size_t> s(n); for (size_t i = 0; i < n; ++i) s[i] = i % 2;
  std::vector<size_t> t(n); for (size_t i = 0; i < n; ++i) t[i] = i < n / 2 ? (n % 2 ? i % 2 : 1) : (n % 2 ? (i == n / 2 ? 1 - s[i] : s[i]) : 0);
  // t must carry the charge of s
  size_t cs = 0, ct = 0; for (size_t i = 0; i < n; ++i) { cs += s[i]; ct += t[i]; }
  if (cs != ct) { t = s; std::reverse(t.begin(), t.end()); ct = cs; if (t == s && n >= 3) std::swap(t[0], t[1]); }
  g.starts = {{s}, {s, t}};
  return g;
}
template<typename E, typename Q>
Cfg<E, Q> Mixed(const std::string &nm) {
  Index<Q> one({QNSector<Q>(Q(2), 1), QNSector<Q>(Q(0), 2), QNSector<Q>(Q(-2), 1)}, OUT);
  Cfg<E, Q> g{nm, SiteVec<E, Q>(IndexVec<Q>{SpinIx<Q>(), one, SpinIx<Q>()}), {}, 2};
  g.starts = {{{0, 1, 1}}, {{0, 1, 1}, {1, 0, 1}, {0, 3, 0}}};
  return g;
}

// ---------------------------------------------------------------- initial states
template<typename E, typename Q>
void InitAll(const std::string &nm, const SiteVec<E, Q> &sv, const std::string &only) {
  auto &c = mc::ctx(); size_t n = sv.size; std::vector<size_t> d; size_t D = 1; for (auto &s : sv.sites) { d.push_back(s.dim()); D *= s.dim(); }
  auto lab = [&](size_t s) { std::vector<size_t> l(n); for (size_t i = n; i-- > 0;) { l[i] = s % d[i]; s /= d[i]; } return l; };
  auto qn = [&](size_t s) { auto l = lab(s); Q q; for (size_t i = 0; i < n; ++i) q += sv.sites[i].GetQNSctFromActualCoor(l[i]).GetQn(); return q; };
  auto flux = [&](const FiniteMPS<E, Q> &m) { Q q; for (size_t i = 0; i < n; ++i) q += m[i].Div(); return q; };
  for (size_t s = 0; s < D; ++s) for (int pre = 0; pre < 2; ++pre) for (int kind = 0; kind < 2; ++kind) {
    std::string id = nm + "/p" + std::to_string(s) + "." + std::to_string(pre) + "." + std::to_string(kind);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      FiniteMPS<E, Q> m(sv);
      if (pre) { DirectStateInitMps(m, lab((s + 1) % D)); m.Centralize(int(n) - 1); }     // reuse of a filled state
      if (kind == 0) DirectStateInitMps(m, lab(s)); else DirectStateInitZeroDivMps(m, lab(s));
      Vec v(D); v[s] = 1; c.transitions++;
      Vec got = tn::DenseMps(m); for (auto &x : got) x = std::abs(x);       // overall sign is free
      if (!(tn::Diff(got, v) < 1e-13)) c.violate("product-state", id, "not the requested product state");
      Invariants(id, "init", m, tn::DenseMps(m), "state");
      if (m.GetCenter() != 0) c.violate("init-center", id, "center " + std::to_string(m.GetCenter()));
      const auto &cm = m;
      if (kind == 0 && flux(cm) != qn(s)) c.violate("total-charge", id, "");
      if (kind == 1) for (size_t i = 0; i < n; ++i) if (cm[i].Div() != Q()) c.violate("zero-flux", id, "tensor " + std::to_string(i) + " carries a flux");
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(kind ? "zero-flux product state" : "product state");
    });
  }
  // unions of up to three product states of equal charge
  for (size_t s = 0; s < D; ++s) for (size_t t = 0; t < D; ++t) for (size_t u = 0; u < D; ++u) {
    if (qn(s) != qn(t) || qn(s) != qn(u)) continue;
    if (D > 20 && u != s && u != t) continue;
    for (size_t e = 1; e <= 3; ++e) {
      std::string id = nm + "/e" + std::to_string(s) + "." + std::to_string(t) + "." + std::to_string(u) + "." + std::to_string(e);
      if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] {
        std::vector<std::vector<size_t>> l{lab(s)}; if (t != s) l.push_back(lab(t)); if (u != s && u != t) l.push_back(lab(u));
        FiniteMPS<E, Q> m(sv); ExtendDirectRandomInitMps(m, l, e); c.transitions++;
        Vec v = tn::DenseMps(m);
        if (!(std::abs(tn::Norm(v) - 1) < 1e-12)) c.violate("random-norm", id, "norm " + tn::Num(tn::Norm(v)));
        for (size_t x = 0; x < D; ++x) if (qn(x) != qn(s) && std::abs(v[x]) > 1e-14) c.violate("random-charge", id, "weight outside the charge sector");
        for (size_t x : {s, t, u}) if (std::abs(v[x]) < 1e-12) c.violate("random-support", id, "a listed product state has no weight");
        Invariants(id, "init", m, v, "state");
        const auto &cm = m; if (flux(cm) != qn(s)) c.violate("total-charge", id, "");
        c.states++; c.note_distinct(mc::hash_str(id)); c.outcome("extended");
      });
    }
  }
  c.info[nm] = std::to_string(D) + " product states and their unions";
}

int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx();
  Scratch scratch;
  auto hist = [&](const std::string &only) {
    bool th = c.thorough();
    auto want = [&](const std::string &nm) { return only.empty() || only.compare(0, nm.size() + 1, nm + "/") == 0; };
    // the memory-checked build goes one step less deep
    size_t less = c.mode == "histsan" || c.mode == "entropy", d = (th ? 4 : 3) - less;
    if (want("s3")) Histories(Spin<double, U1QN>("s3", 3, 2), true, (th ? 5 : 4) - less, only);
    if (want("s4c")) Histories(Spin<QLTEN_Complex, U1QN>("s4c", 4, 2), true, d, only);
    if (want("t3c")) Histories(Spin<QLTEN_Complex, TrivialRepQN>("t3c", 3, 2), true, d, only);
    if (want("s2")) Histories(Spin<double, U1QN>("s2", 2, 3), true, (th ? 6 : 5) - less, only);
    if (want("mix")) Histories(Mixed<double, U1QN>("mix"), false, d, only);
  };
  auto init = [&](const std::string &only) {
    auto want = [&](const std::string &nm) { return only.empty() || only.compare(0, nm.size() + 1, nm + "/") == 0; };
    for (size_t n = 2; n <= 4; ++n) if (want("s" + std::to_string(n))) InitAll("s" + std::to_string(n), SiteVec<double, U1QN>(n, SpinIx<U1QN>()), only);
    if (want("s5")) InitAll("s5", SiteVec<double, U1QN>(5, SpinIx<U1QN>()), only);
    if (want("t3")) InitAll("t3", SiteVec<QLTEN_Complex, TrivialRepQN>(3, SpinIx<TrivialRepQN>()), only);
    if (want("h2")) InitAll("h2", SiteVec<double, U1U1QN>(2, sites::HubbardSite<U1U1QN>().phys_bond_out), only);
    if (want("h3")) InitAll("h3", SiteVec<QLTEN_Complex, U1U1QN>(3, sites::HubbardSite<U1U1QN>().phys_bond_out), only);
    if (want("j3")) InitAll("j3", SiteVec<double, U1QN>(3, sites::tJSite<U1QN>().phys_bond_out), only);
    if (want("mix")) InitAll("mix", Mixed<double, U1QN>("mix").sv, only);
  };
  // "entropy" reports only the entropies, "hist" everything else
  auto run = [&](const std::string &only) {
    if (c.mode == "entropy") c.accept = [](const std::string &k) { return k.compare(0, 7, "entropy") == 0; };
    if (c.mode == "hist" || c.mode == "histsan") c.accept = [](const std::string &k) { return k.compare(0, 7, "entropy") != 0; };
    if (c.mode == "init") init(only); else hist(only);
  };
  return mc::main_driver(argc, argv, [&] { run(""); }, run);
}
