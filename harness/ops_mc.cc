// Model sites, operators and coupling helpers against a Fock-space construction
// that applies fermion operators to occupation bit strings.
#include "tn.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using tn::Mat; using tn::cd;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;

// ------------------------------------------------------------- oracle
// A local basis state is a pair (n_up, n_dn); modes are ordered up, down, site by site.
struct Occ { int up, dn; };
using Basis = std::vector<Occ>;                     // local basis in the site's order
struct Fock {
  Basis b; size_t n, d, D;
  Fock(const Basis &b, size_t n) : b(b), n(n), d(b.size()), D(1) { for (size_t i = 0; i < n; ++i) D *= d; }
  std::vector<int> Bits(size_t s) const {
    std::vector<int> v(2 * n);
    for (size_t i = n; i-- > 0;) { v[2 * i] = b[s % d].up; v[2 * i + 1] = b[s % d].dn; s /= d; }
    return v;
  }
  bool Find(const std::vector<int> &v, size_t &s) const {
    s = 0;
    for (size_t i = 0; i < n; ++i) {
      size_t k = 0; while (k < d && !(b[k].up == v[2 * i] && b[k].dn == v[2 * i + 1])) ++k;
      if (k == d) return false;
      s = s * d + k;
    }
    return true;
  }
  // sum over states of the action of a product of mode operators (rightmost first):
  // +m+1 creates in mode m, -(m+1) annihilates.  fermionic = with the sign.
  Mat Modes(const std::vector<int> &prod, bool fermionic = true) const {
    Mat r(D, D);
    for (size_t s = 0; s < D; ++s) {
      auto v = Bits(s); int sign = 1; bool dead = false;
      for (size_t k = prod.size(); k-- > 0 && !dead;) {
        int m = std::abs(prod[k]) - 1, cr = prod[k] > 0;
        if (v[m] == cr) { dead = true; break; }
        if (fermionic) for (int q = 0; q < m; ++q) if (v[q]) sign = -sign;
        v[m] = cr;
      }
      size_t t;
      if (!dead && Find(v, t)) r(t, s) += double(sign);
    }
    return r;
  }
  Mat Diag(const std::function<double(const std::vector<int> &)> &f) const {
    Mat r(D, D); for (size_t s = 0; s < D; ++s) r(s, s) = f(Bits(s)); return r;
  }
  static int C(size_t i, int sp) { return int(2 * i + sp) + 1; }        // creation of spin sp at site i
  static int A(size_t i, int sp) { return -C(i, sp); }
};

#define CK(name, got, want) do { c.transitions++; c.traces_validated++; double d_ = tn::Diff(tn::OpMat(got), want); \
  if (!(d_ < 1e-14)) c.violate(std::string("operator-") + name, id, what + name + ": differs by " + tn::Num(d_)); c.note_distinct(mc::hash_str(id + name)); } while (0)

template<typename Ops, typename Site>
void Common(mc::Ctx &c, const std::string &id, const std::string &what, const Ops &o, const Fock &f, const Site &) {
  auto n = [](const std::vector<int> &v) { return v[0] + v[1]; };
  CK("sz", o.sz, f.Diag([](auto &v) { return 0.5 * (v[0] - v[1]); }));
  CK("sp", o.sp, f.Modes({Fock::C(0, 0), Fock::A(0, 1)}));
  CK("sm", o.sm, f.Modes({Fock::C(0, 1), Fock::A(0, 0)}));
  CK("id", o.id, Mat::Id(f.D));
  (void) n;
}
template<typename Ops>
void Fermi(mc::Ctx &c, const std::string &id, const std::string &what, const Ops &o, const Fock &f) {
  CK("f", o.f, f.Diag([](auto &v) { return (v[0] + v[1]) % 2 ? -1.0 : 1.0; }));
  CK("bupc", o.bupc, f.Modes({Fock::C(0, 0)}, false)); CK("bupa", o.bupa, f.Modes({Fock::A(0, 0)}, false));
  CK("bdnc", o.bdnc, f.Modes({Fock::C(0, 1)}, false)); CK("bdna", o.bdna, f.Modes({Fock::A(0, 1)}, false));
  CK("nf", o.nf, f.Diag([](auto &v) { return double(v[0] + v[1]); }));
  CK("nup", o.nup, f.Diag([](auto &v) { return double(v[0]); })); CK("ndn", o.ndn, f.Diag([](auto &v) { return double(v[1]); }));
}
template<typename E, typename Q, typename Ops>
void Transverse(mc::Ctx &c, const std::string &id, const std::string &what, const Ops &o, const Fock &f) {
  if constexpr (std::is_same_v<Q, TrivialRepQN>) {
    Mat sp = f.Modes({Fock::C(0, 0), Fock::A(0, 1)}), sm = tn::Dagger(sp);
    CK("sx", o.GetSx(), cd(0.5) * (sp + sm));
    if constexpr (std::is_same_v<E, QLTEN_Complex>) CK("sy", o.GetSy(), cd(0, -0.5) * (sp + cd(-1) * sm));
  }
}
// quantum numbers of the labelled states
template<typename Q>
void CheckQN(mc::Ctx &c, const std::string &id, const Index<Q> &ix, const Basis &b) {
  if (ix.GetDir() != OUT) c.violate("site-direction", id, "the outward index does not point outward");
  if (ix.dim() != b.size()) { c.violate("site-dimension", id, "local dimension"); return; }
  for (size_t k = 0; k < b.size(); ++k) {
    Q q = ix.GetQNSctFromActualCoor(k).GetQn(), want;
    if constexpr (std::is_same_v<Q, U1QN>) want = Q(b[k].up - b[k].dn);
    else if constexpr (std::is_same_v<Q, U1U1QN>) want = Q(b[k].up + b[k].dn, b[k].up - b[k].dn);
    if (q != want) c.violate("site-quantum-number", id, "basis state " + std::to_string(k));
    c.transitions++;
  }
}
template<typename Q> Basis SpinBasis() { sites::SpinOneHalfSite<Q> s; Basis b(2); b.at(s.spin_up) = {1, 0}; b.at(s.spin_down) = {0, 1}; return b; }
template<typename Q> Basis TJBasis() { sites::tJSite<Q> s; Basis b(3, Occ{9, 9}); b.at(s.spin_up) = {1, 0}; b.at(s.spin_down) = {0, 1}; b.at(s.empty) = {0, 0}; return b; }
template<typename Q> Basis HubBasis() {
  sites::HubbardSite<Q> s; Basis b(4, Occ{9, 9});
  b.at(s.double_occupancy) = {1, 1}; b.at(s.spin_up) = {1, 0}; b.at(s.spin_down) = {0, 1}; b.at(s.empty) = {0, 0};
  return b;
}
// every way a set of operators comes into being: default, from a site, copied
// (the copy has to survive its origin)
template<typename Ops, typename Site, typename F>
void Ways(const std::string &base, F check) {
  Site site;
  for (int way = 0; way < 3; ++way) {
    std::string id = base + "/" + std::to_string(way);
    tn::Case(id, [&] {
      auto p = std::make_unique<Ops>();
      if (way == 1) p = std::make_unique<Ops>(site);
      if (way == 2) { auto q = std::make_unique<Ops>(*p); p = std::move(q); }
      check(id, *p, way);
      mc::ctx().states++;
    });
  }
}
template<typename E, typename Q>
void SpinOps(const std::string &nm) {
  auto &c = mc::ctx(); Basis b = SpinBasis<Q>(); Fock f(b, 1);
  Ways<SpinOneHalfOperators<E, Q>, sites::SpinOneHalfSite<Q>>("spin/" + nm, [&](const std::string &id, auto &o, int) {
    std::string what = "spin-1/2 "; sites::SpinOneHalfSite<Q> s;
    CheckQN(c, id, s.phys_bond_out, b); if (s.phys_bond_in != InverseIndex(s.phys_bond_out)) c.violate("site-inverse", id, "inward index");
    Common(c, id, what, o, f, s); Transverse<E, Q>(c, id, what, o, f);
  });
}
template<typename E, typename Q>
void TJOps(const std::string &nm) {
  auto &c = mc::ctx(); Basis b = TJBasis<Q>(); Fock f(b, 1);
  Ways<tJOperators<E, Q>, sites::tJSite<Q>>("tJ/" + nm, [&](const std::string &id, auto &o, int) {
    std::string what = "t-J "; sites::tJSite<Q> s;
    CheckQN(c, id, s.phys_bond_out, b); if (s.phys_bond_in != InverseIndex(s.phys_bond_out)) c.violate("site-inverse", id, "inward index");
    Common(c, id, what, o, f, s); Fermi(c, id, what, o, f);
    CK("bdnc_multi_bupa", o.bdnc_multi_bupa, f.Modes({Fock::C(0, 1), Fock::A(0, 0)}, false));
    CK("bupc_multi_bdna", o.bupc_multi_bdna, f.Modes({Fock::C(0, 0), Fock::A(0, 1)}, false));
  });
}
template<typename E, typename Q>
void HubOps(const std::string &nm) {
  auto &c = mc::ctx(); Basis b = HubBasis<Q>(); Fock f(b, 1);
  Ways<HubbardOperators<E, Q>, sites::HubbardSite<Q>>("hubbard/" + nm, [&](const std::string &id, auto &o, int) {
    std::string what = "Hubbard "; sites::HubbardSite<Q> s;
    CheckQN(c, id, s.phys_bond_out, b); if (s.phys_bond_in != InverseIndex(s.phys_bond_out)) c.violate("site-inverse", id, "inward index");
    Common(c, id, what, o, f, s); Fermi(c, id, what, o, f); Transverse<E, Q>(c, id, what, o, f);
    Mat par = f.Diag([](auto &v) { return (v[0] + v[1]) % 2 ? -1.0 : 1.0; });
    auto b1 = [&](int m) { return f.Modes({m}, false); };
    CK("bupcF", o.bupcF, b1(Fock::C(0, 0)) * par); CK("bupaF", o.bupaF, b1(Fock::A(0, 0)) * par);
    CK("Fbdnc", o.Fbdnc, par * b1(Fock::C(0, 1))); CK("Fbdna", o.Fbdna, par * b1(Fock::A(0, 1)));
    CK("cupccdnc", o.cupccdnc, f.Modes({Fock::C(0, 0), Fock::C(0, 1)})); CK("cdnacupa", o.cdnacupa, f.Modes({Fock::A(0, 1), Fock::A(0, 0)}));
    CK("cupccdna", o.cupccdna, f.Modes({Fock::C(0, 0), Fock::A(0, 1)})); CK("cdnccupa", o.cdnccupa, f.Modes({Fock::C(0, 1), Fock::A(0, 0)}));
    CK("nupndn", o.nupndn, f.Diag([](auto &v) { return double(v[0] * v[1]); })); CK("Uterm", o.Uterm, f.Diag([](auto &v) { return double(v[0] * v[1]); }));
    CK("nfsquare", o.nfsquare, f.Diag([](auto &v) { return double((v[0] + v[1]) * (v[0] + v[1])); }));
  });
}

// ---- chains of sites: every sequence of local spaces up to a length, given in either direction; copies, assignments, comparison
template<typename E, typename Q>
void Chains(const std::string &nm, const IndexVec<Q> &loc) {
  auto &c = mc::ctx(); std::vector<std::vector<size_t>> all; size_t k = loc.size();
  for (size_t n = 1; n <= 3; ++n) { size_t t = 1; for (size_t i = 0; i < n; ++i) t *= k; for (size_t x = 0; x < t; ++x) { std::vector<size_t> v; for (size_t i = 0, y = x; i < n; ++i, y /= k) v.push_back(y % k); all.push_back(v); } }
  auto make = [&](const std::vector<size_t> &v, bool in) { IndexVec<Q> s; for (auto x : v) s.push_back(in ? InverseIndex(loc[x]) : loc[x]); return SiteVec<E, Q>(s); };
  auto judge = [&](const std::string &id, const SiteVec<E, Q> &s, const std::vector<size_t> &v) {
    if (s.size != v.size() || s.sites.size() != v.size() || s.id_ops.size() != v.size()) { c.violate("chain-size", id, std::to_string(s.size) + " " + std::to_string(s.sites.size()) + " " + std::to_string(s.id_ops.size())); return; }
    for (size_t i = 0; i < v.size(); ++i) {
      if (s.sites[i] != loc[v[i]]) c.violate("chain-site", id, "site " + std::to_string(i));
      const auto &t = s.id_ops[i]; size_t d = loc[v[i]].dim(); bool ok = t.Rank() == 2 && t.GetShape()[0] == d && t.GetShape()[1] == d;
      if (ok) { const auto &raw = t.Raw(); for (size_t a = 0; a < d; ++a) for (size_t b = 0; b < d; ++b) if (raw[a * d + b] != E(a == b ? 1.0 : 0.0)) ok = false; }
      if (!ok) c.violate("chain-identity", id, "site " + std::to_string(i));
    }
  };
  for (size_t a = 0; a < all.size(); ++a) for (size_t b = 0; b < all.size(); ++b) {
    std::string id = "chain/" + nm + "/" + std::to_string(a) + "." + std::to_string(b);
    tn::Case(id, [&] {
      auto x = make(all[a], a % 2), y = make(all[b], false); judge(id, x, all[a]);
      bool same = all[a] == all[b]; if ((x == y) != same || (x != y) == same) c.violate("chain-equality", id, "");
      SiteVec<E, Q> z(x); judge(id, z, all[a]); if (!(z == x)) c.violate("chain-copy", id, ""); z = y; judge(id, z, all[b]); judge(id, x, all[a]); if (!(z == y)) c.violate("chain-assign", id, "");
      auto &r = z; z = r; judge(id, z, all[b]);
      if (all[a].size() == 1) { SiteVec<E, Q> u(b % 5 + 1, loc[all[a][0]]); judge(id, u, std::vector<size_t>(b % 5 + 1, all[a][0])); }
      c.states++; c.transitions += 5; c.note_distinct(mc::hash_str(id)); });
  }
}

// ------------------------------------------------------------- couplings
template<typename E, typename Q>
void JudgeMpo(const std::string &id, MPOGenerator<E, Q> &g, const Mat &want) {
  auto &c = mc::ctx();
  auto mpo = g.Gen(); double d = tn::Diff(tn::DenseMpo(mpo), want);
  c.traces_validated++; c.states++; c.note_distinct(mc::hash_str(id));
  if (!(d < 1e-12 * std::max(1.0, tn::MaxAbs(want.a)))) c.violate("wrong-hamiltonian-" + id.substr(0, id.find('/')), id, "differs by " + tn::Num(d));
  if (!(tn::Diff(want, tn::Dagger(want)) < 1e-13)) c.violate("oracle", id, "the expected operator is not Hermitian");
}
// sequences of (kind, i, j, amplitude)
struct Cpl { int kind; size_t i, j; double re, im; };
template<typename E, typename Q, typename Ops>
void RunCpl(const std::string &id, const Basis &b, const Index<Q> &ix, size_t n, const std::vector<Cpl> &seq, int model) {
  tn::Case(id, [&] {
    Fock f(b, n); SiteVec<E, Q> sv(n, ix); MPOGenerator<E, Q> g(sv, Q()); Ops o; Mat want(f.D, f.D);
    for (auto &k : seq) {
      mc::ctx().transitions++;
      if (k.kind == 0) {
        AddHeisenbergCoupling<E, Q, Ops>(g, k.re, k.i, k.j, o);
        auto sp = [&](size_t a) { return f.Modes({Fock::C(a, 0), Fock::A(a, 1)}); };
        auto sz = [&](size_t a) { return f.Diag([a](auto &v) { return 0.5 * (v[2 * a] - v[2 * a + 1]); }); };
        want = want + cd(k.re) * (sz(k.i) * sz(k.j) + cd(0.5) * (sp(k.i) * tn::Dagger(sp(k.j)) + tn::Dagger(sp(k.i)) * sp(k.j)));
      } else {
        cd t(k.re, k.im);
        if constexpr (std::is_same_v<Ops, HubbardOperators<E, Q>>) AddHubbardHoppingTerms<E, Q>(g, k.re, k.i, k.j, o);
        else if constexpr (std::is_same_v<Ops, tJOperators<E, Q>>) {
          if constexpr (std::is_same_v<E, QLTEN_Complex>) AddTJHoppingTerms<E, Q>(g, t, k.i, k.j, o); else AddTJHoppingTerms<E, Q>(g, k.re, k.i, k.j, o);
        }
        for (int s = 0; s < 2; ++s) {
          Mat h = f.Modes({Fock::C(k.i, s), Fock::A(k.j, s)});
          want = want + cd(-1) * t * h + cd(-1) * std::conj(t) * tn::Dagger(h);
        }
      }
    }
    (void) model;
    JudgeMpo(id, g, want);
  });
}
template<typename E, typename Q, typename Ops>
void Couple(const std::string &nm, const Basis &b, const Index<Q> &ix, size_t nmin, size_t nmax, bool hop, size_t depth, const std::string &only) {
  auto &c = mc::ctx();
  for (size_t n = nmin; n <= nmax; ++n) {
    std::vector<Cpl> pool;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) {
      pool.push_back({0, i, j, 1.0, 0}); pool.push_back({0, i, j, -0.3, 0});
      if (hop) {
        pool.push_back({1, i, j, 1.0, 0}); pool.push_back({1, i, j, -0.7, 0});
        if (std::is_same_v<E, QLTEN_Complex> && !std::is_same_v<Ops, HubbardOperators<E, Q>>) { pool.push_back({1, i, j, 0.6, 0.8}); pool.push_back({1, i, j, 0, -1}); }
      }
    }
    std::vector<Cpl> seq; std::vector<size_t> num;
    std::string base = nm + "/n" + std::to_string(n) + "/";
    std::function<void()> rec = [&] {
      if (!seq.empty()) {
        std::string id = base; for (auto k : num) id += std::to_string(k) + ".";
        if (only.empty() ? c.mine() : only == id) RunCpl<E, Q, Ops>(id, b, ix, n, seq, 0);
      }
      if (seq.size() == depth) return;
      for (size_t k = 0; k < pool.size(); ++k) { seq.push_back(pool[k]); num.push_back(k); rec(); seq.pop_back(); num.pop_back(); }
    };
    rec();
    if (hop) for (size_t i = 0; i < n; ++i) if constexpr (std::is_same_v<Ops, tJOperators<E, Q>>) {      // a hop from a site to itself is refused
      std::string id = base + "self" + std::to_string(i); if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] { SiteVec<E, Q> sv(n, ix); MPOGenerator<E, Q> g(sv, Q()); Ops o; bool threw = false; try { AddTJHoppingTerms<E, Q>(g, E(1), i, i, o); } catch (std::exception &) { threw = true; } if (!threw) c.violate("self-hopping-accepted", id, ""); c.states++; });
    }
    c.info[base] = std::to_string(pool.size()) + " couplings, sequences up to " + std::to_string(depth);
  }
}
int main(int argc, char **argv) {
  mc::mute_all();
  auto &c = mc::ctx();
  auto ops = [&] {
    SpinOps<double, U1QN>("U1"); SpinOps<double, TrivialRepQN>("none"); SpinOps<QLTEN_Complex, U1QN>("U1c"); SpinOps<QLTEN_Complex, TrivialRepQN>("nonec");
    TJOps<double, U1QN>("U1"); TJOps<double, U1U1QN>("U1U1"); TJOps<double, TrivialRepQN>("none");
    TJOps<QLTEN_Complex, U1QN>("U1c"); TJOps<QLTEN_Complex, U1U1QN>("U1U1c"); TJOps<QLTEN_Complex, TrivialRepQN>("nonec");
    HubOps<double, U1QN>("U1"); HubOps<double, U1U1QN>("U1U1"); HubOps<double, TrivialRepQN>("none");
    HubOps<QLTEN_Complex, U1QN>("U1c"); HubOps<QLTEN_Complex, U1U1QN>("U1U1c"); HubOps<QLTEN_Complex, TrivialRepQN>("nonec");
    Index<U1QN> one({QNSector<U1QN>(U1QN(2), 1), QNSector<U1QN>(U1QN(0), 2)}, OUT);
    Chains<double, U1QN>("U1", {sites::SpinOneHalfSite<U1QN>().phys_bond_out, one, sites::tJSite<U1QN>().phys_bond_out});
    Chains<QLTEN_Complex, U1U1QN>("U1U1c", {sites::tJSite<U1U1QN>().phys_bond_out, sites::HubbardSite<U1U1QN>().phys_bond_out});
    c.sample("hubbard/U1U1/2: every operator of a copied operator set");
  };
  auto cpl = [&](const std::string &only) {
    bool th = c.thorough(); size_t d = th ? 3 : 2;
    Couple<double, U1QN, SpinOneHalfOperators<double, U1QN>>("spinU1", SpinBasis<U1QN>(), sites::SpinOneHalfSite<U1QN>().phys_bond_out, 2, 4, false, d, only);
    Couple<QLTEN_Complex, TrivialRepQN, SpinOneHalfOperators<QLTEN_Complex, TrivialRepQN>>("spin", SpinBasis<TrivialRepQN>(), sites::SpinOneHalfSite<TrivialRepQN>().phys_bond_out, 2, 4, false, d, only);
    Couple<QLTEN_Complex, U1U1QN, tJOperators<QLTEN_Complex, U1U1QN>>("tJU1U1", TJBasis<U1U1QN>(), sites::tJSite<U1U1QN>().phys_bond_out, 2, 3, true, d, only);
    Couple<double, U1QN, tJOperators<double, U1QN>>("tJU1", TJBasis<U1QN>(), sites::tJSite<U1QN>().phys_bond_out, 2, 3, true, d, only);
    Couple<QLTEN_Complex, TrivialRepQN, tJOperators<QLTEN_Complex, TrivialRepQN>>("tJ", TJBasis<TrivialRepQN>(), sites::tJSite<TrivialRepQN>().phys_bond_out, 4, 4, true, 1, only);
    Couple<double, U1U1QN, HubbardOperators<double, U1U1QN>>("hubU1U1", HubBasis<U1U1QN>(), sites::HubbardSite<U1U1QN>().phys_bond_out, 2, 3, true, d, only);
    Couple<QLTEN_Complex, U1QN, HubbardOperators<QLTEN_Complex, U1QN>>("hubU1", HubBasis<U1QN>(), sites::HubbardSite<U1QN>().phys_bond_out, 2, 3, true, d > 2 ? 2 : d, only);
    Couple<double, TrivialRepQN, HubbardOperators<double, TrivialRepQN>>("hub", HubBasis<TrivialRepQN>(), sites::HubbardSite<TrivialRepQN>().phys_bond_out, 2, 4, true, 1, only);
  };
  return mc::main_driver(argc, argv, [&] { if (c.mode == "ops") { if (c.shard == 0) ops(); } else cpl(""); },
                         [&](const std::string &s) { if (c.mode == "ops") ops(); else cpl(s); });
}
